//! partitions
use cres::cluster::DefaultClustering;
use cres::n64;
use cres::distance::EuclWithScaledPt;
use cres::event::Event;
use cres::io::{Converter, FileReader};
use cres::partition::{VPBisection, VPTreePartition};
use cres::traits::{Clustering, TryConvert};
use cres::vptree::VPTree;
use rayon::prelude::*;
use serde_json::{json, Value};

use crate::kin::clustering;
use crate::util::*;

/// {d | x, depth, sample: n (points 0..n), par}: the partition built from the first
/// `sample` points, and the region of every point
pub fn part(c: &Value) -> Value {
    let dist = Dist::parse(c);
    let n = dist.len();
    let sample = us(&c["sample"]);
    let depth = us(&c["depth"]);
    let tree = pool(2).install(|| {
        if c["par"].as_bool().unwrap() {
            VPTree::from_par_iter_with_dist_and_depth((0..sample).into_par_iter(), dist, depth)
        } else {
            VPTree::from_iter_with_dist_and_depth(0..sample, dist, depth)
        }
    });
    let p = VPTreePartition::from(tree);
    let regions: Vec<usize> = (0..n).map(|i| p.region(&i)).collect();
    let len = p.len();
    let vp: Vec<_> = p
        .into_tree()
        .into_iter()
        .map(|VPBisection { pt, r }| json!([pt, numd(r.into())]))
        .collect();
    json!({"regions": regions, "n": len, "vp": vp})
}

/// {partition, files, jet, lep?, pho?, nu, tau}: the vantage points in a partition
/// file, and the distances of all events from them. The events and distances are
/// calculated with the given settings, not with those in the partition file.
/// Distances are represented by their ranks.
pub fn partfile(c: &Value) -> Value {
    use cres::traits::Distance;
    type PartInfo = (DefaultClustering, VPTreePartition<Event, EuclWithScaledPt>);
    let f = std::fs::File::open(c["partition"].as_str().unwrap()).unwrap();
    let r = audec::auto_decompress(std::io::BufReader::new(f));
    let (_, p): PartInfo = match serde_yaml::from_reader(r) {
        Ok(p) => p,
        Err(e) => return json!({"err": e.to_string()}),
    };
    let cl = clustering(c);
    let dist = EuclWithScaledPt::new(n64(fl(&c["tau"])));
    let conv = Converter::new();
    let mut evs = vec![];
    for f in strs(&c["files"]) {
        for r in FileReader::try_new(f.into()).unwrap() {
            let e: Event = conv.try_convert(r.unwrap()).unwrap();
            evs.push(cl.cluster(e).unwrap());
        }
    }
    let n = p.len();
    let mut used = std::collections::HashSet::new();
    let (mut vp, mut ranks) = (vec![], vec![]);
    for VPBisection { pt, r } in p.into_tree() {
        let mut objs = vec![];
        for (pid, ps) in pt.outgoing() {
            for p in ps.iter() {
                let mut v = vec![json!(pid.id())];
                v.extend((0..4).map(|i| num(p[i].into())));
                objs.push(v)
            }
        }
        let same = |neg: bool| {
            (0..evs.len()).find(|i| {
                !used.contains(i) && evs[*i].outgoing() == pt.outgoing() && neg == (evs[*i].weight() < 0.)
            })
        };
        let idx = same(true).or_else(|| same(false));
        if let Some(i) = idx {
            used.insert(i);
        }
        vp.push(json!({"objs": objs, "r": num(r.into()), "pt": idx}));
        let mut d: Vec<f64> = evs.iter().map(|e| dist.distance(&pt, e).into()).collect();
        d.push(r.into());
        let mut all = d.clone();
        all.sort_by(|a, b| a.partial_cmp(b).unwrap());
        all.dedup();
        ranks.push(d.iter().map(|x| all.iter().position(|y| x == y).unwrap()).collect::<Vec<_>>());
    }
    json!({"n": n, "vp": vp, "ranks": ranks, "err": ""})
}
