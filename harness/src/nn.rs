//! nearest-neighbour searches
use cres::n64;
use cres::neighbour_search::*;
use cres::vptree::VPTree;
use rayon::prelude::*;
use serde_json::{json, Value};

use crate::util::*;

/// {n | d | x, limit, build, threads, q: [[point, take], ...]}
/// All queries are made on the same structure, in the given order; with
/// "interleave" all iterators are advanced in turn.
pub fn nn(c: &Value) -> Value {
    let dist = Dist::parse(c);
    let n = dist.len();
    let limit = n64(fld(&c["limit"]));
    let pool = pool(c["threads"].as_u64().unwrap_or(2) as usize);
    let q: Vec<(usize, usize)> =
        c["q"].as_array().unwrap().iter().map(|q| (us(&q[0]), us(&q[1]))).collect();
    let inter = c["interleave"].as_bool().unwrap_or(false);
    pool.install(|| match c["build"].as_str().unwrap() {
        "tree" => run(&TreeSearch::new_with_dist(n, dist, limit), &q, inter),
        "naive" => run(&NaiveNeighbourSearch::new_with_dist(n, dist, limit), &q, inter),
        "seq" => run(&VPTree::seq_new((0..n).collect(), dist).with_max_dist(limit), &q, inter),
        "par" => run(&VPTree::par_new((0..n).collect(), dist).with_max_dist(limit), &q, inter),
        "new" => run(&VPTree::new((0..n).collect(), dist).with_max_dist(limit), &q, inter),
        "seqdepth" => run(
            &VPTree::from_iter_with_dist_and_depth(0..n, dist, us(&c["depth"])).with_max_dist(limit),
            &q,
            inter,
        ),
        "pardepth" => run(
            &VPTree::from_par_iter_with_dist_and_depth(
                (0..n).into_par_iter(),
                dist,
                us(&c["depth"]),
            )
            .with_max_dist(limit),
            &q,
            inter,
        ),
        b => panic!("unknown build {b}"),
    })
}

fn run<N>(s: N, q: &[(usize, usize)], interleave: bool) -> Value
where
    N: NeighbourSearch + Copy,
    N::Iter: Iterator<Item = (usize, cres::N64)>,
{
    let item = |(i, d): (usize, cres::N64)| json!([i, numd(d.into())]);
    if interleave {
        let mut its: Vec<_> = q.iter().map(|(p, t)| (s.nearest(p), *t, vec![])).collect();
        loop {
            let mut any = false;
            for (it, t, res) in &mut its {
                if res.len() < *t {
                    if let Some(x) = it.next() {
                        res.push(item(x));
                        any = true
                    }
                }
            }
            if !any {
                break;
            }
        }
        json!({"res": its.into_iter().map(|x| x.2).collect::<Vec<_>>()})
    } else {
        let res: Vec<Vec<Value>> = q
            .iter()
            .map(|(p, take)| s.nearest(p).take(*take).map(item).collect())
            .collect();
        json!({ "res": res })
    }
}
