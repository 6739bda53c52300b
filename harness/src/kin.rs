//! distances and clustering
use cres::cluster::*;
use cres::distance::EuclWithScaledPt;
use cres::n64;
use cres::traits::{Clustering, Distance};
use serde_json::{json, Value};

use crate::util::*;

/// {tau, ev: [[particles]...], pairs: [[i, j]...]}: distances rounded to the
/// given scale, and exactly as text
pub fn dist(c: &Value) -> Value {
    let d = EuclWithScaledPt::new(n64(fl(&c["tau"])));
    let scale = fl(&c["scale"]);
    let evs: Vec<_> = c["ev"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, e)| {
            let w: Vec<f64> = c["w"][i].as_array().map(|w| w.iter().map(fl).collect()).unwrap_or(vec![1.]);
            event(&w, e, i)
        })
        .collect();
    let mut res = vec![];
    let mut txt = vec![];
    for p in c["pairs"].as_array().unwrap() {
        let x = undo_d(d.distance(&evs[us(&p[0])], &evs[us(&p[1])]).into());
        res.push((x * scale).round() as i64);
        txt.push(format!("{x}"));
    }
    json!({"res": res, "txt": txt})
}

pub fn jet_def(v: &Value) -> JetDefinition {
    JetDefinition {
        algorithm: v[0].as_str().unwrap().parse().unwrap(),
        radius: fl(&v[1]),
        min_pt: fld(&v[2]),
    }
}

pub fn clustering(c: &Value) -> DefaultClustering {
    let mut cl = DefaultClustering::new(jet_def(&c["jet"]))
        .include_neutrinos(c["nu"].as_bool().unwrap_or(false));
    if c["lep"].is_array() {
        cl = cl.with_lepton_def(jet_def(&c["lep"]))
    }
    if c["pho"].is_array() {
        cl = cl.with_photon_def(PhotonDefinition {
            min_e_fraction: fl(&c["pho"][0]),
            radius: fl(&c["pho"][1]),
            min_pt: fld(&c["pho"][2]),
        })
    }
    cl
}

/// {jet, lep?, pho?, nu, ev, w, id, scale}
pub fn clus(c: &Value) -> Value {
    let cl = clustering(c);
    let w: Vec<f64> = c["w"].as_array().unwrap().iter().map(fl).collect();
    let scale = fl(&c["scale"]);
    let ev = event(&w, &c["ev"], us(&c["id"]));
    let res = cl.cluster(ev).unwrap();
    let mut out = vec![];
    for (pid, ps) in res.outgoing() {
        for p in ps.iter() {
            let mut v = vec![pid.id() as i64];
            for i in 0..4 {
                v.push((undo_d(f64::from(p[i])) * scale).round() as i64)
            }
            out.push(v)
        }
    }
    let w: Vec<_> = weights_of(&res).iter().map(|w| num(*w)).collect();
    json!({"out": out, "w": w, "id": res.id()})
}
