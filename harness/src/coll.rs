//! cell collections
use std::cell::RefCell;
use std::rc::Rc;

use cres::cell::Cell;
use cres::cell_collector::CellCollector;
use cres::event::Event;
use cres::n64;
use cres::neighbour_search::NeighbourSearch;
use cres::resampler::DefaultResamplerBuilder;
use cres::traits::Resample;
use cres::N64;
use rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;
use serde_json::{json, Value};

use crate::util::*;

/// enough members for the requested cell, the last one at the given distance
#[derive(Clone)]
struct Fake {
    members: Vec<usize>,
    radius: f64,
}

impl NeighbourSearch for Fake {
    type Iter = std::vec::IntoIter<(usize, N64)>;
    fn nearest(self, _: &usize) -> Self::Iter {
        let r = self.radius;
        self.members.into_iter().map(|m| (m, n64(r))).collect::<Vec<_>>().into_iter()
    }
}

/// {cells: [[size, radius, weight]...], n, prog: [[0, i, k] | [1, i, j]...], seed}
/// Collection i is shown cell k, or collection j is merged into collection i.
/// The events of cell k have the ids 1000 k + 1 ... 1000 k + size.
pub fn coll(c: &Value) -> Value {
    let cells = c["cells"].as_array().unwrap();
    let mut rng = Xoshiro256Plus::seed_from_u64(us(&c["seed"]) as u64);
    let mut cols: Vec<Option<CellCollector>> = (0..us(&c["n"]))
        .map(|k| Some(if k % 2 == 0 { CellCollector::new() } else { CellCollector::default() }))
        .collect();
    for op in c["prog"].as_array().unwrap() {
        let op = ints(op);
        if op[0] == 1 {
            let b = cols[op[2]].take().unwrap();
            let a = cols[op[1]].take().unwrap();
            cols[op[1]] = Some(a.combine(b, &mut rng));
            continue;
        }
        let (col, k) = (cols[op[1]].as_mut().unwrap(), op[2]);
        let (size, r, w) = (us(&cells[k][0]), fl(&cells[k][1]), fl(&cells[k][2]));
        // the accumulated weight is negative until the last member
        let events: Vec<Event> = (0..size)
            .map(|i| {
                let x = if size == 1 {
                    w
                } else if i == 0 {
                    -1e6
                } else if i + 1 == size {
                    w + 1e6
                } else {
                    0.
                };
                event(&[x], &Value::Null, 1000 * k + 1 + i)
            })
            .collect();
        let cell = Cell::new(&events, 0, Fake { members: (1..size).collect(), radius: r });
        col.collect(&cell, &mut rng);
    }
    let kept: Vec<_> = cols.iter().map(|c| c.as_ref().map(kept)).collect();
    json!({ "kept": kept })
}

/// retained cells: number of cell -> event ids
fn kept(c: &CellCollector) -> Value {
    use std::collections::BTreeMap;
    let mut m: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (ev, cells) in c.event_cells() {
        for c in cells {
            m.entry(c).or_default().push(ev)
        }
    }
    let r: Vec<_> = m
        .into_iter()
        .map(|(k, mut v)| {
            v.sort();
            v.dedup();
            json!({"c": k, "ev": v})
        })
        .collect();
    json!(r)
}

/// {runs: [{w, x, id}...], max, search}: default resampler with a collector, used
/// for several samples; events have one particle each, at the given coordinate,
/// and the ids id, id + 1, ...
pub fn obs(c: &Value) -> Value {
    use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
    let col = Rc::new(RefCell::new(CellCollector::new()));
    let max = if c["max"] == "none" { None } else { Some(fl(&c["max"])) };
    let b = DefaultResamplerBuilder::default()
        .max_cell_size(max)
        .cell_collector(Some(col.clone()));
    let mut r: Box<dyn FnMut(Vec<Event>) -> Vec<Event>> = if c["search"] == "naive" {
        let mut r = b.neighbour_search::<NaiveNeighbourSearch>().build();
        Box::new(move |e| r.resample(e).unwrap())
    } else {
        let mut r = b.neighbour_search::<TreeSearch>().build();
        Box::new(move |e| r.resample(e).unwrap())
    };
    let mut all = vec![];
    let mut w = vec![];
    for run in c["runs"].as_array().unwrap() {
        let id = us(&run["id"]);
        let events: Vec<Event> = run["w"]
            .as_array()
            .unwrap()
            .iter()
            .zip(run["x"].as_array().unwrap())
            .enumerate()
            .map(|(i, (w, x))| event(&[fl(w)], &json!([[11, 0., 0., 0., fl(x)]]), id + i))
            .collect();
        let evs = r(events);
        w.push(evs.iter().map(|e| num(f64::from(e.weight()))).collect::<Vec<_>>());
        all.push(kept(&col.borrow()));
    }
    json!({ "kept": all, "w": w })
}
