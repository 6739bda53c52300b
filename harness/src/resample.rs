//! complete resampling runs with recorded cells
use std::sync::{Arc, Mutex};

use cres::cell::Cell;
use cres::event::Event;
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::resampler::ResamplerBuilder;
use cres::seeds::{SelectSeeds, StrategicSelector, Strategy};
use cres::traits::{ObserveCell, Resample};
use rayon::prelude::*;
use serde_json::{json, Value};

use crate::util::*;

pub fn strategy(v: &Value) -> Strategy {
    match v.as_str().unwrap_or("default") {
        "next" => Strategy::Next,
        "most" => Strategy::MostNegative,
        "least" => Strategy::LeastNegative,
        "default" => Strategy::default(),
        s => panic!("unknown strategy {s}"),
    }
}

/// {w, strategy}: the proposed seeds, in order
pub fn seeds(c: &Value) -> Value {
    let events = weighted_events(&c["w"]);
    let threads = c["threads"].as_u64().unwrap_or(2) as usize;
    let s = if c["strategy"] == "default" {
        StrategicSelector::default()
    } else {
        StrategicSelector::new(strategy(&c["strategy"]))
    };
    let r: Vec<usize> = pool(threads).install(|| s.select_seeds(&events).collect());
    json!({ "seeds": r })
}

#[derive(Clone)]
pub enum Seeds {
    Strategic(StrategicSelector),
    List(Vec<usize>),
}

impl SelectSeeds for Seeds {
    type ParallelIter = rayon::iter::MaxLen<rayon::vec::IntoIter<usize>>;
    fn select_seeds(&self, events: &[Event]) -> Self::ParallelIter {
        match self {
            Seeds::Strategic(s) => s.select_seeds(events),
            Seeds::List(l) => l.clone().into_par_iter().with_max_len(1),
        }
    }
}

#[derive(Clone, Default)]
pub struct Recorder {
    pub cells: Arc<Mutex<Vec<Value>>>,
    pub finished: Arc<Mutex<usize>>,
    pub snapshot: bool,
}

impl ObserveCell for Recorder {
    fn observe_cell(&self, cell: &Cell) {
        let m: Vec<usize> = cell.iter().map(|e| e.id()).collect();
        let mut v = json!({
            "m": m, "n": cell.nmembers(), "r": numd(cell.radius().into()), "s": numw(cell.weight_sum().into()),
            "neg": cell.nneg_weights(),
        });
        if self.snapshot {
            v["w"] = cell
                .iter()
                .map(|e| weights_of(e).iter().map(|w| num(*w)).collect::<Vec<_>>())
                .collect();
        }
        self.cells.lock().unwrap().push(v);
    }
    fn finish(&mut self) {
        *self.finished.lock().unwrap() += 1;
    }
}

/// {w, d | x, search, strategy | seeds, max, threads, scale}
pub fn resample(c: &Value) -> Value {
    let dist = Dist::parse(c);
    let events = weighted_events(&c["w"]);
    let sel = if c["seeds"].is_array() {
        Seeds::List(ints(&c["seeds"]))
    } else {
        Seeds::Strategic(StrategicSelector::new(strategy(&c["strategy"])))
    };
    let max = if c["max"] == "none" { None } else { Some(fld(&c["max"])) };
    let rec = Recorder { snapshot: c["snapshot"].as_bool().unwrap_or(false), ..Default::default() };
    let builder = ResamplerBuilder::default()
        .seeds(sel)
        .distance(dist)
        .observer(rec.clone())
        .max_cell_size(max);
    let events = pool(us(&c["threads"])).install(|| match c["search"].as_str().unwrap() {
        "tree" => builder.neighbour_search::<TreeSearch>().build().resample(events).unwrap(),
        "naive" => builder.neighbour_search::<NaiveNeighbourSearch>().build().resample(events).unwrap(),
        s => panic!("unknown search {s}"),
    });
    let cells = rec.cells.lock().unwrap().clone();
    let finished = *rec.finished.lock().unwrap();
    let mut res = json!({
        "cells": cells,
        "finished": finished,
        "ids": events.iter().map(|e| e.id()).collect::<Vec<_>>(),
        "w": events.iter().map(|e| weights_of(e).iter().map(|w| num(*w)).collect::<Vec<_>>()).collect::<Vec<_>>(),
    });
    if !c["scale"].is_null() {
        let scale = fl(&c["scale"]);
        res["fx"] = events
            .iter()
            .map(|e| weights_of(e).iter().map(|w| (w * scale).round() as i64).collect::<Vec<_>>())
            .collect();
        // sums as the same fixed-point numbers, accumulated exactly rounded
        let nw = weights_of(&events[0]).len();
        res["sum"] = (0..nw)
            .map(|k| (events.iter().map(|e| weights_of(e)[k]).sum::<f64>() * scale).round() as i64)
            .collect();
        // change of the sums in units of the expected rounding errors
        res["drift"] = (0..nw)
            .map(|k| {
                let before: Vec<f64> = c["w"].as_array().unwrap().iter().map(|w| fl(if w.is_array() { &w[k] } else { w })).collect();
                let after: f64 = events.iter().map(|e| weights_of(e)[k]).sum();
                let d = (after - before.iter().sum::<f64>()).abs();
                let unit = before.iter().map(|w| w.abs()).sum::<f64>() * f64::EPSILON * before.len() as f64;
                if d == 0. { 0 } else { (d / unit).ceil().min(1e9) as i64 }
            })
            .collect();
        res["neg"] = events.iter().filter(|e| (weights_of(e)[0] * scale).round() < 0.).count().into();
    }
    res
}
