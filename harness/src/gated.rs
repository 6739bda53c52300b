//! Resampling under a controlled schedule: worker threads stop at gates (when a
//! seed is drawn, when a neighbour search starts, before each neighbour is
//! handed out) and one thread is released at a time, in the order of the schedule.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

use cres::cell::Cell;
use cres::event::Event;
use cres::neighbour_search::{NeighbourSearch, NeighbourSearchAlgo};
use cres::resampler::ResamplerBuilder;
use cres::traits::{Distance, ObserveCell, Resample, SelectSeeds};
use cres::{n64, N64};
use rayon::prelude::*;
use serde_json::{json, Value};

use crate::util::*;

#[derive(Default)]
struct Sched {
    /// gates at which threads wait: thread number -> label
    waiting: BTreeMap<usize, String>,
    granted: Option<usize>,
    /// labels of the gates passed and cells seen in the current step
    cells: Vec<Value>,
    events: (usize, usize),
    active: bool,
    finished: bool,
    arrivals: usize,
}

struct Ctl {
    m: Mutex<Sched>,
    cv: Condvar,
}

static CTL: OnceLock<Mutex<Option<Arc<Ctl>>>> = OnceLock::new();

fn ctl() -> Arc<Ctl> {
    CTL.get().unwrap().lock().unwrap().clone().unwrap()
}

fn gate(label: String) {
    let me = rayon::current_thread_index().unwrap_or(999);
    let c = ctl();
    let mut s = c.m.lock().unwrap();
    s.waiting.insert(me, label);
    s.arrivals += 1;
    c.cv.notify_all();
    while s.granted != Some(me) && s.active {
        s = c.cv.wait(s).unwrap();
    }
    s.waiting.remove(&me);
    s.granted = None;
    c.cv.notify_all();
}

struct GatedSeeds(Vec<usize>);

type GateFn = fn(usize) -> usize;

fn draw(seed: usize) -> usize {
    gate(format!("seed {seed}"));
    seed
}

impl SelectSeeds for GatedSeeds {
    type ParallelIter = rayon::iter::Map<rayon::iter::MaxLen<rayon::vec::IntoIter<usize>>, GateFn>;
    fn select_seeds(&self, events: &[Event]) -> Self::ParallelIter {
        let c = ctl();
        let mut s = c.m.lock().unwrap();
        s.events = (events.as_ptr() as usize, events.len());
        self.0.clone().into_par_iter().with_max_len(1).map(draw as GateFn)
    }
}

struct GatedSearch {}
struct GatedData<D> {
    n: usize,
    d: D,
    max: N64,
}
struct GatedIter {
    seed: usize,
    todo: std::vec::IntoIter<(usize, N64)>,
}

impl NeighbourSearchAlgo for GatedSearch {
    type Output<D> = GatedData<D>;
    fn new_with_dist<D: Distance<usize> + Send + Sync>(n: usize, d: D, max: N64) -> GatedData<D> {
        GatedData { n, d, max }
    }
}

impl<D: Distance<usize>> NeighbourSearch for &GatedData<D> {
    type Iter = GatedIter;
    fn nearest(self, p: &usize) -> GatedIter {
        gate(format!("search {p}"));
        let mut v: Vec<_> = (0..self.n)
            .filter(|i| i != p)
            .map(|i| (i, self.d.distance(&i, p)))
            .filter(|x| x.1 <= self.max)
            .collect();
        v.sort_by_key(|x| (x.1, x.0));
        GatedIter { seed: *p, todo: v.into_iter() }
    }
}

impl Iterator for GatedIter {
    type Item = (usize, N64);
    fn next(&mut self) -> Option<Self::Item> {
        gate(format!("next {}", self.seed));
        self.todo.next()
    }
}

struct GatedObserver;

impl ObserveCell for GatedObserver {
    fn observe_cell(&self, cell: &Cell) {
        let c = ctl();
        let mut s = c.m.lock().unwrap();
        s.cells.push(json!({
            "m": cell.iter().map(|e| e.id()).collect::<Vec<_>>(),
            "r": numd(cell.radius().into()),
            "s": numw(cell.weight_sum().into()),
        }));
    }
}

/// {w, d, seeds, max, threads, schedule: [choice, ...], steps}
/// The k-th entry of the schedule selects among the waiting threads; the
/// schedule is continued with 0 when it is exhausted.
pub fn gated(c: &Value) -> Value {
    static STUCK: AtomicUsize = AtomicUsize::new(0);
    if STUCK.load(Ordering::Relaxed) > 1 {
        return json!({"crash": "skipped, others are stuck already"});
    }
    let dist = Dist::parse(c);
    let events = weighted_events(&c["w"]);
    let n = events.len();
    let seeds = ints(&c["seeds"]);
    let max = if c["max"] == "none" { None } else { Some(fld(&c["max"])) };
    let threads = us(&c["threads"]);
    let schedule: Vec<Value> = c["schedule"].as_array().unwrap().clone();
    let nseeds = seeds.len();
    let ctlr = Arc::new(Ctl {
        m: Mutex::new(Sched { active: true, ..Default::default() }),
        cv: Condvar::new(),
    });
    *CTL.get_or_init(|| Mutex::new(None)).lock().unwrap() = Some(ctlr.clone());
    let runner = {
        let ctlr = ctlr.clone();
        std::thread::spawn(move || {
            let p = pool(threads);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                p.install(|| {
                    ResamplerBuilder::default()
                        .seeds(GatedSeeds(seeds))
                        .distance(dist)
                        .observer(GatedObserver)
                        .max_cell_size(max)
                        .neighbour_search::<GatedSearch>()
                        .build()
                        .resample(events)
                        .unwrap()
                })
            }));
            ctlr.m.lock().unwrap().finished = true;
            ctlr.cv.notify_all();
            r
        })
    };
    let quiet = Duration::from_millis(us(&c["quiet_ms"]).max(1) as u64);
    let deadline = Instant::now() + Duration::from_secs(8);
    let mut steps = vec![];
    let mut pos = 0;
    let mut stuck = false;
    let mut s = ctlr.m.lock().unwrap();
    // let the workers draw their first seeds
    let mut settle = threads.min(nseeds);
    loop {
        // wait until everybody who can arrives
        let t0 = Instant::now();
        while !s.finished && s.waiting.len() < settle && t0.elapsed() < quiet {
            s = ctlr.cv.wait_timeout(s, Duration::from_millis(2)).unwrap().0;
        }
        if s.finished {
            break;
        }
        if s.waiting.is_empty() {
            if Instant::now() > deadline {
                stuck = true;
                break;
            }
            s = ctlr.cv.wait_timeout(s, Duration::from_millis(2)).unwrap().0;
            continue;
        }
        let who: Vec<(usize, String)> = s.waiting.iter().map(|(k, v)| (*k, v.clone())).collect();
        // a schedule entry is either a position or the seed whose thread is to run next
        let pick = match schedule.get(pos) {
            Some(Value::String(seed)) => who
                .iter()
                .position(|w| w.1.split(' ').nth(1) == Some(seed.as_str()))
                .unwrap_or(0),
            Some(v) => us(v) % who.len(),
            None => 0,
        };
        let (th, label) = who[pick].clone();
        pos += 1;
        s.granted = Some(th);
        ctlr.cv.notify_all();
        // the thread leaves its gate ...
        while s.granted.is_some() {
            s = ctlr.cv.wait_timeout(s, Duration::from_millis(2)).unwrap().0;
        }
        // ... and runs until it reaches the next one, ends, or blocks
        let before = s.arrivals;
        let t0 = Instant::now();
        while s.arrivals == before && !s.finished && t0.elapsed() < quiet {
            s = ctlr.cv.wait_timeout(s, Duration::from_millis(2)).unwrap().0;
        }
        let moved = s.arrivals != before || s.finished;
        settle = if moved { s.waiting.len() } else { s.waiting.len().max(1) };
        let cells = std::mem::take(&mut s.cells);
        let snap = if s.finished { None } else { snapshot(s.events, n) };
        steps.push(json!({"gate": label, "cells": cells, "w": snap.unwrap_or(json!([])), "moved": moved}));
        if Instant::now() > deadline || steps.len() > 5000 {
            stuck = true;
            break;
        }
    }
    s.active = false;
    ctlr.cv.notify_all();
    if stuck {
        STUCK.fetch_add(1, Ordering::Relaxed);
        let w = s.waiting.values().cloned().collect::<Vec<_>>();
        // cells completed after the last recorded step
        return json!({"stuck": true, "waiting": w, "steps": steps});
    }
    let rest = std::mem::take(&mut s.cells);
    drop(s);
    match runner.join().unwrap() {
        Ok(events) => {
            let w: Vec<_> = events
                .iter()
                .map(|e| weights_of(e).iter().map(|w| num(*w)).collect::<Vec<_>>())
                .collect();
            json!({"steps": steps, "rest": rest, "w": w})
        }
        Err(_) => json!({"panic": "in resample", "steps": steps}),
    }
}

fn snapshot((ptr, len): (usize, usize), n: usize) -> Option<Value> {
    if len != n || ptr == 0 {
        return None;
    }
    // Safety: the resampler keeps the events alive until it has finished,
    // and it has not finished
    let events: &[Event] = unsafe { std::slice::from_raw_parts(ptr as *const Event, len) };
    let mut res = vec![];
    for e in events {
        let w = e.weights.try_read()?;
        res.push(w.iter().map(|w| num(f64::from(*w))).collect::<Vec<_>>());
    }
    Some(json!(res))
}

#[allow(dead_code)]
fn unused() -> N64 {
    n64(0.)
}
