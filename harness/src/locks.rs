//! locking behaviour of `Cell::resample`
use std::sync::mpsc;
use std::sync::Arc;
use std::time::Duration;

use cres::cell::Cell;
use cres::event::Event;
use cres::neighbour_search::NeighbourSearch;
use cres::{n64, N64};
use parking_lot::RwLock;
use serde_json::{json, Value};

use crate::util::*;

/// hands out the given members in the given order
#[derive(Clone)]
struct Listed(Vec<usize>);

impl NeighbourSearch for Listed {
    type Iter = std::vec::IntoIter<(usize, N64)>;
    fn nearest(self, _p: &usize) -> Self::Iter {
        self.0.into_iter().enumerate().map(|(n, i)| (i, n64(n as f64 + 1.))).collect::<Vec<_>>().into_iter()
    }
}

fn cell<'a>(events: &'a [Event], members: &[usize]) -> Cell<'a> {
    Cell::new(events, members[0], Listed(members[1..].to_vec()))
}

const T: Duration = Duration::from_millis(150);

/// {w, cells: [[seed, next...]...]}: two or more cells are resampled concurrently
/// while `hold` is write-locked; then it is released. Reports whether all complete.
pub fn deadlock(c: &Value) -> Value {
    let events: Arc<Vec<Event>> = Arc::new(weighted_events(&c["w"]));
    let cells: Vec<Vec<usize>> = c["cells"].as_array().unwrap().iter().map(ints).collect();
    let hold = ints(&c["hold"]);
    let guards: Vec<_> = hold.iter().map(|h| events[*h].weights.read()).collect();
    let (tx, rx) = mpsc::channel();
    for (n, m) in cells.iter().enumerate() {
        let (events, tx, m) = (events.clone(), tx.clone(), m.clone());
        std::thread::spawn(move || {
            let mut cl = cell(&events, &m);
            let mm: Vec<usize> = cl.iter().map(|e| e.id()).collect();
            cl.resample();
            let _ = tx.send((n, mm));
        });
        std::thread::sleep(Duration::from_millis(us(&c["pause_ms"]) as u64));
    }
    drop(tx);
    drop(guards);
    let mut done = vec![];
    while done.len() < cells.len() {
        match rx.recv_timeout(Duration::from_secs(5)) {
            Ok(x) => done.push(x),
            Err(_) => break,
        }
    }
    let complete = done.len() == cells.len();
    let w = if complete {
        json!(events.iter().map(|e| weights_of(e).iter().map(|w| num(*w)).collect::<Vec<_>>()).collect::<Vec<_>>())
    } else {
        json!([])
    };
    let members: Vec<_> = done.iter().map(|d| json!([d.0, d.1])).collect();
    json!({"complete": complete, "w": w, "members": members})
}

/// {w, cell, hold, other, delta}: while a member `hold` of the cell is read-locked
/// (and the cell's averaging therefore incomplete), `delta` is moved from member
/// `other` to event `sink` outside of the cell, in whichever way the locks allow; then
/// the lock is released. Reports the weights before and after and whether the
/// transfer was possible before the release.
pub fn conserve(c: &Value) -> Value {
    let events: Arc<Vec<Event>> = Arc::new(weighted_events(&c["w"]));
    let m = ints(&c["cell"]);
    let hold = us(&c["hold"]);
    let other = us(&c["other"]);
    let sink = us(&c["sink"]);
    let delta = n64(fl(&c["delta"]));
    let guard = events[hold].weights.read();
    let (tx, rx) = mpsc::channel();
    {
        let (events, m) = (events.clone(), m.clone());
        std::thread::spawn(move || {
            let mut cl = cell(&events, &m);
            let mm: Vec<usize> = cl.iter().map(|e| e.id()).collect();
            let s = f64::from(cl.weight_sum());
            cl.resample();
            let _ = tx.send((mm, s));
        });
    }
    std::thread::sleep(Duration::from_millis(us(&c["pause_ms"]) as u64));
    // atomic with respect to anybody who holds `other`
    let mut early = false;
    if let Some(mut w) = events[other].weights.try_write_for(Duration::from_millis(2)) {
        let mut v = events[sink].weights.write();
        for x in w.iter_mut() {
            *x -= delta
        }
        for x in v.iter_mut() {
            *x += delta
        }
        early = true;
    }
    drop(guard);
    let (mm, _s) = match rx.recv_timeout(Duration::from_secs(5)) {
        Ok(x) => x,
        Err(_) => return json!({"stuck": true}),
    };
    if !early {
        let mut w = events[other].weights.write();
        let mut v = events[sink].weights.write();
        for x in w.iter_mut() {
            *x -= delta
        }
        for x in v.iter_mut() {
            *x += delta
        }
    }
    let w: Vec<_> =
        events.iter().map(|e| weights_of(e).iter().map(|w| num(*w)).collect::<Vec<_>>()).collect();
    json!({"early": early, "members": mm, "w": w})
}

/// {w, cell}: for every member, which members are already locked while the
/// averaging waits for that member
pub fn lockorder(c: &Value) -> Value {
    let m = ints(&c["cell"]);
    let mut held = vec![];
    let mut members = vec![];
    for &h in &m {
        let events: Arc<Vec<Event>> = Arc::new(weighted_events(&c["w"]));
        let cl_members: Vec<usize> = cell(&events, &m).iter().map(|e| e.id()).collect();
        members = cl_members.clone();
        if !cl_members.contains(&h) {
            continue;
        }
        let guard: parking_lot::RwLockReadGuard<'_, _> = RwLock::read(&events[h].weights);
        let (tx, rx) = mpsc::channel();
        {
            let (events, m) = (events.clone(), m.clone());
            std::thread::spawn(move || {
                cell(&events, &m).resample();
                let _ = tx.send(());
            });
        }
        let finished = rx.recv_timeout(T).is_ok();
        let mut l = vec![];
        if !finished {
            for &x in cl_members.iter().filter(|x| **x != h) {
                if events[x].weights.try_read().is_none() {
                    l.push(x)
                }
            }
        }
        drop(guard);
        let done = finished || rx.recv_timeout(Duration::from_secs(5)).is_ok();
        held.push(json!([h, l, finished, done]));
    }
    json!({"held": held, "members": members})
}
