use cres::event::{Event, EventBuilder};
use cres::four_vector::FourVector;
use cres::traits::Distance;
use cres::{n64, ParticleID, N64};
use rayon::{ThreadPool, ThreadPoolBuilder};
use serde_json::Value;
use std::sync::atomic::{AtomicI32, Ordering};

pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("not an index: {v}")) as usize
}

pub fn fl(v: &Value) -> f64 {
    match v {
        Value::String(s) if s == "inf" => f64::INFINITY,
        Value::String(s) if s == "max" => f64::MAX,
        Value::String(s) => s.parse().unwrap(),
        _ => v.as_f64().unwrap_or_else(|| panic!("not a number: {v}")),
    }
}

/// Weights and distances of a case are multiplied by these powers of two, and
/// results divided: floating-point arithmetic is exactly the same.
static WEXP: AtomicI32 = AtomicI32::new(0);
static DEXP: AtomicI32 = AtomicI32::new(0);

pub fn set_units(c: &Value) {
    let get = |k: &str| c[k].as_i64().unwrap_or(0) as i32;
    WEXP.store(get("wexp"), Ordering::SeqCst);
    DEXP.store(get("dexp"), Ordering::SeqCst);
}

fn wunit() -> f64 {
    2f64.powi(WEXP.load(Ordering::SeqCst))
}

fn dunit() -> f64 {
    2f64.powi(DEXP.load(Ordering::SeqCst))
}

/// a weight of a case
pub fn flw(v: &Value) -> f64 {
    fl(v) * wunit()
}

/// a distance of a case
pub fn fld(v: &Value) -> f64 {
    fl(v) * dunit()
}

pub fn numw(x: f64) -> Value {
    num(x / wunit())
}

pub fn undo_d(x: f64) -> f64 {
    x / dunit()
}

pub fn numd(x: f64) -> Value {
    num(undo_d(x))
}

/// integers exactly, anything else as a string
pub fn num(x: f64) -> Value {
    if x.fract() == 0. && x.abs() <= 2e9 {
        Value::from(x as i64)
    } else {
        Value::from(format!("{x}"))
    }
}

pub fn ints(v: &Value) -> Vec<usize> {
    v.as_array().map(|a| a.iter().map(us).collect()).unwrap_or_default()
}

pub fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|s| s.as_str().unwrap().to_owned()).collect())
        .unwrap_or_default()
}

pub fn pool(n: usize) -> ThreadPool {
    ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}

/// Distances between points 0..n, from a matrix or from integer coordinates
/// (maximum norm)
#[derive(Clone, Debug)]
pub enum Dist {
    Matrix(Vec<Vec<f64>>),
    Coords(Vec<Vec<f64>>),
    /// takes up to the given time (ns) to calculate
    Slow(Box<Dist>, u64),
}

thread_local! {
    static SPIN: std::cell::Cell<u64> = const { std::cell::Cell::new(88172645463325252) };
}

fn spin(ns: u64) {
    let wait = SPIN.with(|s| {
        let mut x = s.get() ^ (rayon::current_thread_index().unwrap_or(0) as u64 + 1);
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.set(x);
        x % ns.max(1)
    });
    let t = std::time::Instant::now();
    while (t.elapsed().as_nanos() as u64) < wait {
        std::hint::spin_loop()
    }
}

impl Dist {
    pub fn parse(v: &Value) -> Self {
        let rows = |v: &Value| {
            v.as_array()
                .unwrap()
                .iter()
                .map(|r| r.as_array().unwrap().iter().map(fld).collect())
                .collect()
        };
        let d = if v["d"].is_array() {
            Dist::Matrix(rows(&v["d"]))
        } else {
            Dist::Coords(rows(&v["x"]))
        };
        match v["spin"].as_u64() {
            Some(ns) => Dist::Slow(Box::new(d), ns),
            None => d,
        }
    }

    pub fn get(&self, i: usize, j: usize) -> f64 {
        match self {
            Dist::Matrix(d) => d[i][j],
            Dist::Coords(x) => x[i]
                .iter()
                .zip(&x[j])
                .map(|(a, b)| (a - b).abs())
                .fold(0., f64::max),
            Dist::Slow(d, ns) => {
                spin(*ns);
                d.get(i, j)
            }
        }
    }

    pub fn len(&self) -> usize {
        match self {
            Dist::Matrix(d) => d.len(),
            Dist::Coords(x) => x.len(),
            Dist::Slow(d, _) => d.len(),
        }
    }
}

impl Distance<usize> for Dist {
    fn distance(&self, a: &usize, b: &usize) -> N64 {
        n64(self.get(*a, *b))
    }
}

impl Distance<Event> for Dist {
    fn distance(&self, a: &Event, b: &Event) -> N64 {
        n64(self.get(a.id(), b.id()))
    }
}

/// particles: [[pid, E, px, py, pz], ...]
pub fn event(weights: &[f64], particles: &Value, id: usize) -> Event {
    let mut b = EventBuilder::new();
    for w in weights {
        b.add_weight(n64(*w * wunit()));
    }
    for p in particles.as_array().unwrap_or(&vec![]) {
        let v: FourVector =
            [n64(fld(&p[1])), n64(fld(&p[2])), n64(fld(&p[3])), n64(fld(&p[4]))].into();
        b.add_outgoing(ParticleID::new(p[0].as_i64().unwrap() as i32), v);
    }
    let mut ev = b.build();
    ev.id = id;
    ev
}

/// events with ids 0..n and the given weights (one list of weights each)
pub fn weighted_events(v: &Value) -> Vec<Event> {
    v.as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(id, w)| {
            let w: Vec<f64> = match w {
                Value::Array(w) => w.iter().map(fl).collect(),
                w => vec![fl(w)],
            };
            event(&w, &Value::Null, id)
        })
        .collect()
}

pub fn weights_of(e: &Event) -> Vec<f64> {
    e.weights.read().iter().map(|w| f64::from(*w) / wunit()).collect()
}
