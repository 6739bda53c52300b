//! `Cres::run` with recording components
use std::collections::HashMap;
use std::fmt;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use cres::cres::CresBuilder;
use cres::event::{Event, Weights};
use cres::io::EventRecord;
use cres::traits::*;
use serde_json::{json, Value};

use crate::util::*;

#[derive(Debug)]
pub struct E(String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for E {}

#[derive(Clone, Default)]
struct Log(Arc<Mutex<Vec<Value>>>);
impl Log {
    fn add(&self, v: Value) {
        self.0.lock().unwrap().push(v)
    }
}

struct Io {
    log: Log,
    n: usize,
    pos: usize,
    fail_at: Option<usize>,
    fail_update: bool,
    hint: usize,
}

impl Iterator for Io {
    type Item = Result<EventRecord, E>;
    fn next(&mut self) -> Option<Self::Item> {
        if Some(self.pos) == self.fail_at {
            self.pos += 1;
            self.log.add(json!(["read", "err"]));
            return Some(Err(E("read".into())));
        }
        if self.pos >= self.n {
            return None;
        }
        self.log.add(json!(["read", self.pos]));
        self.pos += 1;
        Some(Ok(EventRecord::HepMC(format!("{}", self.pos - 1))))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.hint, None)
    }
}

fn wts(w: &Weights) -> Vec<Value> {
    w.iter().map(|w| num(f64::from(*w))).collect()
}

impl UpdateWeights for Io {
    type Error = E;
    fn update_all_weights(&mut self, weights: &[Weights]) -> Result<usize, E> {
        let w: Vec<_> = weights.iter().map(wts).collect();
        self.log.add(json!(["update", w]));
        if self.fail_update {
            Err(E("update".into()))
        } else {
            Ok(weights.len())
        }
    }
    fn update_next_weights(&mut self, weights: &Weights) -> Result<bool, E> {
        self.log.add(json!(["update1", wts(weights)]));
        Ok(true)
    }
}

struct Conv {
    log: Log,
    delay: Vec<u64>,
    fail: Option<usize>,
    bad_id: Option<usize>,
    w: Vec<Vec<f64>>,
    empty: Vec<usize>,
}

impl TryConvert<EventRecord, Event> for Conv {
    type Error = E;
    fn try_convert(&self, r: EventRecord) -> Result<Event, E> {
        let n: usize = String::try_from(r).unwrap().parse().unwrap();
        std::thread::sleep(Duration::from_micros(self.delay.get(n).copied().unwrap_or(0)));
        self.log.add(json!(["convert", n]));
        if self.fail == Some(n) {
            return Err(E("convert".into()));
        }
        let mut ps = vec![];
        if !self.empty.contains(&n) {
            ps.push(json!([11, 1., 0., 0., n as f64 + 1.]))
        }
        // identity travels in the momentum
        let mut ev = event(&self.w[n], &json!(ps), 0);
        if self.bad_id == Some(n) {
            ev.id = 77
        }
        Ok(ev)
    }
}

struct Clust {
    log: Log,
    fail: Option<usize>,
    delay: Vec<u64>,
}

fn who(ev: &Event) -> i64 {
    ev.outgoing().first().map(|(_, p)| f64::from(p[0][3]) as i64 - 1).unwrap_or(-1)
}

impl Clustering for Clust {
    type Error = E;
    fn cluster(&self, ev: Event) -> Result<Event, E> {
        let n = who(&ev);
        if n >= 0 {
            std::thread::sleep(Duration::from_micros(self.delay.get(n as usize).copied().unwrap_or(0)));
        }
        self.log.add(json!(["cluster", n]));
        if n >= 0 && self.fail == Some(n as usize) {
            return Err(E("cluster".into()));
        }
        Ok(ev)
    }
}

struct Stage {
    log: Log,
    name: &'static str,
    fail: bool,
    /// permutation applied to the events sorted by id
    perm: Vec<usize>,
    drop: Vec<usize>,
    add: f64,
}

impl Stage {
    fn run(&mut self, mut e: Vec<Event>) -> Result<Vec<Event>, E> {
        let mut seen: Vec<_> = e.iter().map(|e| json!([e.id(), who(e), wts(&e.weights.read())])).collect();
        seen.sort_by_key(|v| v[0].as_u64());
        self.log.add(json!([self.name, seen]));
        if self.fail {
            return Err(E(self.name.into()));
        }
        e.sort_by_key(|e| e.id());
        let mut m: HashMap<usize, Event> = HashMap::new();
        let mut order = vec![];
        for (k, ev) in e.into_iter().enumerate() {
            order.push((self.perm.get(k).copied().unwrap_or(k), ev.id()));
            m.insert(ev.id(), ev);
        }
        order.sort();
        let mut res = vec![];
        for (_, id) in order {
            if self.drop.contains(&id) {
                continue;
            }
            let ev = m.remove(&id).unwrap();
            for w in ev.weights.write().iter_mut() {
                *w += self.add * (id as f64 + 1.)
            }
            res.push(ev)
        }
        Ok(res)
    }
}

struct Res(Stage);
impl Resample for Res {
    type Error = E;
    fn resample(&mut self, e: Vec<Event>) -> Result<Vec<Event>, E> {
        self.0.run(e)
    }
}
struct Unw(Stage);
impl Unweight for Unw {
    type Error = E;
    fn unweight(&mut self, e: Vec<Event>) -> Result<Vec<Event>, E> {
        self.0.run(e)
    }
}

fn opt(v: &Value) -> Option<usize> {
    v.as_u64().map(|v| v as usize)
}

/// {w, empty, delay, cdelay, fail: {read, convert, cluster, id, resample, unweight, update},
///  rperm, uperm, drop, threads, hint}
pub fn pipe(c: &Value) -> Value {
    let log = Log::default();
    let f = &c["fail"];
    let w: Vec<Vec<f64>> = c["w"]
        .as_array()
        .unwrap()
        .iter()
        .map(|w| w.as_array().unwrap().iter().map(fl).collect())
        .collect();
    let d = |k: &str| c[k].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
    let runs = c["runs"].as_u64().unwrap_or(1);
    let (n, hint) = (w.len(), us(&c["hint"]));
    let case = c.clone();
    let (delay, cdelay): (Vec<u64>, Vec<u64>) = (d("delay"), d("cdelay"));
    let l = log.clone();
    let (b, b2) = (f["resample"].as_bool().unwrap_or(false), f["unweight"].as_bool().unwrap_or(false));
    let res: Vec<String> = pool(us(&c["threads"])).install(move || {
        let c = &case;
        let f = &c["fail"];
        let mut cres = CresBuilder {
            event_io: Io {
                log: l.clone(),
                n,
                pos: 0,
                fail_at: opt(&f["read"]),
                fail_update: f["update"].as_bool().unwrap_or(false),
                hint,
            },
            converter: Conv {
                log: l.clone(),
                delay,
                fail: opt(&f["convert"]),
                bad_id: opt(&f["id"]),
                w,
                empty: ints(&c["empty"]),
            },
            clustering: Clust { log: l.clone(), fail: opt(&f["cluster"]), delay: cdelay },
            resampler: Res(Stage {
                log: l.clone(),
                name: "resample",
                fail: b,
                perm: ints(&c["rperm"]),
                drop: vec![],
                add: 100.,
            }),
            unweighter: Unw(Stage {
                log: l.clone(),
                name: "unweight",
                fail: b2,
                perm: ints(&c["uperm"]),
                drop: ints(&c["drop"]),
                add: 10000.,
            }),
        }
        .build();
        (0..runs)
            .map(|_| {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cres.run()));
                match r {
                    Ok(Ok(())) => "ok".into(),
                    Ok(Err(e)) => {
                        use cres::cres::CresError::*;
                        match e {
                            IOErr(e) => format!("io:{e}"),
                            ConversionErr(e) => format!("convert:{e}"),
                            ClusterErr(e) => format!("cluster:{e}"),
                            ResamplingErr(e) => format!("resample:{e}"),
                            UnweightErr(e) => format!("unweight:{e}"),
                            IdErr(n) => format!("id:{n}"),
                        }
                    }
                    Err(_) => "panic".into(),
                }
            })
            .collect()
    });
    let log = log.0.lock().unwrap().clone();
    json!({"res": res, "log": log})
}
