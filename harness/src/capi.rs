//! the C interface
use std::ffi::{c_char, c_double, c_void, CString};
use std::sync::Mutex;

use cres::c_api::cres::{cres_run, JetAlgorithm, JetDefinition, Opt, Search};
use cres::c_api::distance::DistanceFn;
use cres::c_api::error::cres_get_last_err;
use cres::c_api::event::EventView;
use serde_json::{json, Value};

use crate::util::*;

/// same layout as cres::c_api::cres::Opt
#[repr(C)]
struct COpt {
    infiles: *mut *mut c_char,
    n_infiles: usize,
    outdir: *mut c_char,
    distance: *mut DistanceFn,
    ptweight: c_double,
    jet_def: JetDefinition,
    neighbour_search: Search,
    max_cell_size: c_double,
}

static SEEN: Mutex<Vec<(usize, Value)>> = Mutex::new(Vec::new());
static MODE: Mutex<String> = Mutex::new(String::new());

fn view(e: &EventView) -> Value {
    // Safety: contract of the C interface
    unsafe {
        let w: Vec<String> = (0..e.n_weights).map(|i| format!("{:?}", *e.weights.add(i))).collect();
        let mut out = vec![];
        for t in 0..e.n_type_sets {
            let s = &*e.type_sets.add(t);
            for k in 0..s.n_momenta {
                let p = *s.momenta.add(k);
                let mut v = vec![s.pid.to_string()];
                v.extend(p.iter().map(|x| format!("{x:?}")));
                out.push(v)
            }
        }
        json!({"id": e.id, "w": w, "out": out})
    }
}

fn dist(data: *mut c_void, a: &EventView, b: &EventView) -> f64 {
    {
        let mut s = SEEN.lock().unwrap();
        for e in [a, b] {
            if !s.iter().any(|x| x.0 == e.id) {
                let v = view(e);
                s.push((e.id, v));
            }
        }
    }
    // Safety: data points to a float that outlives the run
    let f = unsafe { *(data as *const f64) };
    match MODE.lock().unwrap().as_str() {
        // distance between the positions in the file
        "id" => f * (a.id as f64 - b.id as f64).abs(),
        // far apart if close in the file
        "inv" => {
            if a.id == b.id {
                0.
            } else {
                f * (1000. - (a.id as f64 - b.id as f64).abs())
            }
        }
        _ => 0.,
    }
}

/// {calls: [{infiles, outdir, dist, data, tau, jet, search, max} | {err: buflen} ...]}
pub fn capi(c: &Value) -> Value {
    let calls = c["calls"].as_array().unwrap().clone();
    let res = std::thread::spawn(move || calls.iter().map(call).collect::<Vec<_>>()).join().unwrap();
    json!({ "res": res })
}

fn call(c: &Value) -> Value {
    if let Some(n) = c["err"].as_u64() {
        let n = n as usize;
        const PAD: usize = 64;
        let mut buf = vec![0x55u8; n + PAD];
        let r = cres_get_last_err(buf.as_mut_ptr() as *mut c_char, n);
        let nul = buf[..n].iter().position(|b| *b == 0);
        let clean = buf[n..].iter().all(|b| *b == 0x55);
        let untouched = buf[..n].iter().all(|b| *b == 0x55);
        let msg = nul.map(|k| String::from_utf8_lossy(&buf[..k]).into_owned()).unwrap_or_default();
        return json!({"op": "err", "n": n, "ret": r, "nul": nul.map(|n| n as i64).unwrap_or(-1),
            "clean": clean, "untouched": untouched, "msg": msg});
    }
    let names: Vec<CString> = strs(&c["infiles"]).into_iter().map(|s| CString::new(s).unwrap()).collect();
    let mut ptrs: Vec<*mut c_char> = names.iter().map(|n| n.as_ptr() as *mut c_char).collect();
    let outdir = CString::new(c["outdir"].as_str().unwrap()).unwrap();
    let mut data = c["data"].as_f64().unwrap_or(1.);
    let mut df = DistanceFn { fun: dist, data: &mut data as *mut f64 as *mut c_void };
    let mode = c["dist"].as_str().unwrap_or("");
    *MODE.lock().unwrap() = mode.to_owned();
    SEEN.lock().unwrap().clear();
    let opt = COpt {
        infiles: ptrs.as_mut_ptr(),
        n_infiles: ptrs.len(),
        outdir: outdir.as_ptr() as *mut c_char,
        distance: if mode.is_empty() { std::ptr::null_mut() } else { &mut df },
        ptweight: fl(&c["tau"]),
        jet_def: JetDefinition {
            algorithm: match c["jet"][0].as_str().unwrap() {
                "anti-kt" => JetAlgorithm::AntiKt,
                "kt" => JetAlgorithm::Kt,
                _ => JetAlgorithm::CambridgeAachen,
            },
            radius: fl(&c["jet"][1]),
            min_pt: fl(&c["jet"][2]),
        },
        neighbour_search: if c["search"] == "naive" { Search::Naive } else { Search::Tree },
        max_cell_size: fl(&c["max"]),
    };
    assert_eq!(std::mem::size_of::<COpt>(), std::mem::size_of::<Opt>());
    // Safety: same layout (both repr(C) with the fields of the public C header)
    let ret = cres_run(unsafe { &*(&opt as *const COpt as *const Opt) });
    let mut seen: Vec<_> = SEEN.lock().unwrap().drain(..).collect();
    seen.sort_by_key(|x| x.0);
    json!({"op": "run", "ret": ret, "seen": seen.into_iter().map(|x| x.1).collect::<Vec<_>>()})
}
