//! Conformance harness: drives the public API of the `cres` crate with
//! cases read from a file and records what happened, one line per case.
use std::any::Any;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::exit;

use serde_json::{json, Value};

mod capi;
mod coll;
mod gated;
mod io;
mod kin;
mod locks;
mod nn;
mod part;
mod pipe;
mod resample;
mod unw;
mod util;

fn panic_msg(e: Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "unknown panic".into()
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 4 {
        eprintln!("usage: cresh OP IN OUT");
        exit(64)
    }
    let op: fn(&Value) -> Value = match args[1].as_str() {
        "nn" => nn::nn,
        "dist" => kin::dist,
        "clus" => kin::clus,
        "seeds" => resample::seeds,
        "resample" => resample::resample,
        "gated" => gated::gated,
        "conserve" => locks::conserve,
        "deadlock" => locks::deadlock,
        "lockorder" => locks::lockorder,
        "unw" => unw::unw,
        "read" => io::read,
        "io" => io::history,
        "stream" => io::stream,
        "decompress" => io::decompress,
        "pack" => io::pack,
        "part" => part::part,
        "partfile" => part::partfile,
        "coll" => coll::coll,
        "obs" => coll::obs,
        "pipe" => pipe::pipe,
        "capi" => capi::capi,
        _ => {
            eprintln!("unknown operation {}", args[1]);
            exit(64)
        }
    };
    if std::env::var_os("CRESH_PANIC_MSG").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let input = BufReader::new(File::open(&args[2]).unwrap());
    let mut out = File::create(&args[3]).unwrap();
    for line in input.lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        util::set_units(&case);
        let res = match catch_unwind(AssertUnwindSafe(|| op(&case))) {
            Ok(v) => v,
            Err(e) => json!({"panic": panic_msg(e)}),
        };
        let mut s = res.to_string();
        s.push('\n');
        out.write_all(s.as_bytes()).unwrap();
        out.flush().unwrap();
    }
    // skip destructors of threads that may be stuck
    exit(0)
}
