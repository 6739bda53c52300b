//! event I/O objects
use std::error::Error;
use std::fs::File;
use std::io::{BufReader, Read, Write};
use std::path::PathBuf;

use cres::compression::{compress_writer, Compression, FinishWrite};
use cres::event::{Event, Weights};
use cres::io::{
    CombinedFileIO, Converter, ErrorKind, EventRecord, FileIOError, FileReader, IOBuilder,
};
use cres::n64;
use cres::traits::{Rewind, TryConvert, UpdateWeights};
use serde_json::{json, Value};

use crate::util::*;

pub fn compression(v: &Value) -> Option<Compression> {
    let a = v.as_array()?;
    let l = a.get(1).map(us).unwrap_or(0) as u8;
    Some(match a[0].as_str().unwrap() {
        "bzip2" => Compression::Bzip2,
        "gzip" => Compression::Gzip(l),
        "lz4" => Compression::Lz4(l),
        "zstd" => Compression::Zstd(l),
        c => panic!("unknown compression {c}"),
    })
}

fn errs(e: &dyn Error) -> String {
    let mut s = e.to_string();
    let mut e = e;
    while let Some(x) = e.source() {
        s += " / ";
        s += &x.to_string();
        e = x;
    }
    s.chars().take(300).collect()
}

pub fn open(c: &Value) -> Result<CombinedFileIO, String> {
    let files: Vec<(PathBuf, PathBuf)> = c["files"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| (f[0].as_str().unwrap().into(), f[1].as_str().unwrap().into()))
        .collect();
    let mut b = IOBuilder::default();
    b.compression(compression(&c["compression"]));
    b.weight_names(strs(&c["names"]));
    b.build_from_files_iter(files).map_err(|e| errs(&e))
}

pub fn converter(c: &Value) -> Converter {
    let names = strs(&c["names"]);
    if names.is_empty() {
        Converter::new()
    } else {
        Converter::with_weights(names)
    }
}

pub fn show(ev: &Event) -> Value {
    let mut out = vec![];
    for (pid, ps) in ev.outgoing() {
        for p in ps.iter() {
            let mut v = vec![pid.id().to_string()];
            for i in 0..4 {
                v.push(format!("{:?}", f64::from(p[i])))
            }
            out.push(v)
        }
    }
    let w: Vec<_> = weights_of(ev).iter().map(|w| format!("{w:?}")).collect();
    json!({"w": w, "out": out})
}

/// {files: [[in, out]...], names, mode: "combined" | "single"}: all converted events
pub fn read(c: &Value) -> Value {
    let conv = converter(c);
    let mut res = vec![];
    if c["mode"] == "single" {
        for f in c["files"].as_array().unwrap() {
            let reader = match FileReader::try_new(f[0].as_str().unwrap().into()) {
                Ok(r) => r,
                Err(e) => return json!({"err": errs(&e), "ev": res}),
            };
            for r in reader {
                match r {
                    Ok(r) => match conv.try_convert(r) {
                        Ok(e) => res.push(show(&e)),
                        Err(e) => return json!({"err": errs(&e), "ev": res}),
                    },
                    Err(e) => return json!({"err": errs(&e), "ev": res}),
                }
            }
        }
    } else {
        let io = match open(c) {
            Ok(io) => io,
            Err(e) => return json!({"err": e, "ev": res}),
        };
        for r in io {
            match r {
                Ok(r) => match conv.try_convert(r) {
                    Ok(e) => res.push(show(&e)),
                    Err(e) => return json!({"err": errs(&e), "ev": res}),
                },
                Err(e) => return json!({"err": errs(&e), "ev": res}),
            }
        }
    }
    json!({"err": "", "ev": res})
}

fn mk_weights(v: &Value) -> Weights {
    let a = v.as_array().unwrap();
    if a.is_empty() {
        return Weights::default();
    }
    let w: Vec<f64> = a.iter().map(fl).collect();
    let ev = event(&w, &Value::Null, 0);
    ev.weights.into_inner()
}

struct Reader(FileReader, PathBuf);
impl Reader {
    fn err(&self, e: impl Into<ErrorKind>) -> FileIOError {
        FileIOError::new(self.1.clone(), self.1.clone(), e.into())
    }
}
impl Iterator for Reader {
    type Item = Result<EventRecord, FileIOError>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|r| r.map_err(|e| self.err(e)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl Rewind for Reader {
    type Error = FileIOError;
    fn rewind(&mut self) -> Result<(), FileIOError> {
        let r = self.0.rewind();
        r.map_err(|e| self.err(e))
    }
}
impl UpdateWeights for Reader {
    type Error = FileIOError;
    fn update_all_weights(&mut self, _: &[Weights]) -> Result<usize, FileIOError> {
        panic!("not an output")
    }
    fn update_next_weights(&mut self, _: &Weights) -> Result<bool, FileIOError> {
        panic!("not an output")
    }
}

/// {files, names, compression, ops: [...], mode}; ops are
/// ["next"], ["rewind"], ["hint"], ["upd", [w...]], ["all", [[w...]...]], ["fin"].
/// Mode "reader": reader of the first file, "fileio": I/O object of the first
/// pair of files, otherwise the combined I/O object.
pub fn history(c: &Value) -> Value {
    let path = |i: usize| PathBuf::from(c["files"][0][i].as_str().unwrap());
    match c["mode"].as_str() {
        Some("reader") => match FileReader::try_new(path(0)) {
            Ok(r) => play(c, Reader(r, path(0))),
            Err(e) => json!({"open": errs(&e), "res": []}),
        },
        Some("fileio") => {
            let mut b = IOBuilder::default();
            b.compression(compression(&c["compression"]));
            b.weight_names(strs(&c["names"]));
            match b.build_from_files(path(0), path(1)) {
                Ok(io) => play(c, io),
                Err(e) => json!({"open": errs(&e), "res": []}),
            }
        }
        _ => match open(c) {
            Ok(io) => play(c, io),
            Err(e) => json!({"open": e, "res": []}),
        },
    }
}

fn play<IO>(c: &Value, mut io: IO) -> Value
where
    IO: Iterator<Item = Result<EventRecord, FileIOError>>
        + Rewind<Error = FileIOError>
        + UpdateWeights<Error = FileIOError>,
{
    let conv = converter(c);
    let mut res: Vec<Value> = vec![];
    for op in c["ops"].as_array().unwrap() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match op[0].as_str().unwrap() {
            "next" => match io.next() {
                None => json!("none"),
                Some(Ok(r)) => match conv.try_convert(r) {
                    Ok(e) => json!({"ev": show(&e)}),
                    Err(e) => json!({"cerr": errs(&e)}),
                },
                Some(Err(e)) => json!({"err": errs(&e)}),
            },
            "rewind" => match io.rewind() {
                Ok(()) => json!("ok"),
                Err(e) => json!({"err": errs(&e)}),
            },
            "hint" => {
                let h = io.size_hint();
                json!({"lo": h.0, "hi": h.1.map(|h| h as i64).unwrap_or(-1)})
            }
            "upd" => match io.update_next_weights(&mk_weights(&op[1])) {
                Ok(b) => json!(if b { "true" } else { "false" }),
                Err(e) => json!({"err": errs(&e)}),
            },
            "all" => {
                let w: Vec<_> = op[1].as_array().unwrap().iter().map(mk_weights).collect();
                match io.update_all_weights(&w) {
                    Ok(n) => json!({ "n": n }),
                    Err(e) => json!({"err": errs(&e)}),
                }
            }
            "fin" => match io.finish_weight_update() {
                Ok(()) => json!("ok"),
                Err(e) => json!({"err": errs(&e)}),
            },
            o => panic!("unknown op {o}"),
        }));
        match r {
            Ok(v) => res.push(v),
            Err(e) => {
                res.push(json!({"panic": crate::panic_msg(e)}));
                // the object cannot be used any further
                std::mem::forget(io);
                return json!({"open": "", "res": res});
            }
        }
    }
    drop(io);
    json!({"open": "", "res": res})
}

/// {path, c: [algo, level], src, ops: [["write", n] | ["flush"] | ["finish"]...], buf}: writes
/// the data in src piece by piece; reports which operations were successful
pub fn stream(c: &Value) -> Value {
    let data = std::fs::read(c["src"].as_str().unwrap()).unwrap();
    let file = File::create(c["path"].as_str().unwrap()).unwrap();
    let out: Box<dyn Write> = if c["buf"].as_bool().unwrap() {
        Box::new(std::io::BufWriter::new(file))
    } else {
        Box::new(file)
    };
    let mut w = match compress_writer(out, compression(&c["c"])) {
        Ok(w) => w,
        Err(e) => return json!({"open": e.to_string(), "res": []}),
    };
    let mut pos = 0;
    let mut res = vec![];
    for op in c["ops"].as_array().unwrap() {
        res.push(match op[0].as_str().unwrap() {
            "write" => {
                let end = (pos + us(&op[1])).min(data.len());
                let r = w.write_all(&data[pos..end]);
                pos = end;
                r.is_ok()
            }
            "flush" => w.flush().is_ok(),
            "finish" => w.finish().is_ok(),
            o => panic!("unknown op {o}"),
        });
    }
    drop(w);
    json!({"open": "", "res": res})
}

/// strict decoding of {path} as one complete stream of format {as}; reports
/// whether it is complete, and the content as written to {dst}
pub fn decompress(c: &Value) -> Value {
    let raw = std::fs::read(c["path"].as_str().unwrap()).unwrap();
    let mut data = vec![];
    let r: Result<usize, String> = (|| match c["as"].as_str().unwrap() {
        "none" => {
            data = raw.clone();
            Ok(0)
        }
        "gzip" => {
            let mut d = flate2::bufread::GzDecoder::new(&raw[..]);
            d.read_to_end(&mut data).map_err(|e| e.to_string())?;
            Ok(d.into_inner().len())
        }
        "bzip2" => {
            let mut d = bzip2::bufread::BzDecoder::new(&raw[..]);
            d.read_to_end(&mut data).map_err(|e| e.to_string())?;
            Ok(d.into_inner().len())
        }
        "lz4" => {
            let mut d = lz4::Decoder::new(&raw[..]).map_err(|e| e.to_string())?;
            d.read_to_end(&mut data).map_err(|e| e.to_string())?;
            let (rest, r) = d.finish();
            r.map_err(|e| format!("no end mark: {e}"))?;
            Ok(rest.len())
        }
        "zstd" => {
            let mut d = zstd::stream::read::Decoder::with_buffer(&raw[..]).map_err(|e| e.to_string())?.single_frame();
            d.read_to_end(&mut data).map_err(|e| e.to_string())?;
            Ok(d.finish().len())
        }
        "auto" => {
            let mut d = audec::auto_decompress(BufReader::new(&raw[..]));
            d.read_to_end(&mut data).map_err(|e| e.to_string())?;
            Ok(0)
        }
        a => panic!("unknown format {a}"),
    })();
    if let Some(dst) = c["dst"].as_str() {
        std::fs::write(dst, &data).unwrap();
    }
    match r {
        Ok(rest) => json!({"err": "", "rest": rest, "len": data.len(), "raw": raw.len()}),
        Err(e) => json!({"err": e, "rest": 0, "len": data.len(), "raw": raw.len()}),
    }
}

/// {src, dst, as, lvl}: compress independently of the code under test
pub fn pack(c: &Value) -> Value {
    let data = std::fs::read(c["src"].as_str().unwrap()).unwrap();
    let dst = c["dst"].as_str().unwrap();
    let lvl = c["lvl"].as_u64().map(|l| l as u32);
    let out = match c["as"].as_str().unwrap() {
        "zstd" => zstd::encode_all(&data[..], lvl.unwrap_or(3) as i32).unwrap(),
        "lz4" => {
            let mut e = lz4::EncoderBuilder::new().auto_flush(true).level(lvl.unwrap_or(0)).build(vec![]).unwrap();
            e.write_all(&data).unwrap();
            let (v, r) = e.finish();
            r.unwrap();
            v
        }
        "gzip" => {
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(lvl.unwrap_or(6)));
            e.write_all(&data).unwrap();
            e.finish().unwrap()
        }
        "bzip2" => {
            let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::new(lvl.unwrap_or(6)));
            e.write_all(&data).unwrap();
            e.finish().unwrap()
        }
        _ => data,
    };
    let len = out.len();
    std::fs::write(dst, out).unwrap();
    json!({"ok": true, "len": len})
}

#[allow(dead_code)]
fn unused() {
    let _ = n64(0.);
}
