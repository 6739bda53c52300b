//! unweighting with a controlled stream of random numbers
use cres::traits::Unweight;
use cres::unweight::Unweighter;
use rand::RngCore;
use serde_json::{json, Value};

use crate::util::*;

/// yields the given fractions of 2^64, then repeats the last one
pub struct Fixed {
    u: Vec<u64>,
    pos: usize,
}

impl RngCore for Fixed {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let r = self.u[self.pos.min(self.u.len() - 1)];
        self.pos += 1;
        r
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8
        }
    }
}

/// {w: [[...]], min, u: [numerators of u/den] | seed, scale}
pub fn unw(c: &Value) -> Value {
    let events = weighted_events(&c["w"]);
    let min = flw(&c["min"]);
    let scale = fl(&c["scale"]);
    let threads = c["threads"].as_u64().unwrap_or(2) as usize;
    let (res, used) = pool(threads).install(|| {
        if c["u"].is_array() {
            let den = us(&c["den"]) as f64;
            let mut rng = Fixed {
                u: c["u"]
                    .as_array()
                    .unwrap()
                    .iter()
                    // middle of the bin
                    .map(|u| (((us(u) as f64 + 0.5) / den) * 2f64.powi(64)) as u64)
                    .collect(),
                pos: 0,
            };
            let r = Unweighter::new(min, &mut rng).unweight(events).unwrap();
            (r, rng.pos)
        } else {
            use rand::SeedableRng;
            let rng = rand_xoshiro::Xoshiro256Plus::seed_from_u64(us(&c["seed"]) as u64);
            (Unweighter::new(min, rng).unweight(events).unwrap(), 0)
        }
    });
    let ids: Vec<_> = res.iter().map(|e| e.id()).collect();
    if c["only_ids"].as_bool().unwrap_or(false) {
        return json!({"n": ids.len(), "ids": ids});
    }
    let w: Vec<Vec<i64>> = res
        .iter()
        .map(|e| weights_of(e).iter().map(|w| (w * scale).round() as i64).collect())
        .collect();
    let raw: Vec<Vec<String>> =
        res.iter().map(|e| weights_of(e).iter().map(|w| format!("{w}")).collect()).collect();
    json!({"ids": ids, "w": w, "raw": raw, "used": used})
}
