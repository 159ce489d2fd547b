//! Runs the encoder automaton that TLC emitted (a table of output characters
//! indexed by five-bit group and "more follows") over a range of integers and
//! compares its output with the crate's, reporting the integers on which they
//! differ. The table, not this file, says what a correct encoding is.

use rayon::prelude::*;
use rusty_source_map::base64_vlq::base64vlq_encode;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn sweep(op: &Value) -> Value {
    let table: Vec<Vec<u8>> = op["table"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| r.as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u8).collect())
        .collect();
    let (from, to, step) = (
        op["from"].as_i64().unwrap(),
        op["to"].as_i64().unwrap(),
        op["step"].as_i64().unwrap(),
    );
    let n = (to - from) / step + 1;
    let chunk = 1 << 16;
    let bad: Vec<i64> = (0..(n + chunk - 1) / chunk)
        .into_par_iter()
        .flat_map_iter(|k| {
            let mut bad = vec![];
            let mut buf = Vec::with_capacity(8);
            for j in (k * chunk)..((k + 1) * chunk).min(n) {
                let v = from + j * step;
                // sign in the lowest bit, magnitude above it
                let mut bits: u64 = (v.unsigned_abs() << 1) | (v < 0) as u64;
                buf.clear();
                loop {
                    let group = (bits & 31) as usize;
                    bits >>= 5;
                    buf.push(table[group][(bits != 0) as usize]);
                    if bits == 0 {
                        break;
                    }
                }
                let r = catch_unwind(AssertUnwindSafe(|| base64vlq_encode(v as i32)));
                if !matches!(&r, Ok(t) if t.as_bytes() == &buf[..]) {
                    bad.push(v);
                    if bad.len() > 3 {
                        break;
                    }
                }
            }
            bad.into_iter()
        })
        .collect();
    json!({"count": if n > 2147483647 { 2147483647 } else { n }, "bad": bad.into_iter().take(20).collect::<Vec<_>>()})
}
