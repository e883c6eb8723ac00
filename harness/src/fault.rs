//! Saves to and loads from devices that fail.
use crate::io::{Reader, Writer};
use crate::load::build;
use crate::obs::*;
use poppy_filters::{v1, v2, BloomFilter};
use serde_json::{json, Value};
use std::io::{Cursor, Write};

pub fn run(sc: &Value, out: &mut dyn Write) {
    let mut emit = |v: Value| {
        writeln!(out, "{}", v).unwrap();
        out.flush().unwrap();
    };
    emit(json!({"op": "reset", "id": sc["id"]}));
    let (img, l) = build(sc);
    let Ok(f) = BloomFilter::from_reader(Cursor::new(&img)) else { return };
    emit(json!({"op": "file", "len": img.len()}));
    let (chunk, intr) = (sc["chunk"].as_u64().unwrap() as usize, sc["intr"].as_u64().unwrap() as usize);
    let kind = sc["kind"].as_str().unwrap();
    let step = sc["step"].as_u64().unwrap() as usize;
    let first = sc["first"].as_u64().unwrap() as usize % step;
    let n = img.len();
    // every step-th offset, the beginning, the end and what is around it
    let mut ats: Vec<usize> = (0..=n + 1).filter(|a| a % step == first || *a < 3 || *a + 12 > n || (*a + 1 >= l.bits.1 && *a <= l.bits.1 + 1)).collect();
    ats.push(n + 10_000);
    for at in ats {
        if sc["dir"] == "w" {
            let mut w = Writer::new(chunk, intr, Some(at));
            w.zero = kind == "zero";
            w.once = kind == "once";
            w.flush_fails = kind == "flush";
            let special = sc["typed"].as_bool() == Some(true);
            let res = res_unit(guard(|| match (special, &f) {
                (true, BloomFilter::V1(b)) => b.write(&mut w),
                (true, BloomFilter::V2(b)) => b.write(&mut w),
                _ => f.write(&mut w),
            }));
            emit(json!({"op": "save", "at": at, "res": res, "got": w.data.len(), "prefix": img.starts_with(&w.data), "failed": w.failed}));
        } else {
            for how in ["gen", "typed", "partial"] {
                let mut r = Reader::new(&img, chunk, intr, Some(at as u64));
                r.once = kind == "once";
                let g = guard(|| match (how, l.v) {
                    ("typed", 1) => v1::BloomFilter::from_reader(&mut r).map(BloomFilter::V1),
                    ("typed", _) => v2::BloomFilter::from_reader(&mut r).map(BloomFilter::V2),
                    ("partial", _) => BloomFilter::partial_from_reader(&mut r),
                    _ => BloomFilter::from_reader(&mut r),
                });
                let (res, same) = match &g {
                    Ok(Ok(g)) if how == "partial" => (
                        "ok".to_string(),
                        g.version() == f.version() && g.capacity() == f.capacity() && g.fpp() == f.fpp() && g.data() == f.data() && g.count_estimate() == f.count_estimate(),
                    ),
                    Ok(Ok(g)) => ("ok".to_string(), image(g).as_deref() == Some(&img[..])),
                    Ok(Err(e)) => (err_kind(e).to_string(), false),
                    Err(_) => ("panic".to_string(), false),
                };
                emit(json!({"op": "read", "how": how, "at": at, "res": res, "same": same, "failed": r.failed}));
            }
        }
    }
}
