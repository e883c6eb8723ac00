//! Looks into a filter file.
use crate::obs::*;
use crate::script::{make, unhex};
use poppy_filters::BloomFilter;
use serde_json::{json, Value};
use std::io::Write;

pub fn run(sc: &Value, out: &mut dyn Write) {
    writeln!(out, "{}", json!({"op": "reset", "id": sc["id"]})).unwrap();
    let pool: Vec<Vec<u8>> = sc["pool"].as_array().unwrap().iter().map(|h| unhex(h.as_str().unwrap())).collect();
    let r = guard(|| BloomFilter::from_reader(std::fs::File::open(sc["file"].as_str().unwrap())?));
    let ev = match r {
        Ok(Ok(f)) => {
            let post = observe(&f, &pool, &Opts { lite: false, desc: false });
            // what the entries hash to in a filter like this one
            let blank = make(&json!({"v": post["v"], "cap": post["cap"], "fpp": post["fpp"], "opt": post["opt"]})).unwrap();
            let ent: Vec<Value> = pool
                .iter()
                .map(|e| {
                    let mut g = blank.clone();
                    let _ = guard(|| g.insert_bytes(e));
                    let b = image(&g).unwrap_or_default();
                    let l = layout(&b).unwrap_or_default();
                    let flat = |r: Vec<u64>| -> Vec<u64> { r.chunks(2).flat_map(|c| c[0]..=c[1]).collect() };
                    let c = flat(runs(&b[l.cache.0..l.cache.1]));
                    json!({"pos": flat(runs(&b[l.bits.0..l.bits.1])), "c": c.first().copied().unwrap_or(0)})
                })
                .collect();
            json!({"op": "probe", "file": "filter", "post": post, "ent": ent})
        }
        Ok(Err(_)) => json!({"op": "probe", "file": "junk"}),
        Err(_) => json!({"op": "probe", "file": "panic"}),
    };
    writeln!(out, "{}", ev).unwrap();
    out.flush().unwrap();
}
