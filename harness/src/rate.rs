//! Measures the rate of false positives.
use crate::obs::*;
use crate::script::{gen_entry, make};
use poppy_filters::BloomFilter;
use serde_json::{json, Value};
use std::io::{Cursor, Write};

pub fn run(sc: &Value, out: &mut dyn Write) {
    let mut emit = |v: Value| {
        writeln!(out, "{}", v).unwrap();
        out.flush().unwrap();
    };
    emit(json!({"op": "reset", "id": sc["id"]}));
    let cap = sc["cfg"]["cap"].as_u64().unwrap();
    let n = sc["n"].as_u64().unwrap();
    let q = sc["q"].as_u64().unwrap();
    let len = sc["len"].as_u64().unwrap() as usize;
    let seed = sc["seed"].as_u64().unwrap();
    let look = sc["look"].as_str().unwrap();
    let common = gen_entry(seed, 1 << 50, 8 * len);
    let entry = |i: u64| match look {
        // hexadecimal digits, as hashes are mostly written
        "hex" => gen_entry(seed, i, len.div_ceil(2).max(9)).iter().map(|b| format!("{b:02x}")).collect::<String>().into_bytes(),
        // all begin, or end, alike
        "begin" => [&common[..], format!("{i}").as_bytes()].concat(),
        "end" => [format!("{i}").as_bytes(), &common[..]].concat(),
        "middle" => [&common[..len], &i.to_be_bytes()[..], &common[len..]].concat(),
        _ => gen_entry(seed, i, len),
    };
    let path = sc["path"].as_str().unwrap();
    let r = guard(|| {
        let mut f = make(&sc["cfg"]).map_err(|e| err_kind(&e).to_string())?;
        let refused = std::cell::Cell::new(0u64);
        let ins = |f: &mut BloomFilter, a: u64, b: u64| {
            for i in a..b {
                if f.insert_bytes(entry(i)).is_err() {
                    refused.set(refused.get() + 1)
                }
            }
        };
        match path {
            "direct" => ins(&mut f, 0, n),
            // other entries before
            "cleared" => {
                ins(&mut f, 1 << 40, (1 << 40) + cap);
                f.clear();
                refused.set(0);
                ins(&mut f, 0, n)
            }
            "union" => {
                let mut g = f.clone();
                ins(&mut f, 0, n / 2);
                ins(&mut g, n / 2, n);
                f.union_merge(&g).map_err(|e| err_kind(&e).to_string())?;
            }
            "reloaded" => {
                ins(&mut f, 0, n / 3);
                f = BloomFilter::from_reader(Cursor::new(image(&f).unwrap_or_default())).map_err(|e| err_kind(&e).to_string())?;
                ins(&mut f, n / 3, n);
                f = BloomFilter::from_reader(Cursor::new(image(&f).unwrap_or_default())).map_err(|e| err_kind(&e).to_string())?;
            }
            _ => unreachable!(),
        }
        // an entry with one of its positions taken away is not found
        let mut near = 0;
        for i in 0..sc["near"].as_u64().unwrap() {
            let mut g = f.clone();
            g.clear();
            if g.insert_bytes(entry(i)).is_err() {
                continue;
            }
            let mut img = image(&g).unwrap_or_default();
            let l = layout(&img).unwrap_or_default();
            let set: Vec<usize> = (l.bits.0 * 8..l.bits.1 * 8).filter(|p| img[p / 8] >> (p % 8) & 1 == 1).collect();
            for p in set {
                img[p / 8] ^= 1 << (p % 8);
                let g = BloomFilter::from_reader(Cursor::new(&img)).map_err(|e| err_kind(&e).to_string())?;
                near += g.contains_bytes(entry(i)) as u64;
                img[p / 8] ^= 1 << (p % 8);
            }
        }
        let fp = (0..q).filter(|i| f.contains_bytes(entry((1 << 41) + i))).count();
        let missing = (0..n).filter(|i| !f.contains_bytes(entry(*i))).count() as u64;
        // bits set in each bucket and in the cache
        let img = image(&f).unwrap_or_default();
        let l = layout(&img).unwrap_or_default();
        let pop = |b: &[u8]| b.iter().map(|x| x.count_ones()).sum::<u32>();
        let occ: Vec<u32> = img[l.bits.0..l.bits.1].chunks(4096).map(pop).collect();
        let cache = pop(&img[l.cache.0..l.cache.1]);
        Ok::<_, String>((fp, refused.get(), missing, json!({"k": clip(l.k), "cb": clip(l.cb), "cache": cache, "occ": occ, "near": near, "fpp": format!("{:016x}", f.fpp().to_bits())})))
    });
    let mut ev = json!({"op": "rate", "res": "ok", "n": n, "cap": clip(cap), "opt": sc["cfg"]["opt"], "q": q, "path": path});
    match r {
        Ok(Ok((fp, r, m, o))) => {
            ev["fp"] = json!(fp);
            ev["refused"] = json!(r);
            ev["missing"] = json!(m);
            ev.as_object_mut().unwrap().extend(o.as_object().unwrap().clone());
        }
        Ok(Err(e)) => ev["res"] = json!(e),
        Err(_) => ev["res"] = json!("panic"),
    }
    emit(ev);
}
