//! Replays scripts of filter operations and records what was observed.
use crate::io::{Reader, Writer};
use crate::obs::*;
use crate::typed;
use poppy_filters::{v1, v2, BloomFilter, Error, Params};
use serde_json::{json, Value};
use std::io::{Cursor, Write};

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// i-th generated entry of a given length (at least 9 bytes, so hashed)
pub fn gen_entry(seed: u64, i: u64, len: usize) -> Vec<u8> {
    let mut x = seed ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let mut out = Vec::with_capacity(len + 8);
    out.extend_from_slice(&i.to_le_bytes());
    while out.len() < len {
        // splitmix64
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        out.extend_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out.truncate(len);
    out
}

pub fn make(c: &Value) -> Result<BloomFilter, Error> {
    let fpp = fpp_of(c);
    let p = Params::new(c["cap"].as_u64().unwrap() as usize, fpp)
        .version(c["v"].as_u64().unwrap() as u8)
        .opt(opt_level(c["opt"].as_u64().unwrap()));
    BloomFilter::try_from(p)
}

pub fn fpp_of(c: &Value) -> f64 {
    match &c["fpp"] {
        Value::String(s) => f64::from_bits(u64::from_str_radix(s, 16).unwrap()),
        v => v.as_f64().unwrap(),
    }
}

pub fn insert_how(f: &mut BloomFilter, e: &[u8], how: &str) -> std::thread::Result<Result<bool, Error>> {
    let s = std::str::from_utf8(e).ok();
    guard(|| match (how, &mut *f) {
        ("spec", BloomFilter::V1(b)) => b.insert_bytes(e),
        ("spec", BloomFilter::V2(b)) => b.insert_bytes(e.to_vec()),
        ("vec", BloomFilter::V2(b)) => b.insert(&e.to_vec()),
        ("slice", BloomFilter::V2(b)) => b.insert(&e),
        ("iter", BloomFilter::V2(b)) => b.insert_iter(v2::BloomFilter::build_index_iter(&e)),
        ("iter2", BloomFilter::V2(b)) => {
            // one prepared hash used on several filters and for queries first
            let it = v2::BloomFilter::build_index_iter(&e.to_vec());
            let mut other = v2::BloomFilter::with_capacity(10, 0.001).unwrap();
            other.insert_iter(it).ok();
            let _ = b.contains_iter(it);
            b.insert_iter(it)
        }
        ("str", g) if s.is_some() => g.insert_bytes(s.unwrap()),
        ("string", BloomFilter::V2(b)) if s.is_some() => b.insert(&s.unwrap().to_string()),
        ("strref", BloomFilter::V2(b)) if s.is_some() => b.insert(&s.unwrap()),
        ("striter", BloomFilter::V2(b)) if s.is_some() => {
            b.insert_iter(v2::BloomFilter::build_index_iter(&s.unwrap().to_string()))
        }
        ("owned", g) => g.insert_bytes(e.to_vec()),
        (_, g) => g.insert_bytes(e),
    })
}

pub fn contains_how(f: &BloomFilter, e: &[u8], how: &str) -> std::thread::Result<Result<bool, Error>> {
    let s = std::str::from_utf8(e).ok();
    guard(|| match (how, f) {
        ("spec", BloomFilter::V1(b)) => Ok(b.contains_bytes(e)),
        ("spec", BloomFilter::V2(b)) => Ok(b.contains_bytes(e.to_vec())),
        ("vec", BloomFilter::V2(b)) => Ok(b.contains(&e.to_vec())),
        ("slice", BloomFilter::V2(b)) => Ok(b.contains(&e)),
        ("iter", BloomFilter::V2(b)) | ("iter2", BloomFilter::V2(b)) => {
            let it = v2::BloomFilter::build_index_iter(&e);
            let r1 = b.contains_iter(it)?;
            let r2 = b.contains_iter(it)?;
            assert_eq!(r1, r2);
            Ok(r1)
        }
        ("str", g) if s.is_some() => Ok(g.contains_bytes(s.unwrap())),
        ("string", BloomFilter::V2(b)) if s.is_some() => Ok(b.contains(&s.unwrap().to_string())),
        ("strref", BloomFilter::V2(b)) if s.is_some() => Ok(b.contains(&s.unwrap())),
        ("striter", BloomFilter::V2(b)) if s.is_some() => {
            b.contains_iter(v2::BloomFilter::build_index_iter(&s.unwrap()))
        }
        ("owned", g) => Ok(g.contains_bytes(e.to_vec())),
        (_, g) => Ok(g.contains_bytes(e)),
    })
}

pub fn load_how(like: &BloomFilter, b: &[u8], how: &str) -> std::thread::Result<Result<BloomFilter, Error>> {
    guard(|| match how {
        "spec" => specific(like, b),
        "chunk1" => BloomFilter::from_reader(Reader::new(b, 1, 0, None)),
        "chunk7" => BloomFilter::from_reader(Reader::new(b, 7, 3, None)),
        "spec13" => match like {
            BloomFilter::V1(_) => v1::BloomFilter::from_reader(Reader::new(b, 13, 2, None)).map(BloomFilter::V1),
            BloomFilter::V2(_) => v2::BloomFilter::from_reader(Reader::new(b, 13, 2, None)).map(BloomFilter::V2),
        },
        "chunk4095" => BloomFilter::from_reader(Reader::new(b, 4095, 0, None)),
        _ => BloomFilter::from_reader(Cursor::new(b)),
    })
}

pub fn union_how(f: &mut BloomFilter, g: &BloomFilter, how: &str) -> std::thread::Result<Result<(), Error>> {
    guard(|| match (how, &mut *f, g) {
        ("spec", BloomFilter::V1(a), BloomFilter::V1(b)) => a.union_merge(b),
        ("spec", BloomFilter::V2(a), BloomFilter::V2(b)) => a.union_merge(b),
        ("consume", BloomFilter::V2(a), BloomFilter::V2(b)) => {
            *a = a.clone().union(b.clone())?;
            Ok(())
        }
        (_, a, b) => a.union_merge(b),
    })
}

pub fn inter_how(f: &mut BloomFilter, g: &BloomFilter, how: &str) -> Option<std::thread::Result<Result<(), Error>>> {
    match (f, g) {
        (BloomFilter::V2(a), BloomFilter::V2(b)) => Some(guard(|| {
            if how == "consume" {
                *a = a.clone().intersection(b.clone())?;
                Ok(())
            } else {
                a.intersection_merge(b)
            }
        })),
        _ => None,
    }
}

pub fn set_data(f: &mut BloomFilter, d: Vec<u8>) {
    match f {
        BloomFilter::V1(b) => b.data = d,
        BloomFilter::V2(b) => b.data = d,
    }
}

pub fn data_blob(kind: u64) -> Vec<u8> {
    let n = match kind {
        0 => 0,
        1 => 1,
        2 => 17,
        3 => 8192,
        4 => 100_003,
        6 => 3_000_017,
        _ => 300,
    };
    (0..n).map(|i: usize| (i.wrapping_mul(2654435761) >> 13) as u8 ^ kind as u8).collect()
}

/// Inserts the pool and a few more into a copy and saves it: two filters
/// that are the same must stay the same.
fn afterwards(f: &BloomFilter, pool: &[Vec<u8>], extra: u64) -> String {
    let r = guard(|| {
        let mut g = f.clone();
        let mut log = String::new();
        for e in pool {
            log.push_str(&res_bool(guard(|| g.insert_bytes(e))));
            log.push(',');
        }
        for i in 0..extra {
            let e = gen_entry(77, i, 12);
            log.push_str(&res_bool(guard(|| g.insert_bytes(&e))));
            log.push(',');
        }
        let h = g.clone();
        log.push_str(&res_unit(guard(|| g.union_merge(&h))));
        let m = meta(&g);
        let b = image(&g).unwrap_or_default();
        let d = layout(&b).map(|l| l.data).unwrap_or(b.len());
        let x = digest(&b[..d]);
        log.push_str(&format!("{}|{}|{}|{}", m["cnt"], m["full"], m["size"], x));
        digest(log.as_bytes())
    });
    r.unwrap_or_else(|_| "panic".into())
}

struct Slot {
    f: BloomFilter,
    cfg: Value,
}

pub fn run(sc: &Value, out: &mut dyn Write) {
    let pool: Vec<Vec<u8>> =
        sc["pool"].as_array().unwrap().iter().map(|h| unhex(h.as_str().unwrap())).collect();
    let cfgs = sc["cfgs"].as_array().unwrap();
    let lite = sc["lite"].as_bool().unwrap_or(false);
    let with_ref = sc["ref"].as_bool().unwrap_or(false);
    let raw = sc["raw"].as_bool().unwrap_or(false);
    let seed = sc["seed"].as_u64().unwrap_or(0);
    let extra = sc["extra"].as_u64().unwrap_or(5);
    let o = Opts { lite, desc: sc["desc"].as_bool().unwrap_or(false) };
    let mut slots: Vec<Option<Slot>> = (0..8).map(|_| None).collect();
    let mut emit = |v: Value| {
        writeln!(out, "{}", v).unwrap();
        out.flush().unwrap();
    };
    emit(json!({"op": "reset", "id": sc["id"], "pool": pool.len()}));
    if raw {
        for (i, e) in pool.iter().enumerate() {
            emit(json!({"op": "entry", "e": i + 1, "b": e}));
        }
    }
    for op in sc["ops"].as_array().unwrap() {
        let name = op["op"].as_str().unwrap();
        let s = op["s"].as_u64().unwrap_or(1) as usize;
        let so = op["o"].as_u64().unwrap_or(1) as usize;
        let how = op["how"].as_str().unwrap_or("");
        let ei = op["e"].as_u64().unwrap_or(1) as usize;
        let e: &[u8] = pool.get(ei - 1).map(|v| v.as_slice()).unwrap_or(b"");
        let mut ev = op.clone();
        if name == "create" {
            let c = &cfgs[(op["c"].as_u64().unwrap() - 1) as usize];
            match guard(|| make(c)) {
                Ok(Ok(f)) => {
                    ev["res"] = json!("ok");
                    ev["post"] = observe(&f, &pool, &o);
                    ev["cfg"] = cfg_event(c);
                    slots[s] = Some(Slot { f, cfg: c.clone() });
                }
                Ok(Err(x)) => {
                    ev["res"] = json!(err_kind(&x));
                    ev["op"] = json!("nocreate");
                }
                Err(_) => {
                    ev["res"] = json!("panic");
                    ev["op"] = json!("nocreate");
                }
            }
            emit(ev);
            continue;
        }
        if slots[s].is_none() {
            continue;
        }
        let other: Option<BloomFilter> = match name {
            "union" | "inter" | "common" => match &slots[so] {
                Some(x) => Some(x.f.clone()),
                None => continue,
            },
            _ => None,
        };
        let slot = slots[s].as_mut().unwrap();
        match name {
            "insert" => {
                let before = if with_ref { Some(slot.f.clone()) } else { None };
                if how == "fill" {
                    let mut rf = slot.f.clone();
                    let rr = res_bool(guard(|| rf.insert_bytes(e)));
                    let r = res_unit(guard(|| slot.f.fill(vec![e])));
                    // fill does not tell whether the entry was new
                    let r = if r == "ok" && (rr == "true" || rr == "false") { rr } else { r };
                    ev["res"] = json!(r);
                } else {
                    ev["res"] = json!(res_bool(insert_how(&mut slot.f, e, how)));
                }
                if let Some(mut rf) = before {
                    let rr = res_bool(guard(|| rf.insert_bytes(e)));
                    ev["refres"] = json!(rr);
                    ev["ref"] = observe(&rf, &pool, &o);
                }
                ev["post"] = observe(&slot.f, &pool, &o);
            }
            "tinsert" | "tcontains" => {
                let BloomFilter::V2(b) = &mut slot.f else { continue };
                typed::step(b, name == "tinsert", op, &mut ev);
                ev["post"] = observe(&slot.f, &pool, &o);
            }
            // a prepared hash that was not prepared
            "spent" => {
                let BloomFilter::V2(b) = &mut slot.f else { continue };
                ev["res"] = json!(res_bool(guard(|| b.contains_iter(Default::default()))));
                ev["res2"] = json!(res_bool(guard(|| b.insert_iter(Default::default()))));
                ev["post"] = observe(&slot.f, &pool, &o);
            }
            "contains" => {
                ev["res"] = json!(res_bool(contains_how(&slot.f, e, how)));
                ev["post"] = observe(&slot.f, &pool, &o);
            }
            "union" | "inter" => {
                let g = other.unwrap();
                let r = if name == "union" {
                    Some(union_how(&mut slot.f, &g, how))
                } else {
                    inter_how(&mut slot.f, &g, how)
                };
                match r {
                    Some(r) => ev["res"] = json!(res_unit(r)),
                    None => continue,
                }
                ev["post"] = observe(&slot.f, &pool, &o);
                ev["opost"] = observe(&g, &pool, &o);
            }
            "common" => {
                let g = other.unwrap();
                let run = |a: &BloomFilter, b: &BloomFilter| match guard(|| match (how, a, b) {
                    ("spec", BloomFilter::V1(a), BloomFilter::V1(b)) => a.count_common_entries(b),
                    ("spec", BloomFilter::V2(a), BloomFilter::V2(b)) => a.count_common_entries(b),
                    _ => a.count_common_entries(b),
                }) {
                    Ok(Ok(n)) => ("ok".to_string(), clip(n as u64)),
                    Ok(Err(e)) => (err_kind(&e).to_string(), 0),
                    Err(_) => ("panic".to_string(), 0),
                };
                let (r, n) = run(&slot.f, &g);
                let (r2, n2) = run(&g, &slot.f);
                ev["res"] = json!(if r == r2 { r } else { format!("{r}/{r2}") });
                ev["n"] = json!(n);
                ev["n2"] = json!(n2);
                ev["post"] = observe(&slot.f, &pool, &o);
                ev["opost"] = observe(&g, &pool, &o);
            }
            "clear" => {
                ev["res"] = json!(match guard(|| match (how, &mut slot.f) {
                    ("spec", BloomFilter::V1(b)) => b.clear(),
                    ("spec", BloomFilter::V2(b)) => b.clear(),
                    (_, b) => b.clear(),
                }) {
                    Ok(()) => "ok",
                    Err(_) => "panic",
                });
                let fresh = make(&slot.cfg).unwrap();
                ev["post"] = observe(&slot.f, &pool, &o);
                ev["fresh"] = observe(&fresh, &pool, &o);
                ev["tw1"] = json!(afterwards(&slot.f, &pool, extra));
                ev["tw2"] = json!(afterwards(&fresh, &pool, extra));
            }
            "clone" => {
                let c = slot.f.clone();
                ev["res"] = json!("ok");
                ev["post"] = observe(&slot.f, &pool, &o);
                ev["opost"] = observe(&c, &pool, &o);
                let cfg = slot.cfg.clone();
                slots[so] = Some(Slot { f: c, cfg });
            }
            "load" => {
                let img = image(&slot.f).unwrap_or_default();
                match load_how(&slot.f, &img, how) {
                    Ok(Ok(g)) => {
                        ev["res"] = json!("ok");
                        ev["tw1"] = json!(afterwards(&slot.f, &pool, extra));
                        ev["tw2"] = json!(afterwards(&g, &pool, extra));
                        ev["alike"] = json!(slot.f.has_same_params(&g) && g.has_same_params(&slot.f));
                        ev["post"] = observe(&g, &pool, &o);
                        slot.f = g;
                    }
                    r => {
                        ev["res"] = json!(match r {
                            Ok(Err(e)) => err_kind(&e),
                            _ => "panic",
                        });
                        ev["tw1"] = json!("");
                        ev["tw2"] = json!("");
                        ev["alike"] = json!(false);
                        ev["post"] = observe(&slot.f, &pool, &o);
                    }
                }
            }
            "partial" => {
                let img = image(&slot.f).unwrap_or_default();
                let r = guard(|| match how {
                    "chunk1" => BloomFilter::partial_from_reader(Reader::new(&img, 1, 0, None)),
                    "chunk7" => BloomFilter::partial_from_reader(Reader::new(&img, 7, 3, None)),
                    _ => BloomFilter::partial_from_reader(Cursor::new(&img)),
                });
                match r {
                    Ok(Ok(g)) => {
                        ev["res"] = json!("ok");
                        ev["meta"] = meta(&g);
                        if o.desc {
                            ev["desc"] = desc(&g, false);
                        }
                    }
                    Ok(Err(e)) => {
                        ev["res"] = json!(err_kind(&e));
                        ev["meta"] = json!({});
                    }
                    Err(_) => {
                        ev["res"] = json!("panic");
                        ev["meta"] = json!({});
                    }
                }
                ev["post"] = observe(&slot.f, &pool, &o);
            }
            "save" => {
                let mut w = match how {
                    "chunk1" => Writer::new(1, 0, None),
                    "chunk7" => Writer::new(7, 3, None),
                    _ => Writer::new(4097, 2, None),
                };
                let r = guard(|| match &slot.f {
                    BloomFilter::V1(b) if how == "spec" => b.write(&mut w),
                    BloomFilter::V2(b) if how == "spec" => b.write(&mut w),
                    b => b.write(&mut w),
                });
                ev["res"] = json!(res_unit(r));
                ev["img"] = json!(digest(&w.data));
                ev["post"] = observe(&slot.f, &pool, &o);
            }
            "setdata" => {
                let d = data_blob(op["d"].as_u64().unwrap_or(2));
                if raw {
                    ev["b"] = json!(d);
                }
                set_data(&mut slot.f, d);
                ev["res"] = json!("ok");
                ev["post"] = observe(&slot.f, &pool, &o);
            }
            // a filter with the given bits, as files may hold and many
            // unions lead to: all bits, or all but a few, of all or some regions
            "forge" => {
                let mut img = image(&slot.f).unwrap_or_default();
                if let Some(l) = layout(&img) {
                    let n = l.bits.1 - l.bits.0;
                    let every = op["every"].as_u64().unwrap_or(1).max(1) as usize;
                    let keep = op["keep"].as_u64().unwrap_or(0) as usize;
                    for i in 0..n {
                        let in_region = i % 4096;
                        if (i / 4096) % every == 0 && in_region >= keep {
                            img[l.bits.0 + i] = 0xff;
                        }
                    }
                    // bits beyond the size of a v1 filter are never used
                    if l.v == 1 && l.m % 64 != 0 {
                        for p in l.m..l.m.div_ceil(64) * 64 {
                            img[l.bits.0 + (p / 8) as usize] &= !(1 << (p % 8));
                        }
                    }
                    for i in l.cache.0..l.cache.1 {
                        img[i] = 0xff;
                    }
                    if let Some(c) = op["cnt"].as_u64() {
                        let at = if l.v == 1 { 40 } else { 32 };
                        img[at..at + 8].copy_from_slice(&c.to_le_bytes());
                    }
                }
                match guard(|| BloomFilter::from_reader(Cursor::new(&img))) {
                    Ok(Ok(g)) => slot.f = g,
                    _ => continue,
                }
                ev["res"] = json!("ok");
                ev["post"] = observe(&slot.f, &pool, &o);
            }
            "bulk" => {
                let (from, n) = (op["from"].as_u64().unwrap(), op["n"].as_u64().unwrap());
                let len = op["len"].as_u64().unwrap() as usize;
                let (mut new, mut dup, mut refused, mut bad) = (0u64, 0u64, 0u64, 0u64);
                let (mut acc, mut at) = (n, 0u64);
                let (mut fpnew, mut lost) = (0u64, 0u64);
                for i in from..from + n {
                    let e = gen_entry(seed, i, len);
                    let had = contains(&slot.f, &e).unwrap_or(false);
                    let r = res_bool(insert_how(&mut slot.f, &e, how));
                    match r.as_str() {
                        "true" => {
                            new += 1;
                            if had {
                                fpnew += 1
                            }
                        }
                        "false" => {
                            dup += 1;
                            if !had {
                                lost += 1
                            }
                        }
                        "TooMany" => {
                            if refused == 0 {
                                acc = i - from;
                                at = slot.f.count_estimate();
                            }
                            refused += 1
                        }
                        _ => bad += 1,
                    }
                }
                ev["res"] = json!("ok");
                ev["new"] = json!(new);
                ev["fpnew"] = json!(fpnew);
                ev["dup"] = json!(dup);
                ev["lost"] = json!(lost);
                ev["refused"] = json!(refused);
                ev["bad"] = json!(bad);
                ev["acc"] = json!(acc);
                ev["at"] = json!(clip(at));
                ev["post"] = observe(&slot.f, &pool, &o);
            }
            "sweep" => {
                let (from, n) = (op["from"].as_u64().unwrap(), op["n"].as_u64().unwrap());
                let len = op["len"].as_u64().unwrap() as usize;
                let mut missing = 0u64;
                for i in from..from + n {
                    let e = gen_entry(seed, i, len);
                    if res_bool(contains_how(&slot.f, &e, how)) != "true" {
                        missing += 1;
                    }
                }
                ev["res"] = json!("ok");
                ev["missing"] = json!(missing);
                ev["post"] = observe(&slot.f, &pool, &o);
            }
            "image" => {
                let img = image(&slot.f).unwrap_or_default();
                ev["res"] = json!("ok");
                let l = layout(&img).unwrap_or_default();
                let hdr = img.len().min(if l.v == 2 { 48 } else { 48 });
                ev["hdr"] = json!(&img[..hdr]);
                let nz: Vec<Value> = img
                    .iter()
                    .enumerate()
                    .skip(hdr)
                    .filter(|(_, b)| **b != 0)
                    .map(|(i, b)| json!([i, b]))
                    .collect();
                ev["nz"] = json!(nz);
                ev["len"] = json!(img.len());
                ev["post"] = observe(&slot.f, &pool, &o);
            }
            x => panic!("unknown op {x}"),
        }
        emit(ev);
    }

}

pub fn cfg_event(c: &Value) -> Value {
    json!({"v": c["v"], "cap": clip(c["cap"].as_u64().unwrap()), "opt": c["opt"],
           "fpp": format!("{:016x}", fpp_of(c).to_bits())})
}
