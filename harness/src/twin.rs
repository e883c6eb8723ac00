//! Carries out the histories that are also carried out through the Python module.
use crate::obs::*;
use crate::script::{fpp_of, gen_entry, unhex};
use poppy_filters::{BloomFilter, Error, OptLevel, Params};
use serde_json::{json, Value};
use std::io::{Cursor, Write};

/// Two checksums and the length, as the Python driver computes them.
pub fn sum(b: &[u8]) -> String {
    let (mut x, mut y) = (1u32, 0u32);
    let mut crc = !0u32;
    for &c in b {
        x = (x + c as u32) % 65521;
        y = (y + x) % 65521;
        crc ^= c as u32;
        for _ in 0..8 {
            crc = if crc & 1 == 1 { crc >> 1 ^ 0xedb8_8320 } else { crc >> 1 };
        }
    }
    format!("{:08x}{:08x}-{}", !crc, y << 16 | x, b.len())
}

fn see(f: &Option<BloomFilter>) -> Value {
    match f {
        None => json!({"none": true}),
        Some(f) => json!({
            "version": f.version(), "capacity": f.capacity().to_string(), "fpp": format!("{:016x}", f.fpp().to_bits()),
            "count": f.count_estimate().to_string(), "data": sum(f.data()), "full": f.is_full(),
            "dumps": sum(&image(f).unwrap_or_default()),
        }),
    }
}

/// What the bytes of another filter are turned into before they are loaded.
fn mangle(mut b: Vec<u8>, how: &str) -> Vec<u8> {
    match how {
        "tail" => b.extend((0..300u32).map(|i| (i * 7 % 256) as u8)),
        "cut" => b.truncate(b.len() / 2),
        "head" => b.truncate(9),
        "empty" => b.clear(),
        "version" => b[0] = 9,
        _ => {}
    }
    b
}

enum R {
    Value(Value),
    Error,
    File,
}

pub fn run(sc: &Value, out: &mut dyn Write) {
    let pool: Vec<Vec<u8>> = sc["pool"].as_array().unwrap().iter().map(|h| unhex(h.as_str().unwrap())).collect();
    let dir = std::path::PathBuf::from(sc["dir"].as_str().unwrap());
    let mut slots: Vec<Option<BloomFilter>> = vec![None, None, None];
    let obs = |s: &[Option<BloomFilter>]| -> Vec<Value> { s.iter().map(see).collect() };
    writeln!(out, "{}", json!({"op": "reset", "id": sc["id"], "obs": obs(&slots)})).unwrap();
    let mut next = 0u64;
    for op in sc["ops"].as_array().unwrap() {
        let name = op["op"].as_str().unwrap();
        let s = op["s"].as_u64().unwrap() as usize - 1;
        let other = op["o"].as_u64().and_then(|o| slots[o as usize - 1].clone());
        let path = op["path"].as_str().map(|p| if p == "full" { "/dev/full".into() } else { dir.join(p) });
        let e: &[u8] = op["e"].as_u64().map(|e| pool[e as usize - 1].as_slice()).unwrap_or(b"");
        let lib = |r: Result<Value, Error>| r.map(R::Value).unwrap_or(R::Error);
        let slot = &mut slots[s];
        let r = guard(|| match (name, slot.as_mut()) {
            ("new", _) => {
                let (v, cap, fpp, o) = (op["v"].as_u64().unwrap() as u8, op["cap"].as_u64().unwrap() as usize, fpp_of(op), op["opt"].as_u64().unwrap() as u8);
                let r = match op["ctor"].as_str().unwrap() {
                    "new" => BloomFilter::with_capacity(cap, fpp),
                    "version" => BloomFilter::with_version_capacity(v, cap, fpp),
                    _ => OptLevel::try_from(o).map_err(Error::from).and_then(|o| Params::new(cap, fpp).version(v).opt(o).try_into()),
                };
                lib(r.map(|f| {
                    *slot = Some(f);
                    json!("ok")
                }))
            }
            ("loads", _) => match &other {
                Some(g) => lib(BloomFilter::from_reader(Cursor::new(mangle(image(g).unwrap_or_default(), op["how"].as_str().unwrap()))).map(|f| {
                    *slot = Some(f);
                    json!("ok")
                })),
                None => R::Value(json!("skip")),
            },
            ("load", _) | ("reload", _) => match std::fs::File::open(path.as_ref().unwrap()) {
                Err(_) => R::File,
                Ok(fh) => lib(BloomFilter::from_reader(fh).map(|f| {
                    *slot = Some(f);
                    json!("ok")
                })),
            },
            (_, None) => R::Value(json!("skip")),
            ("insert_bytes", Some(f)) | ("insert_str", Some(f)) => lib(f.insert_bytes(e).map(|b| json!(b))),
            ("fill", Some(f)) => {
                let mut log = vec![];
                for _ in 0..op["n"].as_u64().unwrap() {
                    log.push(match f.insert_bytes(gen_entry(5, next, 12)) {
                        Ok(b) => b.to_string(),
                        Err(_) => "error".into(),
                    });
                    next += 1;
                }
                R::Value(json!(log))
            }
            ("contains_bytes", Some(f)) | ("contains_str", Some(f)) => R::Value(json!(f.contains_bytes(e))),
            ("is_full", Some(f)) => R::Value(json!(f.is_full())),
            ("union_merge", Some(f)) => match &other {
                Some(g) => lib(f.union_merge(g).map(|_| json!("ok"))),
                None => R::Value(json!("skip")),
            },
            ("count_common_entries", Some(f)) => match &other {
                Some(g) => lib(f.count_common_entries(g).map(|n| json!(n.to_string()))),
                None => R::Value(json!("skip")),
            },
            ("save", Some(f)) => match std::fs::File::create(path.as_ref().unwrap()) {
                Err(_) => R::File,
                Ok(mut fh) => lib(f.write(&mut fh).map(|_| json!("ok"))),
            },
            (n, _) => panic!("unknown operation {n}"),
        });
        let (kind, val) = match r {
            Ok(R::Value(v)) => ("value", v),
            Ok(R::Error) => ("error", json!("")),
            Ok(R::File) => ("file", json!("")),
            Err(_) => ("panic", json!("")),
        };
        let mut ev = op.clone();
        ev["r"] = json!({"kind": kind, "val": val, "obs": obs(&slots)});
        writeln!(out, "{}", ev).unwrap();
        out.flush().unwrap();
    }
}
