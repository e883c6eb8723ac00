//! Typed values: what they feed to the hasher, and insertions and queries with them.
use crate::obs::*;
use poppy_filters::v2::BloomFilter;
use poppy_filters::PoppyHash;
use serde_json::{json, Value};

#[derive(Hash)]
struct Record {
    n: i64,
    s: String,
    o: Option<u16>,
}
impl PoppyHash for Record {}

#[derive(Hash)]
struct Pair(u8, u8);
impl PoppyHash for Pair {}

fn on<T: PoppyHash>(b: &mut BloomFilter, insert: bool, v: T, pieces: Vec<Vec<u8>>, ev: &mut Value) {
    ev["pieces"] = json!(pieces);
    let it = BloomFilter::build_index_iter(&v);
    if insert {
        let mut c = b.clone();
        ev["res2"] = json!(res_bool(guard(|| c.insert_iter(it))));
        ev["res"] = json!(res_bool(guard(|| b.insert(&v))));
        ev["same"] = json!(image_v2(&c) == image_v2(b));
        ev["found"] = json!(res_bool(guard(|| Ok(b.contains(&v)))));
    } else {
        ev["res2"] = json!(res_bool(guard(|| b.contains_iter(it))));
        ev["res"] = json!(res_bool(guard(|| Ok(b.contains(&v)))));
    }
}

fn image_v2(b: &BloomFilter) -> Option<Vec<u8>> {
    let mut v = vec![];
    b.write(&mut v).ok().map(|_| v)
}

fn disc(x: isize) -> Vec<u8> {
    x.to_le_bytes().to_vec()
}

pub fn step(b: &mut BloomFilter, insert: bool, op: &Value, ev: &mut Value) {
    let ty = op["ty"].as_str().unwrap();
    let val = op["val"].as_str().unwrap();
    let n: i128 = val.parse().unwrap_or(0);
    macro_rules! int {
        ($t:ty) => {{
            let v = n as $t;
            on(b, insert, v, vec![v.to_le_bytes().to_vec()], ev)
        }};
    }
    macro_rules! opt {
        ($t:ty) => {{
            if val == "none" {
                on::<Option<$t>>(b, insert, None, vec![disc(0)], ev)
            } else {
                let v = n as $t;
                on(b, insert, Some(v), vec![disc(1), v.to_le_bytes().to_vec()], ev)
            }
        }};
    }
    match ty {
        "u8" => int!(u8),
        "u16" => int!(u16),
        "u32" => int!(u32),
        "u64" => int!(u64),
        "u128" => int!(u128),
        "usize" => int!(usize),
        "i8" => int!(i8),
        "i16" => int!(i16),
        "i32" => int!(i32),
        "i64" => int!(i64),
        "i128" => int!(i128),
        "isize" => int!(isize),
        "ou8" => opt!(u8),
        "ou32" => opt!(u32),
        "oi64" => opt!(i64),
        "ou128" => opt!(u128),
        "ostr" => {
            if val == "none" {
                on::<Option<String>>(b, insert, None, vec![disc(0)], ev)
            } else {
                let p = vec![disc(1), val.as_bytes().to_vec(), vec![255]];
                on(b, insert, Some(val.to_string()), p, ev)
            }
        }
        "pair" => {
            let v = n as u16;
            on(b, insert, Pair(v as u8, (v >> 8) as u8), vec![vec![v as u8], vec![(v >> 8) as u8]], ev)
        }
        _ => {
            let n = val.len() as i64 - 7;
            let o = if val.len() % 2 == 0 { None } else { Some(val.len() as u16) };
            let mut p = vec![n.to_le_bytes().to_vec(), val.as_bytes().to_vec(), vec![255]];
            match o {
                None => p.push(disc(0)),
                Some(x) => {
                    p.push(disc(1));
                    p.push(x.to_le_bytes().to_vec())
                }
            }
            on(b, insert, Record { n, s: val.to_string(), o }, p, ev)
        }
    }
}
