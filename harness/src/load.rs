//! Loads damaged byte strings.
use crate::io::Reader;
use crate::obs::*;
use crate::script::{data_blob, gen_entry, make, set_data};
use poppy_filters::{v1, v2, BloomFilter};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout as L, System};
use std::io::{Cursor, Write};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// Keeps account of the memory in use and its peak.
pub struct Counting;
static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

fn grow(n: usize) {
    let now = NOW.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(now, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: L) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            grow(l.size())
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: L) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            grow(l.size())
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: L) {
        System.dealloc(p, l);
        NOW.fetch_sub(l.size(), Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: L, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // both may exist for a moment
            grow(n);
            NOW.fetch_sub(l.size(), Relaxed);
        }
        q
    }
}

fn measured(f: impl FnOnce() -> String) -> (String, usize) {
    let before = NOW.load(Relaxed);
    PEAK.store(before, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed) - before)
}

fn size(orig: u64, to: &str) -> u64 {
    match to {
        "zero" => 0,
        "one" => 1,
        "less" => orig.wrapping_sub(1),
        "more" => orig.wrapping_add(1),
        "more9" => orig.wrapping_add(9),
        "big31" => 1 << 31,
        "big32" => (1 << 32) + 8,
        "big50" => 1 << 50,
        "big61" => 1 << 61,
        "big63" => (1 << 63) - 1,
        _ => u64::MAX,
    }
}

fn fpp(to: &str) -> u64 {
    match to {
        "zero" => 0,
        "negzero" => 1 << 63,
        "neg" => (-0.5f64).to_bits(),
        "above" => 1.0f64.to_bits() + 1,
        "two" => 2.0f64.to_bits(),
        "inf" => f64::INFINITY.to_bits(),
        "neginf" => f64::NEG_INFINITY.to_bits(),
        "nan" => f64::NAN.to_bits(),
        "nnan" => f64::NAN.to_bits() | 1 << 63,
        "subnormal" => 3,
        "min" => f64::MIN_POSITIVE.to_bits(),
        _ => 1.0f64.to_bits(),
    }
}

/// A saved filter, and where its fields are.
pub fn build(sc: &Value) -> (Vec<u8>, Layout) {
    let mut f = make(&sc["cfg"]).unwrap();
    for i in 0..sc["fill"].as_u64().unwrap_or(0) {
        let _ = f.insert_bytes(gen_entry(sc["seed"].as_u64().unwrap_or(0), i, 12));
    }
    set_data(&mut f, data_blob(sc["data"].as_u64().unwrap_or(0)));
    let img = image(&f).unwrap_or_default();
    let l = layout(&img).unwrap_or_default();
    (img, l)
}

fn one(b: &[u8], how: &str, chunk: usize) -> (String, usize) {
    macro_rules! go {
        ($f:expr) => {
            match guard(|| $f) {
                Ok(Ok(_)) => "ok".into(),
                Ok(Err(e)) => err_kind(&e).into(),
                Err(_) => "panic".to_string(),
            }
        };
    }
    measured(|| {
        if chunk == 0 {
            let c = Cursor::new(b);
            match how {
                "gen" => go!(BloomFilter::from_reader(c).map(|_| ())),
                "v1" => go!(v1::BloomFilter::from_reader(c).map(|_| ())),
                "v2" => go!(v2::BloomFilter::from_reader(c).map(|_| ())),
                _ => go!(BloomFilter::partial_from_reader(c).map(|_| ())),
            }
        } else {
            let c = Reader::new(b, chunk, 0, None);
            match how {
                "gen" => go!(BloomFilter::from_reader(c).map(|_| ())),
                "v1" => go!(v1::BloomFilter::from_reader(c).map(|_| ())),
                "v2" => go!(v2::BloomFilter::from_reader(c).map(|_| ())),
                _ => go!(BloomFilter::partial_from_reader(c).map(|_| ())),
            }
        }
    })
}

pub fn run(sc: &Value, out: &mut dyn Write) {
    let mut emit = |v: Value| {
        writeln!(out, "{}", v).unwrap();
        out.flush().unwrap();
    };
    emit(json!({"op": "reset", "id": sc["id"]}));
    let (mut img, l) = match sc["bytes"].as_str() {
        Some(h) => (crate::script::unhex(h), Layout::default()),
        None => build(sc),
    };
    let put = |img: &mut Vec<u8>, at: usize, v: u64| {
        if at + 8 <= img.len() {
            img[at..at + 8].copy_from_slice(&v.to_le_bytes())
        }
    };
    let mut cut = img.len();
    let saved_end = l.data;
    let mut whole = sc["bytes"].is_null();
    let nb_at = l.cache.1;
    for d in sc["dmg"].as_array().unwrap() {
        let to = d["to"].as_str().unwrap();
        match d["field"].as_str().unwrap() {
            "ver" => img[0] = to.parse().unwrap(),
            "opt" => img[1] = to.parse().unwrap(),
            "reserved" => img[5] = 1,
            "fpp" => put(&mut img, 16, fpp(to)),
            "cap" => put(&mut img, 8, size(l.cap, to)),
            "k" => put(&mut img, 24, size(l.k, to)),
            "cnt" => put(&mut img, if l.v == 1 { 40 } else { 32 }, size(l.cnt, to)),
            "m" if l.v == 1 => put(&mut img, 32, size(l.m, to)),
            "cb" if l.v == 2 => put(&mut img, 40, size(l.cb, to)),
            "nb" if l.v == 2 => put(&mut img, nb_at, size(l.nb, to)),
            "cut" => {
                cut = match to {
                    "cache-1" => l.cache.1.saturating_sub(1),
                    "cache" => l.cache.1,
                    "nb-1" => l.cache.1 + 7,
                    "nb" => l.bits.0,
                    "bits-1" => l.bits.0.saturating_sub(1),
                    "bits+1" => l.bits.0 + 1,
                    "end-4096" => l.bits.1.saturating_sub(4096),
                    "end-8" => l.bits.1.saturating_sub(8),
                    "end-1" => l.bits.1.saturating_sub(1),
                    "end" => l.bits.1,
                    n => n.parse().unwrap(),
                };
            }
            "tail" => {
                let n: usize = to.parse().unwrap();
                if cut == img.len() {
                    cut += n;
                }
                img.extend(std::iter::repeat(7).take(n));
            }
            _ => {}
        }
        if !matches!(d["field"].as_str().unwrap(), "cut" | "tail") {
            whole = false;
        }
    }
    cut = cut.min(img.len());
    // where the loader will look for the number of buckets
    let cb = img.get(40..48).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(u64::MAX);
    let nbat = (cb / 8 + (cb % 8 > 0) as u64).saturating_add(48).min(BIG - 8) as usize;
    let nbf: Vec<u8> = img.get(nbat..nbat + 8).map(|b| b.to_vec()).unwrap_or_default();
    emit(json!({"op": "file", "head": &img[..img.len().min(48)], "nbf": nbf, "nbat": nbat, "whole": whole, "end": saved_end}));
    if let Some(p) = sc["write"].as_str() {
        std::fs::write(p, &img[..cut]).unwrap();
        emit(json!({"op": "written", "len": cut}));
        return;
    }
    let chunk = sc["chunk"].as_u64().unwrap_or(0) as usize;
    let cuts: Vec<usize> = match sc["cuts"].as_u64() {
        None => vec![cut],
        Some(step) => (0..=cut).filter(|c| *c < 80 || *c + 80 > cut || c % step as usize == 0 || (*c + 4096 - l.bits.0 % 4096) % 4096 < 3).collect(),
    };
    for c in cuts {
        for how in ["gen", "v1", "v2", "partial"] {
            let (r, mem) = one(&img[..c], how, chunk);
            emit(json!({"op": "load", "how": how, "len": c, "res": r, "mem": clip(mem as u64)}));
        }
    }
}
