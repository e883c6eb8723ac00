//! Sizes, counters and time measurement.
use crate::obs::*;
use poppy_filters::utils::{benchmark, time_it_once, ByteSize, Stats};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::time::{Duration, Instant};

fn num(v: &Value) -> usize {
    v.as_str().unwrap().parse().unwrap()
}

fn le(n: usize) -> Vec<u8> {
    (n as u64).to_le_bytes().to_vec()
}

fn f(x: f64) -> Vec<u8> {
    x.to_bits().to_le_bytes().to_vec()
}

/// 12.3KB: 123 tenths of KB
fn shown(s: &ByteSize) -> (Vec<u8>, String) {
    let t = format!("{s}");
    let u: String = t.chars().filter(|c| c.is_alphabetic()).collect();
    let d = t.trim_end_matches(&u).to_string();
    let n = match d.split_once('.') {
        Some((a, b)) if b.len() == 1 => format!("{a}{b}").parse::<u64>().unwrap_or(u64::MAX),
        _ => u64::MAX,
    };
    (n.to_le_bytes().to_vec(), u)
}

/// The fraction with the denominator wanted, if it is the number.
fn fraction(r: f64, fp: u64, of: u64) -> String {
    if r.is_nan() {
        return "none".into();
    }
    if r == fp as f64 / of as f64 {
        return format!("{fp}/{of}");
    }
    format!("{r}")
}

fn step(sc: &Value) -> Value {
    let mut ev = sc.clone();
    match sc["op"].as_str().unwrap() {
        "size" => {
            let n = num(&sc["num"]);
            let make = || match sc["how"].as_str().unwrap() {
                "bits" => ByteSize::from_bits(n),
                "mb" => ByteSize::from_mb(n),
                _ => ByteSize::from_bytes(n),
            };
            let s = make();
            let (t, u) = shown(&s);
            let a = make().as_bytes();
            let (at, au) = shown(&a);
            ev["n"] = json!(le(n));
            ev["bytes"] = json!(le(s.in_bytes()));
            ev["abytes"] = json!(le(a.in_bytes()));
            ev["mb"] = json!(f(s.in_mb()));
            ev["val"] = json!(f(s.in_unit()));
            ev["aval"] = json!(f(a.in_unit()));
            ev["t"] = json!(t);
            ev["at"] = json!(at);
            ev["unit"] = json!(u);
            ev["aunit"] = json!(au);
        }
        "pair" => {
            let (a, b) = (num(&sc["num"]), num(&sc["num2"]));
            let (x, mut y) = (ByteSize::from_bytes(a), ByteSize::from_bytes(b));
            if sc["as"].as_bool().unwrap() {
                y = y.as_bytes();
            }
            let h = |x: &ByteSize| {
                let mut h = DefaultHasher::new();
                x.hash(&mut h);
                h.finish()
            };
            ev["n"] = json!(le(a));
            ev["n2"] = json!(le(b));
            ev["cmp"] = json!(match x.partial_cmp(&y) {
                Some(std::cmp::Ordering::Less) => "lt",
                Some(std::cmp::Ordering::Equal) => "eq",
                Some(std::cmp::Ordering::Greater) => "gt",
                None => "none",
            });
            ev["eq"] = json!(x == y);
            ev["heq"] = json!(h(&x) == h(&y));
        }
        "count" => {
            let mut s = Stats::new();
            let (mut fp, mut tn) = (0, 0);
            let mut totals = vec![s.total()];
            let mut rates = vec![fraction(s.fp_rate(), 0, 0)];
            for i in sc["incs"].as_array().unwrap() {
                match i.as_str().unwrap() {
                    "tp" => s.inc_tp(),
                    "fn" => s.inc_fn(),
                    "fp" => {
                        fp += 1;
                        s.inc_fp()
                    }
                    _ => {
                        tn += 1;
                        s.inc_tn()
                    }
                }
                totals.push(s.total());
                rates.push(fraction(s.fp_rate(), fp, fp + tn));
            }
            ev["totals"] = json!(totals);
            ev["rates"] = json!(rates);
        }
        _ => {
            let mut calls = 0u64;
            let mut least = u64::MAX;
            let ms = sc["ms"].as_u64().unwrap();
            let run = || {
                let t = Instant::now();
                calls += 1;
                if ms > 0 {
                    std::thread::sleep(Duration::from_millis(ms));
                }
                least = least.min(t.elapsed().as_nanos() as u64);
            };
            let t = Instant::now();
            let d = if sc["op"] == "once" { time_it_once(run) } else { benchmark(run, sc["n"].as_u64().unwrap() as u32) };
            // in tens of nanoseconds, to allow for rounding
            ev["all"] = json!(clip(t.elapsed().as_nanos() as u64 / 10 + 1));
            ev["ns"] = json!(clip(d.as_nanos() as u64 / 10));
            ev["least"] = json!(clip((least / 10).saturating_sub(1)));
            ev["calls"] = json!(calls);
        }
    }
    ev
}

pub fn run(sc: &Value, out: &mut dyn Write) {
    writeln!(out, "{}", json!({"op": "reset", "id": sc["id"]})).unwrap();
    out.flush().unwrap();
    let ev = guard(|| step(sc)).unwrap_or_else(|_| json!({"op": "panic", "of": sc}));
    writeln!(out, "{}", ev).unwrap();
    out.flush().unwrap();
}
