//! Replays scripts on both kinds of bit sets.
use crate::obs::{clip, guard, runs};
use poppy_filters::bitset::{array::BitSet, vec::VecBitSet};
use serde_json::{json, Value};
use std::io::Write;

trait Bits: Clone {
    fn set(&mut self, i: usize) -> bool;
    fn unset(&mut self, i: usize) -> bool;
    fn get(&self, i: usize) -> bool;
    fn or(&mut self, o: &Self);
    fn and(&mut self, o: &Self);
    fn common(&self, o: &Self) -> usize;
    fn zero(&mut self);
    fn put(&mut self, i: usize, v: u8);
    fn see(&self, gap: usize) -> Value;
}

/// Where very large sets have a gap in which nothing happens.
const LOW: usize = 4096;

/// Runs of bits outside the gap, and a run of its own if there are any inside.
fn around(b: &[u8], gap: usize) -> Vec<u64> {
    if gap == 0 {
        return runs(b);
    }
    let (lo, hi) = (LOW / 8, (LOW + gap) / 8);
    let mut r = runs(&[&b[..lo], &b[hi..]].concat());
    if b[lo..hi].chunks(4096).any(|c| c.iter().fold(0, |a, x| a | x) != 0) {
        r.extend([2_000_000_000, 2_000_000_000]);
    }
    r
}

macro_rules! bits {
    ($t:ty, $e:expr $(, $n:ident)?) => {
        impl $(<const $n: usize>)? Bits for $t {
            fn set(&mut self, i: usize) -> bool { self.set_nth_bit(i) }
            fn unset(&mut self, i: usize) -> bool { self.unset_nth_bit(i) }
            fn get(&self, i: usize) -> bool { self.get_nth_bit(i) }
            fn or(&mut self, o: &Self) { self.union(o) }
            fn and(&mut self, o: &Self) { self.intersection(o) }
            fn common(&self, o: &Self) -> usize { self.count_ones_in_common(o) }
            fn zero(&mut self) { self.clear() }
            fn put(&mut self, i: usize, v: u8) { self.as_mut_slice()[i / 8] = v }
            fn see(&self, gap: usize) -> Value {
                let e: fn(&Self) -> bool = $e;
                let g = guard(|| {
                    let mut b = vec![0u8; (self.bit_len() - gap).div_ceil(8)];
                    for i in 0..self.bit_len() - gap {
                        if self.get_nth_bit(if i < LOW { i } else { i + gap }) {
                            b[i / 8] |= 1 << (i % 8);
                        }
                    }
                    runs(&b)
                });
                json!({"get": g.unwrap_or_default(), "empty": e(self), "bytes": around(self.as_slice(), gap), "ones": self.count_ones(),
                       "zeros": self.count_zeros() - gap, "bits": self.bit_len() - gap, "bytelen": self.byte_len() - gap / 8})
            }
        }
    };
}
// only vectors can tell whether there is room for any bit
bits!(BitSet<N>, |x| x.as_slice().is_empty(), N);
bits!(VecBitSet, |x| x.is_empty());

fn go<B: Bits>(sc: &Value, a: B, b: B, out: &mut dyn Write) {
    let gap = sc["gap"].as_u64().unwrap_or(0) as usize;
    let mut v = [a, b];
    for (i, x) in v.iter().enumerate() {
        let n = if i == 0 { &sc["n"] } else { &sc["n2"] };
        let init = if i == 0 { &sc["init"] } else { &sc["init2"] };
        writeln!(out, "{}", json!({"op": "new", "s": i + 1, "n": n, "init": init, "post": x.see(gap)})).unwrap();
    }
    for op in sc["ops"].as_array().unwrap() {
        let s = op["s"].as_u64().unwrap() as usize - 1;
        let o = op["o"].as_u64().unwrap() as usize - 1;
        let name = op["op"].as_str().unwrap();
        // the real index may be larger than fits the trace
        let i: usize = op["real"].as_str().unwrap().parse().unwrap();
        let other = v[o].clone();
        let x = &mut v[s];
        let r = guard(|| match name {
            "set" => x.set(i).to_string(),
            "unset" => x.unset(i).to_string(),
            "get" => x.get(i).to_string(),
            "union" => { x.or(&other); "ok".into() }
            "inter" => { x.and(&other); "ok".into() }
            "common" => x.common(&other).to_string(),
            "clear" => { x.zero(); "ok".into() }
            "put" => { x.put(i, op["val"].as_u64().unwrap() as u8); "ok".into() }
            "clone" => { *x = other.clone(); "ok".into() }
            _ => unreachable!(),
        });
        let mut ev = op.clone();
        ev["i"] = json!(clip((if i < LOW { i } else { i - gap.min(i) }) as u64));
        ev["res"] = json!(r.unwrap_or("panic".into()));
        ev["post"] = v[s].see(gap);
        ev["opost"] = v[o].see(gap);
        writeln!(out, "{}", ev).unwrap();
        out.flush().unwrap();
    }
}

/// Bytes with the given runs of bits set.
fn bytes(n: usize, runs: &Value) -> Vec<u8> {
    let mut b = vec![0u8; n];
    for r in runs.as_array().unwrap().chunks(2) {
        for i in r[0].as_u64().unwrap() as usize..=r[1].as_u64().unwrap() as usize {
            b[i / 8] |= 1 << (i % 8);
        }
    }
    b
}

pub fn run(sc: &Value, out: &mut dyn Write) {
    writeln!(out, "{}", json!({"op": "reset", "id": sc["id"]})).unwrap();
    let n = sc["n"].as_u64().unwrap() as usize;
    let n2 = sc["n2"].as_u64().unwrap() as usize;
    macro_rules! arr {
        ($($k:literal),*) => {
            match n / 8 {
                $($k => go(sc, BitSet::<$k>::new(), BitSet::<$k>::new(), out),)*
                _ => panic!("size"),
            }
        };
    }
    match sc["kind"].as_str().unwrap() {
        "array" => arr!(1, 2, 3, 8, 17, 64, 4096, 10000),
        "vec" => {
            let gap = sc["gap"].as_u64().unwrap_or(0) as usize;
            go(sc, VecBitSet::with_bit_capacity(n + gap), VecBitSet::with_bit_capacity(n2 + gap), out)
        }
        _ => go(sc, VecBitSet::from(bytes(n / 8, &sc["init"])), VecBitSet::from(bytes(n2 / 8, &sc["init2"])), out),
    }
}
