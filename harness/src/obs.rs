//! Observation of a filter through its public interface and its saved bytes.
use poppy_filters::{v1, v2, BloomFilter, Error, OptLevel};
use serde_json::{json, Value};
use std::hash::Hasher;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const BIG: u64 = 2_000_000_000;

pub fn clip(n: u64) -> u64 {
    n.min(BIG)
}

#[allow(deprecated)]
pub fn digest(b: &[u8]) -> String {
    let mut h1 = std::hash::SipHasher::new_with_keys(1, 2);
    let mut h2 = std::hash::SipHasher::new_with_keys(3, 4);
    h1.write(b);
    h2.write(b);
    format!("{:016x}{:016x}", h1.finish(), h2.finish())
}

pub fn err_kind(e: &Error) -> &'static str {
    match e {
        Error::WrongFpp(_) => "WrongFpp",
        Error::IoError(_) => "Io",
        Error::InvalidVersion(_) => "InvalidVersion",
        Error::Merge(_) => "Merge",
        Error::OptLevel(_) => "OptLevel",
        Error::TooManyEntries => "TooMany",
        Error::UninitIter => "UninitIter",
    }
}

pub fn res_bool(r: std::thread::Result<Result<bool, Error>>) -> String {
    match r {
        Ok(Ok(b)) => b.to_string(),
        Ok(Err(e)) => err_kind(&e).into(),
        Err(_) => "panic".into(),
    }
}

pub fn res_unit(r: std::thread::Result<Result<(), Error>>) -> String {
    match r {
        Ok(Ok(())) => "ok".into(),
        Ok(Err(e)) => err_kind(&e).into(),
        Err(_) => "panic".into(),
    }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    catch_unwind(AssertUnwindSafe(f))
}

pub fn opt_level(o: u64) -> OptLevel {
    match o {
        0 => OptLevel::None,
        1 => OptLevel::Space,
        2 => OptLevel::Speed,
        _ => OptLevel::Best,
    }
}

/// The saved bytes; None if saving failed.
pub fn image(f: &BloomFilter) -> Option<Vec<u8>> {
    match guard(|| {
        let mut v = vec![];
        f.write(&mut v).map(|_| v)
    }) {
        Ok(Ok(v)) => Some(v),
        _ => None,
    }
}

fn u64_at(b: &[u8], o: usize) -> Option<u64> {
    b.get(o..o + 8).map(|s| u64::from_le_bytes(s.try_into().unwrap()))
}

/// Where things are in the saved bytes, by the documented layout.
#[derive(Default, Clone, Debug)]
pub struct Layout {
    pub v: u8,
    pub opt: u8,
    pub cap: u64,
    pub fpp: u64,
    pub k: u64,
    pub m: u64,
    pub nb: u64,
    pub cb: u64,
    pub cnt: u64,
    pub cache: (usize, usize),
    pub bits: (usize, usize),
    pub data: usize,
}

pub fn layout(b: &[u8]) -> Option<Layout> {
    let mut l = Layout {
        v: *b.first()?,
        opt: *b.get(1)?,
        cap: u64_at(b, 8)?,
        fpp: u64_at(b, 16)?,
        k: u64_at(b, 24)?,
        ..Default::default()
    };
    if l.v == 1 {
        l.m = u64_at(b, 32)?;
        l.nb = 1;
        l.cnt = u64_at(b, 40)?;
        let n = usize::try_from(l.m.div_ceil(64)).ok()?.checked_mul(8)?;
        l.bits = (48, 48usize.checked_add(n)?);
        l.data = l.bits.1;
    } else if l.v == 2 {
        l.cnt = u64_at(b, 32)?;
        l.cb = u64_at(b, 40)?;
        let n = usize::try_from(l.cb.div_ceil(8)).ok()?;
        l.cache = (48, 48usize.checked_add(n)?);
        l.nb = u64_at(b, l.cache.1)?;
        l.m = 32768;
        let start = l.cache.1 + 8;
        let n = usize::try_from(l.nb).ok()?.checked_mul(4096)?;
        l.bits = (start, start.checked_add(n)?);
        l.data = l.bits.1;
    } else {
        return None;
    }
    if l.data > b.len() {
        return None;
    }
    Some(l)
}

/// Set bits as a flat list of runs first, last, first, last, ...
/// (least significant bit of each byte first, which for little endian words
/// is also the order of the bits of a word)
pub fn runs(b: &[u8]) -> Vec<u64> {
    let mut out: Vec<u64> = vec![];
    for (i, &x) in b.iter().enumerate() {
        if x == 0 {
            continue;
        }
        for j in 0..8 {
            if x >> j & 1 == 1 {
                let p = (i * 8 + j) as u64;
                match out.last_mut() {
                    Some(l) if *l + 1 == p => *l = p,
                    _ => {
                        out.push(p);
                        out.push(p)
                    }
                }
            }
        }
    }
    out
}

pub fn contains(f: &BloomFilter, e: &[u8]) -> std::thread::Result<bool> {
    guard(|| f.contains_bytes(e))
}

pub struct Opts {
    /// leave the bits out (large filters)
    pub lite: bool,
    /// with what a DCSO filter says about itself
    pub desc: bool,
}

/// What a DCSO filter says about itself; its bits only if it has them.
pub fn desc(f: &BloomFilter, bits: bool) -> Value {
    let BloomFilter::V1(b) = f else { return json!({}) };
    guard(|| {
        let p = b.estimated_p();
        let l = if bits { b.bits() } else { vec![] };
        let mut packed = vec![0u8; l.len().div_ceil(8)];
        l.iter().enumerate().for_each(|(i, &x)| packed[i / 8] |= (x as u8) << (i % 8));
        json!({
            "nbits": clip(b.n_bits()), "nhash": clip(b.n_hash_fn()), "words": clip(b.size_in_u64() as u64),
            "p": p.to_bits().to_le_bytes().to_vec(), "bits": runs(&packed), "nlist": l.len(),
        })
    })
    .unwrap_or_else(|_| json!({"panic": true}))
}

pub fn observe(f: &BloomFilter, pool: &[Vec<u8>], o: &Opts) -> Value {
    let img = image(f);
    let mut pan = false;
    let mut within = vec![];
    for (i, e) in pool.iter().enumerate() {
        match contains(f, e) {
            Ok(true) => within.push(i as u64 + 1),
            Ok(false) => {}
            Err(_) => pan = true,
        }
    }
    let lay = img.as_deref().and_then(layout);
    let none: Vec<u64> = vec![];
    let (l, b, cb, pimg, ipan) = match (&img, lay) {
        (Some(b), Some(l)) => {
            let (bits, cbits) = if o.lite {
                (none.clone(), none)
            } else {
                (runs(&b[l.bits.0..l.bits.1]), runs(&b[l.cache.0..l.cache.1]))
            };
            let p = digest(&b[..l.data]);
            (l, bits, cbits, p, "")
        }
        (Some(b), None) => (Layout::default(), none.clone(), none, digest(b), "?"),
        (None, _) => (Layout::default(), none.clone(), none, "unsaved".into(), "unsaved"),
    };
    let m = meta(f);
    let (ones, zeros) = match f {
        // a DCSO filter also counts the unused bits of its last word
        BloomFilter::V1(b) => (b.count_ones(), (b.n_bits() as usize).saturating_sub(b.count_ones())),
        BloomFilter::V2(b) => (b.count_ones(), b.count_zeros()),
    };
    let mut obs = json!({
        "v": l.v, "opt": l.opt, "cap": clip(l.cap), "fpp": format!("{:016x}", l.fpp),
        "k": clip(l.k), "m": clip(l.m), "nb": clip(l.nb), "cb": clip(l.cb),
        "bits": b, "cbits": cb, "in": within, "pan": pan,
        "img": img.as_deref().map(digest).unwrap_or_else(|| ipan.into()), "pimg": pimg,
        "len": img.map(|i| clip(i.len() as u64)).unwrap_or(0),
        "dlen": m["dlen"], "data": m["data"], "cnt": m["cnt"], "full": m["full"], "size": m["size"],
        "acap": m["acap"], "afpp": m["afpp"], "aver": m["aver"],
    });
    if !o.lite {
        obs["ones"] = json!(clip(ones as u64));
        obs["zeros"] = json!(clip(zeros as u64));
    }
    if o.desc {
        obs["desc"] = desc(f, !o.lite);
    }
    obs
}

/// What the accessors say.
pub fn meta(f: &BloomFilter) -> Value {
    match guard(|| {
        json!({
            "cnt": clip(f.count_estimate()), "full": f.is_full(), "size": clip(f.size_in_bytes() as u64),
            "data": digest(f.data()), "dlen": clip(f.data().len() as u64),
            "acap": f.capacity().to_string(), "afpp": format!("{:016x}", f.fpp().to_bits()),
            "aver": f.version(),
        })
    }) {
        Ok(v) => v,
        Err(_) => json!({"cnt": 0, "full": false, "size": 0, "data": "panic", "dlen": 0,
                         "acap": "panic", "afpp": "panic", "aver": 0}),
    }
}

pub fn specific(f: &BloomFilter, b: &[u8]) -> Result<BloomFilter, Error> {
    match f {
        BloomFilter::V1(_) => v1::BloomFilter::from_reader(Cursor::new(b)).map(BloomFilter::V1),
        BloomFilter::V2(_) => v2::BloomFilter::from_reader(Cursor::new(b)).map(BloomFilter::V2),
    }
}
