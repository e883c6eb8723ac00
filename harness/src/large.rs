//! Filters too large for looking at all of their bits: what they save is
//! recorded as a header and the bytes that are not zero.
use crate::obs::*;
use crate::script::{cfg_event, data_blob, insert_how, inter_how, make, set_data, unhex, union_how};
use poppy_filters::{v1, v2, BloomFilter, Error};
use serde_json::{json, Value};
use std::cell::Cell;
use std::io::{Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

fn le(n: u64) -> Vec<u8> {
    n.to_le_bytes().to_vec()
}

/// Keeps what is not zero.
#[derive(Default, PartialEq)]
struct Sparse {
    head: Vec<u8>,
    at: Vec<(u64, u8)>,
    len: u64,
}

impl Write for Sparse {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let n = 48usize.saturating_sub(self.head.len()).min(b.len());
        self.head.extend_from_slice(&b[..n]);
        for (i, c) in b.chunks(256).enumerate() {
            if c.iter().fold(0, |a, x| a | x) == 0 {
                continue;
            }
            for (j, x) in c.iter().enumerate() {
                let o = i * 256 + j;
                if *x != 0 && o >= n {
                    assert!(self.at.len() < 2_000_000);
                    self.at.push((self.len + o as u64, *x));
                }
            }
        }
        self.len += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

struct Source<'a>(&'a Sparse, u64);

/// Gives up when all of a very large file is read though it could be skipped.
struct Ghost<'a>(Source<'a>, u64, Rc<Cell<bool>>);

impl Read for Ghost<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let n = self.0.read(b)?;
        self.1 = self.1.saturating_sub(n as u64);
        if self.1 == 0 {
            self.2.set(true);
            return Err(std::io::Error::other("too much"));
        }
        Ok(n)
    }
}

impl Seek for Ghost<'_> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.1 = u64::MAX;
        self.0.seek(p)
    }
}

impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let n = (self.0.len.saturating_sub(self.1)).min(b.len() as u64) as usize;
        let b = &mut b[..n];
        b.fill(0);
        let end = self.1 + n as u64;
        for (i, x) in self.0.head.iter().enumerate() {
            let i = i as u64;
            if i >= self.1 && i < end {
                b[(i - self.1) as usize] = *x;
            }
        }
        let from = self.0.at.partition_point(|x| x.0 < self.1);
        for (o, x) in self.0.at[from..].iter().take_while(|x| x.0 < end) {
            b[(o - self.1) as usize] = *x;
        }
        self.1 = end;
        Ok(n)
    }
}

impl Seek for Source<'_> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.1 = match p {
            SeekFrom::Start(n) => n,
            SeekFrom::Current(d) => self.1.saturating_add_signed(d),
            SeekFrom::End(d) => self.0.len.saturating_add_signed(d),
        };
        Ok(self.1)
    }
}

fn save(f: &BloomFilter) -> Sparse {
    let mut w = Sparse::default();
    let r = guard(|| f.write(&mut w));
    if !matches!(r, Ok(Ok(()))) {
        w = Sparse::default();
    }
    w
}

/// Where the attached data starts, by the documented layout.
fn data_at(w: &Sparse) -> u64 {
    let q = |o: usize| w.head.get(o..o + 8).map(|s| u64::from_le_bytes(s.try_into().unwrap())).unwrap_or(0);
    if w.head.first() == Some(&1) {
        return 48 + q(32).div_ceil(64).saturating_mul(8);
    }
    let at = 48 + q(40).div_ceil(8);
    let mut nb = [0u8; 8];
    let mut s = Source(w, at);
    s.read_exact(&mut nb).ok();
    (at + 8).saturating_add(u64::from_le_bytes(nb).saturating_mul(4096))
}

fn observe(f: &BloomFilter, pool: &[Vec<u8>]) -> Value {
    let w = save(f);
    let end = data_at(&w);
    let k = w.at.partition_point(|x| x.0 < end);
    let mut pan = false;
    let mut within = vec![];
    for (i, e) in pool.iter().enumerate() {
        match contains(f, e) {
            Ok(true) => within.push(i + 1),
            Ok(false) => {}
            Err(_) => pan = true,
        }
    }
    let nz: Vec<Value> = w.at[..k].iter().map(|(o, x)| {
        let mut v = le(*o);
        v.push(*x);
        json!(v)
    }).collect();
    json!({
        "hdr": w.head, "nz": nz, "len": le(w.len), "end": le(end), "in": within, "pan": pan,
        "data": digest(f.data()), "cnt": clip(f.count_estimate()), "cap": le(f.capacity() as u64),
        "full": f.is_full(), "size": le(f.size_in_bytes() as u64), "v": f.version(),
    })
}

pub fn run(sc: &Value, out: &mut dyn Write) {
    let pool: Vec<Vec<u8>> = sc["pool"].as_array().unwrap().iter().map(|h| unhex(h.as_str().unwrap())).collect();
    let mut slots: Vec<Option<BloomFilter>> = (0..8).map(|_| None).collect();
    let mut emit = |v: Value| {
        writeln!(out, "{}", v).unwrap();
        out.flush().unwrap();
    };
    emit(json!({"op": "reset", "id": sc["id"], "pool": pool.len()}));
    for (i, e) in pool.iter().enumerate() {
        emit(json!({"op": "entry", "e": i + 1, "b": e}));
    }
    for op in sc["ops"].as_array().unwrap() {
        let name = op["op"].as_str().unwrap();
        let s = op["s"].as_u64().unwrap_or(1) as usize;
        let o = op["o"].as_u64().unwrap_or(1) as usize;
        let how = op["how"].as_str().unwrap_or("");
        let mut ev = op.clone();
        if name == "create" {
            let c = &sc["cfgs"][(op["c"].as_u64().unwrap() - 1) as usize];
            match guard(|| make(c)) {
                Ok(Ok(f)) => {
                    ev["post"] = observe(&f, &pool);
                    ev["cfg"] = cfg_event(c);
                    ev["cap8"] = json!(le(c["cap"].as_u64().unwrap()));
                    slots[s] = Some(f);
                }
                r => {
                    ev["op"] = json!("nocreate");
                    ev["res"] = json!(match r {
                        Ok(Err(e)) => err_kind(&e),
                        _ => "panic",
                    });
                }
            }
            emit(ev);
            continue;
        }
        if name == "ghost" {
            // the metadata of a file of any size, of which only a few bytes are not zero
            let bytes = |k: &str| op[k].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect::<Vec<u8>>();
            let num = |k: &str| u64::from_le_bytes(bytes(k).try_into().unwrap());
            let data = data_blob(op["d"].as_u64().unwrap());
            let mut w = Sparse { head: bytes("hdr"), at: vec![], len: num("end") + data.len() as u64 };
            let put = |at: u64, b: &[u8]| b.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, x)| (at + i as u64, *x)).collect::<Vec<_>>();
            if w.head[0] == 2 {
                w.at.extend(put(num("nbat"), &bytes("nb")));
            }
            w.at.extend(put(num("end"), &data));
            let all = Rc::new(Cell::new(false));
            let r = guard(|| BloomFilter::partial_from_reader(Ghost(Source(&w, 0), 1 << 28, all.clone())));
            if all.get() {
                continue;
            }
            match r {
                Ok(Ok(g)) => {
                    ev["res"] = json!("ok");
                    ev["got"] = json!({
                        "v": g.version(), "cap": le(g.capacity() as u64), "fpp": g.fpp().to_le_bytes(), "cnt": le(g.count_estimate()),
                        "size": le(g.size_in_bytes() as u64), "data": digest(g.data()) == digest(&data), "full": g.is_full(),
                    });
                }
                Ok(Err(e)) => ev["res"] = json!(err_kind(&e)),
                Err(_) => ev["res"] = json!("panic"),
            }
            emit(ev);
            continue;
        }
        if name == "clone" {
            let Some(f) = &slots[s] else { continue };
            let g = f.clone();
            ev["post"] = observe(f, &pool);
            ev["opost"] = observe(&g, &pool);
            slots[o] = Some(g);
            emit(ev);
            continue;
        }
        if matches!(name, "union" | "inter") && (s == o || slots[o].is_none()) || slots[s].is_none() {
            continue;
        }
        let mut f = slots[s].take().unwrap();
        match name {
            "inserts" => {
                let es: Vec<usize> = op["es"].as_array().unwrap().iter().map(|e| e.as_u64().unwrap() as usize).collect();
                ev["res"] = json!(es.iter().map(|e| res_bool(insert_how(&mut f, &pool[e - 1], how))).collect::<Vec<_>>());
            }
            "union" => ev["res"] = json!(res_unit(union_how(&mut f, slots[o].as_ref().unwrap(), how))),
            "inter" => match inter_how(&mut f, slots[o].as_ref().unwrap(), how) {
                Some(r) => ev["res"] = json!(res_unit(r)),
                None => {
                    slots[s] = Some(f);
                    continue;
                }
            },
            "clear" => ev["res"] = json!(if guard(|| f.clear()).is_ok() { "ok" } else { "panic" }),
            "setdata" => set_data(&mut f, data_blob(op["d"].as_u64().unwrap())),
            "load" | "partial" => {
                let w = save(&f);
                let r: std::thread::Result<std::result::Result<BloomFilter, Error>> = guard(|| {
                    let src = Source(&w, 0);
                    match (name, how, &f) {
                        ("partial", _, _) => BloomFilter::partial_from_reader(src),
                        (_, "spec", BloomFilter::V1(_)) => v1::BloomFilter::from_reader(src).map(BloomFilter::V1),
                        (_, "spec", BloomFilter::V2(_)) => v2::BloomFilter::from_reader(src).map(BloomFilter::V2),
                        _ => BloomFilter::from_reader(src),
                    }
                });
                ev["res"] = json!(match &r {
                    Ok(Ok(_)) => "ok",
                    Ok(Err(e)) => err_kind(e),
                    Err(_) => "panic",
                });
                if let Ok(Ok(g)) = r {
                    if name == "load" {
                        f = g;
                    } else {
                        ev["same"] = json!(g.version() == f.version() && g.capacity() == f.capacity() && g.fpp() == f.fpp() && g.data() == f.data()
                            && g.count_estimate() == f.count_estimate() && g.size_in_bytes() == f.size_in_bytes());
                    }
                }
            }
            n => panic!("unknown operation {n}"),
        }
        ev["post"] = observe(&f, &pool);
        slots[s] = Some(f);
        emit(ev);
    }
}
