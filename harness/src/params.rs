//! Creates filters in all ways.
use crate::obs::*;
use crate::script::set_data;
use poppy_filters::{v1, v2, BloomFilter, Error, OptLevel, Params};
use serde_json::{json, Value};
use std::io::{Cursor, Write};

fn create(ctor: &str, v: u8, cap: usize, fpp: f64, opt: u8) -> Result<BloomFilter, Error> {
    let o = opt_level(opt as u64);
    let p = Params::new(cap, fpp).version(v).opt(o);
    match ctor {
        "params" => BloomFilter::try_from(p),
        "optbyte" => Params::new(cap, fpp).opt(OptLevel::try_from(opt)?).version(v).try_into(),
        "veropt" => BloomFilter::with_version_capacity_opt(v, cap, fpp, o),
        "ver" => BloomFilter::with_version_capacity(v, cap, fpp),
        "cap" => BloomFilter::with_capacity(cap, fpp),
        "v1" => v1::BloomFilter::with_capacity(cap as u64, fpp).map(BloomFilter::V1),
        "v2" => v2::BloomFilter::with_capacity(cap as u64, fpp).map(BloomFilter::V2),
        "intov1" => p.try_into_v1().map(BloomFilter::V1),
        "intov2" => p.try_into_v2().map(BloomFilter::V2),
        "macro" => Ok(poppy_filters::bloom!(cap, fpp)),
        _ => unreachable!(),
    }
}

pub fn describe(f: &BloomFilter) -> Value {
    let ones = |f: &BloomFilter| match f {
        BloomFilter::V1(b) => b.count_ones(),
        BloomFilter::V2(b) => b.count_ones(),
    };
    let img = image(f).unwrap_or_default();
    let partial = |b: &[u8]| guard(|| BloomFilter::partial_from_reader(Cursor::new(b)).ok()).ok().flatten();
    let p = partial(&img);
    let mut g = f.clone();
    set_data(&mut g, vec![7; 100]);
    let pg = partial(&image(&g).unwrap_or_default());
    let size = |f: &Option<BloomFilter>| f.as_ref().map(|f| clip(f.size_in_bytes() as u64) as i64).unwrap_or(-1);
    let bytes = |f: &BloomFilter| f.fpp().to_bits().to_le_bytes().to_vec();
    json!({
        "ver": f.version(), "cap": f.capacity().to_string(), "fpp": bytes(f), "cnt": clip(f.count_estimate()), "ones": clip(ones(f) as u64),
        "dlen": f.data().len(), "size": clip(f.size_in_bytes() as u64), "len": img.len(), "psize": size(&p),
        "pver": p.as_ref().map(|p| p.version()), "pcap": p.as_ref().map(|p| p.capacity().to_string()), "pfpp": p.as_ref().map(bytes),
        "dsize": clip(g.size_in_bytes() as u64), "dpsize": size(&pg),
    })
}

pub fn run(sc: &Value, out: &mut dyn Write) {
    writeln!(out, "{}", json!({"op": "reset", "id": sc["id"]})).unwrap();
    out.flush().unwrap();
    let fpp = crate::script::fpp_of(sc);
    let (v, cap, opt) = (sc["v"].as_u64().unwrap() as u8, sc["cap"].as_u64().unwrap() as usize, sc["opt"].as_u64().unwrap() as u8);
    let mut ev = json!({"op": "new", "ctor": sc["ctor"], "v": v, "cap": cap.to_string(), "fpp": fpp.to_bits().to_le_bytes().to_vec(), "opt": opt});
    let r = match sc["file"].as_str() {
        // made by someone else
        Some(p) => guard(|| BloomFilter::from_reader(std::fs::File::open(p).map_err(Error::from)?)),
        None => guard(|| create(sc["ctor"].as_str().unwrap(), v, cap, fpp, opt)),
    };
    match r {
        Ok(Ok(f)) => {
            ev["res"] = json!("ok");
            ev["got"] = match guard(|| describe(&f)) {
                Ok(d) => d,
                Err(_) => {
                    ev["res"] = json!("panic afterwards");
                    json!({})
                }
            };
        }
        Ok(Err(e)) => ev["res"] = json!(err_kind(&e)),
        Err(_) => ev["res"] = json!("panic"),
    }
    writeln!(out, "{}", ev).unwrap();
    out.flush().unwrap();
}
