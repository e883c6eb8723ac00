mod bits;
mod fault;
mod io;
mod large;
mod load;
mod obs;
mod params;
mod probe;
mod rate;
mod script;
mod twin;
mod typed;
mod units;

use std::io::{BufRead, BufReader, BufWriter};

#[global_allocator]
static ALLOC: load::Counting = load::Counting;

fn main() {
    // panics in the code under test are data
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mode = a[1].as_str();
    let input = BufReader::new(std::fs::File::open(&a[2]).unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&a[3]).unwrap());
    for line in input.lines() {
        let sc: serde_json::Value = serde_json::from_str(&line.unwrap()).unwrap();
        match mode {
            "script" => script::run(&sc, &mut out),
            "fault" => fault::run(&sc, &mut out),
            "params" => params::run(&sc, &mut out),
            "rate" => rate::run(&sc, &mut out),
            "probe" => probe::run(&sc, &mut out),
            "twin" => twin::run(&sc, &mut out),
            "load" => load::run(&sc, &mut out),
            "bits" => bits::run(&sc, &mut out),
            "large" => large::run(&sc, &mut out),
            "units" => units::run(&sc, &mut out),
            m => panic!("unknown mode {m}"),
        }
    }
}
