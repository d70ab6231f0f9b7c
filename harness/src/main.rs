//! Executable contracts of the kserd crate, evaluated on the real compiled code over bounded,
//! enumerated domains.
//!
//! usage: harness run <PROPERTY> <quick|thorough> <seed> <out.json> [trace-file]
//!        harness replay <PROPERTY> <quick|thorough> <seed> <domain> <index>
mod ctx;
mod gen;
#[path = "../../spec/num_spec.rs"]
mod num_spec;
mod p_enc;
mod p_num;
mod p_text;
mod p_tree;

use ctx::*;
use std::sync::atomic::Ordering;

fn run(p: &str, c: &mut Ctx) -> bool {
    match p {
        "N01" => p_num::n01(c),
        "N02" => p_num::n02(c),
        "N03" => p_num::n03(c),
        "N04" => p_num::n04(c),
        "E01" => p_enc::e01(c),
        "E02" => p_enc::e02(c),
        "E03" => p_enc::e03(c),
        "E04" => p_enc::e04(c),
        "V01" => p_tree::v01(c),
        "V02" => p_tree::v02(c),
        "V03" => p_tree::v03(c),
        "V04" => p_tree::v04(c),
        "A01" => p_tree::a01(c),
        "A02" => p_tree::a02(c),
        "F01" => p_tree::f01(c),
        "R01" => p_text::r01(c),
        "R02" => p_text::r02(c),
        "R03" => p_text::r03(c),
        "F02" => p_text::f02(c),
        "F03" => p_text::f03(c),
        _ => return false,
    }
    true
}

fn write_out(c: &Ctx, p: &str, path: &str) {
    let mut o = String::from("{\n");
    o += &format!(" \"property\": {},\n \"evaluations\": {},\n \"distinct\": {},\n", jstr(p), c.evaluations, c.distinct.len());
    o += &format!(" \"wall_s\": {:.3},\n", c.t0.elapsed().as_secs_f64());
    o += &format!(" \"bounds\": [{}],\n", c.bounds.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    o += &format!(" \"contracts\": {{{}}},\n", c.contracts.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    o += &format!(" \"samples\": [{}],\n", c.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n  "));
    o += &format!(
        " \"failures\": [{}]\n}}\n",
        c.failures
            .iter()
            .map(|f| format!(
                "{{\"contract\": {}, \"domain\": {}, \"index\": {}, \"input\": {}, \"detail\": {}}}",
                jstr(&f.contract), jstr(&f.domain), f.index, jstr(&f.input), jstr(&f.detail)
            ))
            .collect::<Vec<_>>()
            .join(",\n  ")
    );
    std::fs::write(path, o).expect("write result");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: harness run|replay PROPERTY TIER SEED OUT|DOMAIN [INDEX|TRACE]");
        std::process::exit(2);
    }
    let (mode, p, tier, seed) = (a[1].clone(), a[2].clone(), a[3].clone(), a[4].parse::<u64>().unwrap_or(0));
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx::new(seed, tier == "thorough");
    let t0 = c.t0;
    let out = if mode == "run" { Some(a[5].clone()) } else { None };
    if mode == "replay" {
        c.only = Some((a[5].clone(), a[6].parse().expect("index")));
    } else if let Some(t) = a.get(6) {
        c.trace = Some(std::fs::File::create(t).expect("trace file"));
    }
    let (out2, p2) = (out.clone(), p.clone());
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let s = CASE_START.load(Ordering::SeqCst);
        if s != 0 && t0.elapsed().as_millis() as u64 > s + CASE_LIMIT_S * 1000 {
            let cur = CURRENT.lock().map(|g| g.clone()).ok().flatten();
            let (contract, index, domain) = cur.unwrap_or_default();
            let mut c = Ctx::new(0, false);
            c.failures.push(Failure { contract, domain, index, input: "(case still running)".into(), detail: format!("no result within {} s", CASE_LIMIT_S) });
            if let Some(o) = &out2 {
                write_out(&c, &p2, o);
            }
            println!("FAIL no result within {} s", CASE_LIMIT_S);
            std::process::exit(1);
        }
    });
    let th = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        if !run(&p, &mut c) {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
        (c, p)
    });
    let (c, p) = th.unwrap().join().expect("worker");
    if let Some(o) = out {
        write_out(&c, &p, &o);
    }
    for f in &c.failures {
        println!("FAIL {} [{}#{}] {} :: {}", f.contract, f.domain, f.index, f.input, f.detail);
    }
    println!("{} evaluations, {} failures", c.evaluations, c.failures.len());
    std::process::exit(if c.failures.is_empty() { 0 } else { 1 });
}
