//! Drives the real onion-pir code and records what it does as events for the
//! TLA+ trace specifications in /verif/spec.
//!
//! conf SUITE OUTDIR SHARDS SEED TIER [PROGRAMS] [ARGS...]
mod bfvsuite;
mod ev;
mod freshsuite;
mod gen;
mod largesuite;
mod modarith;
mod nttsuite;
mod paramsuite;
mod pirsuite;
mod poly;
mod pvwsuite;
mod refusalsuite;
mod ringsuite;
mod rnssuite;
mod samplersuite;
mod simdsuite;
mod utilsuite;

use ev::Out;
use gen::Cx;
use rand::SeedableRng;

fn main() {
    if let Ok(kind) = std::env::var("CONF_CHILD") {
        return freshsuite::child(&kind);
    }
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[4].parse().unwrap();
    let progs = match a.get(6) {
        Some(f) if f != "-" => std::fs::read_to_string(f)
            .unwrap()
            .lines()
            .map(|l| l.split_whitespace().map(|t| t.to_string()).collect())
            .collect(),
        _ => vec![],
    };
    let mut cx = Cx {
        out: Out::new(&a[2], a[3].parse().unwrap()),
        rng: rand_chacha::ChaCha8Rng::seed_from_u64(seed),
        seed,
        thorough: a[5] == "thorough",
        progs,
        args: a.iter().skip(7).cloned().collect(),
    };
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("CONF_PANICS").is_ok() {
            eprintln!("panic: {}", i);
        }
    }));
    match a[1].as_str() {
        "modarith" => modarith::run(&mut cx),
        "ntt" => nttsuite::run(&mut cx),
        "utils" => utilsuite::run(&mut cx),
        "rns" => rnssuite::rns(&mut cx),
        "scale" => rnssuite::scale(&mut cx),
        "switch" => rnssuite::switch(&mut cx),
        "ring" => ringsuite::run(&mut cx),
        "simd" => simdsuite::run(&mut cx),
        "expand" => pirsuite::expand(&mut cx),
        "retrieve" => pirsuite::retrieve(&mut cx),
        "retrieve_large" => pirsuite::retrieve_large(&mut cx),
        "shapes" => pirsuite::shapes(&mut cx),
        "histories" => pirsuite::histories(&mut cx),
        "sampler" => samplersuite::run(&mut cx),
        "fresh" => freshsuite::run(&mut cx),
        "refusal" => refusalsuite::run(&mut cx),
        "large" => largesuite::run(&mut cx),
        "params" => paramsuite::run(&mut cx),
        "pvw" => pvwsuite::run(&mut cx),
        "bfv" => bfvsuite::programs(&mut cx),
        "bfv_enc" => bfvsuite::enc(&mut cx),
        "bfv_noise" => bfvsuite::noise(&mut cx),
        "bfv_galois" => bfvsuite::galois(&mut cx),
        "bfv_keyswitch" => bfvsuite::keyswitch(&mut cx),
        s => {
            eprintln!("unknown suite {}", s);
            std::process::exit(3);
        }
    }
    cx.out.finish();
    println!(
        "{{\"units\":{},\"events\":{},\"cases\":{}}}",
        cx.out.units, cx.out.events, cx.out.cases
    );
}
