//! C11: encodings of plaintexts.
use crate::bfvsuite::*;
use crate::ev::*;
use crate::gen::*;
use crate::nttsuite::{small_ntt_prime, vectors};
use crate::poly;
use onion_pir::verif_hooks::bfv::*;
use onion_pir::verif_hooks::rq::*;
use rand::Rng;
use std::sync::Arc;

fn coeffs(p: &Poly) -> Vec<u64> {
    poly::rows(p)[0].clone()
}

pub fn run(cx: &mut Cx) {
    let degrees: &[usize] = if cx.thorough { &[8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] } else { &[8, 16, 32, 64, 128, 256, 512, 1024, 4096, 8192, 16384, 32768] };
    for n in degrees.iter().copied() {
        let mut ts = vec![small_ntt_prime(n, 0), small_ntt_prime(n, 1), ntt_prime(20, n, 0), ntt_prime(60, n, 0)];
        if n >= 2048 {
            ts.truncate(if n <= 8192 { 2 } else { 0 });
        }
        if n <= 64 || cx.thorough && n <= 1024 {
            ts.extend([small_ntt_prime(n, 2), small_ntt_prime(n, 3), ntt_prime(32, n, 0), ntt_prime(45, n, 0)]);
        }
        if n <= 512 {
            ts.push(mid_prime(41, n, 1));
        }
        if n <= 64 {
            ts.extend([mid_prime(58, n, 2), mid_prime(33, n, 0)]);
            ts.push(1153);
        }
        if n == 8 {
            // every width
            ts.extend((9..=60).map(|b| if b % 2 == 0 { mid_prime(b, n, b as usize / 2) } else { ntt_prime(b, n, 1) }));
        }
        if n <= 32768 {
            ts.push(65537);
        }
        if n == 65536 {
            ts.push(786433);
        }
        ts.retain(|t| t % (2 * n as u64) == 1 && is_prime(*t));
        for t in ts {
            one(cx, n, t);
        }
    }
}

fn one(cx: &mut Cx, n: usize, t: u64) {
    let ms = if t & 64 == 0 { mid(&[61, 62, 60], n) } else { moduli(&[62, 61, 61], n) };
    cx.out.unit();
    let st = Ev::new("params").i("n", n as i64).n("t", t as u128);
    let params = build(&(n, t, ms.clone(), 10));
    let zs = params.as_ref().and_then(slots_of_x);
    let (params, zs) = match (params, zs) {
        (Some(p), Some(z)) => (p, z),
        _ => return cx.out.put(st.b("panic", true)),
    };
    cx.out.put(st.ns("zs", &zs));
    let mut vs = vectors(cx, t, n, if n <= 64 { 6 } else { 2 });
    if n >= 2048 {
        let last = vs.split_off(vs.len() - 2);
        vs.truncate(2);
        vs.extend(last);
    }
    if n <= 16 {
        for i in 0..n {
            for c in [1, t - 1, t / 2] {
                let mut v = vec![0; n];
                v[i] = c;
                vs.push(v);
            }
        }
    }
    for v in &vs {
        let lv = cx.rng.gen_range(0..ms.len());
        cx.out.cases += 2;
        let r = guard(|| {
            let p = Plaintext::new(&params, v, lv, Encoding::SIMD);
            (p.values.to_vec(), p.decode())
        });
        let e = Ev::new("simd").ns("v", v);
        cx.out.put(match r {
            Some((m, back)) => e.ns("m", &m).ns("back", &back),
            None => e.b("panic", true),
        });
        let mut w = v.clone();
        if cx.rng.gen_range(0..2) == 0 {
            w.truncate(cx.rng.gen_range(0..=n));
        }
        let r = guard(|| {
            let p = Plaintext::new(&params, &w, lv, Encoding::Poly);
            (p.values.to_vec(), p.decode())
        });
        let e = Ev::new("coeff").ns("v", &w);
        cx.out.put(match r {
            Some((m, back)) => e.ns("m", &m).ns("back", &back),
            None => e.b("panic", true),
        });
    }
    // slot by slot
    let c = match guard(|| poly::ctx(&[t], n)) {
        Some(c) => c,
        None => return cx.out.put(Ev::new("hom").b("panic", true)),
    };
    for mul in [false, true] {
        for _ in 0..if n >= 2048 { 1 } else { cx.pick(2, 6) } {
            let (x, y) = (vs[cx.rng.gen_range(0..vs.len())].clone(), message(cx, t, n, 0));
            cx.out.cases += 1;
            let r = guard(|| hom(&params, &c, &x, &y, mul));
            let e = Ev::new("hom").b("mul", mul).ns("x", &x).ns("y", &y);
            cx.out.put(match r {
                Some((mx, my, m, slots)) => e.ns("mx", &mx).ns("my", &my).ns("m", &m).ns("slots", &slots),
                None => e.b("panic", true),
            });
        }
    }
}

fn hom(params: &Arc<BfvParameters>, c: &Arc<RqContext>, x: &Vec<u64>, y: &Vec<u64>, mul: bool) -> (Vec<u64>, Vec<u64>, Vec<u64>, Vec<u64>) {
    let mx = Plaintext::new(params, x, 0, Encoding::SIMD).values.to_vec();
    let my = Plaintext::new(params, y, 0, Encoding::SIMD).values.to_vec();
    let (px, py) = (poly::ntt(Poly::try_from_vec_u64(c, &mx)), poly::ntt(Poly::try_from_vec_u64(c, &my)));
    let m = coeffs(&if mul { &px * &py } else { &px + &py });
    let mut p = Plaintext::new(params, &m, 0, Encoding::Poly);
    p.set_encoding(Encoding::SIMD);
    let slots = p.decode();
    (mx, my, m, slots)
}
