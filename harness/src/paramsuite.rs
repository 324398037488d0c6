//! C19: generated primes, moduli and parameter sets.
use crate::bfvsuite::{moduli, params_of, rows_json};
use crate::ev::*;
use crate::gen::*;
use crate::poly;
use onion_pir::verif_hooks::bfv::*;
use onion_pir::verif_hooks::rq::*;
use onion_pir::verif_hooks::utils::generate_prime;
use rand::Rng;
use std::fmt::Write as _;
use std::sync::Arc;

fn list(s: &mut String, v: &[u64]) {
    s.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        put_u128(s, *x as u128);
    }
    s.push(']');
}

fn context(c: &Arc<RqContext>) -> String {
    let mut s = format!("{{\"n\":{},\"ntts\":{},\"ms\":", c.degree, c.ntt_ops.len());
    list(&mut s, &c.moduli_64);
    s.push_str(",\"rns\":");
    list(&mut s, &c.rns.moduli_u64);
    s.push_str(",\"q\":");
    put_big(&mut s, &c.rns.product);
    s.push_str(",\"inv\":");
    list(&mut s, &c.q_last_inv_mod);
    s.push_str(",\"shoup\":");
    list(&mut s, &c.q_last_inv_mod_shoup);
    s.push_str(",\"chain\":[");
    let mut x = c.next_ctx.clone();
    let mut first = true;
    while let Some(y) = x {
        if !first {
            s.push(',');
        }
        first = false;
        list(&mut s, &y.moduli_64);
        x = y.next_ctx.clone();
    }
    s.push(']');
    s
}

fn describe(p: &BfvParameters, t: u64, other: &Arc<RqContext>) -> (String, String, String, String, i64) {
    let mut q = String::from("[");
    for (i, c) in p.q_ctxs.iter().enumerate() {
        if i > 0 {
            q.push(',');
        }
        q.push_str(&context(c));
        let _ = write!(q, ",\"level\":{},\"qmodt\":", p.ctx_level(c).map_or(-1, |x| x as i64));
        put_u128(&mut q, p.q_mod_ts[i] as u128);
        q.push_str(",\"delta\":");
        rows_json(&mut q, &poly::rows(&p.delta_ts[i]));
        q.push('}');
    }
    q.push(']');
    let mut e = String::from("[");
    for (i, c) in p.e_ctxs.iter().enumerate() {
        if i > 0 {
            e.push(',');
        }
        e.push_str(&context(c));
        e.push('}');
    }
    e.push(']');
    let mut steps = String::from("[");
    for (i, a) in p.q_ctxs.iter().enumerate() {
        if i > 0 {
            steps.push(',');
        }
        let v: Vec<String> = p.q_ctxs.iter().map(|b| a.switch_iterations(b).map_or(-1, |x| x as i64).to_string()).collect();
        let _ = write!(steps, "[{}]", v.join(","));
    }
    steps.push(']');
    let mut kept = format!("{{\"n\":{},\"var\":{},\"t\":", p.degree, p.variance);
    put_u128(&mut kept, p.plaintext_modulus_u64 as u128);
    kept.push_str(",\"ms\":");
    list(&mut kept, &p.ciphertext_moduli);
    kept.push('}');
    let _ = t;
    (q, e, steps, kept, p.ctx_level(other).map_or(-1, |x| x as i64))
}

fn set(cx: &mut Cx, n: usize, t: u64, ms: Vec<u64>, var: usize, default: bool) {
    cx.out.cases += 1;
    cx.out.unit();
    let other = poly::ctx(&[ntt_prime(40, n, 7)], n);
    let e = Ev::new("params").i("n", n as i64).n("t", t as u128).i("var", var as i64);
    let r = guard(|| {
        let p = if default {
            BfvParameters::default(ms.len(), n, poly::bd())
        } else {
            BfvParameters::new(n, t, ms.clone(), var, poly::bd())
        };
        describe(&p, t, &other)
    });
    let e = e.ns("ms", &ms);
    cx.out.put(match r {
        None => e.b("panic", true),
        Some((q, ex, steps, kept, foreign)) => {
            e.raw("q", &q).raw("e", &ex).raw("steps", &steps).raw("kept", &kept).i("foreign", foreign)
        }
    });
}

pub fn run(cx: &mut Cx) {
    // single primes: every size, moduli of any kind (also not a power of two), any bound
    cx.out.unit();
    for rep in 0..cx.pick(6, 40) {
        for bits in 9..=63usize {
            for k in 0..4 {
                cx.out.cases += 1;
                let m: u64 = match k {
                    0 => 2 << cx.rng.gen_range(1..10),
                    1 => 2 * cx.rng.gen_range(2u64..3000),
                    2 => 2 << (bits - 2).min(15),
                    _ => 2 << cx.rng.gen_range(1..(bits as u32).min(20)),
                };
                let top = 1u64 << bits;
                let upper = match (rep + k) % 5 {
                    0 | 4 => top,
                    1 => top - cx.rng.gen_range(1..100),
                    2 => top - cx.rng.gen_range(1..top / 2),
                    _ => top / 2 + cx.rng.gen_range(1..20 * m.min(top / 64)),
                };
                // an exhaustive answer of the specification must be possible
                if (upper.saturating_sub(top / 2)) / m > 3000 && bits <= 62 && (top - upper > 1 << 30 || upper - top / 2 < 1 << 30) && bits < 24 {
                    continue;
                }
                let e = Ev::new("gen_prime").i("bits", bits as i64).n("m", m as u128).n("upper", upper as u128);
                let r = guard(|| generate_prime(bits, m, upper));
                cx.out.put(match r {
                    None => e.b("panic", true),
                    Some(None) => e.b("some", false),
                    Some(Some(p)) => e.b("some", true).n("r", p as u128),
                });
            }
            cx.out.unit();
        }
    }
    // primes modulo which all small primes are squares
    for bits in (24..=62usize).step_by(cx.pick(4, 1)) {
        let half = 1u64 << (bits - 1);
        let m = 2u64 << (bits % 7);
        let p = square_prime(half + (half >> 4) + cx.rng.gen_range(0..half / 2), m as usize / 2);
        if p >> bits != 0 {
            continue;
        }
        cx.out.unit();
        cx.out.cases += 1;
        let e = Ev::new("gen_prime").i("bits", bits as i64).n("m", m as u128).n("upper", p as u128 + 1);
        cx.out.put(match guard(|| generate_prime(bits, m, p + 1)) {
            None => e.b("panic", true),
            Some(None) => e.b("some", false),
            Some(Some(p)) => e.b("some", true).n("r", p as u128),
        });
    }
    // lists of sizes, also exhausting the small ones
    for rep in 0..cx.pick(150, 1200) {
        cx.out.unit();
        cx.out.cases += 1;
        let n: usize = 8 << cx.rng.gen_range(0..[5, 9, 12][rep % 3]);
        let k = cx.rng.gen_range(1..10);
        let base = cx.rng.gen_range(10..=62usize);
        let sizes: Vec<usize> = (0..k)
            .map(|_| match rep % 4 {
                0 => base,
                1 => cx.rng.gen_range(10..=62),
                2 => cx.rng.gen_range(10..=20),
                _ => cx.rng.gen_range(10..=14),
            })
            .collect();
        let e = Ev::new("gen_moduli").i("n", n as i64).is("sizes", &sizes.iter().map(|x| *x as i64).collect::<Vec<_>>());
        let r = guard(|| BfvParameters::generate_moduli(&sizes, n));
        cx.out.put(match r {
            None => e.b("panic", true),
            Some(None) => e.b("some", false),
            Some(Some(v)) => e.b("some", true).ns("r", &v),
        });
    }
    // parameter sets
    for i in 0..12 {
        let (n, t, ms, var) = params_of(i);
        set(cx, n, t, ms, var, false);
    }
    for (k, n) in [(1usize, 8usize), (2, 8), (3, 64), (4, 16), (6, 8), (5, 32)] {
        set(cx, n, 1153, moduli(&vec![62; k], n), 10, true);
    }
    for i in 0..cx.pick(30, 200) {
        let n: usize = 8 << cx.rng.gen_range(0..4);
        let k = 1 + i % 7;
        let mut ms: Vec<u64> = vec![];
        while ms.len() < k {
            let p = ntt_prime(cx.rng.gen_range(20..=62), n, cx.rng.gen_range(0..5));
            if !ms.contains(&p) {
                ms.push(p);
            }
        }
        let t = ntt_prime(cx.rng.gen_range(14..19), n, 0);
        let var = cx.rng.gen_range(1..17);
        set(cx, n, t, ms, var, false);
    }
    // ciphertext moduli among the candidates for the extension
    for gap in [vec![0usize], vec![0, 1, 2], vec![1, 3], vec![2, 0, 5, 4], vec![3, 2, 1, 0]] {
        let ms: Vec<u64> = gap.iter().map(|k| ntt_prime(62, 16, *k)).collect();
        set(cx, 16, 1153, ms, 10, false);
    }
}
