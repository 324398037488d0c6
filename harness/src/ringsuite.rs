//! C17: programs over polynomial registers, drawn by spec/RingProg.tla.
use crate::ev::*;
use crate::gen::*;
use crate::nttsuite::small_ntt_prime;
use crate::rnssuite::width_prime;
use crate::poly;
use crate::rnssuite::{ntt_pool, REPO};
use num_bigint::BigUint;
use onion_pir::verif_hooks::rq::*;
use rand::Rng;
use std::sync::Arc;

/// the operations of a program
pub fn ops(p: &[String]) -> Vec<Vec<&str>> {
    p.split(|t| t == ";").map(|o| o.iter().map(|s| s.as_str()).collect()).collect()
}

struct M {
    n: usize,
    ctx: Arc<RqContext>,
    chain: Vec<Arc<RqContext>>,
    /// the next integer to scale by, if it is not to be drawn
    scalar: Option<BigUint>,
    reg: Vec<Poly>,
}

fn machine(ms: &[u64], n: usize, regs: usize) -> Option<M> {
    guard(|| {
        let c = poly::ctx(ms, n);
        let mut chain = vec![c.clone()];
        while let Some(x) = chain.last().unwrap().next_ctx.clone() {
            chain.push(x);
        }
        M { n, reg: (0..regs).map(|_| Poly::zero(&c, Representation::PowerBasis)).collect(), ctx: c, chain, scalar: None }
    })
}

fn start(cx: &mut Cx, m: &M) {
    cx.out.unit();
    cx.out.put(Ev::new("start").i("n", m.n as i64).ns("ms", &m.ctx.moduli_64).i("regs", m.reg.len() as i64));
}

/// the event with all registers as they are now; false when the call panicked
fn put(cx: &mut Cx, m: &M, e: Ev, ok: bool) -> bool {
    cx.out.cases += 1;
    if !ok {
        cx.out.put(e.b("panic", true));
        return false;
    }
    let shown = guard(|| {
        (
            m.reg.iter().map(poly::rows).collect::<Vec<_>>(),
            m.reg.iter().map(|r| r.context.moduli_64.clone()).collect::<Vec<_>>(),
            m.reg.iter().map(|r| format!("\"{}\"", poly::rep(r))).collect::<Vec<_>>().join(","),
        )
    });
    match shown {
        Some((rows, mods, reps)) => {
            cx.out.put(e.mats("rows", &rows).rows("mods", &mods).raw("reps", &format!("[{}]", reps)));
            true
        }
        None => {
            cx.out.put(e.b("panic", true));
            false
        }
    }
}

pub const HUGE: std::ops::Range<usize> = 105..109;
pub fn exponent(cx: &mut Cx, k: usize, n: usize) -> usize {
    match k {
        101 => 2 * n - 1,
        102 => n + 1,
        103 => 4 * n + 5,
        104 => 2 * cx.rng.gen_range(0..n) + 1,
        // far above the degree
        105 => (cx.rng.gen::<u64>() >> cx.rng.gen_range(0..44)) as usize | 1,
        106 => usize::MAX - 2 * cx.rng.gen_range(0..n),
        107 => (1 << 32) + 2 * cx.rng.gen_range(0..n) + 1,
        108 => (1 << cx.rng.gen_range(20..64)) + 2 * cx.rng.gen_range(0..n) + 1,
        k => k,
    }
}

fn step(cx: &mut Cx, m: &mut M, o: &[&str]) -> bool {
    let x = |i: usize| o[i].parse::<usize>().unwrap();
    let d = x(1);
    let n = m.n;
    let e = Ev::new(o[0]).i("d", d as i64);
    match o[0] {
        "new" => {
            let kind = x(3);
            let q = m.ctx.rns.product.clone();
            let len = if cx.rng.gen_range(0..3) == 0 { cx.rng.gen_range(1..=n) } else { n };
            match o[2] {
                "big" => {
                    let by_rows = cx.rng.gen_range(0..4) == 0;
                    let any = cx.rng.gen_range(0..poly::SPECIAL);
                    let mut v = if cx.rng.gen_range(0..4) == 0 { poly::special(cx, &m.ctx.moduli_64, n, any) } else if by_rows { poly::rows_vec(cx, &m.ctx.moduli_64, n) } else { poly::big_vec(cx, &q, n, kind) };
                    v.truncate(len);
                    // beyond the modulus as well
                    if cx.rng.gen_range(0..2) == 0 {
                        for c in v.iter_mut() {
                            *c += &q * cx.rng.gen_range(0u32..3);
                        }
                    }
                    let r = guard(|| Poly::try_from_bigint(&m.ctx, &v));
                    let ok = r.is_some();
                    m.reg[d] = r.unwrap_or(m.reg[d].clone());
                    put(cx, m, e.bigs("coeffs", &v), ok)
                }
                "u64" => {
                    let v: Vec<u64> = (0..len)
                        .map(|_| match kind {
                            1 => u64::MAX,
                            3 => *[0, 1, u64::MAX, 1 << 63, m.ctx.moduli_64[0], m.ctx.moduli_64[0] - 1]
                                .get(cx.rng.gen_range(0..6))
                                .unwrap(),
                            _ => {
                                let e = 1u64 << cx.rng.gen_range(0..64);
                                [e, e - 1, e + 1, cx.rng.gen::<u64>() >> cx.rng.gen_range(0..64)][cx.rng.gen_range(0..4)]
                            }
                        })
                        .collect();
                    let r = guard(|| Poly::try_from_vec_u64(&m.ctx, &v));
                    let ok = r.is_some();
                    m.reg[d] = r.unwrap_or(m.reg[d].clone());
                    put(cx, m, e.ns("coeffs", &v), ok)
                }
                _ => {
                    let v: Vec<i64> = (0..len)
                        .map(|_| match kind {
                            1 => -1,
                            3 => [0, 1, -1, i64::MAX, i64::MIN, -(m.ctx.moduli_64[0] as i64)][cx.rng.gen_range(0..6)],
                            _ => {
                                let e = 1i64 << cx.rng.gen_range(0..63);
                                [e, -e, e - 1, 1 - e, -e - 1, i64::MIN, cx.rng.gen::<i64>() >> cx.rng.gen_range(0..63)][cx.rng.gen_range(0..7)]
                            },
                        })
                        .collect();
                    let r = guard(|| Poly::try_from_vec_i64(&m.ctx, &v));
                    let ok = r.is_some();
                    m.reg[d] = r.unwrap_or(m.reg[d].clone());
                    let mag: Vec<u64> = v.iter().map(|x| x.unsigned_abs()).collect();
                    let neg: Vec<&str> = v.iter().map(|x| if *x < 0 { "true" } else { "false" }).collect();
                    let e = Ev::new("newi").i("d", d as i64).ns("coeffs", &mag).raw("neg", &format!("[{}]", neg.join(",")));
                    put(cx, m, e, ok)
                }
            }
        }
        "unit" => {
            // invertible modulo every prime: random if all primes are large, else c X^i
            let big = m.ctx.moduli_64.iter().all(|p| *p > 1 << 40);
            let q = m.ctx.rns.product.clone();
            let v = if big {
                poly::big_vec(cx, &q, n, 0)
            } else {
                let mut v = vec![BigUint::from(0u32); n];
                let mut c = poly::below(cx, &q);
                while m.ctx.moduli_64.iter().any(|p| &c % *p == BigUint::from(0u32)) {
                    c = poly::below(cx, &q);
                }
                v[cx.rng.gen_range(0..n)] = c;
                v
            };
            let r = guard(|| Poly::try_from_bigint(&m.ctx, &v));
            let ok = r.is_some();
            m.reg[d] = r.unwrap_or(m.reg[d].clone());
            put(cx, m, Ev::new("new").i("d", d as i64).bigs("coeffs", &v), ok)
        }
        "add" | "sub" | "mul" => {
            let (a, b) = (x(2), x(3));
            let r = {
                let (p, q) = (&m.reg[a], &m.reg[b]);
                guard(|| match o[0] {
                    "add" => p + q,
                    "sub" => p - q,
                    _ => p * q,
                })
            };
            let ok = r.is_some();
            m.reg[d] = r.unwrap_or(m.reg[d].clone());
            put(cx, m, e.i("a", a as i64).i("b", b as i64), ok)
        }
        "addto" | "subto" | "multo" => {
            let a = x(2);
            let rhs = m.reg[a].clone();
            let ok = guard(|| match o[0] {
                "addto" => m.reg[d] += &rhs,
                "subto" => m.reg[d] -= &rhs,
                _ => m.reg[d] *= &rhs,
            })
            .is_some();
            put(cx, m, e.i("a", a as i64), ok)
        }
        "neg" => {
            let a = x(2);
            let r = guard(|| -&m.reg[a]);
            let ok = r.is_some();
            m.reg[d] = r.unwrap_or(m.reg[d].clone());
            put(cx, m, e.i("a", a as i64), ok)
        }
        "scale" => {
            let a = x(2);
            let q = m.ctx.rns.product.clone();
            let c = match x(3) {
                _ if m.scalar.is_some() => m.scalar.take().unwrap(),
                0 => BigUint::from(0u32),
                1 => BigUint::from(1u32),
                2 => &q - 1u32,
                3 => m.ctx.rns.garner[cx.rng.gen_range(0..m.ctx.rns.garner.len())].clone(),
                4 => poly::below(cx, &q) + &q * 5u32,
                _ if cx.rng.gen() => poly::scalar(cx, &q),
                _ => poly::below(cx, &q),
            };
            let r = guard(|| {
                if d == a {
                    let mut t = m.reg[a].clone();
                    t *= &c;
                    t
                } else {
                    &m.reg[a] * &c
                }
            });
            let ok = r.is_some();
            m.reg[d] = r.unwrap_or(m.reg[d].clone());
            put(cx, m, e.i("a", a as i64).big("c", &c), ok)
        }
        "inv" => {
            let a = x(2);
            let r = guard(|| m.reg[a].inverse());
            let ok = r.is_some();
            m.reg[d] = r.unwrap_or(m.reg[d].clone());
            put(cx, m, e.i("a", a as i64), ok)
        }
        "subst" => {
            let a = x(2);
            let k = exponent(cx, x(3), n);
            let r = guard(|| {
                // the substitution is made for the register's context
                let s = Substitution::new(&m.reg[a].context, k);
                m.reg[a].substitute(&s)
            });
            let ok = r.is_some();
            m.reg[d] = r.unwrap_or(m.reg[d].clone());
            put(cx, m, e.i("a", a as i64).n("k", k as u128), ok)
        }
        "zero" => {
            let (to, k) = (if o[2] == "ntt" { Representation::Ntt } else { Representation::PowerBasis }, x(3));
            let k = k.min(m.chain.len() - 1);
            let r = guard(|| Poly::zero(&m.chain[k], to));
            let ok = r.is_some();
            m.reg[d] = r.unwrap_or(m.reg[d].clone());
            let k = m.chain[k].moduli_64.len() as i64;
            put(cx, m, e.s("to", o[2]).i("k", k), ok)
        }
        "rep" => {
            let to = if o[2] == "ntt" { Representation::Ntt } else { Representation::PowerBasis };
            let ok = guard(|| m.reg[d].change_representation(to)).is_some();
            put(cx, m, e.s("to", o[2]), ok)
        }
        "down" => {
            let ok = guard(|| m.reg[d].mod_switch_down_next()).is_some();
            put(cx, m, e, ok)
        }
        "to" => {
            let c = m.chain[x(2)].clone();
            let k = c.moduli_64.len();
            let ok = guard(|| m.reg[d].mod_switch_to(&c)).is_some();
            put(cx, m, e.i("k", k as i64), ok)
        }
        "read" => {
            // with one modulus also as machine words
            let one = m.reg[d].context.moduli_64.len() == 1;
            let r = guard(|| (Vec::<BigUint>::from(&m.reg[d]), if one { Vec::<u64>::from(&m.reg[d]) } else { vec![] }));
            let ok = r.is_some();
            let (r, w) = r.unwrap_or_default();
            let e = if one { e.ns("w", &w) } else { e };
            put(cx, m, e.bigs("r", &r), ok)
        }
        s => {
            eprintln!("unknown operation {}", s);
            std::process::exit(3)
        }
    }
}

pub fn run(cx: &mut Cx) {
    let progs = std::mem::take(&mut cx.progs);
    let mut widths = 0;
    for (i, p) in progs.iter().enumerate() {
        let n = if i % 20 == 19 { [256, 1024, 128, 512][i / 20 % 4] } else { [8usize, 8, 16, 32, 8, 64, 16, 8][i % 8] };
        // the programs use three levels; some contexts have more
        let len = if i % 9 == 8 { [5, 8, 12][i / 9 % 3] } else { 3 };
        let ms: Vec<u64> = match i % 5 {
            x if x > 0 && n == 8 => {
                // every width
                widths += 1;
                let mut ms = vec![ntt_prime(62, n, 4), mid_prime(61, n, 7)];
                ms.insert(i % 3, width_prime(widths));
                ms
            }
            0 => REPO[1..4].to_vec(),
            1 => vec![REPO[0], small_ntt_prime(n, 0), REPO[3]],
            2 => vec![ntt_prime(62, n, 0), ntt_prime(61, n, 0), ntt_prime(50, n, 0)],
            3 => vec![small_ntt_prime(n, 1), small_ntt_prime(n, 0), small_ntt_prime(n, 2)],
            _ => ntt_pool(cx, n)[..3].to_vec(),
        };
        let ms: Vec<u64> = ms.into_iter().filter(|p| p % (2 * n as u64) == 1).collect();
        let mut ms2 = ms.clone();
        let mut k = 0;
        while ms2.len() < len {
            let q = ntt_prime(if len > 3 { 62 } else { 60 }, n, k);
            if !ms2.contains(&q) {
                ms2.push(q);
            }
            k += 1;
        }
        let mut m = match machine(&ms2, n, 3) {
            Some(m) => m,
            None => {
                cx.out.unit();
                cx.out.put(Ev::new("context").b("panic", true).ns("ms", &ms2));
                continue;
            }
        };
        start(cx, &m);
        for o in ops(p) {
            if !step(cx, &mut m, &o) {
                break;
            }
        }
    }
    // every exponent, in both representations, and back
    for n in [8usize, 16, 32, 64, 128] {
        if n > 32 && !cx.thorough {
            break;
        }
        let ms = vec![ntt_prime(62, n, 0), small_ntt_prime(n, 0)];
        let mut m = match machine(&ms, n, 2) {
            Some(m) => m,
            None => continue,
        };
        start(cx, &m);
        step(cx, &mut m, &["new", "0", "big", "0"]);
        for rep in ["power", "ntt"] {
            step(cx, &mut m, &["rep", "0", rep]);
            for k in 0..2 * n {
                let k = (2 * k + 1).to_string();
                step(cx, &mut m, &["subst", "1", "0", &k]);
            }
            for k in HUGE.chain(HUGE) {
                step(cx, &mut m, &["subst", "1", "0", &k.to_string()]);
            }
        }
    }
    // integers of every size as factors
    for bits in [vec![62u32, 62, 62], vec![62], vec![30, 61]] {
        let n = 8;
        let ms: Vec<u64> = bits.iter().enumerate().map(|(k, b)| ntt_prime(*b, n, k)).collect();
        let mut m = match machine(&ms, n, 2) {
            Some(m) => m,
            None => continue,
        };
        start(cx, &m);
        step(cx, &mut m, &["new", "0", "big", "0"]);
        step(cx, &mut m, &["rep", "0", "ntt"]);
        let top = 2 * bits.iter().sum::<u32>() + 3;
        for k in 0..top {
            let p = BigUint::from(1u32) << k;
            let inside = &p + poly::below(cx, &p);
            for c in [&p - 1u32, p.clone(), &p + 1u32, inside] {
                m.scalar = Some(c);
                step(cx, &mut m, &["scale", "1", "0", "0"]);
            }
        }
    }
}
