//! C14, C15, C16: residue number systems, scaling, modulus switching.
use crate::ev::*;
use crate::gen::*;
use crate::nttsuite::small_ntt_prime;
use crate::poly;
use ndarray::{Array1, ArrayView1};
use num_bigint::BigUint;
use onion_pir::verif_hooks::rns::*;
use onion_pir::verif_hooks::rq::*;
use rand::seq::SliceRandom;
use rand::Rng;
use std::sync::Arc;

pub const REPO: [u64; 5] = [1153, 4611686018326724609, 4611686018309947393, 4611686018232352769, 4611686018171535361];

fn primes_of(cx: &mut Cx, sizes: &[u32]) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for b in sizes {
        loop {
            let lo = 1u64 << (b - 1);
            let p = next_prime_in(lo + cx.rng.gen_range(0..lo), *b);
            if !v.contains(&p) {
                v.push(p);
                break;
            }
        }
    }
    v
}

fn bases(cx: &mut Cx) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = vec![
        vec![2],
        vec![3],
        vec![2, 3],
        vec![3, 2, 5],
        vec![2, 3, 5, 7, 11, 13],
        vec![1153],
        REPO.to_vec(),
        REPO[1..].to_vec(),
        REPO.iter().rev().copied().collect(),
        vec![(1 << 61) - 1, 2, 4611686018326724609],
        vec![2147483647, 65537, 257],
        vec![4611686018427387847, 4611686018427387817, 4611686018427387787, 4611686018427387761],
    ];
    v.retain(|b| b.iter().all(|p| is_prime(*p)));
    let sizes: &[&[u32]] = &[
        &[62],
        &[62, 62],
        &[62, 62, 62],
        &[50, 55, 55],
        &[10, 62, 10, 62],
        &[62, 2, 62],
        &[31, 32, 33, 34],
        &[61, 60, 59, 58, 57, 56],
        &[5, 6, 7, 8, 9],
        &[62, 61, 62, 61, 62, 61, 62, 61],
        &[30; 9],
        &[62; 12],
        &[62; 17],
        &[61; 16],
        &[62; 8],
        &[62; 33],
    ];
    for s in sizes {
        v.push(primes_of(cx, s));
    }
    // products around the widths of machine words
    for total in [31u32, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257] {
        for k in 2..7u32 {
            if total / k > 61 || total / k < 6 {
                continue;
            }
            let s: Vec<u32> = (0..k).map(|i| total / k + (i < total % k) as u32).collect();
            // the product has this many bits or a little fewer; the largest primes of each size too
            let b = primes_of(cx, &s);
            v.push(b);
            if cx.rng.gen_range(0..2) == 0 {
                let mut b: Vec<u64> = vec![];
                for x in &s {
                    let mut p = (1u64 << x) - 1;
                    while !is_prime(p) || b.contains(&p) {
                        p -= 1;
                    }
                    b.push(p);
                }
                v.push(b);
            }
        }
    }
    // primes of every width
    for w in 3..=62u32 {
        v.push(primes_of(cx, &[[w, 62], [62, w], [w, w - w % 7 / 3]][w as usize % 3]));
    }
    for _ in 0..cx.pick(12, 120) {
        let k = cx.rng.gen_range(1..8);
        let s: Vec<u32> = (0..k).map(|_| cx.rng.gen_range(5..=62)).collect();
        v.push(primes_of(cx, &s));
    }
    v
}

fn values(cx: &mut Cx, q: &BigUint, n: usize) -> Vec<BigUint> {
    let one = BigUint::from(1u32);
    let mut v = vec![BigUint::from(0u32), &one % q, q - &one, q >> 1, ((q >> 1) + &one) % q];
    for k in [0, 5, 6] {
        v.extend(poly::big_vec(cx, q, n, k));
    }
    v
}

fn residues_of(a: &BigUint, ms: &[u64]) -> Vec<u64> {
    ms.iter().map(|m| (a % *m).to_u64_digits().first().copied().unwrap_or(0)).collect()
}

pub fn rns(cx: &mut Cx) {
    for ms in bases(cx) {
        cx.out.unit();
        let e = Ev::new("context").ns("ms", &ms);
        let c = match guard(|| RnsContext::new(&ms)) {
            Some(c) => c,
            None => {
                cx.out.put(e.b("panic", true));
                continue;
            }
        };
        cx.out.put(
            e.big("product", &c.product)
                .big("modulus", c.modulus())
                .bigs("star", &c.q_star)
                .ns("tilde", &c.q_tilde)
                .bigs("garner", &c.garner),
        );
        let q = poly::modulus(&ms);
        let n = cx.pick(20, 60);
        let mut vs = values(cx, &q, n);
        // numbers beyond the product are reduced
        let more: Vec<BigUint> = vs.iter().take(12).map(|v| v + &q * cx.rng.gen_range(1u32..1000)).collect();
        for _ in 0..3 {
            vs.extend(poly::rows_vec(cx, &ms, 4));
        }
        let small: Vec<BigUint> = vs.clone();
        vs.extend(more);
        cx.out.cases += vs.len() as u64;
        let r = guard(|| vs.iter().map(|v| c.project(v)).collect::<Vec<_>>());
        let e = Ev::new("project").ns("ms", &ms).bigs("a", &vs);
        cx.out.put(match r {
            Some(r) => e.rows("r", &r),
            None => e.b("panic", true),
        });
        let mut rs: Vec<Vec<u64>> = small.iter().map(|v| residues_of(v, &ms)).collect();
        for _ in 0..n {
            rs.push(ms.iter().map(|m| cx.rng.gen_range(0..*m)).collect());
            rs.push(ms.iter().map(|m| [0, 1 % m, m - 1, cx.rng.gen_range(0..*m)][cx.rng.gen_range(0..4)]).collect());
        }
        cx.out.cases += rs.len() as u64;
        let r = guard(|| rs.iter().map(|v| c.lift(ArrayView1::from(v.as_slice()))).collect::<Vec<_>>());
        let e = Ev::new("lift").ns("ms", &ms).rows("a", &rs);
        cx.out.put(match r {
            Some(r) => e.bigs("r", &r),
            None => e.b("panic", true),
        });
    }
}

/// inputs whose scaled value lies close to a rounding tie, at a distance of
/// 2^-38 up to 2^-8, or close to where the centering wraps
fn near_ties(cx: &mut Cx, q: &BigUint, num: &BigUint, den: &BigUint, n: usize) -> Vec<BigUint> {
    let mut v = vec![];
    if num == &BigUint::from(0u32) {
        return v;
    }
    let top = num * q / den;
    for _ in 0..n {
        // y = k + 1/2 for a k below num q / den; x close to y den / num
        let k = poly::below(cx, &(&top + 1u32));
        let y2 = &k * 2u32 + 1u32;
        let d = cx.rng.gen_range(8u32..39);
        let x = (&y2 * den) / (num * 2u32);
        let off = den >> d;
        for x in [x.clone() + &off / num, x.clone() - (&off / num).min(x.clone()), x.clone() + 1u32, x] {
            v.push(x % q);
        }
    }
    for _ in 0..n / 2 {
        let d = cx.rng.gen_range(8u32..39);
        v.push(((q >> 1) + (q >> d)) % q);
        v.push((q >> 1) - (q >> d).min(q >> 1));
    }
    v
}

pub fn scale(cx: &mut Cx) {
    // single residue vectors, any two bases
    let all = bases(cx);
    let rounds = cx.pick(400, 1500);
    let long: Vec<Vec<u64>> = all.iter().filter(|b| b.len() >= 8).cloned().collect();
    for i in 0..rounds {
        let from = if i % 6 == 5 { long.choose(&mut cx.rng) } else { all.choose(&mut cx.rng) }.unwrap().clone();
        let mut to = all.choose(&mut cx.rng).unwrap().clone();
        if i % 4 == 0 {
            // the extension of a basis: common moduli first
            to = from.clone();
            to.extend(all.choose(&mut cx.rng).unwrap().iter().filter(|p| !from.contains(p)));
            to.truncate(from.len() + 4);
        } else if i % 4 == 1 {
            // common moduli in other places
            to.extend(from.iter().rev());
            to.sort();
            to.dedup();
            to.shuffle(&mut cx.rng);
        }
        if to.len() > 40 {
            continue;
        }
        let q = poly::modulus(&from);
        let p = poly::modulus(&to);
        let t = [2u64, 3, 17, 1153, 65537, 4611686018326724609][cx.rng.gen_range(0..6)];
        let (num, den) = match cx.rng.gen_range(0..7) {
            0 | 1 => (BigUint::from(1u32), BigUint::from(1u32)),
            2 => (BigUint::from(t), q.clone()),
            3 => (q.clone(), BigUint::from(t)),
            4 => (p.clone(), q.clone()),
            5 => (q.clone(), q.clone()),
            _ => (poly::below(cx, &q) + 1u32, poly::below(cx, &p) + 1u32),
        };
        let mut xs = values(cx, &q, cx.pick(6, 16));
        let nt = cx.pick(6, 24);
        xs.extend(near_ties(cx, &q, &num, &den, nt));
        xs.extend(poly::rows_vec(cx, &from, 8));
        let a: Vec<Vec<u64>> = xs.iter().map(|x| residues_of(x, &from)).collect();
        let (start, count) = if i % 3 == 0 {
            let s = cx.rng.gen_range(0..to.len());
            (s, cx.rng.gen_range(1..=to.len() - s))
        } else {
            (0, to.len())
        };
        cx.out.unit();
        cx.out.cases += a.len() as u64;
        let r = guard(|| {
            let (f, t) = (Arc::new(RnsContext::new(&from)), Arc::new(RnsContext::new(&to)));
            let s = RnsScaler::new(&f, &t, ScalingFactor::new(num.clone(), den.clone()));
            a.iter()
                .map(|x| {
                    let mut o = Array1::<u64>::zeros(count);
                    s.scale(ArrayView1::from(x.as_slice()), o.view_mut(), start);
                    o.to_vec()
                })
                .collect::<Vec<_>>()
        });
        let e = Ev::new("scale")
            .ns("from", &from)
            .ns("to", &to)
            .big("num", &num)
            .big("den", &den)
            .i("start", start as i64)
            .i("count", count as i64)
            .rows("a", &a);
        cx.out.put(match r {
            Some(r) => e.rows("r", &r),
            None => e.b("panic", true),
        });
    }
    // polynomials
    let plain = cx.pick(100, 600);
    for i in 0..plain + 106 {
        let mut n = if i % 20 == 19 { [256usize, 512, 1024][cx.rng.gen_range(0..3)] } else { [8usize, 16, 32, 64][cx.rng.gen_range(0..4)] };
        if i >= plain {
            n = 8;
        }
        let mut pool = ntt_pool(cx, n);
        if i >= plain {
            // every width
            let w = width_prime(i - plain);
            pool.retain(|p| *p != w);
            pool.insert(0, w);
        }
        let kf = cx.rng.gen_range(1..5);
        let from: Vec<u64> = pool[..kf].to_vec();
        let kt = cx.rng.gen_range(1..6);
        let mut to: Vec<u64> = match i % 5 {
            0 => pool.iter().copied().take(kf + 2).collect(),
            1 => from.iter().rev().copied().chain(pool[kf..].iter().copied()).take(kt.max(2)).collect(),
            2 => from[..cx.rng.gen_range(1..=kf)].to_vec(),
            3 => pool[kf..].iter().copied().take(kt).collect(),
            _ => {
                let mut x = pool.clone();
                x.shuffle(&mut cx.rng);
                x.truncate(kt);
                x
            }
        };
        if i % 5 == 0 && i % 2 == 0 {
            // equal prefix, then others
            let l = to.len();
            to[l - 1] = pool[kf + 3];
        }
        let q = poly::modulus(&from);
        let t = [2u64, 3, 17, 1153][cx.rng.gen_range(0..4)];
        let (num, den) = match cx.rng.gen_range(0..6) {
            0 | 1 => (BigUint::from(1u32), BigUint::from(1u32)),
            2 => (BigUint::from(t), q.clone()),
            3 => (BigUint::from(t), poly::modulus(&pool[..2])),
            4 => (q.clone(), q.clone()),
            _ => (poly::modulus(&to), q.clone()),
        };
        let mut v = if i % 8 == 7 { poly::rows_vec(cx, &from, n) } else { poly::big_vec(cx, &q, n, i % 7) };
        let ties = near_ties(cx, &q, &num, &den, 4);
        for t in ties {
            let k = cx.rng.gen_range(0..n);
            v[k] = t;
        }
        let in_ntt = i % 2 == 1;
        cx.out.unit();
        cx.out.cases += 1;
        let r = guard(|| {
            let (f, t) = (poly::ctx(&from, n), poly::ctx(&to, n));
            let s = RqScaler::new(&f, &t, ScalingFactor::new(num.clone(), den.clone()));
            let mut p = poly::from_bigs(&f, &v);
            if in_ntt {
                p = poly::ntt(p);
            }
            let r = rq_scale(&s, &p);
            (poly::rep(&p), poly::rows(&p), poly::rep(&r), r.context.moduli_64.clone(), poly::rows(&r))
        });
        let a: Vec<Vec<u64>> = from.iter().map(|m| v.iter().map(|x| residues_of(x, &[*m])[0]).collect()).collect();
        let e = Ev::new("rq_scale")
            .i("n", n as i64)
            .ns("from", &from)
            .ns("to", &to)
            .big("num", &num)
            .big("den", &den)
            .rows("a", &a);
        cx.out.put(match r {
            Some((ri, before, ro, ctx, r)) => e
                .s("rep_in", ri)
                .rows("after", &before)
                .s("rep_out", ro)
                .ns("ctx", &ctx)
                .rows("r", &r),
            None => e.b("panic", true),
        });
    }
}

/// ten primes congruent to 1 modulo 2n, of mixed sizes, in random order
pub fn ntt_pool(cx: &mut Cx, n: usize) -> Vec<u64> {
    let mut v = vec![
        small_ntt_prime(n, 0),
        small_ntt_prime(n, 1),
        small_ntt_prime(n, 3),
        ntt_prime(20, n, 0),
        ntt_prime(31, n, 0),
        ntt_prime(45, n, 1),
        ntt_prime(50, n, 0),
        ntt_prime(55, n, 0),
        ntt_prime(60, n, 0),
        ntt_prime(61, n, 2),
    ];
    for k in 0..4 {
        v.push(ntt_prime(62, n, k));
    }
    v.extend([62u32, 59, 40, 33].iter().enumerate().map(|(k, b)| mid_prime(*b, n, k)));
    v.shuffle(&mut cx.rng);
    v.sort_by_key(|_| cx.rng.gen::<u8>());
    v.dedup();
    v.truncate(10);
    v
}

/// primes for rings of degree 8, of 10 to 62 bits in turn
pub fn width_prime(i: usize) -> u64 {
    let b = 10 + i as u32 % 53;
    if (i + i / 53) % 2 == 0 { mid_prime(b, 8, b as usize / 2 + 1) } else { ntt_prime(b, 8, 1) }
}

pub fn switch(cx: &mut Cx) {
    let plain = cx.pick(100, 600);
    for i in 0..plain + 106 {
        let n = if i >= plain { 8 } else if i % 18 == 17 { [256usize, 1024][i / 18 % 2] } else { [8usize, 16, 32, 64][i % 4] };
        let pool = ntt_pool(cx, n);
        let k = cx.rng.gen_range(1..7usize);
        let ms: Vec<u64> = if i % 9 == 0 && n <= 64 { REPO.to_vec() } else if i % 17 == 5 { (0..12).map(|k| ntt_prime(62, n, k)).collect() } else { pool[..k].to_vec() };
        let ms = if i >= plain {
            let w = width_prime(i - plain);
            let others = [ntt_prime(62, 8, 4), mid_prime(61, 8, 7), ntt_prime(58, 8, 6)];
            let mut ms: Vec<u64> = others.iter().copied().filter(|m| *m != w).collect();
            ms.insert([3, 2, 0, 1][i % 4].min(ms.len()), w);
            ms
        } else {
            ms
        };
        let k = ms.len();
        let q = poly::modulus(&ms);
        let mut v = if i % 8 == 7 { poly::rows_vec(cx, &ms, n) } else { poly::big_vec(cx, &q, n, i % 7) };
        // ties and their neighbours when dividing by the last moduli
        let mut d = BigUint::from(1u32);
        for m in ms.iter().rev() {
            d *= *m;
            for o in 0..2u32 {
                let j = cx.rng.gen_range(0..n);
                let x = poly::below(cx, &q);
                v[j] = (&x / &d * &d + (&d >> 1) + o) % &q;
            }
        }
        let a: Vec<Vec<u64>> = ms.iter().map(|m| v.iter().map(|x| residues_of(x, &[*m])[0]).collect()).collect();
        let c = match guard(|| poly::ctx(&ms, n)) {
            Some(c) => c,
            None => {
                cx.out.unit();
                cx.out.put(Ev::new("switch").b("panic", true).ns("ms", &ms));
                continue;
            }
        };
        cx.out.unit();
        let mut chain = vec![c.clone()];
        while let Some(x) = chain.last().unwrap().next_ctx.clone() {
            chain.push(x);
        }
        let build = || poly::from_bigs(&c, &v);
        // one step at a time
        let mut cur = Some(build());
        for s in 1..k {
            cur = cur.and_then(|mut p| {
                guard(|| {
                    p.mod_switch_down_next();
                    p
                })
            });
            record(cx, &ms, n, s, &a, "steps", cur.as_ref());
        }
        // directly
        for s in 0..k {
            let p = guard(|| {
                let mut p = build();
                p.mod_switch_to(&chain[s]);
                p
            });
            record(cx, &ms, n, s, &a, "to", p.as_ref());
            // a context of the same moduli built separately is the same context
            let p = guard(|| {
                let mut p = build();
                p.mod_switch_to(&poly::ctx(&ms[..k - s], n));
                p
            });
            record(cx, &ms, n, s, &a, "to", p.as_ref());
        }
        // one poly going down twice
        if k >= 3 {
            let p = guard(|| {
                let mut p = build();
                p.mod_switch_to(&chain[1]);
                p.mod_switch_to(&chain[k - 1]);
                p
            });
            record(cx, &ms, n, k - 1, &a, "to", p.as_ref());
        }
        // distances
        let mut targets: Vec<Vec<u64>> = (0..k).map(|s| ms[..k - s].to_vec()).collect();
        targets.push(ms.iter().rev().copied().collect());
        targets.push(pool[1..4].to_vec());
        targets.push(ms.iter().copied().chain(pool[8..9].iter().copied().filter(|p| !ms.contains(p))).collect());
        if k > 1 {
            targets.push(ms[1..].to_vec());
        }
        // a chain's context with one modulus replaced, two exchanged, one left out or twice as long
        for s in 0..k {
            let below = ms[..k - s].to_vec();
            let (i, j) = (cx.rng.gen_range(0..below.len()), cx.rng.gen_range(0..below.len()));
            let mut x = below.clone();
            if let Some(p) = pool.iter().find(|p| !ms.contains(p)) {
                x[i] = *p;
                targets.push(x.clone());
                x = below.clone();
                x[0] = *p;
                targets.push(x);
            }
            let mut x = below.clone();
            x.swap(i, j);
            targets.push(x);
            if below.len() > 1 {
                let mut x = below.clone();
                x.swap(0, 1);
                targets.push(x);
                let mut x = below.clone();
                x.remove(i);
                targets.push(x);
            }
        }
        targets.sort();
        targets.dedup();
        for t in targets {
            let other = match guard(|| poly::ctx(&t, n)) {
                Some(o) => o,
                None => continue,
            };
            cx.out.cases += 1;
            let e = Ev::new("distance").ns("ms", &ms).ns("to", &t);
            let d = guard(|| c.switch_iterations(&other));
            cx.out.put(match d {
                Some(d) => e.i("r", d.map(|x| x as i64).unwrap_or(-1)),
                None => e.b("panic", true),
            });
            // refused when it is not below
            if !(t.len() <= k && t[..] == ms[..t.len()]) {
                let r = guard(|| {
                    let mut p = build();
                    p.mod_switch_to(&other);
                });
                cx.out.put(Ev::new("switch_refused").ns("ms", &ms).ns("to", &t).b("refused", r.is_none()));
            }
        }
        // upwards, and at the bottom
        for (from, to) in [(k - 1, 0), (1.min(k - 1), 0)] {
            if from != to {
                let r = guard(|| {
                    let mut p = Poly::zero(&chain[from], Representation::PowerBasis);
                    p.mod_switch_to(&chain[to]);
                });
                cx.out.put(
                    Ev::new("switch_refused").ns("ms", &chain[from].moduli_64).ns("to", &chain[to].moduli_64).b("refused", r.is_none()),
                );
            }
        }
        let r = guard(|| {
            let mut p = Poly::zero(&chain[k - 1], Representation::PowerBasis);
            p.mod_switch_down_next();
        });
        cx.out.put(Ev::new("switch_refused").ns("ms", &ms[..1]).ns("to", &ms[..0]).b("refused", r.is_none()));
    }
}

fn record(cx: &mut Cx, ms: &[u64], n: usize, steps: usize, a: &[Vec<u64>], how: &str, p: Option<&Poly>) {
    cx.out.cases += 1;
    let e = Ev::new("switch").ns("ms", ms).i("n", n as i64).i("steps", steps as i64).s("how", how).rows("a", a);
    cx.out.put(match p {
        Some(p) => e.ns("ctx", &p.context.moduli_64).rows("r", &poly::rows(p)),
        None => e.b("panic", true),
    });
}
