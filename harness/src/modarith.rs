//! C13: every operation of Modulus on boundary and random operands.
use crate::ev::*;
use crate::gen::*;
use num_bigint::BigUint;
use onion_pir::verif_hooks::modulus::Modulus;
use rand::Rng;

fn event1<A: Copy + Into<u128>>(cx: &mut Cx, f: &str, p: u64, a: &[A], op: impl Fn(A) -> u64) {
    cx.out.unit();
    cx.out.cases += a.len() as u64;
    let r: Option<Vec<u64>> = a.iter().map(|x| guard(|| op(*x))).collect();
    let e = Ev::new(f).n("p", p as u128).ns("a", a);
    cx.out.put(match r {
        Some(r) => e.ns("r", &r),
        None => e.b("panic", true),
    });
}

fn event2(cx: &mut Cx, f: &str, p: u64, ab: &[(u64, u64)], op: impl Fn(u64, u64) -> u64) {
    cx.out.unit();
    cx.out.cases += ab.len() as u64;
    let r: Option<Vec<u64>> = ab.iter().map(|(x, y)| guard(|| op(*x, *y))).collect();
    let a: Vec<u64> = ab.iter().map(|x| x.0).collect();
    let b: Vec<u64> = ab.iter().map(|x| x.1).collect();
    let e = Ev::new(f).n("p", p as u128).ns("a", &a).ns("b", &b);
    cx.out.put(match r {
        Some(r) => e.ns("r", &r),
        None => e.b("panic", true),
    });
}

pub fn moduli(cx: &mut Cx) -> Vec<u64> {
    let mut ms: Vec<u64> = vec![
        2, 3, 4, 5, 6, 7, 16, 17, 97, 255, 256, 257, 1153, 12289, 65536, 65537,
        2147483647,
        4294967295,
        4294967296,
        4294967297,
        (1 << 61) - 1,
        1 << 61,
        (1 << 61) + 1,
        (1 << 62) - 57,
        (1 << 62) - 1,
        4611686018326724609,
        4611686018309947393,
        36028797018963841,
        1125899906840833,
    ];
    // random primes and composites of random sizes
    let k = if cx.thorough { 150 } else { 24 };
    for i in 0..k {
        let bits = 2 + (i * 61 / k) as u32 % 61;
        let base = cx.rng.gen_range((1u64 << (bits - 1)).max(2)..(1u64 << bits));
        ms.push(if i % 4 == 3 { base } else { next_prime_in(base, bits) });
    }
    // primes of every width
    for bits in 3..=62u32 {
        let lo = 1u64 << (bits - 1);
        ms.push(next_prime_in(lo + cx.rng.gen_range(0..lo / 2), bits));
    }
    ms.retain(|p| *p >= 2 && p >> 62 == 0);
    ms.dedup();
    ms
}

pub fn run(cx: &mut Cx) {
    let reps = if cx.thorough { 60 } else { 16 };
    for p in moduli(cx) {
        let m = match guard(|| Modulus::new(p)) {
            Some(m) => m,
            None => {
                cx.out.unit();
                cx.out.put(Ev::new("new").n("p", p as u128).b("panic", true));
                continue;
            }
        };
        let prime = is_prime(p);
        let res = residues(&mut cx.rng, p, reps);
        let a64 = words64(&mut cx.rng, p, reps);
        let a128 = words128(&mut cx.rng, p, reps);
        let below2p: Vec<u64> = {
            let mut v = vec![0, 1, p - 1, p, p + 1, 2 * p - 1, p / 2];
            v.extend((0..reps).map(|_| cx.rng.gen_range(0..2 * p)));
            v.retain(|x| *x < 2 * p);
            v
        };
        let pairs: Vec<(u64, u64)> = {
            let edge: Vec<u64> = res.iter().copied().take(8).collect();
            let mut v = vec![];
            for x in &edge {
                for y in &edge {
                    v.push((*x, *y));
                }
            }
            v.extend((0..2 * reps).map(|_| (cx.rng.gen_range(0..p), cx.rng.gen_range(0..p))));
            // operands of all sizes, products around every power of two
            v.extend((0..8 * reps).map(|_| (sized(&mut cx.rng, p), sized(&mut cx.rng, p))));
            let bits = 63 - p.leading_zeros();
            for k in [31, 32, 33, 62, 63, 64, 65, 95, 96] {
                for i in 1..=bits {
                    if k > i && k - i <= bits {
                        v.push((((1u64 << i) - 1).min(p - 1), ((1u64 << (k - i)) - 1).min(p - 1)));
                        v.push(((1u64 << i).min(p - 1), ((1u64 << (k - i)) + 1).min(p - 1)));
                    }
                }
            }
            v
        };

        cx.out.unit();
        cx.out.cases += 2;
        cx.out.put(
            Ev::new("const")
                .n("p", p as u128)
                .n("modulus", m.modulus() as u128)
                .n("bits", m.bits() as u128),
        );
        event1(cx, "reduce", p, &a64, |x| m.reduce(x));
        event1(cx, "lazy_reduce", p, &a64, |x| m.lazy_reduce_ct(x));
        event1(cx, "reduce", p, &a128, |x| m.reduce_u128(x));
        event1(cx, "lazy_reduce", p, &a128, |x| m.lazy_reduce_u128(x));
        event1(cx, "reduce", p, &below2p, |x| Modulus::reduce_ct(x, p));
        event1(cx, "neg", p, &res, |x| m.neg(x));
        event1(cx, "shoup", p, &res, |x| m.shoup(x));
        event2(cx, "add", p, &pairs, |x, y| m.add(x, y));
        event2(cx, "sub", p, &pairs, |x, y| m.sub(x, y));
        event2(cx, "mul", p, &pairs, |x, y| m.mul(x, y));
        event2(cx, "pow", p, &pairs, |x, y| m.pow(x, y));
        if prime {
            let nz: Vec<u64> = res.iter().copied().filter(|x| *x != 0).collect();
            event1(cx, "inv", p, &nz, |x| m.inv(x));
            let v = guard(|| m.inv_vec(&nz));
            vec_event(cx, "inv", p, &nz, v);
        }
        // precomputed quotients: any 64-bit left operand
        let mut sh = vec![];
        for x in a64.iter().copied().take(24) {
            for y in res.iter().copied().take(7) {
                sh.push((x, y));
            }
        }
        sh.extend(pairs.iter().copied());
        sh.extend((0..reps).map(|_| (cx.rng.gen::<u64>(), cx.rng.gen_range(0..p))));
        event2(cx, "mul", p, &sh, |x, y| m.mul_shoup(x, y, m.shoup(y)));
        event2(cx, "lazy_mul", p, &sh, |x, y| m.lazy_mul_shoup(x, y, m.shoup(y)));

        // vector variants, also of length 0, 1 and odd lengths
        let xs: Vec<u64> = pairs.iter().map(|t| t.0).collect();
        let ys: Vec<u64> = pairs.iter().map(|t| t.1).collect();
        for len in [0usize, 1, 2, 3, 7, 8, 9, 16, 31, xs.len()] {
            let (x, y) = (&xs[..len.min(xs.len())], &ys[..len.min(xs.len())]);
            let binary: [(&str, fn(&Modulus, &mut [u64], &[u64])); 3] = [
                ("add", |m, a, b| m.add_vec(a, b)),
                ("sub", |m, a, b| m.sub_vec(a, b)),
                ("mul", |m, a, b| m.mul_vec(a, b)),
            ];
            for (f, op) in binary {
                let r = guard(|| {
                    let mut t = x.to_vec();
                    op(&m, &mut t, y);
                    t
                });
                cx.out.unit();
                cx.out.cases += x.len() as u64;
                let e = Ev::new(f).n("p", p as u128).ns("a", x).ns("b", y);
                cx.out.put(match r {
                    Some(r) => e.ns("r", &r),
                    None => e.b("panic", true),
                });
            }
            let r = guard(|| m.neg_vec(x));
            vec_event(cx, "neg", p, x, r);
            let r = guard(|| m.shoup_vec(x));
            vec_event(cx, "shoup", p, x, r);
            let w = &a64[..len.min(a64.len())];
            let r = guard(|| m.reduce_vec_u64(w));
            vec_event(cx, "reduce", p, w, r);
            for b in [0, 1, p - 1, p / 2] {
                let r = guard(|| m.scalar_mul_vec(x, b));
                cx.out.unit();
                cx.out.cases += x.len() as u64;
                let bs = vec![b; x.len()];
                let e = Ev::new("lazy_mul").n("p", p as u128).ns("a", x).ns("b", &bs);
                cx.out.put(match r {
                    Some(r) => e.ns("r", &r),
                    None => e.b("panic", true),
                });
            }
        }
        // signed
        let mut si: Vec<i64> = vec![0, 1, -1, 2, -2, i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1];
        for k in [1i64, 2, 3] {
            for d in [-1i64, 0, 1] {
                let v = (p as i128 * k as i128 + d as i128).min(i64::MAX as i128) as i64;
                si.push(v);
                si.push(-v);
            }
        }
        si.extend((0..reps).map(|_| cx.rng.gen::<i64>()));
        for k in 0..63 {
            si.extend([1i64 << k, -(1i64 << k), (1i64 << k) - 1, 1 - (1i64 << k), cx.rng.gen::<i64>() >> k]);
        }
        si.extend((0..reps).map(|_| cx.rng.gen_range(-40..40i64)));
        let r = guard(|| m.reduce_vec_i64(&si));
        cx.out.unit();
        cx.out.cases += si.len() as u64;
        let mag: Vec<u64> = si.iter().map(|x| x.unsigned_abs()).collect();
        let neg: Vec<i64> = si.iter().map(|x| (*x < 0) as i64).collect();
        let e = Ev::new("reduce_signed").n("p", p as u128).ns("a", &mag).is("neg", &neg);
        cx.out.put(match r {
            Some(r) => e.ns("r", &r),
            None => e.b("panic", true),
        });
        // wide integers
        let mut bi: Vec<BigUint> = vec![BigUint::from(0u8), BigUint::from(p), BigUint::from(p) * p];
        for k in 0..reps {
            let n = 1 + k as usize % 9;
            bi.push(BigUint::new((0..2 * n).map(|_| cx.rng.gen::<u32>()).collect()));
            bi.push(BigUint::from(p) * BigUint::new((0..2 * n).map(|_| cx.rng.gen::<u32>()).collect()) + (p - 1));
        }
        for k in [31u32, 32, 61, 62, 63, 64, 65, 124, 127, 128, 129, 191, 192, 256] {
            let x = BigUint::from(1u8) << k;
            bi.extend([&x - 1u32, x.clone(), x + 1u32]);
        }
        let r = guard(|| m.reduce_vec_biguint(&bi));
        cx.out.unit();
        cx.out.cases += bi.len() as u64;
        let e = Ev::new("reduce").n("p", p as u128).bigs("a", &bi);
        cx.out.put(match r {
            Some(r) => e.ns("r", &r),
            None => e.b("panic", true),
        });
        let r1: Option<Vec<u64>> = bi.iter().map(|x| guard(|| m.reduce_biguint(x))).collect();
        cx.out.unit();
        let e = Ev::new("reduce").n("p", p as u128).bigs("a", &bi);
        cx.out.put(match r1 {
            Some(r) => e.ns("r", &r),
            None => e.b("panic", true),
        });
        // random residues
        let mut rng = cx.chacha();
        let r = guard(|| {
            let mut v = m.random_vec(64, &mut rng);
            for _ in 0..32 {
                v.push(m.random(&mut rng));
            }
            v
        });
        cx.out.unit();
        cx.out.cases += 96;
        let e = Ev::new("random").n("p", p as u128).i("size", 96);
        cx.out.put(match r {
            Some(r) => e.ns("r", &r),
            None => e.b("panic", true),
        });
    }
}

fn vec_event(cx: &mut Cx, f: &str, p: u64, a: &[u64], r: Option<Vec<u64>>) {
    cx.out.unit();
    cx.out.cases += a.len() as u64;
    let e = Ev::new(f).n("p", p as u128).ns("a", a);
    cx.out.put(match r {
        Some(r) => e.ns("r", &r),
        None => e.b("panic", true),
    });
}
