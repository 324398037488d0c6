//! C22: 256-bit integers, digits and number theory helpers.
use crate::ev::*;
use crate::gen::*;
use num_bigint::BigUint;
use onion_pir::verif_hooks::utils::{bit_vector, decompose_bits, div_ceil, ilog2, mod_inverse, U256};
use rand::Rng;

fn big(w: &[u64; 4]) -> BigUint {
    let mut v = vec![];
    for x in w {
        v.push(*x as u32);
        v.push((*x >> 32) as u32);
    }
    BigUint::new(v)
}

fn limb(cx: &mut Cx) -> u64 {
    match cx.rng.gen_range(0..8) {
        0 => 0,
        1 => u64::MAX,
        2 => 1,
        3 => 1 << 63,
        4 => (1u64 << cx.rng.gen_range(0..64)).wrapping_sub(1),
        5 => 1u64 << cx.rng.gen_range(0..64),
        _ => cx.rng.gen(),
    }
}

fn word(cx: &mut Cx) -> [u64; 4] {
    [limb(cx), limb(cx), limb(cx), limb(cx)]
}

fn done(cx: &mut Cx, e: Ev, r: Option<Ev>) {
    let _ = cx;
    match r {
        Some(r) => cx.out.put(r),
        None => cx.out.put(e.b("panic", true)),
    }
}

pub fn run(cx: &mut Cx) {
    let n = cx.pick(400, 4000);
    // sums and differences, with every pattern of carries between the limbs
    for f in ["add", "sub"] {
        for _ in 0..n / 20 {
            let (mut a, mut b, mut r) = (vec![], vec![], vec![]);
            let mut bad = false;
            for _ in 0..40 {
                let (x, y) = (word(cx), word(cx));
                a.push(big(&x));
                b.push(big(&y));
                match guard(|| {
                    let mut z = U256::from(x);
                    if f == "add" {
                        z.wrapping_add_assign(U256::from(y));
                    } else {
                        z.wrapping_sub_assign(U256::from(y));
                    }
                    <[u64; 4]>::from(z)
                }) {
                    Some(z) => r.push(big(&z)),
                    None => bad = true,
                }
            }
            cx.out.unit();
            cx.out.cases += 40;
            let e = Ev::new(f).bigs("a", &a).bigs("b", &b);
            cx.out.put(if bad { e.b("panic", true) } else { e.bigs("r", &r) });
        }
    }
    // every shift distance
    for k in 0..256usize {
        let (mut a, mut r) = (vec![], vec![]);
        let mut bad = false;
        for i in 0..n / 25 {
            let x = if i == 0 { [u64::MAX; 4] } else { word(cx) };
            a.push(big(&x));
            match guard(|| {
                let mut z = U256::from(x);
                z >>= k;
                let y = U256::from(x) >> k;
                (<[u64; 4]>::from(z), <[u64; 4]>::from(y))
            }) {
                Some((z, y)) => {
                    r.push(big(&z));
                    a.push(big(&x));
                    r.push(big(&y));
                }
                None => bad = true,
            }
        }
        cx.out.unit();
        cx.out.cases += a.len() as u64;
        let e = Ev::new("shr").i("k", k as i64).bigs("a", &a);
        cx.out.put(if bad { e.b("panic", true) } else { e.bigs("r", &r) });
    }
    for _ in 0..n {
        let x = word(cx);
        let xb = big(&x);
        cx.out.unit();
        cx.out.cases += 1;
        let e = Ev::new("conv").big("a", &xb);
        let y: [u128; 2] = [
            (x[0] as u128) | ((x[1] as u128) << 64),
            (x[2] as u128) | ((x[3] as u128) << 64),
        ];
        let r = guard(|| {
            let n: [u64; 4] = (!U256::from(x)).into();
            let p: [u128; 2] = U256::from(x).into();
            let q: [u64; 4] = U256::from(y).into();
            let lo = u128::from(&U256::from([x[0], x[1], 0, 0]));
            let z: [u64; 4] = U256::zero().into();
            Ev::new("conv")
                .big("a", &xb)
                .big("not", &big(&n))
                .n("lo", p[0])
                .n("hi", p[1])
                .big("same", &big(&q))
                .n("low", lo)
                .n("msb", U256::from(x).msb() as u128)
                .big("zero", &big(&z))
                .b("eq", U256::from(x) == U256::from(y))
        });
        done(cx, e, r);
    }
    // bit vectors and digits
    for bits in 1..=64usize {
        for i in 0..cx.pick(4, 20) {
            let top = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
            let m = match i {
                0 => 0,
                1 => top,
                2 => 1u64 << (bits - 1),
                _ => cx.rng.gen::<u64>() & top,
            };
            cx.out.unit();
            cx.out.cases += 1;
            let e = Ev::new("bits").n("m", m as u128).i("size", bits as i64);
            let r = guard(|| bit_vector(bits, m)).map(|v| {
                Ev::new("bits")
                    .n("m", m as u128)
                    .i("size", bits as i64)
                    .is("r", &v.iter().map(|b| *b as i64).collect::<Vec<_>>())
            });
            done(cx, e, r);
            for d in [1usize, 2, 3, 4, 5, 7, 8, 13, 16, 31, 32, 33, 63, 64] {
                if i > 4 && d % 3 != (i as usize) % 3 {
                    continue;
                }
                cx.out.unit();
                cx.out.cases += 1;
                let mk = || {
                    Ev::new("digits")
                        .n("m", m as u128)
                        .i("size", bits as i64)
                        .i("base", d as i64)
                };
                let r = guard(|| decompose_bits(m, bits, d)).map(|v| mk().ns("r", &v));
                done(cx, mk(), r);
            }
        }
    }
    // logarithm and division
    let mut xs: Vec<u128> = vec![];
    for k in 0..128 {
        for d in [-1i32, 0, 1] {
            let v = (1u128 << k).wrapping_add(d as i128 as u128);
            if v > 0 {
                xs.push(v);
            }
        }
    }
    xs.push(u128::MAX);
    for _ in 0..n {
        xs.push(cx.rng.gen::<u128>() >> cx.rng.gen_range(0..127) | 1);
    }
    let x64: Vec<u128> = xs.iter().copied().filter(|x| *x <= u64::MAX as u128).collect();
    let x32: Vec<u128> = xs.iter().copied().filter(|x| *x <= u32::MAX as u128).collect();
    for (w, v) in [(128, &xs), (64, &x64), (32, &x32), (63, &x64)] {
        cx.out.unit();
        cx.out.cases += v.len() as u64;
        let r: Option<Vec<i64>> = v
            .iter()
            .map(|x| {
                guard(|| match w {
                    128 => ilog2(*x) as i64,
                    64 => ilog2(*x as u64) as i64,
                    63 => ilog2(*x as usize) as i64,
                    _ => ilog2(*x as u32) as i64,
                })
            })
            .collect();
        let e = Ev::new("ilog2").ns("a", v);
        cx.out.put(match r {
            Some(r) => e.is("r", &r),
            None => e.b("panic", true),
        });
    }
    for w in [128, 64, 33] {
        let (mut a, mut b) = (vec![], vec![]);
        let lim: u128 = if w == 128 { u128::MAX } else { u64::MAX as u128 };
        for i in 0..n {
            let y = match i % 5 {
                0 => 1,
                1 => 2,
                2 => (cx.rng.gen::<u128>() & lim).max(1),
                _ => ((cx.rng.gen::<u128>() & lim) >> cx.rng.gen_range(0..if w == 128 { 127 } else { 63 })).max(1),
            };
            let mut x = (cx.rng.gen::<u128>() & lim) >> cx.rng.gen_range(0..64);
            if i % 7 == 0 {
                x = x / y * y;
            }
            if i % 11 == 0 {
                x = lim - y;
            }
            if i % 13 == 0 {
                x = 0;
            }
            if x.checked_add(y).map_or(true, |s| s > lim) {
                continue;
            }
            a.push(x);
            b.push(y);
        }
        let r: Option<Vec<u128>> = a
            .iter()
            .zip(b.iter())
            .map(|(x, y)| {
                if w == 128 {
                    guard(|| div_ceil(*x, *y))
                } else if w == 64 {
                    guard(|| div_ceil(*x as u64, *y as u64) as u128)
                } else {
                    guard(|| div_ceil(*x as usize, *y as usize) as u128)
                }
            })
            .collect();
        cx.out.unit();
        cx.out.cases += a.len() as u64;
        let e = Ev::new("div_ceil").ns("a", &a).ns("b", &b);
        cx.out.put(match r {
            Some(r) => e.ns("r", &r),
            None => e.b("panic", true),
        });
    }
    // inverses
    let mut vq: Vec<(u64, u64)> = vec![];
    for q in 2..40u64 {
        for v in 1..q + 3 {
            vq.push((v, q));
        }
    }
    for i in 0..2 * n {
        let q = match i % 4 {
            0 => next_prime_in(cx.rng.gen::<u64>() >> 1, 63),
            1 => cx.rng.gen::<u64>().max(2),
            2 => u64::MAX - cx.rng.gen_range(0..100),
            _ => (cx.rng.gen::<u64>() >> cx.rng.gen_range(0..60)).max(2),
        };
        let v = match i % 3 {
            0 => cx.rng.gen_range(1..q),
            1 => q - 1,
            _ => cx.rng.gen::<u64>().max(1),
        };
        vq.push((v, q));
    }
    for c in vq.chunks(50) {
        cx.out.unit();
        cx.out.cases += c.len() as u64;
        let v: Vec<u64> = c.iter().map(|x| x.0).collect();
        let q: Vec<u64> = c.iter().map(|x| x.1).collect();
        let r: Option<Vec<Option<u64>>> = c.iter().map(|(v, q)| guard(|| mod_inverse(*v, *q))).collect();
        let e = Ev::new("inverse").ns("v", &v).ns("q", &q);
        cx.out.put(match r {
            Some(r) => e
                .is("some", &r.iter().map(|x| x.is_some() as i64).collect::<Vec<_>>())
                .ns("r", &r.iter().map(|x| x.unwrap_or(0)).collect::<Vec<_>>()),
            None => e.b("panic", true),
        });
    }
    // primality
    let mut ps: Vec<u64> = (0..cx.pick(2000, 20000)).collect();
    ps.extend([
        561, 1105, 1729, 2465, 2821, 6601, 8911, 2047, 3277, 4033, 1373653, 25326001, 3215031751,
        2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 4759123141, 1122004669633,
        u64::MAX, u64::MAX - 58, (1 << 61) - 1, (1 << 62) - 57, 4611686018326724609, 18446744073709551557,
        1 << 63, (1 << 62) + 1,
    ]);
    ps.extend([366791, 514751, 1579751, 18029605003855226591]);
    for b in (22..64).step_by(cx.pick(3, 1)) {
        ps.push(square_prime((1 << (b - 1)) + (cx.rng.gen::<u64>() >> (65 - b)), 1));
    }
    for i in 0..n {
        let p = next_prime_in(cx.rng.gen::<u64>() >> 33, 31);
        let q = next_prime_in(cx.rng.gen::<u64>() >> 33, 31);
        ps.push(p);
        ps.push(p * q);
        ps.push(p * p);
        ps.push(cx.rng.gen::<u64>() | 1);
        let b = 20 + (i % 43) as u32;
        ps.push(next_prime_in(cx.rng.gen::<u64>() >> (64 - b), b));
    }
    for c in ps.chunks(100) {
        cx.out.unit();
        cx.out.cases += c.len() as u64;
        let r: Option<Vec<i64>> = c.iter().map(|x| guard(|| is_prime_(*x) as i64)).collect();
        let e = Ev::new("prime").ns("a", c);
        cx.out.put(match r {
            Some(r) => e.is("r", &r),
            None => e.b("panic", true),
        });
    }
}

fn is_prime_(p: u64) -> bool {
    onion_pir::verif_hooks::utils::is_prime(p)
}
