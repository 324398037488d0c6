//! C12: the transforms as maps on vectors.
use crate::ev::*;
use crate::gen::*;
use onion_pir::verif_hooks::modulus::Modulus;
use onion_pir::verif_hooks::ntt::NttOperator;
use rand::Rng;

/// the k-th smallest prime congruent to 1 modulo 2n
pub fn small_ntt_prime(n: usize, k: usize) -> u64 {
    let m = 2 * n as u64;
    let mut x = m + 1;
    let mut k = k;
    loop {
        if is_prime(x) {
            if k == 0 {
                return x;
            }
            k -= 1;
        }
        x += m;
    }
}

fn configs(cx: &Cx) -> Vec<(u64, usize)> {
    let mut v = vec![];
    let sizes: &[usize] = if cx.thorough {
        &[8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768]
    } else {
        &[8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384]
    };
    for n in sizes.iter().copied() {
        let mut ps = vec![small_ntt_prime(n, 0), small_ntt_prime(n, 1), ntt_prime(62, n, 0), ntt_prime(62, n, 1)];
        if n <= 256 || cx.thorough && n <= 4096 {
            ps.push(small_ntt_prime(n, 2));
            for b in [20u32, 30, 31, 32, 33, 45, 50, 55, 60, 61] {
                if (1u64 << b) > 8 * n as u64 && (n <= 64 || b % 2 == 0) {
                    ps.push(ntt_prime(b, n, 0));
                }
            }
        }
        if n == 8 || n == 32 {
            // every width
            let least = 2 * n.ilog2() + 3;
            ps.extend((least..=62).map(|b| if b % 2 == 0 { mid_prime(b, n, b as usize / 2) } else { ntt_prime(b, n, 1) }));
        }
        if n <= 1024 {
            ps.extend([mid_prime(62, n, 0), mid_prime(59, n, 1)]);
        }
        if n <= 64 {
            ps.extend([square_prime(1 << 61, n), square_prime(3 << 40, n)]);
            ps.extend([2u32, 3, 4, 5].map(|k| mid_prime(64 - 7 * k, n, k as usize)));
            ps.extend([4611686018326724609, 4611686018309947393, 36028797018963841]);
        }
        ps.retain(|p| is_prime(*p) && p % (2 * n as u64) == 1);
        v.extend(ps.into_iter().map(|p| (p, n)));
    }
    v
}

pub fn vectors(cx: &mut Cx, p: u64, n: usize, reps: usize) -> Vec<Vec<u64>> {
    let mut v = vec![
        vec![0; n],
        vec![p - 1; n],
        vec![1; n],
        (0..n).map(|i| if i % 2 == 0 { p - 1 } else { 0 }).collect(),
        (0..n).map(|i| if i % 2 == 0 { 0 } else { p - 1 }).collect(),
        (0..n).map(|i| if i < n / 2 { p - 1 } else { 0 }).collect(),
        (0..n).map(|i| if i < n / 2 { 0 } else { p - 1 }).collect(),
        (0..n).map(|i| [p / 2, p / 2 + 1, p - 1, 1][i % 4]).collect(),
    ];
    for k in 0..n.min(if cx.thorough { 64 } else { 10 }) {
        // unit vectors, from both ends
        for c in [1, p - 1] {
            let mut e = vec![0; n];
            e[if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 }] = c;
            v.push(e);
        }
    }
    for _ in 0..reps {
        v.push((0..n).map(|_| cx.rng.gen_range(0..p)).collect());
        v.push(
            (0..n)
                .map(|_| [0, 1, p - 1, p / 2, p / 2 + 1, cx.rng.gen_range(0..p)][cx.rng.gen_range(0..6)])
                .collect(),
        );
    }
    v
}

pub fn run(cx: &mut Cx) {
    for (p, n) in configs(cx) {
        cx.out.unit();
        let op = match guard(|| NttOperator::new(&Modulus::new(p), n)) {
            Some(op) => op,
            None => {
                cx.out.put(Ev::new("operator").n("p", p as u128).i("n", n as i64).b("panic", true));
                continue;
            }
        };
        let fwd = |v: &Vec<u64>| {
            guard(|| {
                let mut t = v.clone();
                op.forward(&mut t);
                t
            })
        };
        let bwd = |v: &Vec<u64>| {
            guard(|| {
                let mut t = v.clone();
                op.backward(&mut t);
                t
            })
        };
        // the evaluation points: the transform of X
        let mut x = vec![0; n];
        x[1] = 1;
        let e = Ev::new("operator").n("p", p as u128).i("n", n as i64);
        cx.out.put(match fwd(&x) {
            Some(z) => e.ns("roots", &z),
            None => e.b("panic", true),
        });
        let reps = if n >= 512 { 1 } else { cx.pick(4, 12) };
        let mut vs = vectors(cx, p, n, reps);
        if n >= 512 {
            // the random ones, the dense extremes and some unit vectors
            let last = vs.split_off(vs.len() - 2);
            vs.truncate(if n >= 4096 { 0 } else { 11 });
            vs.extend(last);
            if n >= 4096 {
                let mut e = vec![0; n];
                e[n - 1] = p - 1;
                vs.push(e);
            }
        }
        for v in &vs {
            cx.out.cases += 2;
            for (name, r) in [("forward", fwd(v)), ("backward", bwd(v))] {
                let e = Ev::new(name).ns("a", v);
                cx.out.put(match r {
                    Some(r) => e.ns("r", &r),
                    None => e.b("panic", true),
                });
            }
        }
        for i in 0..vs.len().min(if n >= 4096 { 1 } else if n >= 512 { 2 } else { 12 }) {
            let (f, g) = (&vs[(i * 5 + 1) % vs.len()], &vs[(i * 7 + 3) % vs.len()]);
            cx.out.cases += 1;
            let r = (|| {
                let (a, b) = (fwd(f)?, fwd(g)?);
                let c: Vec<u64> = a.iter().zip(&b).map(|(x, y)| mul_mod(*x, *y, p)).collect();
                bwd(&c)
            })();
            let e = Ev::new("product").ns("a", f).ns("b", g);
            cx.out.put(match r {
                Some(r) => e.ns("r", &r),
                None => e.b("panic", true),
            });
        }
    }
}
