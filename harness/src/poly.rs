//! Helpers around the code's polynomials: building and observing them.
use crate::gen::*;
use num_bigint::BigUint;
use onion_pir::verif_hooks::rq::*;
use rand::Rng;
use std::sync::Arc;

pub fn bd() -> BitDecomposition {
    BitDecomposition { base: 4, l: 8 }
}
pub fn ctx(ms: &[u64], n: usize) -> Arc<RqContext> {
    Arc::new(RqContext::new(ms.to_vec(), n, bd()))
}
/// the stored numbers, one row per modulus
pub fn raw(p: &Poly) -> Vec<Vec<u64>> {
    p.coefficients().outer_iter().map(|r| r.to_vec()).collect()
}
/// the rows in power basis, of a copy
pub fn rows(p: &Poly) -> Vec<Vec<u64>> {
    let mut p = p.clone();
    p.change_representation(Representation::PowerBasis);
    raw(&p)
}
/// NTT form
pub fn ntt(mut p: Poly) -> Poly {
    p.change_representation(Representation::Ntt);
    p
}
pub fn pb(mut p: Poly) -> Poly {
    p.change_representation(Representation::PowerBasis);
    p
}
pub fn rep(p: &Poly) -> &'static str {
    match p.representation {
        Representation::PowerBasis => "power",
        Representation::Ntt => "ntt",
        Representation::NttShoup => "shoup",
    }
}
pub fn modulus(ms: &[u64]) -> BigUint {
    ms.iter().fold(BigUint::from(1u32), |a, m| a * *m)
}
pub fn from_bigs(c: &Arc<RqContext>, v: &[BigUint]) -> Poly {
    Poly::try_from_bigint(c, v)
}
/// a number below q
pub fn below(cx: &mut Cx, q: &BigUint) -> BigUint {
    let w: Vec<u32> = (0..(q.bits() + 96) / 32).map(|_| cx.rng.gen()).collect();
    BigUint::new(w) % q
}
/// a number below q of any size; around a power of two half of the time
pub fn sized(cx: &mut Cx, q: &BigUint) -> BigUint {
    let s = cx.rng.gen_range(0..q.bits() + 1);
    let near = (BigUint::from(1u32) << (q.bits() - s.min(q.bits()))) + 1u32;
    match cx.rng.gen_range(0..6) {
        0 => near % q,
        1 => (near - 1u32) % q,
        2 => (near - 2u32) % q,
        _ => below(cx, q) >> s,
    }
}
/// a multiplier below q squared: of any size, machine words and their neighbours among them
pub fn scalar(cx: &mut Cx, q: &BigUint) -> BigUint {
    let q2 = q * q;
    match cx.rng.gen_range(0..3) {
        0 => below(cx, &q2),
        1 => sized(cx, &q2),
        _ => {
            let k = [31u32, 32, 53, 62, 63, 64, 65, 127, 128][cx.rng.gen_range(0..9)];
            let x = BigUint::from(1u32) << k;
            [&x - 1u32, x.clone(), &x + 1u32, &x + (below(cx, &x)), &x - 1u32 - (below(cx, &x) >> 1)][cx.rng.gen_range(0..5)].clone()
        }
    }
}
/// a vector of n numbers below q, of a kind that is hard on carries and roundings
pub fn big_vec(cx: &mut Cx, q: &BigUint, n: usize, kind: usize) -> Vec<BigUint> {
    let one = BigUint::from(1u32);
    let zero = BigUint::from(0u32);
    let top = q - &one;
    let half = q >> 1;
    match kind {
        0 => (0..n).map(|_| below(cx, q)).collect(),
        1 => vec![top; n],
        2 => vec![zero; n],
        3 => (0..n)
            .map(|i| {
                [&zero, &one, &top, &half, &(&half + &one)][if i < 5 { i } else { cx.rng.gen_range(0..5) }].clone() % q
            })
            .collect(),
        4 => {
            // one nonzero coefficient
            let mut v = vec![zero; n];
            let i = cx.rng.gen_range(0..n);
            v[i] = below(cx, q);
            v
        }
        5 => (0..n).map(|_| sized(cx, q)).collect(),
        _ => (0..n)
            .map(|_| {
                // near the middle, or negative and small
                let s = cx.rng.gen_range(0..q.bits() + 1);
                let d = below(cx, q) >> s;
                match cx.rng.gen_range(0..3) {
                    0 => (&half + &d) % q,
                    1 => (&half + q - &d) % q,
                    _ => (q - &d) % q,
                }
            })
            .collect(),
    }
}
/// the number with the given residues
pub fn crt(r: &[u64], ms: &[u64]) -> BigUint {
    let q = modulus(ms);
    let mut x = BigUint::from(0u32);
    for (ri, m) in r.iter().zip(ms) {
        let star = &q / *m;
        let inv = pow_mod((&star % *m).to_u64_digits().first().copied().unwrap_or(0), *m - 2, *m);
        x += star * mul_mod(*ri % *m, inv % *m, *m);
    }
    x % q
}
thread_local! {
    static POINTS: std::cell::RefCell<std::collections::HashMap<(u64, usize), Vec<u64>>> = Default::default();
}
/// where the transform of the code evaluates, in its order (any order if it fails)
fn points(p: u64, n: usize) -> Vec<u64> {
    if let Some(v) = POINTS.with(|m| m.borrow().get(&(p, n)).cloned()) {
        return v;
    }
    let r = crate::ev::guard(|| {
        let mut x = vec![0u64; n];
        x[1] = 1;
        raw(&ntt(Poly::try_from_vec_u64(&ctx(&[p], n), &x)))[0].clone()
    });
    let r = r.unwrap_or(vec![1; n]);
    POINTS.with(|m| m.borrow_mut().insert((p, n), r.clone()));
    r
}
/// the row with one nonzero value in the transformed domain, at index j
pub fn one_point(p: u64, n: usize, j: usize, value: u64) -> Vec<u64> {
    let x = points(p, n)[j];
    let inv = pow_mod(x, p - 2, p);
    let mut c = mul_mod(value, pow_mod(n as u64 % p, p - 2, p), p);
    (0..n)
        .map(|_| {
            let r = c;
            c = mul_mod(c, inv, p);
            r
        })
        .collect()
}
pub const SPECIAL: usize = 17;
/// polynomials special in one of the domains: mostly zero, or the same everywhere
pub fn special(cx: &mut Cx, ms: &[u64], n: usize, kind: usize) -> Vec<BigUint> {
    let k = ms.len();
    let rnd = |cx: &mut Cx, m: u64| -> Vec<u64> { (0..n).map(|_| cx.rng.gen_range(0..m)).collect() };
    let rows: Vec<Vec<u64>> = (0..k)
        .map(|i| {
            let m = ms[i];
            let some = cx.rng.gen_range(1..m);
            let at = cx.rng.gen_range(0..n);
            match kind {
                1 if i == 0 => one_point(m, n, 0, some),
                2 if i == k - 1 => one_point(m, n, n - 1, some),
                3 => one_point(m, n, 0, some),
                4 => one_point(m, n, at, 1),
                5 => (0..n).map(|j| (j == 0) as u64).collect(),
                6 => (0..n).map(|j| if j == 0 { m - 1 } else { 0 }).collect(),
                7 => (0..n).map(|j| (j == n - 1) as u64).collect(),
                8 if i == 0 => rnd(cx, m),
                9 if i == k - 1 => rnd(cx, m),
                10 if i > 0 => rnd(cx, m),
                11 if i < k - 1 => rnd(cx, m),
                12 => vec![m - 1; n],
                13 => vec![ms[0].min(*ms.iter().min().unwrap()) / 2; n],
                14 => (0..n).map(|j| if j < n / 2 { 0 } else { cx.rng.gen_range(0..m) }).collect(),
                15 => (0..n).map(|j| if j % 2 == 0 { 0 } else { cx.rng.gen_range(0..m) }).collect(),
                16 => {
                    // half of the points zero
                    let a = one_point(m, n, 0, some);
                    let b = one_point(m, n, n / 2, m - 1);
                    a.iter().zip(&b).map(|(x, y)| ((*x as u128 + *y as u128) % m as u128) as u64).collect()
                }
                _ => vec![0; n],
            }
        })
        .collect();
    (0..n).map(|i| crt(&rows.iter().map(|r| r[i]).collect::<Vec<_>>(), ms)).collect()
}
/// a polynomial chosen row by row: zero rows, rows of extremes, one nonzero
/// residue, small and random ones
pub fn rows_vec(cx: &mut Cx, ms: &[u64], n: usize) -> Vec<BigUint> {
    let mut last = vec![0; n];
    let rows: Vec<Vec<u64>> = ms
        .iter()
        .map(|m| {
            let one = cx.rng.gen_range(0..n);
            let row: Vec<u64> = match cx.rng.gen_range(0..9) {
                // the same residues as the row before, or their negatives
                7 => last.iter().map(|x| x % m).collect(),
                8 => last.iter().map(|x| (m - x % m) % m).collect(),
                0 | 1 => vec![0; n],
                2 => vec![m - 1; n],
                3 => (0..n).map(|i| if i == one { cx.rng.gen_range(1..*m) } else { 0 }).collect(),
                4 => (0..n).map(|_| [0, 1, m - 1, m / 2][cx.rng.gen_range(0..4)] % m).collect(),
                _ => (0..n).map(|_| cx.rng.gen_range(0..*m)).collect(),
            };
            last = row;
            last.clone()
        })
        .collect();
    (0..n).map(|i| crt(&rows.iter().map(|r| r[i]).collect::<Vec<_>>(), ms)).collect()
}
