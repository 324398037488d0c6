//! C04 to C09, C11: programs over ciphertext registers, drawn by
//! spec/BfvProg.tla, and key switching, rotations, encodings.
use crate::ev::*;
use crate::gen::*;
use crate::nttsuite::small_ntt_prime;
use crate::poly;
use crate::ringsuite::{exponent, ops, HUGE};
use num_bigint::BigUint;
use onion_pir::verif_hooks::bfv::*;
use onion_pir::verif_hooks::ksk::Ksk;
use onion_pir::verif_hooks::omr::omr_inner_product;
use onion_pir::verif_hooks::rgsw::RgswCt;
use onion_pir::verif_hooks::rq::*;
use rand::Rng;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::Arc;

pub fn moduli(sizes: &[u32], n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for b in sizes {
        let mut k = 0;
        while v.contains(&ntt_prime(*b, n, k)) {
            k += 1;
        }
        v.push(ntt_prime(*b, n, k));
    }
    v
}

/// moduli far from powers of two
pub fn mid(sizes: &[u32], n: usize) -> Vec<u64> {
    sizes.iter().enumerate().map(|(i, b)| mid_prime(*b, n, i)).collect()
}

/// how many sets params_of has
pub const SETS: usize = 17;
/// degree, plaintext modulus, ciphertext moduli, variance
pub fn params_of(i: usize) -> (usize, u64, Vec<u64>, usize) {
    match i % SETS {
        0 => (8, 1153, moduli(&[62, 62, 62], 8), 10),
        1 => (16, 1153, moduli(&[62, 62, 62, 62], 16), 10),
        2 => (8, 17, moduli(&[30, 31, 32], 8), 3),
        3 => (32, 65537, moduli(&[50, 55, 55], 32), 10),
        4 => (16, 97, moduli(&[62, 20, 45], 16), 1),
        5 => (8, ntt_prime(60, 8, 0), moduli(&[62, 61, 62], 8), 16),
        6 => (8, 1153, vec![1217, ntt_prime(62, 8, 0), ntt_prime(61, 8, 3)], 10),
        7 => (8, small_ntt_prime(8, 1), moduli(&[40, 62, 33, 62], 8), 7),
        8 => (16, 1153, moduli(&[62, 62, 62], 16), 2),
        // plaintext moduli above some of the ciphertext moduli
        9 => (16, 65537, vec![ntt_prime(62, 16, 0), 12289, ntt_prime(61, 16, 1), 40961], 10),
        // plaintext moduli of more than half a word, moduli far from powers of two
        11 => (8, mid_prime(45, 8, 2), mid(&[61, 62, 59], 8), 10),
        12 => (16, mid_prime(34, 16, 1), mid(&[62, 57, 60, 61], 16), 4),
        13 => (8, mid_prime(20, 8, 0), mid(&[44, 51, 39], 8), 10),
        14 => (8, mid_prime(57, 8, 5), vec![mid_prime(62, 8, 3), ntt_prime(62, 8, 0), mid_prime(60, 8, 1)], 2),
        15 => (32, mid_prime(17, 32, 4), mid(&[59, 33, 61], 32), 10),
        10 => (8, 786433, vec![12289, ntt_prime(62, 8, 1), ntt_prime(62, 8, 0)], 3),
        _ => (8, 1753089, moduli(&[50, 55, 55], 8), 10).fix(),
    }
}
/// one or two moduli
pub fn few_moduli(i: usize) -> (usize, u64, Vec<u64>, usize) {
    match i % 7 {
        5 => (8, mid_prime(53, 8, 1), mid(&[61, 62], 8), 10),
        6 => (16, mid_prime(38, 16, 3), mid(&[58], 16), 4),
        0 => (8, 1153, moduli(&[62], 8), 10),
        1 => (16, 97, moduli(&[30], 16), 3),
        2 => (8, ntt_prime(50, 8, 0), moduli(&[62, 62], 8), 1),
        3 => (32, 65537, vec![12289, ntt_prime(62, 32, 0)], 4),
        _ => (8, 1153, moduli(&[55, 20], 8), 16),
    }
}
/// larger rings, and longer chains of moduli
pub fn large_params_of(i: usize) -> (usize, u64, Vec<u64>, usize) {
    match i % 6 {
        0 => (256, 7681, moduli(&[62, 62, 62], 256), 10),
        1 => (8, 1153, moduli(&[62; 8], 8), 10),
        2 => (1024, 12289, moduli(&[62, 62], 1024), 10),
        3 => (16, 65537, moduli(&[62, 50, 62, 33, 60, 62], 16), 5),
        4 => (128, 65537, moduli(&[50, 55, 55], 128), 10),
        _ => (512, 12289, moduli(&[60, 62, 61], 512), 10),
    }
}
trait Fix {
    fn fix(self) -> Self;
}
impl Fix for (usize, u64, Vec<u64>, usize) {
    fn fix(mut self) -> Self {
        if !is_prime(self.1) || self.1 % (2 * self.0 as u64) != 1 {
            self.1 = ntt_prime(20, self.0, 0);
        }
        self
    }
}

pub fn build(p: &(usize, u64, Vec<u64>, usize)) -> Option<Arc<BfvParameters>> {
    guard(|| Arc::new(BfvParameters::new(p.0, p.1, p.2.clone(), p.3, poly::bd())))
}

pub fn ct_json(c: &BfvCipherText) -> String {
    let mut s = String::new();
    let _ = write!(s, "{{\"lv\":{},\"parts\":[", c.level);
    for (i, p) in c.cts.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        rows_json(&mut s, &poly::rows(p));
    }
    s.push_str("]}");
    s
}
pub fn rows_json(s: &mut String, rows: &[Vec<u64>]) {
    s.push('[');
    for (i, r) in rows.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push('[');
        for (j, x) in r.iter().enumerate() {
            if j > 0 {
                s.push(',');
            }
            put_u128(s, *x as u128);
        }
        s.push(']');
    }
    s.push(']');
}
fn polys_json(v: &[Poly]) -> String {
    let mut s = String::from("[");
    for (i, p) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        rows_json(&mut s, &poly::rows(p));
    }
    s.push(']');
    s
}
pub fn key_json(k: &Ksk) -> String {
    format!("{{\"c0\":{},\"c1\":{}}}", polys_json(&k.c0), polys_json(&k.c1))
}

pub struct Bfv {
    pub params: Arc<BfvParameters>,
    pub n: usize,
    pub t: u64,
    pub ms: Vec<u64>,
    pub var: usize,
    pub sk: SecretKey,
    pub reg: Vec<Option<BfvCipherText>>,
    /// keys used again, per level (and exponent)
    rlk: HashMap<usize, RelinearizationKey>,
    gks: HashMap<(usize, usize), GaliosKey>,
}

/// parameters, a key, and the start event
pub fn open(cx: &mut Cx, p: (usize, u64, Vec<u64>, usize), keykind: usize) -> Option<Bfv> {
    cx.out.unit();
    if cx.out.skip {
        return None;
    }
    let params = match build(&p) {
        Some(x) => x,
        None => {
            cx.out.put(Ev::new("start").b("panic", true).i("n", p.0 as i64).n("t", p.1 as u128).ns("ms", &p.2));
            return None;
        }
    };
    let (n, t, ms, var) = p;
    let b = 2 * var as i64;
    let sk = guard(|| match keykind % 4 {
        1 => SecretKey::new((0..n).map(|i| if i % 2 == 0 { b } else { -b }).collect(), &params),
        2 => SecretKey::new((0..n).map(|_| cx.rng.gen_range(-b..=b)).collect(), &params),
        _ => SecretKey::generate(&params),
    });
    let zs = sk.is_some().then(|| slots_of_x(&params)).flatten();
    let (sk, zs) = match (sk, zs) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            cx.out.put(Ev::new("start").b("panic", true).i("n", n as i64).n("t", t as u128).ns("ms", &ms));
            return None;
        }
    };
    let s: Vec<i64> = sk.coeffs.to_vec();
    cx.out.put(
        Ev::new("start")
            .i("n", n as i64)
            .n("t", t as u128)
            .ns("ms", &ms)
            .i("var", var as i64)
            .is("s", &s)
            .b("generated", keykind % 4 == 0 || keykind % 4 == 3)
            .ns("zs", &zs),
    );
    Some(Bfv { params, n, t, ms, var, sk, reg: vec![None, None, None, None], rlk: HashMap::new(), gks: HashMap::new() })
}

/// where the decoder evaluates: the slots of X
pub fn slots_of_x(params: &Arc<BfvParameters>) -> Option<Vec<u64>> {
    let mut x = vec![0u64; params.degree];
    x[1] = 1;
    guard(|| {
        let mut p = Plaintext::new(params, &x, 0, Encoding::Poly);
        p.set_encoding(Encoding::SIMD);
        p.decode()
    })
}

pub fn message(cx: &mut Cx, t: u64, n: usize, kind: usize) -> Vec<u64> {
    match kind {
        0 => (0..n).map(|_| cx.rng.gen_range(0..t)).collect(),
        1 => vec![t - 1; n],
        2 => (0..n).map(|_| [0, 1, t - 1, t / 2, t / 2 + 1][cx.rng.gen_range(0..5)]).collect(),
        3 => {
            let mut v = vec![0; n];
            let k = cx.rng.gen_range(0..n);
            v[k] = cx.rng.gen_range(1..t);
            v
        }
        _ => vec![0; n],
    }
}

impl Bfv {
    pub fn ms_at(&self, lv: usize) -> &[u64] {
        &self.ms[..self.ms.len() - lv]
    }
    pub fn q(&self, lv: usize) -> BigUint {
        poly::modulus(self.ms_at(lv))
    }
    pub fn lv(&self, x: usize) -> usize {
        x.min(self.ms.len() - 1)
    }
    fn ctx(&self, lv: usize) -> Arc<RqContext> {
        self.params.q_ctxs[lv].clone()
    }
    fn secret(&self, lv: usize) -> Poly {
        poly::ntt(Poly::try_from_vec_i64(&self.ctx(lv), &self.sk.coeffs))
    }
    fn put(&mut self, cx: &mut Cx, d: usize, e: Ev, r: Option<BfvCipherText>) -> bool {
        cx.out.cases += 1;
        let e = e.i("d", d as i64);
        let shown = r.as_ref().and_then(|c| guard(|| ct_json(c)));
        match (r, shown) {
            (Some(c), Some(j)) => {
                cx.out.put(e.raw("ct", &j));
                self.reg[d] = Some(c);
                true
            }
            _ => {
                cx.out.put(e.b("panic", true));
                false
            }
        }
    }
    pub fn enc(&mut self, cx: &mut Cx, d: usize, lv: usize, v: &[u64], simd: bool) -> bool {
        let v = v.to_vec();
        let pt = guard(|| {
            Plaintext::new(&self.params, &v, lv, if simd { Encoding::SIMD } else { Encoding::Poly })
        });
        let e = Ev::new("enc").i("lv", lv as i64).s("enc", if simd { "simd" } else { "poly" }).ns("v", &v);
        match pt {
            None => self.put(cx, d, e, None),
            Some(pt) => {
                let c = guard(|| self.sk.encrypt(&pt));
                self.put(cx, d, e.ns("m", &pt.values), c)
            }
        }
    }
    pub fn dec(&mut self, cx: &mut Cx, a: usize) -> bool {
        cx.out.cases += 1;
        let c = self.reg[a].as_ref().unwrap();
        let r = guard(|| {
            let mut p = self.sk.decrypt(c);
            let m = p.values.to_vec();
            p.set_encoding(Encoding::Poly);
            let cs = p.decode();
            p.set_encoding(Encoding::SIMD);
            let slots = p.decode();
            (p.level, m, cs, slots)
        });
        let e = Ev::new("dec").i("a", a as i64);
        match r {
            Some((lv, m, cs, slots)) => {
                cx.out.put(e.i("lv", lv as i64).ns("m", &m).ns("coeffs", &cs).ns("slots", &slots));
                true
            }
            None => {
                cx.out.put(e.b("panic", true));
                false
            }
        }
    }
    pub fn noise(&mut self, cx: &mut Cx, a: usize) -> bool {
        cx.out.cases += 1;
        let c = self.reg[a].as_ref().unwrap();
        let r = guard(|| {
            let p = self.sk.decrypt(c);
            (self.sk.measure_noise(c), p.values.to_vec(), poly::rows(&p.to_poly()))
        });
        let e = Ev::new("noise").i("a", a as i64);
        cx.out.put(match &r {
            Some((b, m, ideal)) => e.i("bits", (*b).min(1 << 30) as i64).ns("m", m).rows("ideal", ideal),
            None => e.b("panic", true),
        });
        r.is_some()
    }
    /// a ciphertext with chosen noise: kind 0 none, 1 small, 2 just below the
    /// limit, 3 powers of two, 4 just below the limit in one coefficient, 5 any,
    /// 6 a power of two in one coefficient
    pub fn craft(&mut self, cx: &mut Cx, d: usize, lv: usize, k: usize, kind: usize) -> bool {
        self.craft_with(cx, d, lv, k, kind, None)
    }
    /// the same with a chosen part (1 or more) of a special kind
    pub fn craft_with(&mut self, cx: &mut Cx, d: usize, lv: usize, k: usize, kind: usize, part: Option<(usize, usize)>) -> bool {
        let (n, t) = (self.n, self.t);
        let q = self.q(lv);
        let mk = cx.rng.gen_range(0..3);
        let m = message(cx, t, n, mk);
        let limit = &q / (2 * t as u128); // noise up to here decrypts
        let one = BigUint::from(1u32);
        let zero = BigUint::from(0u32);
        let pick = cx.rng.gen_range(0..n);
        let power = cx.rng.gen_range(0..limit.bits().max(1));
        let phase: Vec<BigUint> = (0..n)
            .map(|i| {
                let enc = (&q * m[i]) / t;
                let e = match kind {
                    0 => zero.clone(),
                    1 => BigUint::from(cx.rng.gen_range(0u32..40)),
                    2 => &limit - (&one * 2u32).min(limit.clone()),
                    3 => {
                        let b = cx.rng.gen_range(0..limit.bits().max(1));
                        let x = &one << b;
                        let o = cx.rng.gen_range(0..3u32);
                        ((x + o) - 1u32).min(&limit >> 1)
                    }
                    // exactly one power of two
                    6 => {
                        if i == pick {
                            (&one << power).min(&limit >> 1)
                        } else {
                            zero.clone()
                        }
                    }
                    4 => {
                        if i == pick {
                            &limit - (&one * 2u32).min(limit.clone())
                        } else {
                            zero.clone()
                        }
                    }
                    _ => poly::below(cx, &(&limit + 1u32)),
                };
                if cx.rng.gen_range(0..2) == 0 {
                    (&enc + &e) % &q
                } else {
                    (&enc + &q - &e) % &q
                }
            })
            .collect();
        let r = guard(|| {
            let c = self.ctx(lv);
            let s = self.secret(lv);
            let mut c0 = poly::ntt(poly::from_bigs(&c, &phase));
            let mut parts = vec![];
            let mut sp = s.clone();
            for i in 1..k {
                let any = cx.rng.gen_range(0..poly::SPECIAL);
                let v = match (part, cx.rng.gen_range(0..8)) {
                    (Some((j, kind)), _) if j == i => poly::special(cx, self.ms_at(lv), n, kind),
                    (None, 0) => poly::rows_vec(cx, self.ms_at(lv), n),
                    (None, 1) => poly::special(cx, self.ms_at(lv), n, any),
                    _ => poly::big_vec(cx, &q, n, 0),
                };
                let a = poly::ntt(poly::from_bigs(&c, &v));
                c0 -= &(&a * &sp);
                sp = &sp * &s;
                parts.push(a);
            }
            parts.insert(0, c0);
            BfvCipherText { params: self.params.clone(), cts: parts, level: lv }
        });
        self.put(cx, d, Ev::new("craft"), r)
    }
    /// a copy of a register with some parts of its own: only part i new, or all but part i new
    fn variant(&mut self, cx: &mut Cx, d: usize, a: usize, i: usize, only: bool) -> bool {
        let old = self.reg[a].clone().unwrap();
        let (lv, n) = (old.level, self.n);
        let kind = cx.rng.gen_range(0..4);
        let mk = cx.rng.gen_range(0..4);
        let m = message(cx, self.t, n, mk);
        let k = old.cts.len();
        let r = guard(|| {
            let c = self.ctx(lv);
            let mut new = old.clone();
            for j in 0..k {
                if (j == i % k) != only {
                    continue;
                }
                let any = cx.rng.gen_range(0..poly::SPECIAL);
                let v = match kind {
                    // another message under the same masks
                    0 | 1 if j == 0 => {
                        let p = Plaintext::new(&self.params, &m, lv, Encoding::Poly).to_poly();
                        new.cts[0] = &poly::ntt(new.cts[0].clone()) + &p;
                        continue;
                    }
                    2 => poly::special(cx, self.ms_at(lv), n, any),
                    _ => poly::big_vec(cx, &self.q(lv), n, 0),
                };
                new.cts[j] = poly::ntt(poly::from_bigs(&c, &v));
            }
            new
        });
        self.put(cx, d, Ev::new("craft"), r)
    }
    /// a polynomial of the ring at a level
    fn ring_poly(&self, cx: &mut Cx, lv: usize, kind: usize) -> Poly {
        let (n, q) = (self.n, self.q(lv));
        let v: Vec<BigUint> = match kind {
            0 => (0..n).map(|_| BigUint::from(cx.rng.gen_range(0..self.t))).collect(),
            1 => (0..n).map(|_| (&q - cx.rng.gen_range(0u32..2)) % &q).collect(), // 0 and -1
            2 => poly::big_vec(cx, &q, n, 4),
            k if k >= 10 => poly::special(cx, self.ms_at(lv), n, k - 10),
            _ if cx.rng.gen_range(0..5) == 0 => {
                let k = cx.rng.gen_range(0..poly::SPECIAL);
                poly::special(cx, self.ms_at(lv), n, k)
            }
            _ if cx.rng.gen_range(0..3) == 0 => poly::rows_vec(cx, self.ms_at(lv), n),
            _ => poly::big_vec(cx, &q, n, 0),
        };
        poly::ntt(poly::from_bigs(&self.ctx(lv), &v))
    }
    fn relin_key(&mut self, cx: &mut Cx, lv: usize) {
        if !self.rlk.contains_key(&lv) || cx.rng.gen_range(0..3) == 0 {
            self.rlk.remove(&lv);
            if let Some(k) = guard(|| RelinearizationKey::new(&self.sk, lv)) {
                self.rlk.insert(lv, k);
            }
        }
    }
    fn sk_rgsw(&self, lv: usize) -> RgswCt {
        RgswCt::encrypt_poly(&self.sk, &self.secret(lv))
    }

    /// one operation of a program; false when it panicked
    pub fn step(&mut self, cx: &mut Cx, o: &[&str]) -> bool {
        let x: Vec<usize> = o[1..].iter().map(|s| s.parse().unwrap()).collect();
        let d = x[0];
        let e = Ev::new(o[0]);
        let (n, t) = (self.n, self.t);
        let get = |r: &Vec<Option<BfvCipherText>>, i: usize| r[i].clone().expect("undefined register");
        match o[0] {
            "enc" => {
                let lv = self.lv(x[1]);
                let k = if x[2] % 2 == 0 { 0 } else { cx.rng.gen_range(1..4) };
                let mut v = message(cx, t, n, k);
                let simd = x[2] >= 2;
                if !simd && cx.rng.gen_range(0..3) == 0 {
                    v.truncate(cx.rng.gen_range(1..=n));
                }
                self.enc(cx, d, lv, &v, simd)
            }
            "encpoly" => {
                let lv = self.lv(x[1]);
                let k = cx.rng.gen_range(0..4);
                let p = self.ring_poly(cx, lv, k);
                let c = guard(|| self.sk.encrypt_poly(&p));
                self.put(cx, d, e.i("lv", lv as i64).rows("poly", &poly::rows(&p)), c)
            }
            "craft" => {
                let lv = self.lv(x[1]);
                self.craft(cx, d, lv, x[2], x[3])
            }
            "variant" => self.variant(cx, d, x[1], x[2], x[3] == 0),
            "dec" => self.dec(cx, x[0]),
            "noise" => self.noise(cx, x[0]),
            "trial" => {
                let c = get(&self.reg, x[0]);
                let r = guard(|| poly::rows(&self.sk.decrypt_trial(&c.cts[0], &c.cts[1])));
                let e = e.i("a", x[0] as i64);
                let ok = r.is_some();
                cx.out.put(match r {
                    Some(r) => e.rows("r", &r),
                    None => e.b("panic", true),
                });
                ok
            }
            "add" | "sub" | "mul" => {
                // the same object where both operands are the same register, often
                let (a, other) = (get(&self.reg, x[1]), get(&self.reg, x[2]));
                let b = if x[1] == x[2] && cx.rng.gen_range(0..4) != 0 { &a } else { &other };
                let r = guard(|| match o[0] {
                    "add" => &a + b,
                    "sub" => &a - b,
                    _ => &a * b,
                });
                self.put(cx, d, e.i("a", x[1] as i64).i("b", x[2] as i64), r)
            }
            "mulrelin" => {
                let (a, other) = (get(&self.reg, x[1]), get(&self.reg, x[2]));
                let b = if x[1] == x[2] && cx.rng.gen_range(0..4) != 0 { &a } else { &other };
                self.relin_key(cx, a.level);
                let r = guard(|| multiply_with_strategy(&a, b, &self.rlk[&a.level]));
                self.put(cx, d, e.i("a", x[1] as i64).i("b", x[2] as i64), r)
            }
            "relin" => {
                let a = get(&self.reg, x[1]);
                let power = cx.rng.gen_range(0..2) == 0;
                self.relin_key(cx, a.level);
                let r = guard(|| {
                    let k = &self.rlk[&a.level];
                    let p = if power { poly::pb(a.cts[2].clone()) } else { a.cts[2].clone() };
                    let (r0, r1) = k.relinearize_poly(&p);
                    BfvCipherText { params: a.params.clone(), cts: vec![&a.cts[0] + &r0, &a.cts[1] + &r1], level: a.level }
                });
                self.put(cx, d, e.i("a", x[1] as i64), r)
            }
            "addpt" | "mulpt" => {
                let a = get(&self.reg, x[1]);
                let kind = [0, 3, 2, 1][x[2]];
                let m = message(cx, t, n, kind);
                let simd = x[2] == 0 && cx.rng.gen_range(0..2) == 0;
                let pt = guard(|| {
                    Plaintext::new(&self.params, &m, a.level, if simd { Encoding::SIMD } else { Encoding::Poly })
                });
                let pt = match pt {
                    Some(p) => p,
                    None => return self.put(cx, d, e, None),
                };
                let e = e.i("a", x[1] as i64).ns("m", &pt.values);
                if o[0] == "mulpt" {
                    let r = guard(|| &a * &pt);
                    self.put(cx, d, e, r)
                } else {
                    let p = guard(|| pt.to_poly());
                    match p {
                        None => self.put(cx, d, e, None),
                        Some(p) => {
                            let r = guard(|| &a + &p);
                            self.put(cx, d, e.rows("poly", &poly::rows(&p)), r)
                        }
                    }
                }
            }
            "addpoly" | "mulpoly" => {
                let a = get(&self.reg, x[1]);
                let p = self.ring_poly(cx, a.level, x[2]);
                let r = guard(|| if o[0] == "addpoly" { &a + &p } else { &a * &p });
                self.put(cx, d, e.i("a", x[1] as i64).rows("poly", &poly::rows(&p)), r)
            }
            "mulbig" => {
                let a = get(&self.reg, x[1]);
                let q = self.q(a.level);
                let k = match x[2] {
                    0 => BigUint::from(cx.rng.gen_range(0u32..5)),
                    1 => &q - 1u32,
                    2 => BigUint::from(cx.rng.gen::<u32>()),
                    _ => poly::scalar(cx, &q),
                };
                let r = guard(|| &a * &k);
                self.put(cx, d, e.i("a", x[1] as i64).big("k", &k), r)
            }
            "inner" => {
                let idx: Vec<i64> = x[2..].iter().map(|i| *i as i64).collect();
                let cts: Vec<BfvCipherText> = idx.iter().map(|i| get(&self.reg, *i as usize)).collect();
                let ps: Vec<Poly> = cts.iter().map(|c| self.ring_poly(cx, c.level, x[1])).collect();
                let r = guard(|| omr_inner_product(&cts, &ps));
                self.put(cx, d, e.is("as", &idx).raw("polys", &polys_json(&ps)), r)
            }
            "galois" => {
                let a = get(&self.reg, x[1]);
                let k = exponent(cx, x[2], n);
                let id = (a.level, k % (2 * n));
                if !self.gks.contains_key(&id) || cx.rng.gen_range(0..3) == 0 {
                    self.gks.remove(&id);
                    let key = guard(|| GaliosKey::new(&self.sk, &Substitution::new(&self.ctx(a.level), k), a.level));
                    if let Some(key) = key {
                        self.gks.insert(id, key);
                    }
                }
                let r = guard(|| self.gks[&id].relinearize(&a));
                self.put(cx, d, e.i("a", x[1] as i64).n("k", k as u128), r)
            }
            "external" => {
                let a = get(&self.reg, x[1]);
                let lv = a.level;
                let mut vals = message(cx, t, n, [4, 4, 3, 0, 4][x[2]]);
                if x[2] == 0 {
                    vals[0] = 1;
                }
                let big = x[2] == 4;
                let g = if big {
                    self.ring_poly(cx, lv, 3)
                } else {
                    poly::ntt(Poly::try_from_vec_u64(&self.ctx(lv), &vals))
                };
                let direct = x[3] == 0;
                let plain = !big && cx.rng.gen_range(0..2) == 0;
                let r = guard(|| {
                    let key = if direct {
                        if plain {
                            RgswCt::encrypt(&self.sk, &Plaintext::new(&self.params, &vals, lv, Encoding::Poly))
                        } else {
                            RgswCt::encrypt_poly(&self.sk, &g)
                        }
                    } else {
                        let skr = self.sk_rgsw(lv);
                        let low: Vec<BfvCipherText> =
                            self.ctx(lv).rns.garner.iter().map(|gi| self.sk.encrypt_poly(&(&g * gi))).collect();
                        let up: Vec<BfvCipherText> = low
                            .iter()
                            .map(|c| {
                                let (c0, c1) = RgswCt::external_product(&skr, c);
                                BfvCipherText { params: c.params.clone(), cts: vec![c0, c1], level: lv }
                            })
                            .collect();
                        let k1 = Ksk::try_from_decomposed_rlwes(&self.params, &low);
                        let k0 = Ksk::try_from_decomposed_rlwes(&self.params, &up);
                        RgswCt::try_from_ksks(&k0, &k1)
                    };
                    let (c0, c1) = RgswCt::external_product(&key, &a);
                    let out = BfvCipherText { params: a.params.clone(), cts: vec![c0, c1], level: lv };
                    (key_json(&key.ksk0), key_json(&key.ksk1), out)
                });
                let e = e.i("a", x[1] as i64).rows("g", &poly::rows(&g)).b("direct", direct);
                match r {
                    Some((k0, k1, c)) => self.put(cx, d, e.raw("k0", &k0).raw("k1", &k1), Some(c)),
                    None => self.put(cx, d, e, None),
                }
            }
            s => {
                eprintln!("unknown operation {}", s);
                std::process::exit(3)
            }
        }
    }
}

/// operands with special parts, for the operations of each property
fn special(cx: &mut Cx, what: &str) {
    for i in 0..cx.pick(5, 20) {
        // one modulus less at the second level; keys need two at least
        let mut m = match open(cx, params_of([0, 3, 6, 7, 2][i % 5]), i) {
            Some(m) => m,
            None => continue,
        };
        let big = m.n > 16;
        for kind in 0..poly::SPECIAL {
            let lv = kind % 2;
            let p = (10 + kind).to_string();
            let s = |cx: &mut Cx, m: &mut Bfv, o: &str| -> bool {
                let o: Vec<&str> = o.split(' ').collect();
                m.step(cx, &o)
            };
            let v = message(cx, m.t, m.n, 0);
            let last = if what == "lin" { 2 } else { 1 };
            let all: Vec<String> = match what {
                "lin" => vec![
                    "sub 2 1 0", "add 2 1 0", "sub 2 0 1", "add 2 0 1", "sub 2 0 0", "add 2 0 0", "variant 3 0 0 1", "variant 2 0 2 0",
                    "sub 3 2 0", "add 3 2 0", "mulpt 3 0 1", "mulpt 3 2 0",
                ]
                .into_iter()
                .map(String::from)
                .chain([format!("addpoly 3 0 {}", p), format!("mulpoly 3 0 {}", p), format!("mulpoly 3 1 {}", p), format!("inner 3 {} 0 1 0", p)])
                .collect(),
                "mul" => vec![
                    "mul 2 0 1", "mul 2 1 0", "mul 2 0 0", "relin 2 2", "mulrelin 2 0 1", "mulrelin 2 1 0", "mulrelin 2 0 0",
                    "variant 3 1 0 1", "mul 2 1 3", "mulrelin 2 1 3", "variant 3 1 1 1", "mul 2 1 3", "mulrelin 2 3 1",
                    "variant 3 0 0 0", "mul 2 3 0", "variant 3 0 1 0", "mulrelin 2 0 3",
                ]
                .into_iter()
                .map(String::from)
                .collect(),
                "galois" => vec!["galois 2 0 3", "galois 2 0 104", "variant 2 0 0 1", "galois 3 2 101", "variant 2 0 1 1", "galois 3 2 101"]
                    .into_iter()
                    .map(String::from)
                    .collect(),
                _ => vec!["external 2 0 0 0", "external 2 0 4 1", "variant 2 0 0 1", "external 3 2 1 0", "variant 2 0 1 1", "external 3 2 1 1"]
                    .into_iter()
                    .map(String::from)
                    .collect(),
            };
            if m.craft_with(cx, 0, lv, last + 1, 1, Some((last, kind))) && m.enc(cx, 1, lv, &v, false) {
                for (j, o) in all.iter().enumerate() {
                    if big && (j + kind) % 3 != 0 && !o.starts_with("variant") {
                        continue;
                    }
                    // a result to work on may be missing
                    if o.starts_with("relin") && m.reg[2].as_ref().map(|c| c.cts.len()) != Some(3) {
                        continue;
                    }
                    if !s(cx, &mut m, o) {
                        break;
                    }
                }
            }
        }
    }
}

/// products of ciphertexts with any numbers of parts, never relinearized
fn many_parts(cx: &mut Cx) {
    let sets = [(8, 17u64, moduli(&[62; 6], 8), 3), (8, mid_prime(41, 8, 2), mid(&[61, 62, 60, 62], 8), 3)];
    for i in 0..cx.pick(2, 8) {
        let mut m = match open(cx, sets[i % 2].clone(), i) {
            Some(m) => m,
            None => continue,
        };
        for (x, y) in [(1, 1), (1, 4), (2, 3), (3, 2), (3, 3), (4, 2), (3, 4), (5, 1), (2, 5), (4, 4)] {
            let lv = (x + y + i) % 2;
            if m.craft(cx, 0, lv, x, 1) && m.craft(cx, 1, lv, y, 1) && m.step(cx, &["mul", "2", "0", "1"]) {
                m.dec(cx, 2);
            }
        }
        // powers of one ciphertext
        let v = message(cx, m.t, m.n, 3);
        if m.enc(cx, 0, 0, &v, false) && m.step(cx, &["mul", "1", "0", "0"]) {
            for o in [["mul", "2", "1", "0"], ["mul", "3", "1", "1"]] {
                if m.step(cx, &o) {
                    m.dec(cx, o[1].parse().unwrap());
                }
            }
        }
    }
}

/// plaintext and ciphertext moduli of every width
fn widths(cx: &mut Cx, what: &str) {
    let light = what == "enc" || what == "noise";
    for w in (7..62u32).flat_map(|w| if light { vec![w, w + 100] } else { vec![w] }) {
        let (odd, w) = (w > 100, w % 100);
        let t = if (w % 2 == 0) != odd { ntt_prime(w, 8, 0) } else { mid_prime(w, 8, w as usize) };
        let other = 20 + (w * 11) % 43;
        let other = if w % 3 == 0 { mid_prime(other, 8, 3) } else { ntt_prime(other, 8, 5) };
        let mut ms = vec![ntt_prime(62, 8, 0), ntt_prime(62, 8, 1), ntt_prime(61, 8, 6)];
        ms.insert(w as usize % 4, other);
        if ms.contains(&t) || ms.iter().filter(|m| **m == other).count() > 1 {
            continue;
        }
        let mut m = match open(cx, (8, t, ms, 1 + w as usize % 16), w as usize) {
            Some(m) => m,
            None => continue,
        };
        let at = w as usize % 2;
        for (lv, simd) in [(at, false), (at, true), (1 - at, false), (2, at == 1)] {
            let (kx, ky) = (cx.rng.gen_range(0..2), cx.rng.gen_range(0..5));
            let (x, y) = (message(cx, t, 8, kx), message(cx, t, 8, ky));
            if !m.enc(cx, 0, lv, &x, simd) || !m.enc(cx, 1, lv, &y, simd) {
                continue;
            }
            let all: &[&str] = match what {
                "lin" => &["add 2 0 1", "sub 2 1 0", "mulpt 2 0 1", "mulpoly 2 1 3", "addpoly 2 0 0"],
                "mul" => &["mulrelin 2 0 1", "mul 2 1 0"],
                "galois" => &["galois 2 0 3", "galois 2 1 15"],
                "external" => &["external 2 0 0 0", "external 2 1 2 1"],
                _ => &["dec 0", "dec 1"],
            };
            for o in all {
                let o: Vec<&str> = o.split(' ').collect();
                if m.step(cx, &o) && what != "enc" {
                    let r = if what == "noise" { o[1].parse().unwrap() } else { 2 };
                    m.dec(cx, r);
                    if what == "noise" {
                        m.noise(cx, r);
                    }
                }
            }
        }
    }
}

/// runs the programs; args: which parameter sets, and "noise" to report noise at the end
pub fn programs(cx: &mut Cx) {
    let progs = std::mem::take(&mut cx.progs);
    for what in ["lin", "mul", "galois", "external"] {
        if cx.args.iter().any(|a| a == what) {
            special(cx, what);
        }
    }
    for what in ["enc", "lin", "mul", "galois", "external", "noise"] {
        if cx.args.iter().any(|a| a == what) {
            widths(cx, what);
        }
    }
    if cx.args.iter().any(|a| a == "mul") {
        many_parts(cx);
    }
    let report = cx.args.iter().any(|a| a == "noise");
    for (i, p) in progs.iter().enumerate() {
        let p_of = if i % 12 == 11 { large_params_of(i / 12) } else { params_of(i - i / 12) };
        let mut m = match open(cx, p_of, i / 3) {
            Some(m) => m,
            None => continue,
        };
        let mut ok = true;
        for o in ops(p) {
            ok = m.step(cx, &o);
            if !ok {
                break;
            }
        }
        if ok {
            for r in 0..m.reg.len() {
                if m.reg[r].is_some() {
                    m.dec(cx, r);
                    if report {
                        m.noise(cx, r);
                    }
                }
            }
        }
    }
}

/// C04: all parameter sets, levels, encodings and messages, and noise at the limit
pub fn enc(cx: &mut Cx) {
    programs(cx);
    for i in 0..cx.pick(28, 140) {
        let mut m = match open(cx, if i % 4 == 3 { few_moduli(i / 4) } else { params_of(i - i / 4) }, i) {
            Some(m) => m,
            None => continue,
        };
        for lv in 0..m.ms.len() {
            for kind in 0..5 {
                for simd in [false, true] {
                    let v = message(cx, m.t, m.n, kind);
                    if m.enc(cx, 0, lv, &v, simd) {
                        m.dec(cx, 0);
                    }
                }
            }
            for k in 1..4 {
                for kind in 0..6 {
                    if m.craft(cx, 1, lv, k, kind) {
                        m.dec(cx, 1);
                    }
                }
            }
        }
    }
}

/// C09: crafted noise at powers of two, for every level and number of parts
pub fn noise(cx: &mut Cx) {
    programs(cx);
    for i in 0..cx.pick(28, 120) {
        let mut m = match open(cx, if i % 4 == 3 { few_moduli(i / 4) } else { params_of(i - i / 4) }, i) {
            Some(m) => m,
            None => continue,
        };
        for lv in 0..m.ms.len() {
            let v = message(cx, m.t, m.n, 0);
            if m.enc(cx, 0, lv, &v, false) {
                m.noise(cx, 0);
            }
            for k in 1..5 {
                for kind in [0, 1, 2, 3, 3, 4, 5, 6, 6] {
                    if m.craft(cx, 1, lv, k, kind) {
                        m.noise(cx, 1);
                    }
                }
            }
        }
    }
}

/// C07: every exponent once per degree, and slot rotations
pub fn galois(cx: &mut Cx) {
    programs(cx);
    let sets = [
        (8usize, 1153u64, moduli(&[62, 62, 62], 8)),
        (16, 97, moduli(&[50, 55, 55], 16)),
        (32, 65537, moduli(&[60, 60, 60], 32)),
        (64, 1153, moduli(&[62, 62], 64)),
    ];
    for (n, t, ms) in sets {
        if n == 64 && !cx.thorough {
            continue;
        }
        let mut m = match open(cx, (n, t, ms, 10), 0) {
            Some(m) => m,
            None => continue,
        };
        for lv in 0..m.ms.len() - 1 {
            if n > 16 && lv > 0 {
                break;
            }
            let v = message(cx, t, n, 0);
            if !m.enc(cx, 0, lv, &v, lv % 2 == 0) {
                continue;
            }
            for k in (1..2 * n).step_by(2) {
                if m.step(cx, &["galois", "1", "0", &k.to_string()]) {
                    m.dec(cx, 1);
                }
            }
            // exponents of every length, and the largest
            for k in HUGE {
                if m.step(cx, &["galois", "1", "0", &k.to_string()]) {
                    m.dec(cx, 1);
                }
            }
        }
        // rotations of slots: one key per power of 3, and repeated rotation by one
        for lv in 0..m.ms.len() - 1 {
            let v = message(cx, t, n, 0);
            let ct = match guard(|| m.sk.encrypt(&Plaintext::new(&m.params, &v, lv, Encoding::SIMD))) {
                Some(c) => c,
                None => {
                    cx.out.put(Ev::new("rotated").b("panic", true));
                    continue;
                }
            };
            let mut k = 1usize;
            let mut walk = Some(ct.clone());
            for j in 0..=n / 2 {
                for swap in [false, true] {
                    let x = if swap { k * (2 * n - 1) % (2 * n) } else { k };
                    let r = guard(|| rotate(&m, &ct, x));
                    rotated(cx, &m, &v, j, swap, r);
                }
                if j > 0 {
                    walk = walk.and_then(|c| guard(|| rotate(&m, &c, 3)));
                    rotated(cx, &m, &v, j, false, walk.clone());
                }
                k = k * 3 % (2 * n);
            }
        }
    }
}
fn rotate(m: &Bfv, c: &BfvCipherText, k: usize) -> BfvCipherText {
    let s = Substitution::new(&m.params.q_ctxs[c.level], k);
    GaliosKey::new(&m.sk, &s, c.level).relinearize(c)
}
fn rotated(cx: &mut Cx, m: &Bfv, v: &[u64], j: usize, swap: bool, r: Option<BfvCipherText>) {
    cx.out.cases += 1;
    let e = Ev::new("rotated").ns("before", v).i("j", j as i64).b("swap", swap);
    let after = r.and_then(|c| {
        guard(|| {
            let mut p = m.sk.decrypt(&c);
            p.set_encoding(Encoding::SIMD);
            p.decode()
        })
    });
    cx.out.put(match after {
        Some(a) => e.ns("after", &a),
        None => e.b("panic", true),
    });
}

/// C08: key switching alone, any pair of levels, any polynomials
pub fn keyswitch(cx: &mut Cx) {
    programs(cx);
    for i in 0..cx.pick(24, 200) {
        let m = match open(cx, params_of(i), i) {
            Some(m) => m,
            None => continue,
        };
        for ctlv in 0..m.ms.len() {
            for klv in 0..=ctlv {
                let kind = cx.rng.gen_range(0..5);
                let withpt = kind == 4;
                let mut f = m.ring_poly(cx, klv, kind % 4);
                let vals = message(cx, m.t, m.n, 0);
                let pt = guard(|| Plaintext::new(&m.params, &vals, klv, Encoding::Poly));
                if withpt {
                    if let Some(p) = pt.as_ref().and_then(|p| guard(|| p.to_poly())) {
                        f = p;
                    }
                }
                let q = m.q(ctlv);
                let kind = [0, 1, 3, 4, 5, 6, 7, 7, 7, 8, 8][cx.rng.gen_range(0..11)];
                let any = cx.rng.gen_range(0..poly::SPECIAL);
                let v = if kind == 8 { poly::special(cx, m.ms_at(ctlv), m.n, any) } else if kind == 7 { poly::rows_vec(cx, m.ms_at(ctlv), m.n) } else { poly::big_vec(cx, &q, m.n, kind) };
                let x = poly::from_bigs(&m.ctx(ctlv), &v);
                let r = guard(|| {
                    let k = if withpt {
                        Ksk::new_with_pt(&m.sk, pt.as_ref().unwrap(), ctlv, klv)
                    } else {
                        Ksk::new(&m.sk, &f, ctlv, klv)
                    };
                    let (r0, r1) = k.key_switch(&x);
                    (key_json(&k), poly::rows(&r0), poly::rows(&r1))
                });
                cx.out.cases += 1;
                let e = Ev::new("keyswitch")
                    .i("klv", klv as i64)
                    .i("ctlv", ctlv as i64)
                    .rows("f", &poly::rows(&f))
                    .rows("x", &poly::rows(&x));
                cx.out.put(match r {
                    Some((k, r0, r1)) => e.raw("key", &k).rows("r0", &r0).rows("r1", &r1),
                    None => e.b("panic", true),
                });
            }
        }
    }
}
