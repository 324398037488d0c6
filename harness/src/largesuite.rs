//! C04 to C09 in rings of the degrees used in practice: programs over ciphertexts
//! whose messages are sparse (spec/LargeTrace.tla).
use crate::bfvsuite::*;
use crate::ev::*;
use crate::gen::*;
use crate::poly;
use num_bigint::BigUint;
use onion_pir::verif_hooks::bfv::*;
use onion_pir::verif_hooks::rgsw::RgswCt;
use onion_pir::verif_hooks::rq::*;
use rand::Rng;
use std::collections::HashMap;
use std::sync::Arc;

struct Large {
    params: Arc<BfvParameters>,
    n: usize,
    t: u64,
    sk: SecretKey,
    reg: HashMap<usize, BfvCipherText>,
    rlk: HashMap<usize, RelinearizationKey>,
}

/// a message with few coefficients: at both ends, in the middle and anywhere
fn sparse(cx: &mut Cx, t: u64, n: usize, terms: usize) -> Vec<u64> {
    let mut v = vec![0; n];
    for k in 0..terms {
        let e = match k {
            0 => [0, n - 1, n / 2, n / 2 - 1][cx.rng.gen_range(0..4)],
            _ => cx.rng.gen_range(0..n),
        };
        v[e] = if cx.rng.gen_range(0..4) == 0 { [1, t - 1, t / 2, t / 2 + 1][cx.rng.gen_range(0..4)] } else { cx.rng.gen_range(1..t) };
    }
    v
}
fn pairs(v: &[u64]) -> String {
    let l: Vec<String> = v.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, x)| format!("[{},{}]", i, x)).collect();
    format!("[{}]", l.join(","))
}

impl Large {
    fn open(cx: &mut Cx, n: usize, t: u64, ms: Vec<u64>, var: usize) -> Option<Large> {
        cx.out.unit();
        if cx.out.skip {
            return None;
        }
        let e = Ev::new("start").i("n", n as i64).i("t", t as i64).ns("ms", &ms).i("var", var as i64);
        let made = build(&(n, t, ms, var)).and_then(|p| guard(|| SecretKey::generate(&p)).map(|sk| (p, sk)));
        match made {
            Some((params, sk)) => {
                cx.out.put(e);
                Some(Large { params, n, t, sk, reg: HashMap::new(), rlk: HashMap::new() })
            }
            None => {
                cx.out.put(e.b("panic", true));
                None
            }
        }
    }
    fn pt(&self, v: &[u64], lv: usize) -> Plaintext {
        Plaintext::new(&self.params, &v.to_vec(), lv, Encoding::Poly)
    }
    /// the result of an operation, into register d; false when it panicked
    fn put(&mut self, cx: &mut Cx, d: usize, e: Ev, c: Option<BfvCipherText>) -> bool {
        cx.out.cases += 1;
        let seen = c.and_then(|c| guard(|| (self.sk.decrypt(&c).values.to_vec(), self.sk.measure_noise(&c))).map(|s| (c, s)));
        match seen {
            Some((c, (m, bits))) => {
                let e = e.i("d", d as i64).i("lv", c.level as i64).i("parts", c.cts.len() as i64);
                // a decryption that is nowhere near sparse is cut off: it is wrong anyway
                let shown: Vec<u64> = {
                    let mut left = 600;
                    m.iter()
                        .map(|x| {
                            left -= (*x != 0 && left > 0) as usize;
                            if left > 0 { *x } else { 0 }
                        })
                        .collect()
                };
                cx.out.put(e.raw("back", &pairs(&shown)).i("bits", bits as i64));
                self.reg.insert(d, c);
                true
            }
            None => {
                cx.out.put(e.b("panic", true));
                false
            }
        }
    }
    fn step(&mut self, cx: &mut Cx, o: &[&str]) -> bool {
        let x: Vec<usize> = o[1..].iter().map(|s| s.parse().unwrap()).collect();
        let d = x[0];
        let e = Ev::new(o[0]);
        let (n, t) = (self.n, self.t);
        if o[0] == "enc" {
            let v = sparse(cx, t, n, x[2]);
            let c = guard(|| self.sk.encrypt(&self.pt(&v, x[1])));
            return self.put(cx, d, e.raw("m", &pairs(&v)), c);
        }
        let a = self.reg[&x[1]].clone();
        let lv = a.level;
        let e = e.i("a", x[1] as i64);
        match o[0] {
            "add" | "sub" | "mul" => {
                let b = self.reg[&x[2]].clone();
                let r = guard(|| match o[0] {
                    "add" => &a + &b,
                    "sub" => &a - &b,
                    _ => &a * &b,
                });
                self.put(cx, d, e.i("b", x[2] as i64), r)
            }
            "addpt" | "mulpt" => {
                let v = sparse(cx, t, n, x[2]);
                let r = guard(|| {
                    let pt = self.pt(&v, lv);
                    if o[0] == "addpt" { &a + &pt.to_poly() } else { &a * &pt }
                });
                self.put(cx, d, e.raw("m", &pairs(&v)), r)
            }
            "mulbig" => {
                let c = cx.rng.gen_range(0..t);
                let r = guard(|| &a * &BigUint::from(c));
                self.put(cx, d, e.i("c", c as i64), r)
            }
            "mulrelin" | "relin" => {
                let b = x.get(2).map(|i| self.reg[i].clone());
                if !self.rlk.contains_key(&lv) {
                    if let Some(k) = guard(|| RelinearizationKey::new(&self.sk, lv)) {
                        self.rlk.insert(lv, k);
                    }
                }
                let r = guard(|| match &b {
                    Some(b) => multiply_with_strategy(&a, b, &self.rlk[&lv]),
                    None => {
                        let (r0, r1) = self.rlk[&lv].relinearize_poly(&a.cts[2]);
                        BfvCipherText { params: a.params.clone(), cts: vec![&a.cts[0] + &r0, &a.cts[1] + &r1], level: lv }
                    }
                });
                let e = if b.is_some() { e.i("b", x[2] as i64) } else { e };
                self.put(cx, d, e, r)
            }
            "galois" => {
                let k = match x[2] {
                    0 => 3,
                    1 => 2 * n - 1,
                    2 => n + 1,
                    _ => 2 * cx.rng.gen_range(0..n) + 1,
                };
                let r = guard(|| {
                    let ctx = &self.params.q_ctxs[lv];
                    GaliosKey::new(&self.sk, &Substitution::new(ctx, k), lv).relinearize(&a)
                });
                self.put(cx, d, e.i("x", k as i64), r)
            }
            "external" => {
                let v = sparse(cx, t, n, x[2]);
                let r = guard(|| {
                    let key = if x[3] == 0 {
                        let f = poly::ntt(Poly::try_from_vec_u64(&self.params.q_ctxs[lv], &v));
                        RgswCt::encrypt_poly(&self.sk, &f)
                    } else {
                        RgswCt::encrypt(&self.sk, &self.pt(&v, lv))
                    };
                    let (c0, c1) = RgswCt::external_product(&key, &a);
                    BfvCipherText { params: a.params.clone(), cts: vec![c0, c1], level: lv }
                });
                self.put(cx, d, e.raw("m", &pairs(&v)), r)
            }
            s => panic!("unknown operation {}", s),
        }
    }
    fn slots(&mut self, cx: &mut Cx, product: bool) {
        let (n, t) = (self.n, self.t);
        cx.out.cases += n as u64;
        let v: Vec<u64> = (0..n).map(|_| cx.rng.gen_range(0..t)).collect();
        let w: Vec<u64> = (0..n).map(|_| cx.rng.gen_range(0..t)).collect();
        let r = guard(|| {
            let pt = |v: &Vec<u64>| Plaintext::new(&self.params, v, 0, Encoding::SIMD);
            let (a, b) = (self.sk.encrypt(&pt(&v)), self.sk.encrypt(&pt(&w)));
            let see = |c: &BfvCipherText| {
                let mut m = self.sk.decrypt(c);
                m.set_encoding(Encoding::SIMD);
                m.decode()
            };
            let p = if product { &a * &b } else { &a * &pt(&w) };
            (see(&a), see(&(&a + &b)), see(&p))
        });
        let ints = |v: &Vec<u64>| v.iter().map(|x| *x as i64).collect::<Vec<_>>();
        let e = Ev::new("slots").is("v", &ints(&v)).is("w", &ints(&w));
        cx.out.put(match r {
            Some((b, s, p)) => e.is("back", &ints(&b)).is("sum", &ints(&s)).is("prod", &ints(&p)),
            None => e.b("panic", true),
        });
    }
}

/// degree, plaintext modulus
fn rings(cx: &Cx, top: usize) -> Vec<(usize, u64)> {
    let all = [(1024, 12289), (2048, 40961), (4096, 114689), (8192, 147457), (16384, 786433), (32768, 65537)];
    let mut v: Vec<(usize, u64)> = all.iter().copied().filter(|r| r.0 <= top).collect();
    if cx.thorough {
        v.extend([(2048, 12289), (4096, 65537), (8192, 65537)].iter().copied().filter(|r| r.0 <= top));
    }
    v
}

pub fn run(cx: &mut Cx) {
    let what = cx.args[0].clone();
    let top = 32768;
    for (i, (n, t)) in rings(cx, top).into_iter().enumerate() {
        let var = [10, 3, 16][i % 3];
        for rep in 0..cx.pick(1, 3) {
            let ms = if rep == 2 { mid(&[62, 61, 60], n) } else { moduli(&[62, 62, 62], n) };
            let mut m = match Large::open(cx, n, t, ms, var) {
                Some(m) => m,
                None => continue,
            };
            let prog: &[&str] = match what.as_str() {
                "enc" => &["enc 0 0 9", "enc 1 1 9", "enc 2 2 9", "enc 3 0 0", "enc 4 1 1"],
                "lin" => &[
                    "enc 0 0 9", "enc 1 0 9", "add 2 0 1", "sub 3 0 1", "add 4 0 0", "sub 5 0 0", "addpt 2 2 5", "mulpt 3 3 4", "mulbig 4 3 0",
                    "enc 6 1 7", "enc 7 1 6", "add 8 6 7", "sub 9 6 7", "mulpt 9 9 3", "addpt 8 8 3",
                ],
                "mul" => &[
                    "enc 0 0 5", "enc 1 0 4", "mulrelin 2 0 1", "mul 3 0 1", "relin 4 3", "mul 5 0 0", "mulrelin 6 2 1",
                    "enc 7 1 4", "enc 8 1 4", "mulrelin 9 7 8", "mul 10 7 8",
                ],
                "galois" => &[
                    "enc 0 0 9", "galois 1 0 0", "galois 1 1 1", "galois 2 0 2", "galois 2 2 3", "galois 3 0 3", "galois 3 3 3", "enc 4 1 9", "galois 5 4 3", "galois 5 5 3",
                ],
                _ => &[
                    "enc 0 0 5", "external 1 0 4 0", "external 2 0 3 1", "external 1 1 2 0", "external 2 2 1 1", "enc 4 1 5", "external 5 4 3 0", "external 5 5 2 1",
                ],
            };
            for o in prog {
                let o: Vec<&str> = o.split(' ').collect();
                if !m.step(cx, &o) {
                    break;
                }
            }
            match what.as_str() {
                "enc" | "lin" => m.slots(cx, false),
                "mul" => m.slots(cx, true),
                _ => (),
            }
        }
    }
}
