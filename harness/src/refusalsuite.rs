//! C20: runs every case of spec/Refusal.tla and records whether the code
//! refused it. Operands are built by operations the case is not about.
use crate::bfvsuite::moduli;
use crate::ev::*;
use crate::gen::*;
use crate::poly;
use num_bigint::BigUint;
use onion_pir::verif_hooks::bfv::*;
use onion_pir::verif_hooks::evaluations::*;
use onion_pir::verif_hooks::ksk::Ksk;
use onion_pir::verif_hooks::modulus::Modulus;
use onion_pir::verif_hooks::ntt::NttOperator;
use onion_pir::verif_hooks::omr::omr_inner_product;
use onion_pir::verif_hooks::rgsw::RgswCt;
use onion_pir::verif_hooks::rns::ScalingFactor;
use onion_pir::verif_hooks::rq::*;
use onion_pir::verif_hooks::utils;
use rand::Rng;
use std::collections::HashMap;
use std::sync::Arc;

/// outcome of an accepted case: nothing to say, or a ciphertext
enum Got {
    Done,
    Ct(BfvCipherText),
    /// the documented way to say no
    No,
}

struct World {
    primes: Vec<u64>,
    p: Vec<Arc<BfvParameters>>,
    sk: Vec<SecretKey>,
    gal: HashMap<(usize, usize), GaliosKey>,
    rlk: HashMap<(usize, usize), RelinearizationKey>,
    rgsw: HashMap<(usize, usize), RgswCt>,
    ksk: HashMap<(usize, usize, usize), Option<Ksk>>,
    eval: HashMap<usize, PirEvaluation>,
    seed: u64,
}

fn params(deg: usize, t: u64, var: usize, dec: usize, q: Vec<u64>) -> Arc<BfvParameters> {
    Arc::new(BfvParameters::new(deg, t, q, var, BitDecomposition { base: dec, l: 8 }))
}
fn rep(r: i64) -> Representation {
    match r {
        0 => Representation::PowerBasis,
        1 => Representation::Ntt,
        _ => Representation::NttShoup,
    }
}

impl World {
    fn poly(&mut self, ctx: &Arc<RqContext>, r: i64) -> Poly {
        // no zero coefficient in either form, as far as chance allows
        self.seed += 1;
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&self.seed.to_le_bytes());
        Poly::random_from_seed(ctx, rep(r), s)
    }
    fn ctx(&self, p: i64, l: i64) -> Arc<RqContext> {
        self.p[p as usize - 1].q_ctxs[l as usize].clone()
    }
    fn po(&mut self, a: &[i64]) -> Poly {
        let c = self.ctx(a[0], a[1]);
        self.poly(&c, a[2])
    }
    fn ct(&mut self, a: &[i64]) -> BfvCipherText {
        let c = self.ctx(a[0], a[1]);
        BfvCipherText {
            params: self.p[a[0] as usize - 1].clone(),
            cts: (0..a[2]).map(|_| self.poly(&c, a[3])).collect(),
            level: a[1] as usize,
        }
    }
    fn pt(&self, a: &[i64]) -> Plaintext {
        let p = &self.p[a[0] as usize - 1];
        Plaintext {
            params: p.clone(),
            level: a[1] as usize,
            encoding: Encoding::Poly,
            values: (0..p.degree as u64).map(|i| i % 5).collect::<Vec<u64>>().into_boxed_slice(),
        }
    }
    /// needed keys, made outside of the guarded call
    fn need_ksk(&mut self, p: i64, cl: i64, kl: i64) {
        let k = (p as usize - 1, cl as usize, kl as usize);
        if !self.ksk.contains_key(&k) {
            let f = self.po(&[p, kl, 1]);
            let sk = &self.sk[k.0];
            let v = guard(|| Ksk::new(sk, &f, k.1, k.2));
            self.ksk.insert(k, v);
        }
    }
    fn the_ksk(&self, p: i64, cl: i64, kl: i64) -> &Ksk {
        self.ksk[&(p as usize - 1, cl as usize, kl as usize)].as_ref().expect("no such key")
    }

    fn run(&mut self, cx: &mut Cx, name: &str, a: &[i64]) -> Option<Got> {
        use Got::*;
        let i = |k: usize| a[k] as usize;
        match name {
            "add" | "sub" | "mul" => {
                let (x, y) = (self.ct(&a[0..4]), self.ct(&a[4..8]));
                guard(|| {
                    Ct(match name {
                        "add" => &x + &y,
                        "sub" => &x - &y,
                        _ => &x * &y,
                    })
                })
            }
            "addpoly" | "mulpoly" => {
                let (x, y) = (self.ct(&a[0..4]), self.po(&a[4..7]));
                guard(|| Ct(if name == "addpoly" { &x + &y } else { &x * &y }))
            }
            "mulpt" => {
                let (x, y) = (self.ct(&a[0..4]), self.pt(&a[4..6]));
                guard(|| Ct(&x * &y))
            }
            "mulbig" => {
                let x = self.ct(&a[0..4]);
                guard(|| Ct(&x * &BigUint::from(123u32)))
            }
            "inner" => {
                let mut cts: Vec<BfvCipherText> = (0..i(0)).map(|_| self.ct(&[1, 0, 2, 1])).collect();
                let mut ps: Vec<Poly> = (0..i(1)).map(|_| self.po(&[1, 0, 1])).collect();
                let (c, f) = (self.ct(&a[2..6]), self.po(&a[6..9]));
                if !cts.is_empty() {
                    *cts.last_mut().unwrap() = c;
                }
                if !ps.is_empty() {
                    *ps.last_mut().unwrap() = f;
                }
                guard(|| Ct(omr_inner_product(&cts, &ps)))
            }
            "mulrlk" => {
                let (x, y) = (self.ct(&a[0..4]), self.ct(&a[4..8]));
                let k = &self.rlk[&(i(8), i(9))];
                guard(|| Ct(multiply_with_strategy(&x, &y, k)))
            }
            "encrypt" => {
                let m = self.pt(&a[1..3]);
                guard(|| Ct(self.sk[i(0) - 1].encrypt(&m)))
            }
            "encpoly" => {
                let f = self.po(&a[1..4]);
                guard(|| Ct(self.sk[i(0) - 1].encrypt_poly(&f)))
            }
            "decrypt" | "noise" => {
                let c = self.ct(&a[1..5]);
                let sk = &self.sk[i(0) - 1];
                guard(|| {
                    if name == "decrypt" {
                        sk.decrypt(&c);
                    } else {
                        sk.measure_noise(&c);
                    }
                    Done
                })
            }
            "trial" => {
                let (x, y) = (self.po(&a[1..4]), self.po(&a[4..7]));
                guard(|| {
                    self.sk[i(0) - 1].decrypt_trial(&x, &y);
                    Done
                })
            }
            "galkey" => {
                let c = Arc::new(RqContext::new(vec![self.primes[0]], i(2), BitDecomposition { base: 4, l: 8 }));
                let s = Substitution::new(&c, i(3));
                guard(|| {
                    GaliosKey::new(&self.sk[i(0) - 1], &s, i(1));
                    Done
                })
            }
            "galois" => {
                let c = self.ct(&a[2..6]);
                match self.gal.get(&(i(0), i(1))) {
                    Some(k) => guard(|| Ct(k.relinearize(&c))),
                    None => None,
                }
            }
            "rlk" => {
                let f = self.po(&a[2..5]);
                let k = &self.rlk[&(i(0), i(1))];
                guard(|| {
                    k.relinearize_poly(&f);
                    Done
                })
            }
            "ext" => {
                let c = self.ct(&a[2..6]);
                let k = &self.rgsw[&(i(0), i(1))];
                guard(|| {
                    RgswCt::external_product(k, &c);
                    Done
                })
            }
            "ksknew" => {
                let f = self.po(&a[1..4]);
                guard(|| {
                    Ksk::new(&self.sk[i(0) - 1], &f, i(4), i(5));
                    Done
                })
            }
            "kskpt" => {
                let f = self.pt(&a[1..3]);
                guard(|| {
                    Ksk::new_with_pt(&self.sk[i(0) - 1], &f, i(3), i(4));
                    Done
                })
            }
            "keyswitch" => {
                self.need_ksk(a[0], a[1], a[2]);
                let f = self.po(&a[3..6]);
                guard(|| {
                    self.the_ksk(a[0], a[1], a[2]).key_switch(&f);
                    Done
                })
            }
            "rgswpoly" => {
                let f = self.po(&a[1..4]);
                guard(|| {
                    RgswCt::encrypt_poly(&self.sk[i(0) - 1], &f);
                    Done
                })
            }
            "rgswpt" => {
                let m = self.pt(&a[1..3]);
                guard(|| {
                    RgswCt::encrypt(&self.sk[i(0) - 1], &m);
                    Done
                })
            }
            "fromrlwes" => {
                let mut v: Vec<BfvCipherText> = (0..i(1)).map(|_| self.ct(&[a[0], a[2], 2, 1])).collect();
                let c = self.ct(&a[3..7]);
                if !v.is_empty() {
                    *v.last_mut().unwrap() = c;
                }
                guard(|| {
                    Ksk::try_from_decomposed_rlwes(&self.p[i(0) - 1], &v);
                    Done
                })
            }
            "fromksks" => {
                self.need_ksk(a[0], a[1], a[2]);
                self.need_ksk(a[3], a[4], a[5]);
                guard(|| {
                    RgswCt::try_from_ksks(self.the_ksk(a[0], a[1], a[2]), self.the_ksk(a[3], a[4], a[5]));
                    Done
                })
            }
            "unpack" => {
                self.need_eval(i(0));
                let c = self.ct(&a[1..5]);
                guard(|| {
                    self.eval[&i(0)].unpack(c);
                    Done
                })
            }
            "decode" => {
                self.need_eval(i(0));
                let mut q: Vec<BfvCipherText> = (0..i(2)).map(|_| self.ct(&[1, 0, 2, 1])).collect();
                let c = self.ct(&a[4..8]);
                if i(3) <= q.len() {
                    q[i(3) - 1] = c;
                }
                let db: Vec<Plaintext> = (0..8).map(|_| self.pt(&[1, 0])).collect();
                let server = PirServer::new(4, 2, &db, &self.p[0]);
                guard(|| {
                    server.decode(q, &self.eval[&i(0)], &self.p[i(1) - 1]);
                    Done
                })
            }
            "encode" => {
                let pos: Vec<usize> = a[3..].iter().map(|x| *x as usize).collect();
                guard(|| {
                    PirClient::new(i(0), i(1)).encode(pos, i(2), &self.p[0], &self.sk[0]);
                    Done
                })
            }
            "subst" | "substapply" => {
                let c = Arc::new(RqContext::new(vec![self.primes[0]], i(0), poly::bd()));
                if name == "subst" {
                    guard(|| {
                        Substitution::new(&c, i(1));
                        Done
                    })
                } else {
                    let s = Substitution::new(&c, 3);
                    let d = Arc::new(RqContext::new(vec![self.primes[0]], i(1), poly::bd()));
                    let f = self.poly(&d, a[2]);
                    guard(|| {
                        f.substitute(&s);
                        Done
                    })
                }
            }
            "ntt" => {
                let m = Modulus::new(a[0] as u64);
                guard(|| {
                    NttOperator::new(&m, i(1));
                    Done
                })
            }
            "nttlen" => {
                let o = NttOperator::new(&Modulus::new(self.primes[0]), i(0));
                let mut v = vec![1u64; i(1)];
                let mut w = v.clone();
                // both directions must agree
                let x = guard(|| o.forward(&mut v)).is_some();
                let y = guard(|| o.backward(&mut w)).is_some();
                if x == y {
                    if x {
                        Some(Done)
                    } else {
                        None
                    }
                } else if i(0) == i(1) {
                    None
                } else {
                    Some(Done)
                }
            }
            "modulus" => {
                let v = ((1i128 << a[0]) + a[1] as i128) as u64;
                guard(|| {
                    Modulus::new(v);
                    Done
                })
            }
            "factor" => guard(|| {
                ScalingFactor::new(BigUint::from(i(0)), BigUint::from(i(1)));
                Done
            }),
            "scaler" => {
                let (x, y) = (self.ctx(a[0], a[1]), self.ctx(a[2], a[3]));
                guard(|| {
                    RqScaler::new(&x, &y, ScalingFactor::new(BigUint::from(3u32), BigUint::from(7u32)));
                    Done
                })
            }
            "scale" => {
                let (x, y) = (self.ctx(a[0], a[1]), self.ctx(1, 1));
                let s = RqScaler::new(&x, &y, ScalingFactor::new(BigUint::from(3u32), BigUint::from(7u32)));
                let f = self.po(&a[2..5]);
                guard(|| {
                    rq_scale(&s, &f);
                    Done
                })
            }
            "down" => {
                let mut f = self.po(&a[0..3]);
                guard(|| {
                    f.mod_switch_down_next();
                    Done
                })
            }
            "switchto" => {
                let mut f = self.po(&a[0..3]);
                let c = self.ctx(a[3], a[4]);
                guard(|| {
                    f.mod_switch_to(&c);
                    Done
                })
            }
            "inverse" => {
                let f = self.po(&a[0..3]);
                guard(|| {
                    f.inverse();
                    Done
                })
            }
            "tou64" => {
                let f = self.po(&a[0..3]);
                guard(|| {
                    let _ = Vec::<u64>::from(&f);
                    Done
                })
            }
            "rep" => {
                let mut f = self.po(&a[0..3]);
                guard(|| {
                    f.change_representation(rep(a[3]));
                    Done
                })
            }
            "cbd" => guard(|| {
                utils::sample_vec_cbd(i(1), i(0), &mut cx.rng);
                Done
            }),
            "keygen" => {
                let p = guard(|| params(8, 97, i(0), 4, self.primes[..2].to_vec()));
                guard(|| {
                    SecretKey::generate(&p.unwrap());
                    Done
                })
            }
            "prime" => guard(|| {
                let top = if a[0] <= 62 { 1u64 << a[0] } else { 1u64 << 62 };
                match utils::generate_prime(i(0), a[1] as u64, top) {
                    Some(_) => Done,
                    None => No,
                }
            }),
            "moduli" => guard(|| match BfvParameters::generate_moduli(&[i(0), i(1)], 8) {
                Some(_) => Done,
                None => No,
            }),
            "divceil" => guard(|| {
                utils::div_ceil(i(0), i(1));
                Done
            }),
            "ptnew" => {
                let v = vec![1u64; i(1)];
                let e = [Encoding::Poly, Encoding::SIMD, Encoding::None][i(3)].clone();
                guard(|| {
                    Plaintext::new(&self.p[i(0) - 1], &v, i(2), e);
                    Done
                })
            }
            "ptdecode" => {
                let mut m = self.pt(&[1, 0]);
                m.set_encoding([Encoding::Poly, Encoding::SIMD, Encoding::None][i(0)].clone());
                guard(|| {
                    m.decode();
                    Done
                })
            }
            "params" => {
                let q = if i(2) == 0 { vec![self.primes[0], self.primes[1]] } else { vec![a[2] as u64, self.primes[0]] };
                guard(|| {
                    params(i(0), a[1] as u64, 3, 4, q);
                    Done
                })
            }
            s => panic!("unknown case {}", s),
        }
    }
    fn need_eval(&mut self, p: usize) {
        if !self.eval.contains_key(&p) {
            let e = PirEvaluation::build(&self.sk[p - 1], &self.p[p - 1]);
            self.eval.insert(p, e);
        }
    }
}

pub fn run(cx: &mut Cx) {
    let shards: usize = 7;
    // good for every degree used
    let primes = moduli(&[62, 61, 62, 60], 128);
    let q = |v: &[usize]| -> Vec<u64> { v.iter().map(|i| primes[*i - 1]).collect() };
    let sets = [
        (8, 97, 10, 4, q(&[1, 2, 3])),
        (8, 97, 10, 4, q(&[1, 2, 3])),
        (8, 97, 9, 4, q(&[1, 2, 3])),
        (8, 193, 10, 4, q(&[1, 2, 3])),
        (8, 97, 10, 4, q(&[1, 2, 4])),
        (16, 97, 10, 4, q(&[1, 2, 3])),
        (8, 97, 10, 5, q(&[1, 2, 3])),
        (8, 97, 10, 4, q(&[1, 2])),
        (8, 97, 10, 4, q(&[1])),
        (8, 97, 10, 4, q(&[2, 1, 3])),
        (8, 97, 10, 4, q(&[1, 2, 3, 4])),
    ];
    let mut w = World {
        p: sets.iter().map(|s| params(s.0, s.1, s.2, s.3, s.4.clone())).collect(),
        sk: vec![],
        primes,
        gal: HashMap::new(),
        rlk: HashMap::new(),
        rgsw: HashMap::new(),
        ksk: HashMap::new(),
        eval: HashMap::new(),
        seed: cx.rng.gen(),
    };
    w.sk = w.p.iter().map(SecretKey::generate).collect();
    for p in 1..=w.p.len() {
        for l in 0..w.p[p - 1].q_ctxs.len() {
            let (pp, sk) = (w.p[p - 1].clone(), &w.sk[p - 1]);
            if pp.ciphertext_moduli.len() > 1 {
                if let Some(k) = guard(|| GaliosKey::new(sk, &Substitution::new(&pp.q_ctxs[l], 3), l)) {
                    w.gal.insert((p, l), k);
                }
            }
            if let Some(k) = guard(|| RelinearizationKey::new(sk, l)) {
                w.rlk.insert((p, l), k);
            }
            let m = w.pt(&[p as i64, l as i64]);
            if let Some(k) = guard(|| RgswCt::encrypt(&w.sk[p - 1], &m)) {
                w.rgsw.insert((p, l), k);
            }
        }
    }
    let id = |w: &World, m: u64| w.primes.iter().position(|x| *x == m).map(|i| i as i64 + 1).unwrap_or(0);
    let mut s = String::from("[");
    for (k, p) in w.p.iter().enumerate() {
        if k > 0 {
            s.push(',');
        }
        let names = |ms: &[u64]| format!("{:?}", ms.iter().map(|m| id(&w, *m)).collect::<Vec<i64>>());
        s.push_str(&format!(
            "{{\"deg\":{},\"t\":{},\"var\":{},\"dec\":{},\"q\":{},\"ctx\":[{}]}}",
            p.degree,
            p.plaintext_modulus_u64,
            p.variance,
            p.q_ctxs[0].bit_decomposition.base,
            names(&p.ciphertext_moduli),
            p.q_ctxs.iter().map(|c| names(&c.moduli_64)).collect::<Vec<String>>().join(",")
        ));
    }
    s.push(']');
    let progs = cx.progs.clone();
    let per = (progs.len() + shards - 1) / shards;
    for chunk in progs.chunks(per.max(1)) {
        cx.out.unit();
        cx.out.put(Ev::new("sets").raw("p", &s));
        for c in chunk {
            let a: Vec<i64> = c[1..].iter().map(|x| x.parse().unwrap()).collect();
            let r = w.run(cx, &c[0], &a);
            let e = Ev::new("case").s("name", &c[0]).is("a", &a);
            cx.out.cases += 1;
            cx.out.put(match r {
                None | Some(Got::No) => e.b("refused", true),
                Some(Got::Done) => e.b("refused", false),
                Some(Got::Ct(x)) => e
                    .b("refused", false)
                    .i("lv", x.level as i64)
                    .i("parts", x.cts.len() as i64)
                    .is("moduli", &x.cts.iter().map(|p| p.context.moduli.len() as i64).collect::<Vec<i64>>()),
            });
        }
    }
}
