//! C10: histories of encryptions and key generations (spec/Fresh.tla), with
//! every component they make.
use crate::bfvsuite::*;
use crate::ev::*;
use crate::gen::*;
use crate::poly;
use crate::ringsuite::{exponent, ops};
use onion_pir::verif_hooks::bfv::*;
use onion_pir::verif_hooks::evaluations::*;
use onion_pir::verif_hooks::ksk::Ksk;
use onion_pir::verif_hooks::pvw::verif::*;
use onion_pir::verif_hooks::pvw::*;
use onion_pir::verif_hooks::rgsw::RgswCt;
use onion_pir::verif_hooks::rq::*;
use std::sync::Arc;

struct Hist {
    params: Arc<BfvParameters>,
    n: usize,
    t: u64,
    /// events since the start of the recording file are not known here; the
    /// specification addresses a key by the position of its event
    keys: Vec<Option<(std::rc::Rc<SecretKey>, usize)>>,
}

type Pair = (Poly, Poly);

fn pairs_json(v: &[Pair]) -> String {
    let mut s = String::from("[");
    for (i, (a, b)) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str("{\"c0\":");
        rows_json(&mut s, &poly::rows(a));
        s.push_str(",\"c1\":");
        rows_json(&mut s, &poly::rows(b));
        s.push('}');
    }
    s.push(']');
    s
}

fn of_ct(c: &BfvCipherText) -> Vec<Pair> {
    assert!(c.cts.len() == 2);
    vec![(c.cts[0].clone(), c.cts[1].clone())]
}
fn of_ksk(k: &Ksk) -> Vec<Pair> {
    k.c0.iter().cloned().zip(k.c1.iter().cloned()).collect()
}
/// the polynomials whose digits are 1 in one modulus and 0 in the others
fn units(ctx: &Arc<RqContext>) -> Vec<Poly> {
    let ms: Vec<u64> = ctx.moduli.iter().map(|m| m.modulus()).collect();
    let q = poly::modulus(&ms);
    ms.iter()
        .map(|m| {
            let star = &q / *m;
            let r: u64 = (&star % *m).try_into().unwrap();
            poly::from_bigs(ctx, &[star * pow_mod(r, m - 2, *m)])
        })
        .collect()
}
/// a Galois key shows its components when it is applied to constants
fn of_galois(k: &GaliosKey, params: &Arc<BfvParameters>, lv: usize) -> Vec<Pair> {
    let ctx = &params.q_ctxs[lv];
    units(ctx)
        .into_iter()
        .map(|u| {
            let c = BfvCipherText {
                params: params.clone(),
                cts: vec![Poly::zero(ctx, Representation::Ntt), poly::ntt(u)],
                level: lv,
            };
            let r = k.relinearize(&c);
            (r.cts[0].clone(), r.cts[1].clone())
        })
        .collect()
}
fn of_rlk(k: &RelinearizationKey, params: &Arc<BfvParameters>, lv: usize) -> Vec<Pair> {
    units(&params.q_ctxs[lv]).iter().map(|u| k.relinearize_poly(u)).collect()
}

impl Hist {
    fn put(&self, cx: &mut Cx, key: usize, kind: &str, lv: usize, ctlv: usize, e: Ev, r: Option<Vec<Pair>>) {
        cx.out.cases += 1;
        let e = e.s("kind", kind).i("key", key as i64).i("at", self.keys[key].as_ref().unwrap().1 as i64).i("lv", lv as i64).i("ctlv", ctlv as i64);
        let j = r.and_then(|v| guard(|| pairs_json(&v)));
        cx.out.put(match j {
            Some(j) => e.raw("c", &j),
            None => e.b("panic", true),
        });
    }
    fn new_key(&mut self, cx: &mut Cx, k: usize) -> bool {
        match guard(|| SecretKey::generate(&self.params)) {
            Some(sk) => {
                let s: Vec<i64> = sk.coeffs.to_vec();
                cx.out.put(Ev::new("sk").i("key", k as i64).is("s", &s));
                self.keys[k] = Some((std::rc::Rc::new(sk), cx.out.position()));
                true
            }
            None => {
                cx.out.put(Ev::new("sk").b("panic", true));
                false
            }
        }
    }
    fn step(&mut self, cx: &mut Cx, o: &[&str]) {
        let x: Vec<usize> = o[1..].iter().map(|s| s.parse().unwrap()).collect();
        let k = x[0];
        if o[0] == "sk" {
            self.new_key(cx, k);
            return;
        }
        let sk = self.keys[k].as_ref().unwrap().0.clone();
        let (n, t) = (self.n, self.t);
        let lv = x[1].min(self.params.q_ctxs.len() - 1);
        let ctx = self.params.q_ctxs[lv].clone();
        let sp = poly::ntt(Poly::try_from_vec_i64(&ctx, &sk.coeffs));
        let e = Ev::new("comps");
        let some_poly = |cx: &mut Cx, c: &Arc<RqContext>, kind: usize| {
            let q = poly::modulus(&c.moduli.iter().map(|m| m.modulus()).collect::<Vec<u64>>());
            let v = poly::big_vec(cx, &q, n, [2, 1, 0][kind]);
            poly::ntt(poly::from_bigs(c, &v))
        };
        match o[0] {
            "enc" => {
                // the same message again and again
                let v = if x[2] < 2 { vec![0; n] } else { vec![t - 1; n] };
                let r = guard(|| {
                    let pt = Plaintext::new(&self.params, &v, lv, if x[2] == 1 { Encoding::SIMD } else { Encoding::Poly });
                    of_ct(&sk.encrypt(&pt))
                });
                self.put(cx, k, "enc", lv, lv, e.ns("m", &v), r);
            }
            "encpoly" => {
                let f = some_poly(cx, &ctx, x[2]);
                let r = guard(|| of_ct(&sk.encrypt_poly(&f)));
                self.put(cx, k, "encpoly", lv, lv, e.rows("f", &poly::rows(&f)), r);
            }
            "ksk" => {
                let klv = x[2].min(lv);
                let f = some_poly(cx, &self.params.q_ctxs[klv].clone(), x[3]);
                let r = guard(|| of_ksk(&Ksk::new(&sk, &f, lv, klv)));
                self.put(cx, k, "ksk", klv, lv, e.rows("f", &poly::rows(&f)), r);
            }
            "gal" => {
                let g = exponent(cx, [3, 101, 104][x[2]], n);
                let r = guard(|| {
                    let s = Substitution::new(&ctx, g);
                    of_galois(&GaliosKey::new(&sk, &s, lv), &self.params, lv)
                });
                self.put(cx, k, "gal", lv, lv, e.i("k", (g % (2 * n)) as i64), r);
            }
            "rlk" => {
                let r = guard(|| of_rlk(&RelinearizationKey::new(&sk, lv), &self.params, lv));
                self.put(cx, k, "rlk", lv, lv, e, r);
            }
            "rgsw" => {
                let f = match x[2] {
                    0 => sp.clone(),
                    1 => some_poly(cx, &ctx, 2),
                    _ => poly::ntt(Poly::try_from_vec_u64(&ctx, &[1])),
                };
                let r = guard(|| {
                    if x[2] == 2 {
                        RgswCt::encrypt(&sk, &Plaintext::new(&self.params, &vec![1], lv, Encoding::Poly))
                    } else {
                        RgswCt::encrypt_poly(&sk, &f)
                    }
                });
                self.rgsw(cx, k, lv, &f, r.as_ref());
            }
            s => panic!("unknown operation {}", s),
        }
    }
    fn rgsw(&self, cx: &mut Cx, k: usize, lv: usize, f: &Poly, r: Option<&RgswCt>) {
        let rows = poly::rows(f);
        for (kind, part) in [("rgsw0", r.map(|x| &x.ksk0)), ("rgsw1", r.map(|x| &x.ksk1))] {
            self.put(cx, k, kind, lv, lv, Ev::new("comps").rows("f", &rows), part.map(of_ksk));
        }
    }
    /// a client of the query protocol: its evaluation keys
    fn client(&self, cx: &mut Cx, k: usize) {
        let sk = self.keys[k].as_ref().unwrap().0.clone();
        let n = self.n;
        match guard(|| PirEvaluation::build(&sk, &self.params)) {
            None => cx.out.put(Ev::new("comps").b("panic", true)),
            Some(ev) => {
                for (g, key) in ev.galois_keys() {
                    let r = guard(|| of_galois(key, &self.params, 0));
                    self.put(cx, k, "gal", 0, 0, Ev::new("comps").i("k", (g % (2 * n)) as i64), r);
                }
                let sp = poly::ntt(Poly::try_from_vec_i64(&self.params.q_ctxs[0], &sk.coeffs));
                self.rgsw(cx, k, 0, &sp, Some(ev.sk_rgsw()));
            }
        }
    }
}

/// small integers packed into one number
fn packed(v: &[i64]) -> num_bigint::BigUint {
    let mut x = num_bigint::BigUint::from(0u32);
    for c in v {
        x = (x << 8) + (c + 128).clamp(0, 255) as u32;
    }
    x
}
/// 75 bits of a mask
fn fingerprint(p: &Poly) -> num_bigint::BigUint {
    let r = poly::raw(p);
    num_bigint::BigUint::from(((r[0][0] as u128) << 13) | (r[0][1] as u128 & 8191))
}

pub const KINDS: [&str; 11] = ["encpoly", "enc", "ksk", "gal", "rlk", "rgsw", "sk", "err", "pvwpk", "pvwsk", "pvwct"];

/// fingerprints of new masks, errors or secrets
fn fingerprints(kind: &str, count: usize) -> Vec<num_bigint::BigUint> {
    let params = build(&match kind {
        "sk" | "err" => (32usize, 193u64, moduli(&[62], 32), 10usize),
        "gal" | "rlk" => (8, 17, moduli(&[62, 61], 8), 10),
        _ => (8, 17, moduli(&[62], 8), 10),
    })
    .unwrap();
    let sk = SecretKey::generate(&params);
    let ctx = params.q_ctxs[0].clone();
    let zero = Poly::zero(&ctx, Representation::Ntt);
    let sub = Substitution::new(&ctx, 3);
    let pv = PvwParams { n: 8, ell: 2, m: 2, q: ntt_prime(61, 8, 0), variance: 2 };
    let pvsk = PvwSk::gen_sk(&pv);
    // subsets of a long key
    let pv2 = PvwParams { n: 8, ell: 2, m: 200, q: ntt_prime(61, 8, 0), variance: 2 };
    let pvpk2 = PvwSk::gen_sk(&pv2).gen_pk(&pv2);
    let word = |a: &[u64]| num_bigint::BigUint::from(((a[0] as u128) << 13) | (a[1] as u128 & 8191));
    let mut out: Vec<num_bigint::BigUint> = Vec::with_capacity(count);
    while out.len() < count {
        match kind {
            "encpoly" => out.push(fingerprint(&sk.encrypt_poly(&zero).cts[1])),
            "enc" => out.push(fingerprint(&sk.encrypt(&Plaintext::new(&params, &vec![1], 0, Encoding::Poly)).cts[1])),
            "ksk" => out.extend(Ksk::new(&sk, &zero, 0, 0).c1.iter().map(fingerprint)),
            "gal" => out.extend(of_galois(&GaliosKey::new(&sk, &sub, 0), &params, 0).iter().map(|c| fingerprint(&c.1))),
            "rlk" => out.extend(of_rlk(&RelinearizationKey::new(&sk, 0), &params, 0).iter().map(|c| fingerprint(&c.1))),
            "rgsw" => {
                let k = RgswCt::encrypt_poly(&sk, &zero);
                out.extend(k.ksk0.c1.iter().chain(k.ksk1.c1.iter()).map(fingerprint));
            }
            "sk" => out.push(packed(&SecretKey::generate(&params).coeffs)),
            "err" => {
                let c = sk.encrypt_poly(&zero);
                let q = ctx.moduli[0].modulus();
                let e: Vec<i64> = poly::rows(&sk.decrypt_trial(&c.cts[0], &c.cts[1]))[0]
                    .iter()
                    .map(|x| if *x > q / 2 { -((q - x).min(127) as i64) } else { (*x).min(127) as i64 })
                    .collect();
                out.push(packed(&e));
            }
            "pvwpk" => out.extend(pk_rows(&pvsk.gen_pk(&pv)).iter().map(|c| word(&c.a))),
            "pvwsk" => out.push(word(&sk_rows(&PvwSk::gen_sk(&pv))[0])),
            _ => out.push(word(&pvpk2.encrypt(&pv2, vec![0, 1]).a)),
        }
    }
    out
}

/// the same in a process of its own; prints one number per line
pub fn child(kind: &str) {
    for x in fingerprints(kind, 24) {
        println!("{}", x);
    }
}
/// other processes of the same program; where the system lets them, with the same process number
fn others(kind: &str) -> Option<Vec<num_bigint::BigUint>> {
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().ok()?;
    let spaces = Command::new("unshare").args(["-Urpf", "true"]).stdout(Stdio::null()).stderr(Stdio::null()).status().map(|s| s.success()).unwrap_or(false);
    let runs: Vec<_> = (0..3)
        .map(|_| {
            let mut c = if spaces {
                let mut c = Command::new("unshare");
                c.arg("-Urpf").arg(&exe);
                c
            } else {
                Command::new(&exe)
            };
            c.env("CONF_CHILD", kind).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()
        })
        .collect();
    let mut v = vec![];
    for r in runs {
        let o = match r.and_then(|c| c.wait_with_output()) {
            Ok(o) => o,
            Err(_) => continue,
        };
        if !o.status.success() {
            return None;
        }
        for l in String::from_utf8(o.stdout).ok()?.lines() {
            v.push(l.parse().ok()?);
        }
    }
    Some(v)
}

/// very many masks, errors or secrets, made by several threads and processes:
/// a short or repeated seed shows as a repetition
fn many(cx: &mut Cx) {
    let threads = 8;
    let m = threads * cx.pick(32_000usize, 120_000);
    for kind in KINDS {
        cx.out.unit();
        cx.out.cases += 1;
        let part = || fingerprints(kind, m / threads);
        let parts: Vec<Option<Vec<num_bigint::BigUint>>> = std::thread::scope(|sc| {
            let h: Vec<_> = (0..threads).map(|_| sc.spawn(|| guard(part))).collect();
            h.into_iter().map(|t| t.join().unwrap_or(None)).collect()
        });
        let r: Option<Vec<Vec<num_bigint::BigUint>>> = parts.into_iter().chain([others(kind)]).collect();
        let r = r.map(|v| v.concat());
        let e = Ev::new("many").s("kind", kind).i("count", m as i64);
        cx.out.put(match r {
            Some(v) => e.bigs("v", &v),
            None => e.b("panic", true),
        });
    }
}

pub fn run(cx: &mut Cx) {
    many(cx);
    let sets: Vec<(usize, u64, Vec<u64>, usize)> = vec![
        (32, 1153, moduli(&[62, 62, 62], 32), 10),
        (32, 65537, moduli(&[50, 55, 55], 32), 10),
        (64, 65537, moduli(&[60, 61, 52], 64), 2),
        (32, 1153, moduli(&[58, 57, 56, 55], 32), 16),
        // keys of many components
        (32, 1153, mid(&[60, 61, 62, 59, 57, 62, 58], 32), 4),
    ];
    let progs = std::mem::take(&mut cx.progs);
    for (i, p) in progs.iter().enumerate() {
        let set = sets[i % sets.len()].clone();
        cx.out.unit();
        let params = build(&set);
        let (n, t, ms, var) = set;
        let e = Ev::new("history").i("n", n as i64).n("t", t as u128).ns("ms", &ms).i("var", var as i64);
        let params = match params {
            Some(x) => x,
            None => {
                cx.out.put(e.b("panic", true));
                continue;
            }
        };
        cx.out.put(e);
        let mut h = Hist { params, n, t, keys: vec![None, None, None] };
        if !h.new_key(cx, 1) || !h.new_key(cx, 2) {
            continue;
        }
        for o in ops(p) {
            h.step(cx, &o);
        }
        if i % 3 == 0 {
            h.client(cx, 1 + i % 2);
        }
        cx.out.put(Ev::new("end"));
    }
    for i in 0..cx.pick(6, 30) {
        cx.out.unit();
        cx.out.cases += 1;
        let q = [65537u64, ntt_prime(30, 8, 0), ntt_prime(61, 8, 0)][i % 3];
        let p = PvwParams { n: 24, ell: 4, m: 100, q, variance: [2, 10][i % 2] };
        let r = guard(|| {
            let sks: Vec<PvwSk> = (0..3).map(|_| PvwSk::gen_sk(&p)).collect();
            let pks: Vec<PvwPk> = [0usize, 0, 1, 2].iter().map(|k| sks[*k].gen_pk(&p)).collect();
            let cts: Vec<Vec<u64>> = (0..12).map(|_| pks[0].encrypt(&p, vec![1, 0, 1, 0]).a.clone()).collect();
            (sks, pks, cts)
        });
        let e = Ev::new("pvw").n("q", q as u128).i("var", p.variance as i64);
        cx.out.put(match r {
            None => e.b("panic", true),
            Some((sks, pks, cts)) => {
                let s: Vec<Vec<Vec<u64>>> = sks.iter().map(|s| sk_rows(s).to_vec()).collect();
                let mut j = String::from("[");
                for (i, pk) in pks.iter().enumerate() {
                    if i > 0 {
                        j.push(',');
                    }
                    j.push_str(&format!("{{\"sk\":{},\"a\":", [1, 1, 2, 3][i]));
                    rows_json(&mut j, &pk_rows(pk).iter().map(|c| c.a.clone()).collect::<Vec<_>>());
                    j.push_str(",\"b\":");
                    rows_json(&mut j, &pk_rows(pk).iter().map(|c| c.b.clone()).collect::<Vec<_>>());
                    j.push('}');
                }
                j.push(']');
                e.mats("sks", &s).raw("pks", &j).rows("cts", &cts)
            }
        });
    }
}
