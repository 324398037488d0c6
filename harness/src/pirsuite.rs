//! C03: oblivious expansion. C01, C02: queries by several clients.
use crate::bfvsuite::*;
use crate::ev::*;
use crate::gen::*;
use crate::poly;
use crate::ringsuite::ops;
use onion_pir::verif_hooks::bfv::*;
use onion_pir::verif_hooks::evaluations::*;
use onion_pir::verif_hooks::rq::*;
use rand::Rng;
use std::sync::Arc;

pub fn cts_json(v: &[BfvCipherText]) -> String {
    format!("[{}]", v.iter().map(ct_json).collect::<Vec<_>>().join(","))
}

fn expand_one(cx: &mut Cx, m: &mut Bfv, eval: &PirEvaluation) {
    expand_reg(cx, m, eval, 0)
}
fn expand_reg(cx: &mut Cx, m: &mut Bfv, eval: &PirEvaluation, a: usize) {
    cx.out.cases += m.n as u64;
    let c = m.reg[a].clone().unwrap();
    let r = guard(|| {
        let leaves = eval.unpack(c);
        let ms: Vec<Vec<u64>> = leaves.iter().map(|x| m.sk.decrypt(x).values.to_vec()).collect();
        (cts_json(&leaves), ms)
    });
    let e = Ev::new("expand").i("a", a as i64);
    cx.out.put(match r {
        Some((l, ms)) => e.raw("leaves", &l).rows("ms", &ms),
        None => e.b("panic", true),
    });
}

pub fn expand(cx: &mut Cx) {
    let mut sets: Vec<(usize, u64, Vec<u64>, usize)> = (0..SETS).map(params_of).filter(|p| p.0 <= 16).collect();
    sets.push((8, 97, moduli(&[62, 62], 8), 10));
    sets.push((32, 1153, moduli(&[62, 62, 62], 32), 10));
    sets.push((64, 1153, moduli(&[50, 55, 55], 64), 10));
    sets.push((8, 1153, moduli(&[62; 7], 8), 10));
    sets.push((128, 65537, moduli(&[62, 62, 62], 128), 10));
    sets.push((256, 12289, moduli(&[62, 62], 256), 10));
    if cx.thorough {
        sets.push((512, 12289, moduli(&[62, 62, 62], 512), 10));
    }
    for (i, p) in sets.into_iter().enumerate() {
        let big = p.0 > 16;
        for rep in 0..cx.pick(1, 4) {
            let mut m = match open(cx, p.clone(), i + rep) {
                Some(m) => m,
                None => continue,
            };
            let eval = match guard(|| PirEvaluation::build(&m.sk, &m.params)) {
                Some(e) => e,
                None => {
                    cx.out.put(Ev::new("expand").b("panic", true));
                    continue;
                }
            };
            let (n, t) = (m.n, m.t);
            let mut msgs: Vec<Vec<u64>> = (0..4).map(|k| message(cx, t, n, k)).collect();
            if !big {
                for k in 0..n {
                    let mut v = vec![0; n];
                    v[k] = t - 1;
                    msgs.push(v);
                }
            }
            if big && !cx.thorough {
                msgs.truncate(if n > 64 { 1 } else { 2 });
            }
            for v in msgs {
                if m.enc(cx, 0, 0, &v, false) {
                    expand_one(cx, &mut m, &eval);
                }
            }
            // any polynomial of the ring (gadget multiples of messages among them) and any noise
            for k in 0..if big { 1 } else { 6 } {
                if m.step(cx, &["encpoly", "0", "0"]) {
                    expand_one(cx, &mut m, &eval);
                }
                if m.craft(cx, 0, 0, 2, k) {
                    expand_one(cx, &mut m, &eval);
                }
            }
            // ciphertexts with parts in common, one after the other, and another key in between
            let other = guard(|| PirEvaluation::build(&m.sk, &m.params));
            let foreign = guard(|| PirEvaluation::build(&SecretKey::generate(&m.params), &m.params));
            let v = message(cx, t, n, 0);
            if !m.enc(cx, 0, 0, &v, false) {
                continue;
            }
            for k in 0..if big { 2 } else { 6 } {
                expand_one(cx, &mut m, &eval);
                if let (Some(f), 1) = (&foreign, k % 2) {
                    let c = m.reg[0].clone().unwrap();
                    guard(|| f.unpack(c));
                    expand_one(cx, &mut m, &eval);
                }
                let (part, only) = (if k < 4 { k / 2 % 2 } else { 0 }, (k % 2).to_string());
                if m.step(cx, &["variant", "1", "0", &part.to_string(), &only]) {
                    expand_reg(cx, &mut m, &eval, 1);
                }
                if let Some(o) = &other {
                    expand_reg(cx, &mut m, o, if k % 2 == 0 { 0 } else { 1 });
                }
            }
        }
    }
    spread(cx);
}

/// expansions in large rings: what every leaf decrypts to, as its constant and the
/// number of other coefficients that are not zero
fn spread(cx: &mut Cx) {
    let sizes: &[usize] = if cx.thorough { &[32, 256, 512, 1024, 2048, 4096] } else { &[512, 1024, 2048] };
    for (i, n) in sizes.iter().copied().enumerate() {
        cx.out.unit();
        if cx.out.skip {
            continue;
        }
        let t = [12289, 65537, 786433][i % 3];
        let params = match build(&(n, t, moduli(&[62, 62, 62], n), 10)) {
            Some(p) => p,
            None => {
                cx.out.put(Ev::new("spread").b("panic", true));
                continue;
            }
        };
        for kind in 0..cx.pick(1, 2) {
            cx.out.cases += n as u64;
            let v = message(cx, t, n, kind * 3);
            let r = guard(|| {
                let sk = SecretKey::generate(&params);
                let eval = PirEvaluation::build(&sk, &params);
                let leaves = eval.unpack(sk.encrypt(&Plaintext::new(&params, &v, 0, Encoding::Poly)));
                let sees = |l: &[BfvCipherText]| -> Vec<(u64, u64)> {
                    l.iter()
                        .map(|x| {
                            let m = sk.decrypt(x).values.to_vec();
                            (m[0], m[1..].iter().filter(|x| **x != 0).count() as u64)
                        })
                        .collect()
                };
                sees(&leaves)
            });
            let e = Ev::new("spread").i("n", n as i64).i("t", t as i64).ns("v", &v);
            cx.out.put(match r {
                Some(x) => e
                    .ns("c", &x.iter().map(|x| x.0).collect::<Vec<_>>())
                    .is("rest", &x.iter().map(|x| x.1 as i64).collect::<Vec<_>>()),
                None => e.b("panic", true),
            });
        }
    }
}

// ---------------------------------------------------------------- queries
/// degree, t, moduli, variance; first dimension, dimension, further dimensions
type Shape = (usize, u64, Vec<u64>, usize, usize, usize, usize);
fn shape(i: usize, thorough: bool) -> Shape {
    let m3 = |n| moduli(&[62, 62, 62], n);
    let small: [(usize, u64, Vec<u64>, usize, usize, usize, usize); 19] = [
        (8, 1153, m3(8), 10, 4, 4, 1),
        (16, 1153, m3(16), 10, 4, 4, 2),
        (8, 17, m3(8), 3, 2, 2, 3),
        (16, 97, m3(16), 10, 3, 3, 2),
        (8, 1153, m3(8), 10, 8, 2, 0),
        (32, 65537, m3(32), 10, 8, 4, 2),
        (16, 1153, moduli(&[62, 62, 62, 62], 16), 10, 1, 5, 2),
        (8, 65537, moduli(&[60, 61, 62, 55], 8), 16, 5, 3, 1),
        (16, 12289, m3(16), 10, 2, 2, 5),
        (64, 1153, m3(64), 10, 16, 3, 3),
        (16, 786433, m3(16), 1, 7, 4, 1),
        (8, 1153, m3(8), 10, 1, 2, 1),
        (1024, 12289, moduli(&[62; 4], 1024), 10, 5, 3, 2),
        (8, 1153, moduli(&[62; 7], 8), 10, 3, 2, 2),
        // moduli far from powers of two
        (16, mid_prime(19, 16, 1), mid(&[61, 62, 60, 59], 16), 10, 3, 3, 2),
        (8, mid_prime(13, 8, 3), mid(&[62, 58, 61], 8), 4, 6, 2, 1),
        // long records
        (8, mid_prime(45, 8, 2), moduli(&[62; 4], 8), 5, 3, 2, 2),
        (16, ntt_prime(33, 16, 0), mid(&[62, 59, 61, 62], 16), 10, 2, 5, 1),
        (8, ntt_prime(60, 8, 0), moduli(&[62; 5], 8), 10, 2, 2, 1),
    ];
    let big: [(usize, u64, Vec<u64>, usize, usize, usize, usize); 4] = [
        (64, 1153, m3(64), 10, 32, 4, 3),
        (128, 65537, moduli(&[62, 62, 62, 62], 128), 10, 64, 4, 2),
        (64, 65537, moduli(&[62, 62, 62, 62], 64), 10, 30, 8, 2),
        (256, 12289, moduli(&[62, 62, 62, 62], 256), 10, 128, 4, 3),
    ];
    if thorough && i % 23 >= 19 { big[i % 4].clone() } else { small[i % 19].clone() }
}

struct World {
    params: Arc<BfvParameters>,
    n: usize,
    first: usize,
    dim: usize,
    k: usize,
    server: PirServer,
    client: Vec<Option<(SecretKey, PirEvaluation)>>,
    queries: Vec<Option<(usize, Vec<BfvCipherText>)>>,
    rows: usize,
    /// every operation on a thread of its own
    threads: bool,
}

/// Whether a type may be used by several threads at once. It is asked for and
/// not required, so that code whose types may not still builds (and is then
/// used by one thread only).
struct Probe<T>(std::marker::PhantomData<T>);
trait Otherwise {
    fn shared(&self) -> bool {
        false
    }
}
impl<T> Otherwise for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    fn shared(&self) -> bool {
        true
    }
}
fn shareable() -> bool {
    Probe::<World>(std::marker::PhantomData).shared()
}
/// only used when shareable()
struct Across<T>(T);
unsafe impl<T> Send for Across<T> {}
impl<T> Across<T> {
    fn open(self) -> T {
        self.0
    }
}

/// the operation, here or on a new thread
fn on<T>(threads: bool, f: impl FnOnce() -> T) -> Option<T> {
    if threads && shareable() {
        let f = Across(f);
        std::thread::scope(|s| {
            s.spawn(move || {
                let f = f.open();
                Across(guard(f))
            })
            .join()
            .ok()
            .and_then(|r| r.open())
        })
    } else {
        guard(f)
    }
}

fn open_world(cx: &mut Cx, sh: Shape) -> Option<World> {
    let (n, t, _, _, first, dim, k) = sh;
    let rows = first * dim.pow(k as u32);
    let kind = cx.rng.gen_range(0..4);
    let simd = cx.rng.gen_range(0..3) == 0;
    let content: Vec<Vec<u64>> = (0..rows)
        .map(|_| {
            let mut v = message(cx, t, n, if kind == 3 { 0 } else { kind });
            if kind == 3 && !simd {
                v.truncate(cx.rng.gen_range(0..=n));
            }
            v
        })
        .collect();
    world_of(cx, sh, content, simd)
}

fn world_of(cx: &mut Cx, sh: Shape, content: Vec<Vec<u64>>, simd: bool) -> Option<World> {
    cx.out.unit();
    if cx.out.skip {
        return None;
    }
    let (n, t, ms, var, first, dim, k) = sh;
    let rows = content.len();
    let r = guard(|| {
        let params = Arc::new(BfvParameters::new(n, t, ms.clone(), var, poly::bd()));
        let db: Vec<Plaintext> = content
            .iter()
            .map(|v| Plaintext::new(&params, v, 0, if simd { Encoding::SIMD } else { Encoding::Poly }))
            .collect();
        let server = PirServer::new(first, dim, &db, &params);
        let count = server.no_of_cts();
        let recs: Vec<Vec<u64>> = db.iter().map(|p| p.values.to_vec()).collect();
        (params, server, count, recs)
    });
    let e = Ev::new("server")
        .i("n", n as i64)
        .n("t", t as u128)
        .ns("ms", &ms)
        .i("var", var as i64)
        .i("first", first as i64)
        .i("dim", dim as i64)
        .i("k", k as i64);
    match r {
        Some((params, server, count, recs)) => {
            cx.out.put(e.i("count", count as i64).rows("db", &recs));
            Some(World { params, n, first, dim, k, server, client: vec![None, None, None, None], queries: vec![None, None, None, None, None, None], rows, threads: false })
        }
        None => {
            cx.out.put(e.b("panic", true));
            None
        }
    }
}

impl World {
    fn new_client(&mut self, cx: &mut Cx, c: usize) -> bool {
        let r = on(self.threads, || {
            let sk = SecretKey::generate(&self.params);
            let ev = PirEvaluation::build(&sk, &self.params);
            (sk, ev)
        });
        let e = Ev::new("client").i("c", c as i64);
        match r {
            Some((sk, ev)) => {
                cx.out.put(e.is("s", &sk.coeffs.to_vec()));
                self.client[c] = Some((sk, ev));
                true
            }
            None => {
                cx.out.put(e.b("panic", true));
                false
            }
        }
    }
    fn cts_of(&self, sk: &SecretKey, pos: &[usize]) -> (Vec<u64>, Vec<BfvCipherText>) {
        let vec = PirClient::new(self.first, self.dim).encode(pos.to_vec(), self.rows, &self.params, sk);
        let ctx = &self.params.q_ctxs[0];
        let pt = Plaintext::new(&self.params, &vec, 0, Encoding::Poly);
        let mut cts = vec![sk.encrypt(&pt)];
        for gi in ctx.rns.garner.iter() {
            let mut p = Poly::try_from_vec_u64(ctx, &vec[self.first..]);
            p.change_representation(Representation::Ntt);
            p *= gi;
            cts.push(sk.encrypt_poly(&p));
        }
        (vec, cts)
    }
    fn query(&mut self, cx: &mut Cx, q: usize, c: usize, pos: &[usize]) -> bool {
        let sk = &self.client[c].as_ref().unwrap().0;
        let r = on(self.threads, || self.cts_of(sk, pos));
        let ps: Vec<i64> = pos.iter().map(|x| *x as i64).collect();
        let e = Ev::new("query").i("q", q as i64).i("c", c as i64).is("pos", &ps);
        match r {
            Some((vec, cts)) => {
                cx.out.put(e.ns("vec", &vec).raw("cts", &cts_json(&cts)));
                self.queries[q] = Some((c, cts));
                true
            }
            None => {
                cx.out.put(e.b("panic", true));
                false
            }
        }
    }
    /// a query made from another one without knowing the secret: differences are added
    fn shift(&mut self, cx: &mut Cx, q: usize, of: usize, from: &[usize], to: &[usize]) -> bool {
        let (first, dim) = (self.first, self.dim);
        let (c, old) = self.queries[of].clone().unwrap();
        let sk = &self.client[c].as_ref().unwrap().0;
        let r = on(self.threads, || {
            let a = PirClient::new(first, dim).encode(from.to_vec(), self.rows, &self.params, sk);
            let b = PirClient::new(first, dim).encode(to.to_vec(), self.rows, &self.params, sk);
            let ctx = &self.params.q_ctxs[0];
            let t = self.params.plaintext_modulus_u64;
            let d: Vec<u64> = a.iter().zip(&b).map(|(x, y)| (t + y - x) % t).collect();
            let i: Vec<i64> = a.iter().zip(&b).map(|(x, y)| *y as i64 - *x as i64).collect();
            let mut cts = vec![&old[0] + &Plaintext::new(&self.params, &d, 0, Encoding::Poly).to_poly()];
            for (k, gi) in ctx.rns.garner.iter().enumerate() {
                let mut p = poly::ntt(Poly::try_from_vec_i64(ctx, &i[first..]));
                p *= gi;
                cts.push(&old[k + 1] + &p);
            }
            (b, cts)
        });
        let ps: Vec<i64> = to.iter().map(|x| *x as i64).collect();
        let e = Ev::new("shift").i("q", q as i64).i("of", of as i64).is("pos", &ps);
        match r {
            Some((vec, cts)) => {
                cx.out.put(e.ns("vec", &vec).raw("cts", &cts_json(&cts)));
                self.queries[q] = Some((c, cts));
                true
            }
            None => {
                cx.out.put(e.b("panic", true));
                false
            }
        }
    }
    fn rekey(&mut self, cx: &mut Cx, c: usize) -> bool {
        let sk = self.client[c].take().unwrap().0;
        let params = self.params.clone();
        let r = on(self.threads, move || {
            let e = PirEvaluation::build(&sk, &params);
            (sk, e)
        });
        let ok = r.is_some();
        self.client[c] = r;
        let e = Ev::new("rekey").i("c", c as i64);
        cx.out.put(if ok { e } else { e.b("panic", true) });
        ok
    }
    /// the server takes the evaluation key of another client
    fn mixed(&mut self, cx: &mut Cx, q: usize, c: usize) -> bool {
        let cts = self.queries[q].clone().unwrap().1;
        let ev = &self.client[c].as_ref().unwrap().1;
        let r = on(self.threads, || cts_json(&self.server.decode(cts, ev, &self.params)));
        let ok = r.is_some();
        let e = Ev::new("mixed").i("q", q as i64).i("c", c as i64);
        cx.out.put(match r {
            Some(j) => e.raw("cts", &j),
            None => e.b("panic", true),
        });
        ok
    }
    /// the server is given something that is not a query
    fn bad(&mut self, cx: &mut Cx, q: usize, kind: usize) -> bool {
        let (c, mut cts) = self.queries[q].clone().unwrap();
        let ev = &self.client[c].as_ref().unwrap().1;
        let last = cts.len() - 1;
        let r = on(self.threads, || {
            match kind {
                0 => {
                    cts.pop();
                }
                1 => {
                    let p = cts[0].cts[0].clone();
                    cts[0].cts.push(p);
                }
                2 => {
                    let p = cts[last].cts[0].clone();
                    cts[last].cts.push(p);
                }
                3 => {
                    cts[last].cts.pop();
                }
                4 => {
                    cts[last].level = 1;
                }
                _ => {
                    let other = Arc::new(BfvParameters::new(8, 97, moduli(&[50, 50, 50], 8), 3, poly::bd()));
                    cts[last] = SecretKey::generate(&other).encrypt(&Plaintext::new(&other, &vec![1], 0, Encoding::Poly));
                }
            };
            self.server.decode(cts, ev, &self.params).len()
        });
        cx.out.put(Ev::new("bad").i("q", q as i64).i("kind", kind as i64).b("refused", r.is_none()));
        true
    }
    /// expansion of one ciphertext of a query, with the key of any client
    fn unpack(&mut self, cx: &mut Cx, q: usize, c: usize, i: usize) -> bool {
        cx.out.cases += 1;
        let (of, cts) = self.queries[q].clone().unwrap();
        let i = i % cts.len();
        let ev = &self.client[c].as_ref().unwrap().1;
        let bits = self.first + self.dim * self.k;
        let mut idx: Vec<usize> = (0..self.n).collect();
        if self.n > 16 {
            idx = (0..6).map(|_| cx.rng.gen_range(0..bits)).collect();
        }
        let r = on(self.threads, || {
            let l = ev.unpack(cts[i].clone());
            (l.len(), cts_json(&idx.iter().map(|k| l[*k].clone()).collect::<Vec<_>>()))
        });
        let ks: Vec<i64> = idx.iter().map(|k| *k as i64).collect();
        let e = Ev::new("unpack").i("q", q as i64).i("c", c as i64).b("own", of == c).i("i", i as i64).is("idx", &ks);
        let ok = r.is_some();
        cx.out.put(match r {
            Some((len, j)) => e.i("len", len as i64).raw("leaves", &j),
            None => e.b("panic", true),
        });
        ok
    }
    fn answer(&mut self, cx: &mut Cx, q: usize) -> bool {
        cx.out.cases += 1;
        let (c, cts) = self.queries[q].clone().unwrap();
        let (sk, ev) = self.client[c].as_ref().unwrap();
        let r = on(self.threads, || {
            let out = self.server.decode(cts, ev, &self.params);
            let m = sk.decrypt(&out[0]).values.to_vec();
            (cts_json(&out), m)
        });
        let e = Ev::new("answer").i("q", q as i64);
        match r {
            Some((j, m)) => {
                cx.out.put(e.raw("cts", &j).ns("m", &m));
                true
            }
            None => {
                cx.out.put(e.b("panic", true));
                false
            }
        }
    }
}

impl World {
    /// answers to all queries at the same time, twice each
    fn answer_all(&mut self, cx: &mut Cx) {
        let qs: Vec<usize> = (0..self.queries.len()).filter(|q| self.queries[*q].is_some()).flat_map(|q| [q, q]).collect();
        cx.out.cases += qs.len() as u64;
        let me = &*self;
        let rs: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = qs
                .iter()
                .map(|q| {
                    let (c, cts) = me.queries[*q].clone().unwrap();
                    let all = Across((me, c, cts));
                    s.spawn(move || {
                        let (me, c, cts) = all.open();
                        let (sk, ev) = me.client[c].as_ref().unwrap();
                        guard(|| {
                            let out = me.server.decode(cts, ev, &me.params);
                            let m = sk.decrypt(&out[0]).values.to_vec();
                            (cts_json(&out), m)
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().ok().flatten()).collect()
        });
        for (q, r) in qs.into_iter().zip(rs) {
            let e = Ev::new("answer").i("q", q as i64);
            cx.out.put(match r {
                Some((j, m)) => e.raw("cts", &j).ns("m", &m),
                None => e.b("panic", true),
            });
        }
    }
}

fn position(w: &World, r: usize) -> Vec<usize> {
    let mut v = vec![r % w.first];
    let mut x = r / w.first;
    for _ in 0..w.k {
        v.push(x % w.dim);
        x /= w.dim;
    }
    v
}

/// C01: one client, positions all over the database
pub fn retrieve(cx: &mut Cx) {
    let n = cx.pick(19, 92);
    for i in 0..n {
        let sh = shape(i, cx.thorough);
        let mut w = match open_world(cx, sh) {
            Some(w) => w,
            None => continue,
        };
        if !w.new_client(cx, 0) {
            continue;
        }
        let budget: usize = if w.n >= 128 { 3 } else if w.n >= 32 { cx.pick(5, 12) } else { cx.pick(18, 60) };
        let rows = w.rows;
        let mut rs: Vec<usize> = if rows <= budget {
            (0..rows).collect()
        } else {
            let mut v = vec![0, rows - 1];
            while v.len() < budget {
                v.push(cx.rng.gen_range(0..rows));
            }
            v
        };
        rs.dedup();
        for r in rs {
            let pos = position(&w, r);
            if w.query(cx, 0, 0, &pos) {
                w.answer(cx, 0);
            }
        }
    }
}

/// very many queries by a few clients in one process; only what they asked and what they got
fn crowd(cx: &mut Cx) {
    for i in 0..cx.pick(2, 6) {
        let mut w = match open_world(cx, shape([2, 11, 0, 4][i % 4], false)) {
            Some(w) => w,
            None => continue,
        };
        let clients = 1 + i % 3;
        if !(0..clients).all(|c| w.new_client(cx, c)) {
            continue;
        }
        let count: usize = cx.pick(1500, 8000) * if i % 2 == 1 { 4 } else { 1 };
        let asks: Vec<(usize, Vec<usize>)> = (0..count).map(|_| (cx.rng.gen_range(0..clients), position(&w, cx.rng.gen_range(0..w.rows)))).collect();
        ask_many(cx, &w, &asks, i % 2 == 1);
    }
}

/// all of these questions, one after the other or by eight threads: only what was
/// asked and what came back
fn ask_many(cx: &mut Cx, w: &World, asks: &[(usize, Vec<usize>)], threads: bool) {
    let count = asks.len();
    cx.out.cases += count as u64;
    let ask_all = |asks: &[(usize, Vec<usize>)]| {
        guard(|| {
            asks.iter()
                .map(|(c, pos)| {
                    let (sk, ev) = w.client[*c].as_ref().unwrap();
                    let out = w.server.decode(w.cts_of(sk, pos).1, ev, &w.params);
                    sk.decrypt(&out[0]).values.to_vec()
                })
                .collect::<Vec<_>>()
        })
    };
    let got = if !threads || !shareable() {
        ask_all(asks)
    } else {
        std::thread::scope(|s| {
            let hs: Vec<_> = asks
                .chunks(count.div_ceil(8))
                .map(|part| {
                    let all = Across((&ask_all, part));
                    s.spawn(move || {
                        let (f, part) = all.open();
                        f(part)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().ok().flatten()).collect::<Option<Vec<_>>>().map(|v| v.concat())
        })
    };
    let pos: Vec<Vec<u64>> = asks.iter().map(|a| a.1.iter().map(|x| *x as u64).collect()).collect();
    let e = Ev::new("crowd").rows("pos", &pos);
    cx.out.put(match got {
        Some(g) => e.rows("got", &g),
        None => e.b("panic", true),
    });
}

/// C01 in rings of practical degrees, with databases of many faces
pub fn retrieve_large(cx: &mut Cx) {
    let m4 = |n| moduli(&[62; 4], n);
    let mut shapes: Vec<(Shape, usize)> = vec![
        ((1024, 40961, m4(1024), 10, 2, 2, 1), 1),
        ((64, 1153, m4(64), 10, 1, 2, 7), 1),
        ((128, 7681, m4(128), 10, 40, 3, 1), 2),
    ];
    if cx.thorough {
        shapes.extend([
            ((2048, 40961, m4(2048), 10, 3, 2, 1), 1),
            ((1024, 12289, m4(1024), 10, 30, 2, 1), 1),
            ((64, 1153, m4(64), 10, 1, 2, 8), 4),
            ((256, 12289, m4(256), 16, 5, 30, 1), 2),
        ]);
    }
    for (sh, count) in shapes {
        let mut w = match open_world(cx, sh) {
            Some(w) => w,
            None => continue,
        };
        if !w.new_client(cx, 0) {
            continue;
        }
        let mut asks = vec![(0, position(&w, w.rows - 1))];
        while asks.len() < count {
            asks.push((0, position(&w, cx.rng.gen_range(0..w.rows))));
        }
        ask_many(cx, &w, &asks, false);
    }
}

/// C02: histories drawn by spec/PirProg.tla: "client c", "query q c x", "answer q",
/// "shift q of x", "rekey c", "mixed q c"
pub fn histories(cx: &mut Cx) {
    let progs = std::mem::take(&mut cx.progs);
    for (i, p) in progs.iter().enumerate() {
        let sh = shape([0, 2, 4, 1, 7, 11, 3, 10, 6][i % 9], false);
        let mut w = match open_world(cx, sh) {
            Some(w) => w,
            None => continue,
        };
        w.threads = i % 3 == 1;
        // the positions of a history: a few fixed ones so that clients also ask for the same
        let mut at: Vec<Vec<usize>> = vec![vec![]; 8];
        let pool: Vec<Vec<usize>> = (0..3).map(|_| position(&w, cx.rng.gen_range(0..w.rows))).collect();
        for o in ops(p) {
            let x: Vec<usize> = o[1..].iter().map(|s| s.parse().unwrap()).collect();
            let ok = match o[0] {
                "client" => w.new_client(cx, x[0]),
                "query" => {
                    at[x[0]] = pool[x[2] % pool.len()].clone();
                    w.query(cx, x[0], x[1], &at[x[0]])
                }
                "shift" => {
                    let (from, to) = (at[x[1]].clone(), pool[x[2] % pool.len()].clone());
                    at[x[0]] = to.clone();
                    w.shift(cx, x[0], x[1], &from, &to)
                }
                "rekey" => w.rekey(cx, x[0]),
                "unpack" => w.unpack(cx, x[0], x[1], x[2]),
                "bad" => w.bad(cx, x[0], x[1]),
                "mixed" => w.mixed(cx, x[0], x[1]),
                _ => w.answer(cx, x[0]),
            };
            if !ok {
                break;
            }
        }
        if i % 3 == 2 && shareable() {
            w.answer_all(cx);
        }
    }
    crowd(cx);
}

/// C01: every shape spec/PirShape.tla enumerates: "shape first dim k content", "ask digits"
pub fn shapes(cx: &mut Cx) {
    let progs = std::mem::take(&mut cx.progs);
    for p in progs.iter() {
        let o = ops(p);
        let x: Vec<usize> = o[0][1..4].iter().map(|s| s.parse().unwrap()).collect();
        let (first, dim, k) = (x[0], x[1], x[2]);
        let n = (first + k * dim).next_power_of_two().max(8);
        // slots need t = 1 modulo 2 n
        let t = if n <= 64 { 1153 } else { 12289 };
        let rows = first * dim.pow(k as u32);
        let mut blank = false;
        let content: Vec<Vec<u64>> = (0..rows)
            .map(|i| {
                if i % first == 0 {
                    blank = cx.rng.gen_range(0..3) == 0;
                }
                let kind = match o[0][4] {
                    "mixed" => cx.rng.gen_range(0..5),
                    "zeros" if blank => 4,
                    "sparse" => 3,
                    _ => 0,
                };
                message(cx, t, n, kind)
            })
            .collect();
        let simd = cx.rng.gen_range(0..4) == 0;
        // long sums need more room for the noise
        let ms = if n <= 64 { moduli(&[62, 62, 62], n) } else { moduli(&[62, 62, 62, 62], n) };
        let sh = (n, t, ms, 10, first, dim, k);
        let mut w = match world_of(cx, sh, content, simd) {
            Some(w) => w,
            None => continue,
        };
        if !w.new_client(cx, 0) {
            continue;
        }
        let mut asks: Vec<Vec<usize>> = o[1..].iter().map(|a| a[1..].iter().map(|s| s.parse().unwrap()).collect()).collect();
        asks.push(position(&w, cx.rng.gen_range(0..w.rows)));
        for pos in asks {
            if !w.query(cx, 0, 0, &pos) || !w.answer(cx, 0) {
                break;
            }
        }
    }
}
