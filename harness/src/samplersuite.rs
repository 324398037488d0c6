//! C21: the samplers, through random bits under our control and statistics.
use crate::bfvsuite::moduli;
use crate::ev::*;
use crate::gen::*;
use crate::poly;
use onion_pir::verif_hooks::bfv::*;
use onion_pir::verif_hooks::modulus::Modulus;
use onion_pir::verif_hooks::rq::*;
use onion_pir::verif_hooks::utils::sample_vec_cbd;
use rand::{CryptoRng, Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha20Rng;
use std::fmt::Write as _;
use std::sync::Arc;

/// random bits from a given tape
struct Tape {
    bytes: Vec<u8>,
    pos: usize,
    over: bool,
}
impl Tape {
    fn byte(&mut self) -> u8 {
        if self.pos >= self.bytes.len() {
            self.over = true;
            return 0;
        }
        self.pos += 1;
        self.bytes[self.pos - 1]
    }
}
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            *d = self.byte();
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Tape {}

fn taped(size: usize, var: usize, bytes: &[u8]) -> Option<(Vec<i64>, usize)> {
    guard(|| {
        let mut t = Tape { bytes: bytes.to_vec(), pos: 0, over: false };
        let v = sample_vec_cbd(size, var, &mut t);
        (v, t.pos)
    })
}

fn flips(cx: &mut Cx, var: usize, size: usize) {
    cx.out.unit();
    cx.out.cases += 1;
    let e = Ev::new("flips").i("var", var as i64).i("size", size as i64);
    let tape: Vec<u8> = (0..(size * 16 + 64)).map(|_| cx.rng.gen()).collect();
    let (out, used) = match taped(size, var, &tape) {
        Some(x) => x,
        None => return cx.out.put(e.b("panic", true)),
    };
    let mut base = vec![];
    let mut s = String::from("[");
    for b in 0..used * 8 {
        base.push(((tape[b / 8] >> (b % 8)) & 1) as i64);
        let mut t2 = tape.clone();
        t2[b / 8] ^= 1 << (b % 8);
        let o2 = match taped(size, var, &t2) {
            Some(x) => x.0,
            None => return cx.out.put(e.b("panic", true)),
        };
        if b > 0 {
            s.push(',');
        }
        s.push('[');
        let mut k = 0;
        for i in 0..size.min(o2.len()) {
            if o2[i] != out[i] && k < 3 {
                if k > 0 {
                    s.push(',');
                }
                let _ = write!(s, "[{},{}]", i + 1, o2[i] - out[i]);
                k += 1;
            }
        }
        s.push(']');
    }
    s.push(']');
    cx.out.put(e.is("out", &out).is("base", &base).raw("flips", &s));
}

fn cbd(cx: &mut Cx, var: usize, size: usize, reps: usize, lags: usize) {
    cx.out.unit();
    cx.out.cases += (size * reps) as u64;
    let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.gen());
    let xs = guard(|| {
        let mut v = vec![];
        for _ in 0..reps {
            v.extend(sample_vec_cbd(size, var, &mut rng));
        }
        v
    });
    let e = Ev::new("cbd")
        .i("var", var as i64)
        .i("size", size as i64)
        .i("reps", reps as i64)
        .i("lags", lags as i64)
        .b("columns", size <= 64);
    cx.out.put(match xs {
        Some(x) => e.is("xs", &x),
        None => e.b("panic", true),
    });
}

pub fn run(cx: &mut Cx) {
    for var in 1..=16 {
        for size in [1, 2, 5, 17, 33] {
            flips(cx, var, size);
        }
        cbd(cx, var, cx.pick(40000, 200000), 1, 64);
        let w = [1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 32][cx.rng.gen_range(0..11)];
        cbd(cx, var, w, cx.pick(8000, 40000) / w, 2);
    }
    small(cx);
    uniform(cx);
    polys(cx);
    seeds(cx);
}

fn small(cx: &mut Cx) {
    for (n, ms, var) in [
        (16, moduli(&[62, 62, 62], 16), 10),
        (8, moduli(&[30], 8), 1),
        (32, moduli(&[50, 55], 32), 16),
        (8, vec![97], 3),
        (64, moduli(&[62], 64), 5),
    ] {
        for rep in [Representation::PowerBasis, Representation::Ntt] {
            cx.out.unit();
            let reps = cx.pick(6000, 40000).max(n) / n;
            cx.out.cases += (n * reps) as u64;
            let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.gen());
            let r = guard(|| {
                let c = poly::ctx(&ms, n);
                (0..reps).map(|_| poly::rows(&Poly::random_small(&c, rep.clone(), var, &mut rng))).collect::<Vec<_>>()
            });
            let e = Ev::new("small").i("n", n as i64).ns("ms", &ms).i("var", var as i64);
            cx.out.put(match r {
                Some(p) => e.mats("polys", &p),
                None => e.b("panic", true),
            });
        }
    }
    for (n, var) in [(16usize, 10usize), (8, 1), (64, 3), (8, 16)] {
        cx.out.unit();
        let reps = cx.pick(6000, 40000).max(n) / n;
        cx.out.cases += (n * reps) as u64;
        let r = guard(|| {
            let p = Arc::new(BfvParameters::new(n, 1153, moduli(&[62, 62], n), var, poly::bd()));
            let mut v = vec![];
            for _ in 0..reps {
                v.extend(SecretKey::generate(&p).coeffs.iter().copied());
            }
            v
        });
        let e = Ev::new("secret").i("n", n as i64).i("var", var as i64);
        cx.out.put(match r {
            Some(x) => e.is("xs", &x),
            None => e.b("panic", true),
        });
    }
}

/// moduli where reducing a random word would be visible
fn odd_moduli() -> Vec<u64> {
    let mut v = vec![3, 17, 97, 577, 12289, 65537];
    for (num, b) in [(3u64, 60u32), (5, 59), (1, 61), (7, 59), (1, 45), (3, 31), (3, 30), (1, 31)] {
        v.push(next_prime_in((num << b) + 1, b + 64 - num.leading_zeros()));
    }
    v.push(ntt_prime(62, 8, 0));
    v
}

fn uniform(cx: &mut Cx) {
    for q in odd_moduli() {
        for size in [1usize, 7, 64, 1 << 20] {
            cx.out.unit();
            let total = cx.pick(if size == 1 << 20 { 60000 } else { 4000 }, if size == 1 << 20 { 400000 } else { 20000 });
            let size = size.min(total);
            cx.out.cases += total as u64;
            let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.gen());
            let r = guard(|| {
                let m = Modulus::new(q);
                let mut v = vec![];
                for _ in 0..total / size {
                    v.extend(m.random_vec(size, &mut rng));
                }
                v
            });
            let e = Ev::new("uniform").n("q", q as u128);
            cx.out.put(match r {
                Some(x) => e.ns("xs", &x),
                None => e.b("panic", true),
            });
        }
    }
}

fn seed_of(cx: &mut Cx) -> [u8; 32] {
    let mut s = [0u8; 32];
    cx.rng.fill_bytes(&mut s);
    s
}

fn polys(cx: &mut Cx) {
    for (n, ms) in [(16usize, moduli(&[62, 62, 62], 16)), (8, moduli(&[30, 61, 50], 8)), (64, moduli(&[55, 55], 64)), (8, vec![97, 113, 193]), (8, moduli(&[62; 12], 8)), (16384, moduli(&[62, 62], 16384))] {
        for rep in [Representation::PowerBasis, Representation::Ntt] {
            for seeded in [false, true] {
                cx.out.unit();
                let reps = cx.pick(6000, 40000).max(n) / n;
                cx.out.cases += (reps * n) as u64;
                let mut rng = ChaCha20Rng::seed_from_u64(cx.rng.gen());
                let ss: Vec<[u8; 32]> = (0..reps)
                    .map(|i| {
                        if i % 2 == 0 {
                            seed_of(cx)
                        } else {
                            let mut s = [0u8; 32]; // low-entropy seeds
                            s[0] = i as u8;
                            s[31] = (i >> 8) as u8;
                            s
                        }
                    })
                    .collect();
                let r = guard(|| {
                    let c = poly::ctx(&ms, n);
                    ss.iter()
                        .map(|s| {
                            // as stored, in the representation asked for
                            poly::raw(&if seeded { Poly::random_from_seed(&c, rep.clone(), *s) } else { Poly::random(&c, &mut rng, rep.clone()) })
                        })
                        .collect::<Vec<_>>()
                });
                let e = Ev::new("poly").i("n", n as i64).ns("ms", &ms);
                cx.out.put(match r {
                    Some(p) => e.mats("polys", &p),
                    None => e.b("panic", true),
                });
            }
        }
    }
}

fn seeds(cx: &mut Cx) {
    for (ci, (n, ms)) in [(8usize, moduli(&[62, 62, 62], 8)), (16, moduli(&[50, 55], 16)), (8, moduli(&[62], 8))].into_iter().enumerate() {
        cx.out.unit();
        cx.out.put(Ev::new("forget"));
        let base = seed_of(cx);
        let mut ss = vec![base, [0; 32], [255; 32]];
        for b in 0..256 {
            // seeds that differ in one bit
            let mut s = base;
            s[b / 8] ^= 1 << (b % 8);
            if b < 8 || b % cx.pick(17, 1) == 0 || b >= 248 {
                ss.push(s);
            }
        }
        let mut order: Vec<usize> = (0..ss.len()).chain(0..ss.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, cx.rng.gen_range(0..=i));
        }
        for i in order {
            let s = ss[i];
            cx.out.cases += 1;
            let rep = cx.rng.gen_range(0..2);
            let noise = cx.rng.gen_range(0..3);
            let r = guard(|| {
                let c = poly::ctx(&ms, n);
                if noise == 0 {
                    let _ = Poly::random(&c, &mut rand::thread_rng(), Representation::Ntt);
                }
                poly::rows(&Poly::random_from_seed(&c, if rep == 0 { Representation::PowerBasis } else { Representation::Ntt }, s))
            });
            let e = Ev::new("seed")
                .i("ctx", ci as i64)
                .i("rep", rep as i64)
                .is("seed", &s.iter().map(|x| *x as i64).collect::<Vec<_>>())
                .i("n", n as i64)
                .ns("ms", &ms);
            cx.out.put(match r {
                Some(p) => e.rows("rows", &p),
                None => e.b("panic", true),
            });
        }
    }
}
