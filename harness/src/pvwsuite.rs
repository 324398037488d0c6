//! C18: PVW encryption.
use crate::ev::*;
use crate::gen::*;
use onion_pir::verif_hooks::pvw::verif::*;
use onion_pir::verif_hooks::pvw::*;
use rand::Rng;

fn bits(cx: &mut Cx, n: usize, kind: usize) -> Vec<u64> {
    (0..n)
        .map(|_| match kind {
            0 => cx.rng.gen_range(0..2),
            1 => 1,
            _ => 0,
        })
        .collect()
}

fn start(p: &PvwParams) -> Ev {
    Ev::new("pvw")
        .i("n", p.n as i64)
        .i("ell", p.ell as i64)
        .i("m", p.m as i64)
        .n("q", p.q as u128)
        .i("var", p.variance as i64)
}

fn enc_dec(cx: &mut Cx, p: &PvwParams, sk: &PvwSk, pk: &PvwPk, kind: &str, reps: usize, exact: bool) {
    for r in 0..reps {
        cx.out.cases += 1;
        let m = bits(cx, p.ell, if r < 3 { r } else { 0 });
        let e = Ev::new("enc").s("kind", kind).ns("m", &m);
        let ct = match guard(|| pk.encrypt(p, m.clone())) {
            Some(c) => c,
            None => {
                cx.out.put(e.b("panic", true));
                continue;
            }
        };
        cx.out.put(e.ns("a", &ct.a).ns("b", &ct.b));
        decrypt(cx, p, sk, &ct, exact.then(|| m));
    }
}

fn decrypt(cx: &mut Cx, p: &PvwParams, sk: &PvwSk, ct: &PvwCiphertext, want: Option<Vec<u64>>) {
    let e = Ev::new("dec").ns("a", &ct.a).ns("b", &ct.b);
    match guard(|| sk.decrypt(p, ct)) {
        Some(d) => {
            cx.out.put(e.ns("m", &d));
            if let Some(m) = want {
                cx.out.put(Ev::new("trip").ns("m", &m).ns("back", &d));
            }
        }
        None => cx.out.put(e.b("panic", true)),
    }
}

fn record_pk(cx: &mut Cx, pk: &PvwPk, generated: bool) {
    let a: Vec<Vec<u64>> = pk_rows(pk).iter().map(|c| c.a.clone()).collect();
    let b: Vec<Vec<u64>> = pk_rows(pk).iter().map(|c| c.b.clone()).collect();
    let e = Ev::new("pk").b("generated", generated).rows("b", &b);
    cx.out.put(if generated { e.rows("a", &a) } else { e });
}

pub fn run(cx: &mut Cx) {
    let qs: Vec<u64> = vec![65537, 12289, 257, 1153, 769, 40961, ntt_prime(30, 8, 0), ntt_prime(45, 8, 0), ntt_prime(62, 8, 0), next_prime_in(1 << 59, 60), 1009, 1013, 1019, 1021];
    let reps = cx.pick(3, 12);
    for rep in 0..reps + 1 {
        // in the end every width
        let qs: Vec<u64> = if rep < reps { qs.clone() } else { (9..=62u32).map(|b| mid_prime(b, 1, b as usize)).collect() };
        for (i, q) in qs.iter().copied().enumerate() {
            // every worst-case error in range: m * 2 var < q / 4
            let var = [1usize, 2, 3, 10, 16][(i + rep) % 5];
            let room = ((q / 4 - 1) / (2 * var as u64)) as usize;
            let dims = [(4usize, 3usize, 6usize), (12, 4, 80), (1, 1, 1), (3, 7, 5), (20, 2, 200), (9, 5, 33), [(5, 9, 12), (6, 40, 10), (4, 70, 7), (3, 17, 20), (2, 130, 5)][(i + rep) % 5]];
            for (j, (n, ell, m)) in dims.into_iter().enumerate() {
                let m = m.min(room);
                if m == 0 {
                    continue;
                }
                let p = PvwParams { n, ell, m, q, variance: var };
                cx.out.unit();
                let (sk, pk) = match guard(|| {
                    let sk = PvwSk::gen_sk(&p);
                    let pk = sk.gen_pk(&p);
                    (sk, pk)
                }) {
                    Some(x) => x,
                    None => {
                        cx.out.put(start(&p).b("panic", true));
                        continue;
                    }
                };
                cx.out.put(start(&p).b("generated", true).rows("sk", sk_rows(&sk)));
                record_pk(cx, &pk, true);
                enc_dec(cx, &p, &sk, &pk, if m <= 6 { "small" } else { "generated" }, if m <= 6 { 5 } else { 4 }, true);
                // any ciphertext: deviations around the limits of each bit
                for _ in 0..cx.pick(8, 30) {
                    cx.out.cases += 1;
                    let a: Vec<u64> = (0..n).map(|_| cx.rng.gen_range(0..q)).collect();
                    let b: Vec<u64> = (0..ell)
                        .map(|k| {
                            let s = sk_rows(&sk)[k].iter().zip(a.iter()).fold(0u128, |acc, (x, y)| (acc + *x as u128 * *y as u128) % q as u128);
                            let half = (q / 2) as u128 * cx.rng.gen_range(0..2u128);
                            let d = match cx.rng.gen_range(0..4) {
                                0 => (q / 4 - 1) as u128,
                                1 => (q - (q / 4 - 1)) as u128,
                                2 => 0,
                                _ => cx.rng.gen_range(0..q) as u128,
                            };
                            ((s + half + d) % q as u128) as u64
                        })
                        .collect();
                    decrypt(cx, &p, &sk, &PvwCiphertext { a, b }, None);
                }
                // keys made by hand: unit rows and extreme errors
                if j < 3 {
                    let m = [64usize, 130, 256][j].min(room);
                    let p = PvwParams { n: m, ell, m, q, variance: var };
                    let sk: Vec<Vec<u64>> = (0..ell).map(|_| (0..m).map(|_| cx.rng.gen_range(0..q)).collect()).collect();
                    let worst = cx.rng.gen_range(0..3);
                    let rows: Vec<PvwCiphertext> = (0..m)
                        .map(|r| {
                            let mut a = vec![0; m];
                            a[r] = 1;
                            let b = (0..ell)
                                .map(|k| {
                                    let e = match worst {
                                        0 => 2 * var as u64,
                                        1 => q - 2 * var as u64,
                                        _ => (q + cx.rng.gen_range(0..=4 * var as u64) - 2 * var as u64) % q,
                                    };
                                    ((sk[k][r] as u128 + e as u128) % q as u128) as u64
                                })
                                .collect();
                            PvwCiphertext { a, b }
                        })
                        .collect();
                    cx.out.unit();
                    cx.out.put(start(&p).b("generated", false).rows("sk", &sk));
                    let (sk, pk) = (sk_new(sk), pk_new(rows));
                    record_pk(cx, &pk, false);
                    enc_dec(cx, &p, &sk, &pk, "unit", cx.pick(4, 10), true);
                }
            }
        }
    }
    // the default parameters
    cx.out.unit();
    let p = PvwParams::default();
    match guard(|| {
        let sk = PvwSk::gen_sk(&p);
        let pk = sk.gen_pk(&p);
        (sk, pk)
    }) {
        Some((sk, pk)) => {
            cx.out.put(start(&p).b("generated", true).rows("sk", sk_rows(&sk)));
            cx.out.put(Ev::new("bigpk"));
            enc_dec(cx, &p, &sk, &pk, "big", 6, true);
        }
        None => cx.out.put(start(&p).b("panic", true)),
    }
}
