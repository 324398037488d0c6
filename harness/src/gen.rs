//! Operand generators, independent of the code under test.
use crate::ev::Out;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;

pub struct Cx {
    pub out: Out,
    pub rng: ChaCha8Rng,
    pub seed: u64,
    pub thorough: bool,
    pub progs: Vec<Vec<String>>,
    /// extra arguments of the suite
    pub args: Vec<String>,
}

impl Cx {
    /// a fresh generator for the code under test
    pub fn chacha(&mut self) -> ChaCha8Rng {
        ChaCha8Rng::seed_from_u64(self.rng.gen())
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
}

pub fn mul_mod(a: u64, b: u64, m: u64) -> u64 {
    ((a as u128 * b as u128) % m as u128) as u64
}

pub fn pow_mod(mut a: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    a %= m;
    while e > 0 {
        if e & 1 == 1 {
            r = mul_mod(r, a, m);
        }
        a = mul_mod(a, a, m);
        e >>= 1;
    }
    r
}

/// deterministic Miller-Rabin for 64 bits
pub fn is_prime(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n % p == 0 {
            return n == p;
        }
    }
    let (mut d, mut s) = (n - 1, 0);
    while d & 1 == 0 {
        d >>= 1;
        s += 1;
    }
    'next: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = pow_mod(a, d, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 0..s - 1 {
            x = mul_mod(x, x, n);
            if x == n - 1 {
                continue 'next;
            }
        }
        return false;
    }
    true
}

/// a prime of exactly `bits` bits, near `from`
pub fn next_prime_in(from: u64, bits: u32) -> u64 {
    let (lo, hi) = (1u64 << (bits - 1), 1u64 << bits);
    let mut x = from.clamp(lo.max(2), hi - 1);
    for _ in 0..(hi - lo).min(1 << 20) {
        if is_prime(x) {
            return x;
        }
        x += 1;
        if x >= hi {
            x = lo.max(2);
        }
    }
    panic!("no prime of {} bits", bits)
}

/// the k-th prime congruent to 1 modulo 2n counted down from 2^bits
pub fn ntt_prime(bits: u32, n: usize, k: usize) -> u64 {
    let m = 2 * n as u64;
    let mut x = ((1u64 << bits) - 1) / m * m + 1;
    if x >= 1u64 << bits {
        x -= m;
    }
    let mut k = k;
    loop {
        assert!(x > m, "no such prime: {} bits, degree {}", bits, n);
        if is_prime(x) {
            if k == 0 {
                return x;
            }
            k -= 1;
        }
        x -= m;
    }
}

/// primes of that form from the middle of the range, not near a power of two
pub fn mid_prime(bits: u32, n: usize, k: usize) -> u64 {
    let m = 2 * n as u64;
    let half = 1u128 << (bits - 1);
    let mut x = (half + half * [371, 617, 283, 733, 457, 151, 839, 523][k % 8] / 1000) as u64 / m * m + 1;
    let mut k = k / 8;
    loop {
        if is_prime(x) {
            if k == 0 {
                return x;
            }
            k -= 1;
        }
        x += m;
    }
}

pub fn residues(rng: &mut ChaCha8Rng, p: u64, reps: usize) -> Vec<u64> {
    let mut v = vec![0, 1, p - 1, p / 2, p / 2 + 1, 2, p - 2, 3];
    for v in v.iter_mut() {
        *v %= p;
    }
    v.extend((0..reps).map(|_| rng.gen_range(0..p)));
    v
}

pub fn words64(rng: &mut ChaCha8Rng, p: u64, reps: usize) -> Vec<u64> {
    let mut v = vec![0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, 1 << 62];
    let top = u64::MAX / p;
    for k in [1, 2, 3, 4, top / 2, top.saturating_sub(1), top] {
        for d in [-1i128, 0, 1] {
            let x = k as i128 * p as i128 + d;
            if x >= 0 && x <= u64::MAX as i128 {
                v.push(x as u64);
            }
        }
    }
    let pp = p as u128 * p as u128;
    if pp <= u64::MAX as u128 {
        v.push(pp as u64 - 1);
    }
    for k in 0..64 {
        let x = 1u64 << k;
        v.extend([x - 1, x, x + (rng.gen::<u64>() >> (64 - k.max(1)) >> rng.gen_range(0..=k))]);
    }
    for _ in 0..reps {
        v.push(rng.gen());
        let k = rng.gen_range(0..=top);
        v.push(k * p);
        v.push((k * p).wrapping_sub(1));
        v.push(rng.gen::<u64>() >> rng.gen_range(0..64));
    }
    v
}

pub fn words128(rng: &mut ChaCha8Rng, p: u64, reps: usize) -> Vec<u128> {
    let m = u128::MAX;
    let p = p as u128;
    let mut v = vec![0, 1, m, m - 1, 1 << 127, 1 << 64, (1 << 64) - 1, (1 << 64) + 1, p * p - 1, p * p, (p - 1) * (p - 1)];
    let top = m / p;
    for k in [1, 2, 3, p, top / 2, top - 1, top, (1u128 << 64) / p, (1u128 << 64) / p + 1] {
        let x = (k.min(top)) * p;
        v.push(x);
        v.push(x.wrapping_sub(1));
        v.push(x.saturating_add(1));
    }
    for k in 0..128 {
        let x = 1u128 << k;
        v.extend([x - 1, x, x + (rng.gen::<u128>() >> (128 - k.max(1)) >> rng.gen_range(0..=k))]);
    }
    for _ in 0..reps {
        v.push(rng.gen());
        let k = rng.gen::<u128>() % top;
        v.push(k * p);
        v.push((k * p).wrapping_sub(1));
        v.push(rng.gen::<u128>() >> rng.gen_range(0..128));
        v.push(((rng.gen::<u64>() as u128) << 64) | u64::MAX as u128);
        let (a, b) = (rng.gen::<u128>() % p, rng.gen::<u128>() % p);
        v.push(a * b);
    }
    v
}

/// a residue around a power of two, of any size
pub fn sized(rng: &mut ChaCha8Rng, p: u64) -> u64 {
    let x = 1u64 << rng.gen_range(0..64 - p.leading_zeros());
    match rng.gen_range(0..4) {
        0 => x - 1,
        1 => x,
        _ => x + rng.gen_range(0..x),
    }
    .min(p - 1)
}

/// the first prime p = 1 mod 2n from `from` on modulo which every small prime is a
/// square (searches for a non-residue run long on these)
pub fn square_prime(from: u64, n: usize) -> u64 {
    let m = 2 * n as u64;
    let mut x = from / m * m + 1;
    let residue = |a: u64, p: u64| {
        let (mut r, mut b, mut e) = (1u128, a as u128, (p - 1) / 2);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % p as u128;
            }
            b = b * b % p as u128;
            e >>= 1;
        }
        r == 1
    };
    loop {
        if (x % 8 == 1 || x % 8 == 7)
            && [3u64, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41].iter().all(|a| residue(*a, x))
            && is_prime(x)
        {
            return x;
        }
        x += m;
    }
}
