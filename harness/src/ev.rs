//! Event writer: one JSON object per line. Numbers of any size are written as
//! little-endian base 2^15 digits (the representation of spec/BigNat.tla),
//! small ones (below 2^31 in absolute value) as JSON integers.
use num_bigint::BigUint;
use std::fmt::Write as _;
use std::fs::File;
use std::io::{BufWriter, Write};

pub struct Ev(String);

pub fn put_u128(s: &mut String, mut v: u128) {
    s.push('[');
    let mut first = true;
    while v != 0 {
        if !first {
            s.push(',');
        }
        first = false;
        let _ = write!(s, "{}", (v & 32767) as u32);
        v >>= 15;
    }
    s.push(']');
}

pub fn put_big(s: &mut String, v: &BigUint) {
    let words = v.to_u64_digits();
    let nbits = v.bits() as usize;
    s.push('[');
    let n = (nbits + 14) / 15;
    for i in 0..n {
        if i > 0 {
            s.push(',');
        }
        let bit = i * 15;
        let (w, o) = (bit / 64, bit % 64);
        let mut d = words[w] >> o;
        if o > 49 && w + 1 < words.len() {
            d |= words[w + 1] << (64 - o);
        }
        let _ = write!(s, "{}", d & 32767);
    }
    s.push(']');
}

impl Ev {
    pub fn new(op: &str) -> Ev {
        Ev(format!("{{\"op\":\"{}\"", op))
    }
    fn key(&mut self, k: &str) {
        let _ = write!(self.0, ",\"{}\":", k);
    }
    /// small integer
    pub fn i(mut self, k: &str, v: i64) -> Ev {
        assert!(v.abs() < (1 << 31), "small integer expected: {} {}", k, v);
        self.key(k);
        let _ = write!(self.0, "{}", v);
        self
    }
    pub fn s(mut self, k: &str, v: &str) -> Ev {
        self.key(k);
        let _ = write!(self.0, "\"{}\"", v);
        self
    }
    pub fn b(mut self, k: &str, v: bool) -> Ev {
        self.key(k);
        let _ = write!(self.0, "{}", v);
        self
    }
    pub fn is(mut self, k: &str, v: &[i64]) -> Ev {
        self.key(k);
        self.0.push('[');
        for (i, x) in v.iter().enumerate() {
            assert!(x.abs() < (1 << 31), "small integer expected: {} {}", k, x);
            if i > 0 {
                self.0.push(',');
            }
            let _ = write!(self.0, "{}", x);
        }
        self.0.push(']');
        self
    }
    pub fn n(mut self, k: &str, v: u128) -> Ev {
        self.key(k);
        put_u128(&mut self.0, v);
        self
    }
    pub fn big(mut self, k: &str, v: &BigUint) -> Ev {
        self.key(k);
        put_big(&mut self.0, v);
        self
    }
    pub fn ns<T: Copy + Into<u128>>(mut self, k: &str, v: &[T]) -> Ev {
        self.key(k);
        self.nums(v);
        self
    }
    fn nums<T: Copy + Into<u128>>(&mut self, v: &[T]) {
        self.0.push('[');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.0.push(',');
            }
            put_u128(&mut self.0, (*x).into());
        }
        self.0.push(']');
    }
    pub fn bigs(mut self, k: &str, v: &[BigUint]) -> Ev {
        self.key(k);
        self.0.push('[');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.0.push(',');
            }
            put_big(&mut self.0, x);
        }
        self.0.push(']');
        self
    }
    /// matrix of 64-bit numbers
    pub fn rows(mut self, k: &str, v: &[Vec<u64>]) -> Ev {
        self.key(k);
        self.mat(v);
        self
    }
    fn mat(&mut self, v: &[Vec<u64>]) {
        self.0.push('[');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.0.push(',');
            }
            self.nums(x);
        }
        self.0.push(']');
    }
    /// list of matrices (the parts of a ciphertext)
    pub fn mats(mut self, k: &str, v: &[Vec<Vec<u64>>]) -> Ev {
        self.key(k);
        self.0.push('[');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.0.push(',');
            }
            self.mat(x);
        }
        self.0.push(']');
        self
    }
    /// raw JSON
    pub fn raw(mut self, k: &str, v: &str) -> Ev {
        self.key(k);
        self.0.push_str(v);
        self
    }
    fn line(&self) -> String {
        format!("{}}}\n", self.0)
    }
}

/// Events are grouped in units (a unit is one behaviour, validated from its
/// first event on); units are distributed over the shard files.
pub struct Out {
    shards: Vec<(BufWriter<File>, u64)>,
    lines: Vec<usize>,
    cur: usize,
    /// one in so many units is recorded (CONF_PART)
    part: u64,
    pub skip: bool,
    salt: u64,
    seen: u64,
    pub units: u64,
    pub events: u64,
    pub cases: u64,
}

impl Out {
    pub fn new(dir: &str, n: usize) -> Out {
        std::fs::create_dir_all(dir).unwrap();
        Out {
            shards: (0..n)
                .map(|i| {
                    (
                        BufWriter::new(File::create(format!("{}/t{}.ndjson", dir, i)).unwrap()),
                        0,
                    )
                })
                .collect(),
            lines: vec![0; n],
            cur: 0,
            part: std::env::var("CONF_PART").ok().and_then(|v| v.parse().ok()).unwrap_or(1),
            skip: false,
            salt: std::env::args().nth(4).and_then(|v| v.parse().ok()).unwrap_or(0),
            seen: 0,
            units: 0,
            events: 0,
            cases: 0,
        }
    }
    /// start a new unit, in the shard that has the least data so far
    pub fn unit(&mut self) {
        self.seen += 1;
        self.skip = ((self.seen + self.salt).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20) % self.part != 0;
        if self.skip {
            return;
        }
        self.units += 1;
        self.cur = (0..self.shards.len())
            .min_by_key(|i| self.shards[*i].1)
            .unwrap();
    }
    pub fn put(&mut self, e: Ev) {
        if self.skip {
            return;
        }
        let l = e.line();
        self.events += 1;
        self.lines[self.cur] += 1;
        let s = &mut self.shards[self.cur];
        s.1 += l.len() as u64;
        s.0.write_all(l.as_bytes()).unwrap();
    }
    /// of the last event in its recording, from 1
    pub fn position(&self) -> usize {
        self.lines[self.cur]
    }
    pub fn finish(&mut self) {
        for s in self.shards.iter_mut() {
            s.0.flush().unwrap();
        }
    }
}

/// Runs code under test; a panic is an observation.
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
