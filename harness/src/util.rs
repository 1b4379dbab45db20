use serde_json::{json, Value};
use std::io;
use std::path::PathBuf;

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub count: usize,
    pub scen: Option<PathBuf>,
    pub work: PathBuf,
    /// The executable and the library to stand between it and the system.
    pub cli: Option<PathBuf>,
    pub shim: Option<PathBuf>,
}

impl Ctx {
    pub fn copy(&self) -> Ctx {
        Ctx {
            seed: self.seed,
            thorough: self.thorough,
            count: self.count,
            scen: self.scen.clone(),
            work: self.work.clone(),
            cli: self.cli.clone(),
            shim: self.shim.clone(),
        }
    }
    /// `--count` if given, else the tier's default.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.count > 0 {
            self.count
        } else if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn rng(&self, stream: &str, k: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64;
        for b in stream.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h ^ self.seed.wrapping_mul(0x9e3779b97f4a7c15) ^ k.wrapping_mul(0xd1342543de82ef95));
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    pub fn scenarios(&self) -> Vec<Value> {
        match &self.scen {
            None => vec![],
            Some(p) => std::fs::read_to_string(p)
                .unwrap()
                .lines()
                .filter(|l| !l.trim().is_empty())
                .map(|l| serde_json::from_str(l).unwrap())
                .collect(),
        }
    }
}

pub struct Case {
    pub input: Value,
    pub run: Box<dyn FnOnce() -> Value>,
}

impl Case {
    pub fn new(input: Value, run: impl FnOnce() -> Value + 'static) -> Self {
        Self {
            input,
            run: Box::new(run),
        }
    }
}

pub type Cases = Box<dyn Iterator<Item = Case>>;

pub struct Rng(pub u64);

impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// 0 <= x < n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn byte(&mut self) -> u8 {
        self.u64() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// A value whose magnitude is spread over all bit widths up to `bits`.
    pub fn magnitude(&mut self, bits: u32) -> u64 {
        let b = self.range(0, u64::from(bits)) as u32;
        let max = if b == 64 { u64::MAX } else { (1u64 << b) - 1 };
        match self.below(4) {
            0 => max,
            1 if b < 64 && b > 0 => 1u64 << (b - 1),
            _ => {
                if max == u64::MAX {
                    self.u64()
                } else {
                    self.below(max + 1)
                }
            }
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
}

/// A u64 as little-endian base-256 digits without leading zeros (Wide.tla).
pub fn w(mut v: u64) -> Value {
    let mut d = vec![];
    while v > 0 {
        d.push((v & 255) as u8);
        v >>= 8;
    }
    json!(d)
}

/// The number of a Wide value.
pub fn unw(v: &Value) -> u64 {
    v.as_array().unwrap().iter().rev().fold(0, |n, d| n << 8 | d.as_u64().unwrap())
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn ok(v: Value) -> Value {
    json!({"s": "ok", "v": v})
}

pub fn err(e: &io::Error) -> Value {
    json!({"s": "err", "msg": format!("{:?}", e.kind())})
}

/// Runs one operation of a history; a panic becomes an outcome.
pub fn guard(f: impl FnOnce() -> Value) -> Value {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => json!({"s": "panic", "msg": panic_text(&e)}),
    }
}

pub fn io_out(r: io::Result<Value>) -> Value {
    match r {
        Ok(v) => ok(v),
        Err(e) => err(&e),
    }
}

pub fn put(b: &mut [u8], off: usize, v: &[u8]) {
    b[off..off + v.len()].copy_from_slice(v);
}
pub fn put16(b: &mut [u8], off: usize, v: u16) {
    put(b, off, &v.to_le_bytes());
}
pub fn put32(b: &mut [u8], off: usize, v: u32) {
    put(b, off, &v.to_le_bytes());
}
pub fn put64(b: &mut [u8], off: usize, v: u64) {
    put(b, off, &v.to_le_bytes());
}

/// The number of a block of b bytes at a position which, in 64 bits, is one
/// of the first: where the position wraps around.
pub fn wrapping(r: &mut Rng, b: u64) -> u64 {
    let k = u128::from(r.range(1, b.max(2)));
    let n = ((k << 64).div_ceil(u128::from(b)) + u128::from(r.below(6))).min(u128::from(u64::MAX));
    n as u64
}
