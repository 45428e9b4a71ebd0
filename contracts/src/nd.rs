//! Source of the inputs of a contract.
//!
//! Under Kani every value is fully symbolic, so a contract that ends with no failed assertion
//! holds for all inputs that satisfy its `assume`s.  Natively, the same contract runs on generated
//! values or on the values of a verifier counterexample.

/// Provider of inputs.
pub trait Nd {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn i16(&mut self) -> i16;
    fn i32(&mut self) -> i32;
    fn usize(&mut self) -> usize;
    fn bool(&mut self) -> bool;

    /// Restricts the inputs to those for which `cond` holds (a precondition).
    fn assume(&mut self, cond: bool);

    fn f64(&mut self) -> f64 {
        f64::from_bits(self.u64())
    }

    /// Returns a value in `0..n`.
    fn below(&mut self, n: usize) -> usize {
        let v = self.usize();
        self.assume(v < n);
        v
    }
}

/// Symbolic inputs.
#[cfg(kani)]
pub struct Symbolic;

#[cfg(kani)]
impl Nd for Symbolic {
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn u16(&mut self) -> u16 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn i16(&mut self) -> i16 {
        kani::any()
    }
    fn i32(&mut self) -> i32 {
        kani::any()
    }
    fn usize(&mut self) -> usize {
        kani::any()
    }
    fn bool(&mut self) -> bool {
        kani::any()
    }
    fn assume(&mut self, cond: bool) {
        kani::assume(cond);
    }
}

/// Panic payload used to abandon an execution whose inputs violate a precondition.
pub struct Skip;

/// Generated or replayed inputs.
pub struct Concrete {
    rng: u64,
    replay: Option<std::collections::VecDeque<Vec<u8>>>,
    /// All values handed out so far, in order, as little-endian bytes.
    pub log: Vec<Vec<u8>>,
}

impl Concrete {
    /// Creates a generator for `seed`.
    pub fn random(seed: u64) -> Self {
        let mut c = Self { rng: seed ^ 0x9e37_79b9_7f4a_7c15, replay: None, log: vec![] };
        for _ in 0..4 {
            c.next();
        }
        c
    }

    /// Creates a provider that hands out `values` in order (and zeros afterwards).
    pub fn replay(values: Vec<Vec<u8>>) -> Self {
        Self { rng: 1, replay: Some(values.into()), log: vec![] }
    }

    fn next(&mut self) -> u64 {
        // splitmix64.
        self.rng = self.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }

    fn fetch(&mut self, bytes: usize, signed: bool) -> u64 {
        let v = match self.replay.as_mut() {
            Some(queue) => {
                let mut raw = queue.pop_front().unwrap_or_default();
                raw.resize(8, 0);
                u64::from_le_bytes(raw.try_into().unwrap())
            }
            None => self.generate(bytes as u32 * 8, signed),
        };
        let v = if bytes == 8 { v } else { v & ((1u64 << (bytes * 8)) - 1) };
        self.log.push(v.to_le_bytes()[..bytes].to_vec());
        v
    }

    /// Picks a value biased towards boundaries.
    fn generate(&mut self, bits: u32, signed: bool) -> u64 {
        let r = self.next();
        let pick = r % 16;
        let r2 = self.next();
        match pick {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => r2 % 8,
            4 => (r2 % 8).wrapping_neg(),
            5 => {
                let m = 1u64 << (bits - 1);
                if signed {
                    m.wrapping_add(r2 % 3).wrapping_sub(1)
                } else {
                    m.wrapping_add(r2 % 5).wrapping_sub(2)
                }
            }
            6 => (1u64 << (r2 % u64::from(bits))).wrapping_add((r2 >> 32) % 3).wrapping_sub(1),
            7 => {
                (1u64 << (r2 % u64::from(bits)))
                    .wrapping_add((r2 >> 32) % 3)
                    .wrapping_sub(1)
                    .wrapping_neg()
            }
            8 | 9 => r2 % 64,
            10 => r2 % 300,
            11 => r2 >> (r % 48),
            _ => r2,
        }
    }
}

impl Nd for Concrete {
    fn u8(&mut self) -> u8 {
        self.fetch(1, false) as u8
    }
    fn u16(&mut self) -> u16 {
        self.fetch(2, false) as u16
    }
    fn u32(&mut self) -> u32 {
        self.fetch(4, false) as u32
    }
    fn u64(&mut self) -> u64 {
        self.fetch(8, false)
    }
    fn i16(&mut self) -> i16 {
        self.fetch(2, true) as i16
    }
    fn i32(&mut self) -> i32 {
        self.fetch(4, true) as i32
    }
    fn usize(&mut self) -> usize {
        self.fetch(8, false) as usize
    }
    fn bool(&mut self) -> bool {
        match self.replay {
            Some(_) => self.fetch(1, false) != 0,
            None => {
                let v = self.next() & 1;
                self.log.push(vec![v as u8]);
                v != 0
            }
        }
    }
    fn assume(&mut self, cond: bool) {
        if !cond {
            std::panic::resume_unwind(Box::new(Skip));
        }
    }
    fn f64(&mut self) -> f64 {
        if self.replay.is_some() {
            return f64::from_bits(self.fetch(8, false));
        }
        let r = self.next();
        let r2 = self.next();
        let v = match r % 16 {
            0 => 0.0,
            1 => -0.0,
            2 => [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE][(r2 % 4) as usize],
            3 => [2147483647.0, -2147483648.0, 2147483647.5, 2147483647.4, -2147483648.5, -2147483648.4]
                [(r2 % 6) as usize],
            4 => (r2 as i32) as f64,
            5 => ((r2 % 2000) as f64 - 1000.0) / 2.0,
            6 => ((r2 % 2000) as f64 - 1000.0) / 8.0,
            7 => (r2 as i32) as f64 + 0.5,
            8 => (r2 as i64) as f64 / 1000.0,
            9 => ((r2 % 200_000) as f64 - 100_000.0) / 100.0,
            10 => f64::from_bits((r2 as i32 as f64 + 0.5).to_bits().wrapping_add((r >> 8) % 5).wrapping_sub(2)),
            _ => f64::from_bits(r2),
        };
        self.log.push(v.to_bits().to_le_bytes().to_vec());
        v
    }
    fn below(&mut self, n: usize) -> usize {
        if self.replay.is_some() {
            // Tolerates values out of range so that shrunk or partial inputs remain usable.
            let v = self.fetch(8, false) as usize;
            return v % n;
        }
        let v = if self.next() % 4 == 0 {
            [0, n - 1, n / 2][(self.next() % 3) as usize]
        } else {
            (self.next() % n as u64) as usize
        };
        self.log.push((v as u64).to_le_bytes().to_vec());
        v
    }
}
