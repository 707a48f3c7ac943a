use alloy_primitives::{Address, U256};

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed, seed ^ 0x9E3779B97F4A7C15);
        r.next();
        r
    }
    /// splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0 ^ self.1.rotate_left(17);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn u256(&mut self) -> U256 {
        U256::from_limbs([self.next(), self.next(), self.next(), self.next()])
    }
    /// Random bit width, so all magnitudes occur.
    pub fn u256_width(&mut self) -> U256 {
        let w = self.below(257) as usize;
        if w == 0 {
            return U256::ZERO;
        }
        self.u256() >> (256 - w)
    }
    /// Small, boundary or wide values.
    pub fn amount(&mut self) -> U256 {
        match self.below(12) {
            0 => U256::ZERO,
            1 => U256::from(1u64),
            2 => U256::MAX,
            3 => U256::MAX - U256::from(self.below(4)),
            4 => U256::from(1u64) << self.idx(256),
            5 => (U256::from(1u64) << self.idx(256)).wrapping_sub(U256::from(1u64)),
            6 => self.u256_width(),
            7 => self.u256(),
            _ => U256::from(self.below(1000)),
        }
    }
    /// A value near `x` (for thresholds): x-1, x, x+1, x/2, or unrelated.
    pub fn near(&mut self, x: U256) -> U256 {
        match self.below(10) {
            0 => x.wrapping_add(U256::from(1u64)),
            1 | 2 => x,
            3 => x.saturating_sub(U256::from(1u64)),
            4 => x >> 1,
            5 | 6 => {
                if x.is_zero() {
                    U256::ZERO
                } else {
                    self.u256() % x
                }
            }
            7 => U256::from(self.below(100)),
            _ => self.amount(),
        }
    }
    /// Now and then, add values that agree with one of `v` in their low bits:
    /// a key cut to a machine word takes the two for the same.
    pub fn twins(&mut self, v: &mut Vec<U256>) {
        if v.is_empty() || !self.chance(1, 3) {
            return;
        }
        let k = 1 + self.idx(2);
        for _ in 0..k {
            let x = *self.pick(v);
            let b = *self.pick(&[8usize, 16, 32, 63, 64, 96, 127, 128, 160, 192, 255]);
            v.push(x ^ (U256::from(1u64) << b));
        }
    }
    /// Calldata payloads: mostly short, now and then long.
    pub fn payload(&mut self) -> Vec<u8> {
        let n = match self.below(40) {
            0..=5 => 0,
            6..=30 => self.idx(70),
            31..=35 => self.idx(600),
            36..=38 => 32 * self.idx(80),
            _ if self.chance(1, 30) => 65_530 + self.idx(20),
            _ => self.idx(9000),
        };
        self.bytes(n)
    }
    pub fn address(&mut self) -> Address {
        let mut a = [0u8; 20];
        for b in a.iter_mut() {
            *b = self.next() as u8;
        }
        Address::from(a)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
}
