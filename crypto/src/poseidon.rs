//! C07: Poseidon2 against a matrix-level reference over big integers.
use num_bigint::BigUint;
use num_traits::Zero;
use openzeppelin_crypto::field::fp::{Fp, FpParams};
use openzeppelin_crypto::field::instance::*;
use openzeppelin_crypto::field::prime::PrimeField;
use openzeppelin_crypto::poseidon2::instance::babybear::BabyBear24Params;
use openzeppelin_crypto::poseidon2::instance::bls12::{BLS2Params, BLS3Params, BLS4Params};
use openzeppelin_crypto::poseidon2::instance::bn256::BN256Params;
use openzeppelin_crypto::poseidon2::instance::goldilocks::Goldilocks12Params;
use openzeppelin_crypto::poseidon2::instance::pallas::PallasParams;
use openzeppelin_crypto::poseidon2::instance::vesta::VestaParams;
use openzeppelin_crypto::poseidon2::params::PoseidonParams;
use openzeppelin_crypto::poseidon2::Poseidon2;

use crate::mon::{hash_str, Mon, Prop};
use crate::refs::*;

/// Parameters of other widths, capacities and round counts.
macro_rules! params {
    ($name:ident, $t:expr, $d:expr, $cap:expr, $rf:expr, $rp:expr) => {
        pub struct $name;
        impl PoseidonParams<FpGoldiLocks> for $name {
            const T: usize = $t;
            const D: u8 = $d;
            const CAPACITY: usize = $cap;
            const ROUNDS_F: usize = $rf;
            const ROUNDS_P: usize = $rp;
            const MAT_INTERNAL_DIAG_M_1: &'static [FpGoldiLocks] = {
                const D: [FpGoldiLocks; $t] = {
                    let mut d = [FpGoldiLocks::ZERO; $t];
                    let mut i = 0;
                    while i < $t {
                        let v = if $t == 2 { 1 + i as u64 } else if $t == 3 { if i == 2 { 2 } else { 1 } } else { 0x9E3779B97F4A7C15u64.wrapping_mul(i as u64 * 7 + 3) >> 1 };
                        d[i] = FpGoldiLocks::new(openzeppelin_crypto::arithmetic::uint::Uint::new([v]));
                        i += 1;
                    }
                    d
                };
                &D
            };
            const ROUND_CONSTANTS: &'static [&'static [FpGoldiLocks]] = {
                const C: [[FpGoldiLocks; $t]; $rf + $rp] = {
                    let mut c = [[FpGoldiLocks::ZERO; $t]; $rf + $rp];
                    let mut s = 0x1234567u64;
                    let mut r = 0;
                    while r < $rf + $rp {
                        let mut i = 0;
                        while i < $t {
                            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            c[r][i] = FpGoldiLocks::new(openzeppelin_crypto::arithmetic::uint::Uint::new([s >> 1]));
                            i += 1;
                        }
                        r += 1;
                    }
                    c
                };
                const R: [&[FpGoldiLocks]; $rf + $rp] = {
                    let mut o: [&[FpGoldiLocks]; $rf + $rp] = [&[]; $rf + $rp];
                    let mut r = 0;
                    while r < $rf + $rp {
                        o[r] = &C[r];
                        r += 1;
                    }
                    o
                };
                &R
            };
        }
    };
}
params!(G2, 2, 7, 1, 8, 12);
params!(G3, 3, 7, 2, 6, 10);
params!(G4, 4, 5, 2, 8, 9);
params!(G8, 8, 7, 3, 8, 22);
params!(G16, 16, 3, 8, 4, 13);
params!(G20, 20, 7, 1, 8, 5);
params!(G24, 24, 11, 8, 2, 3);
params!(G4Z, 4, 7, 0, 8, 0);

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C07",
        run,
        quick: 32_000,
        thorough: 300_000,
        wquick: 4_800,
        wthorough: 40_000,
        rule: "distinct (instance, absorbed sequence, squeezed count) observations, absorbed and squeezed counts crossing the rate several times",
        assumptions: &["the parameters of the shipped instances are pinned by digest", "instances: the eight shipped ones and eight Goldilocks variants of width 2, 3, 4, 8, 16, 20, 24"],
    }]
}

fn run(m: &mut Mon) {
    match m.episode % 17 {
        0 => ep::<BN256Params, _, 4>(m, "BN256"),
        1 => ep::<BLS2Params, _, 4>(m, "BLS2"),
        2 => ep::<BLS3Params, _, 4>(m, "BLS3"),
        3 => ep::<BLS4Params, _, 4>(m, "BLS4"),
        4 => ep::<PallasParams, _, 4>(m, "Pallas"),
        5 => ep::<VestaParams, _, 4>(m, "Vesta"),
        6 | 7 => ep::<Goldilocks12Params, _, 1>(m, "Goldilocks12"),
        8 => ep::<BabyBear24Params, _, 1>(m, "BabyBear24"),
        9 => ep::<G2, _, 1>(m, "T2"),
        10 => ep::<G3, _, 1>(m, "T3"),
        11 => ep::<G4, _, 1>(m, "T4"),
        12 => ep::<G8, _, 1>(m, "T8"),
        13 => ep::<G16, _, 1>(m, "T16"),
        14 => ep::<G20, _, 1>(m, "T20"),
        15 => ep::<G24, _, 1>(m, "T24"),
        _ => ep::<G4Z, _, 1>(m, "T4 capacity 0"),
    }
}

struct Sponge {
    p: BigUint,
    t: usize,
    d: u32,
    cap: usize,
    rf: usize,
    rp: usize,
    ext: Vec<Vec<BigUint>>,
    int: Vec<Vec<BigUint>>,
    rc: Vec<Vec<BigUint>>,
}

impl Sponge {
    fn new<P: PoseidonParams<Fp<Q, N>>, Q: FpParams<N>, const N: usize>() -> Self {
        let v = |x: &Fp<Q, N>| big(&x.into_bigint());
        let t = P::T;
        // External matrix, from the paper: circ(2, 1), circ(2, 1, 1), M4 or
        // circ(2 M4, M4, ..., M4).
        let m4 = [[5u32, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
        let ext = (0..t)
            .map(|i| {
                (0..t)
                    .map(|j| {
                        BigUint::from(if t < 4 {
                            1 + (i == j) as u32
                        } else if t == 4 {
                            m4[i][j]
                        } else {
                            m4[i % 4][j % 4] * if i / 4 == j / 4 { 2 } else { 1 }
                        })
                    })
                    .collect()
            })
            .collect();
        // Internal matrix: all ones plus the diagonal.
        let int = (0..t)
            .map(|i| (0..t).map(|j| BigUint::from(1u32) + if i == j { v(&P::MAT_INTERNAL_DIAG_M_1[i]) } else { BigUint::zero() }).collect())
            .collect();
        Sponge {
            p: big(&Q::MODULUS),
            t,
            d: P::D as u32,
            cap: P::CAPACITY,
            rf: P::ROUNDS_F,
            rp: P::ROUNDS_P,
            ext,
            int,
            rc: P::ROUND_CONSTANTS.iter().map(|r| r.iter().map(v).collect()).collect(),
        }
    }
    fn mat(&self, mx: &[Vec<BigUint>], s: &[BigUint]) -> Vec<BigUint> {
        mx.iter().map(|row| row.iter().zip(s).fold(BigUint::zero(), |a, (c, x)| a + c * x) % &self.p).collect()
    }
    fn permute(&self, s: &[BigUint]) -> Vec<BigUint> {
        let d = BigUint::from(self.d);
        let mut s = self.mat(&self.ext, s);
        for r in 0..self.rf + self.rp {
            let full = r < self.rf / 2 || r >= self.rf / 2 + self.rp;
            let n = if full { self.t } else { 1 };
            for i in 0..n {
                s[i] = (&s[i] + &self.rc[r][i]).modpow(&d, &self.p);
            }
            s = self.mat(if full { &self.ext } else { &self.int }, &s);
        }
        s
    }
    /// Absorb `input` rate elements at a time, permute, squeeze `n`.
    fn hash(&self, input: &[BigUint], n: usize) -> Vec<BigUint> {
        let rate = self.t - self.cap;
        let mut s = vec![BigUint::zero(); self.t];
        for (b, block) in input.chunks(rate).enumerate() {
            if b > 0 {
                s = self.permute(&s);
            }
            for (i, x) in block.iter().enumerate() {
                s[self.cap + i] = (&s[self.cap + i] + x) % &self.p;
            }
        }
        let mut out = vec![];
        while out.len() < n {
            s = self.permute(&s);
            out.extend(s[self.cap..].iter().cloned());
        }
        out.truncate(n);
        out
    }
}

/// The parameters a hash depends on, as one digest.
fn digest(r: &Sponge) -> String {
    let mut s = format!("{} {} {} {} {} {}", r.p, r.t, r.d, r.cap, r.rf, r.rp);
    if r.t > 3 {
        for i in 0..r.t {
            s += &format!(" {}", r.int[i][i]);
        }
    }
    for (i, row) in r.rc.iter().enumerate().take(r.rf + r.rp) {
        let full = i < r.rf / 2 || i >= r.rf / 2 + r.rp;
        for x in &row[..if full { r.t } else { 1 }] {
            s += &format!(" {x}");
        }
    }
    crate::hashes::keccak(s.as_bytes())[..8].iter().map(|b| format!("{b:02x}")).collect()
}

/// Published parameters of the shipped instances.
const PINNED: &[(&str, &str)] = &[
    ("BLS2", "6dfc2bab233f5f21"),
    ("BLS3", "c66be8bfd6e59ce4"),
    ("BLS4", "524b5194787d43c8"),
    ("BN256", "6fc652cf6a775624"),
    ("BabyBear24", "d6f603629d031698"),
    ("Goldilocks12", "675cdaa6a3b34c56"),
    ("Pallas", "6d6cfbd448d1ed52"),
    ("Vesta", "d4f7c6465e1d908b"),
];

/// The sponge step by step, two sponges interleaved, with permutations
/// called for explicitly and empty batches.
fn steps<P: PoseidonParams<Fp<Q, N>>, Q: FpParams<N>, const N: usize>(m: &mut Mon, name: &str) {
    let r = Sponge::new::<P, Q, N>();
    let mut hs: Vec<_> = (0..2).map(|_| (Poseidon2::<P, Fp<Q, N>>::new(), vec![BigUint::zero(); r.t], r.cap, false)).collect();
    let n = 2 + m.rng.idx(14);
    for _ in 0..n {
        m.case();
        let i = m.rng.idx(hs.len());
        let op = m.rng.below(8);
        m.step(format!("[{name}] sponge {i} step {op}"));
        {
            let (h, s, at, sq) = &mut hs[i];
            match op {
                0..=2 if !*sq => {
                    let x = below(&mut m.rng, &r.p);
                    h.absorb(&Fp::from_bigint(uint(&x)));
                    if *at == r.t {
                        *s = r.permute(s);
                        *at = r.cap;
                    }
                    s[*at] = (&s[*at] + &x) % &r.p;
                    *at += 1;
                }
                3 => {
                    h.permute();
                    *s = r.permute(s);
                }
                4 | 5 => {
                    let got = big(&h.squeeze().into_bigint());
                    if !*sq || *at == r.t {
                        *s = r.permute(s);
                        *sq = true;
                        *at = r.cap;
                    }
                    m.eq("squeezed element", got, s[*at].clone());
                    *at += 1;
                }
                6 => {
                    h.absorb_batch(&[]);
                    let e = h.squeeze_batch(0);
                    m.eq("empty batch", e.len(), 0);
                }
                _ => {}
            }
        }
    }
    m.count("step-by-step sponges");
}

fn ep<P: PoseidonParams<Fp<Q, N>>, Q: FpParams<N>, const N: usize>(m: &mut Mon, name: &str) {
    if m.rng.chance(1, 3) {
        return steps::<P, Q, N>(m, name);
    }
    m.case();
    let r = Sponge::new::<P, Q, N>();
    let rate = P::T - P::CAPACITY;
    if let Some((_, d)) = PINNED.iter().find(|x| x.0 == name) {
        m.eq("parameters of the instance", digest(&r).as_str(), *d);

    }
    let n = match m.rng.below(6) {
        0 => 0,
        1 => rate,
        2 => 2 * rate,
        3 => rate + 1,
        4 if m.rng.chance(1, 4) => m.rng.idx(10 * rate + 2),
        _ => m.rng.idx(3 * rate + 2),
    };
    let k = match m.rng.below(4) {
        0 => 1,
        1 => rate + 1,
        2 => rate,
        3 if m.rng.chance(1, 4) => m.rng.idx(6 * rate + 3),
        _ => m.rng.idx(2 * rate + 3),
    };
    let input: Vec<BigUint> = (0..n).map(|_| below(&mut m.rng, &r.p)).collect();
    m.step(format!("[{name}] absorb {n}, squeeze {k}, rate {rate}: {:?}", input.iter().take(3).collect::<Vec<_>>()));
    m.seen(hash_str(&format!("{name} {input:?} {k}")));
    let f: Vec<Fp<Q, N>> = input.iter().map(|x| Fp::from_bigint(uint(x))).collect();
    let mut h = if m.rng.chance(1, 2) { Poseidon2::<P, Fp<Q, N>>::new() } else { Default::default() };
    m.eq("state_size", Poseidon2::<P, Fp<Q, N>>::state_size(), P::T);
    // absorbed one by one, in batches, or mixed
    let mut at = 0;
    while at < n {
        if m.rng.chance(1, 2) {
            h.absorb(&f[at]);
            at += 1;
        } else {
            let e = at + 1 + m.rng.idx(n - at);
            h.absorb_batch(&f[at..e]);
            at = e;
        }
    }
    h.absorb_batch(&[]);
    let mut got = vec![];
    while got.len() < k {
        if m.rng.chance(1, 2) {
            got.push(h.squeeze());
        } else {
            let c = m.rng.idx(k - got.len() + 1);
            got.extend(h.squeeze_batch(c));
        }
    }
    let want = r.hash(&input, k);
    let got: Vec<BigUint> = got.iter().map(|x| big(&x.into_bigint())).collect();
    m.eq("squeezed elements", got, want);
    m.count(name);
    m.count(if n > rate { "inputs longer than the rate" } else if n == rate { "inputs of one rate" } else { "shorter inputs" });
    if k > 0 {
        m.panics("absorb after squeeze", || h.absorb(&Fp::from_bigint(uint(&BigUint::zero()))));
        m.count("absorb after squeeze refused");
    }
}
