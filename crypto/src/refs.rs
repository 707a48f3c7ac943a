//! Reference arithmetic (num-bigint) and input generators.
use num_bigint::{BigInt, BigUint, Sign};
use num_integer::Integer;
use num_traits::{One, Zero};
use openzeppelin_crypto::arithmetic::uint::Uint;

use crate::rng::Rng;

pub fn from_limbs(l: &[u64]) -> BigUint {
    let mut b = Vec::with_capacity(l.len() * 8);
    for x in l {
        b.extend_from_slice(&x.to_le_bytes());
    }
    BigUint::from_bytes_le(&b)
}

pub fn to_limbs<const N: usize>(v: &BigUint) -> [u64; N] {
    let mut o = [0u64; N];
    for (i, d) in v.iter_u64_digits().enumerate() {
        if i < N {
            o[i] = d;
        }
    }
    o
}

pub fn big<const N: usize>(u: &Uint<N>) -> BigUint {
    from_limbs(u.as_limbs())
}

pub fn uint<const N: usize>(v: &BigUint) -> Uint<N> {
    Uint::new(to_limbs::<N>(v))
}

pub fn pow2(n: usize) -> BigUint {
    BigUint::one() << n
}

/// `a^-1 mod p`, `None` when there is none.
pub fn modinv(a: &BigUint, p: &BigUint) -> Option<BigUint> {
    let a = BigInt::from_biguint(Sign::Plus, a % p);
    let m = BigInt::from_biguint(Sign::Plus, p.clone());
    let g = a.extended_gcd(&m);
    if !g.gcd.is_one() {
        return None;
    }
    g.x.mod_floor(&m).to_biguint()
}

pub fn rand_limbs<const N: usize>(r: &mut Rng) -> [u64; N] {
    let mut o = [0u64; N];
    for x in o.iter_mut() {
        *x = r.next();
    }
    o
}

pub fn limb(r: &mut Rng) -> u64 {
    match r.below(14) {
        0 | 1 => 0,
        2 => 1,
        3 | 4 => u64::MAX,
        5 => u64::MAX - 1,
        6 => 1 << 63,
        7 => (1 << 63) - 1,
        8 => 1 << 32,
        9 => (1 << 32) - 1,
        10 => 1 << r.below(64),
        11 => u64::MAX << r.below(64),
        12 => r.next() >> r.below(64),
        _ => r.next(),
    }
}

/// Boundary-directed multi-limb values.
pub fn limbs<const N: usize>(r: &mut Rng) -> [u64; N] {
    match r.below(10) {
        0 => [0; N],
        1 => [u64::MAX; N],
        2 => {
            let mut o = [0; N];
            o[0] = r.below(20);
            o
        }
        3 => to_limbs(&pow2(r.idx(64 * N))),
        4 => to_limbs(&(pow2(r.idx(64 * N)) - 1u32)),
        5 => {
            // random width
            let w = r.idx(64 * N + 1);
            let v = from_limbs(&rand_limbs::<N>(r)) % pow2(w);
            to_limbs(&v)
        }
        6 | 7 => {
            let mut o = [0; N];
            for x in o.iter_mut() {
                *x = limb(r);
            }
            o
        }
        _ => rand_limbs(r),
    }
}

/// A value related to `v`: equal, next to it, one limb changed, complement.
pub fn related<const N: usize>(r: &mut Rng, v: &[u64; N]) -> [u64; N] {
    let b = from_limbs(v);
    let top = pow2(64 * N);
    match r.below(9) {
        0 => *v,
        1 => to_limbs(&((b + 1u32) % &top)),
        2 => to_limbs(&((b + &top - 1u32) % &top)),
        3 => {
            let mut o = *v;
            o[r.idx(N)] ^= 1 << r.below(64);
            o
        }
        4 => to_limbs(&((&top - b) % &top)),
        5 => to_limbs(&((&top - b - 1u32) % &top)),
        6 => {
            let mut o = *v;
            o[r.idx(N)] = limb(r);
            o
        }
        _ => limbs(r),
    }
}

/// An integer below `p`: boundary-directed.
pub fn below(r: &mut Rng, p: &BigUint) -> BigUint {
    let bits = p.bits() as usize;
    let v = match r.below(12) {
        0 => BigUint::zero(),
        1 => BigUint::one(),
        2 => p - 1u32,
        3 => (p * 4u32 - 1u32) - BigUint::from(r.below(5)),
        4 => (p - 1u32) >> 1,
        5 => (p + 1u32) >> 1,
        6 => BigUint::from(r.below(300)),
        7 => pow2(r.idx(bits)),
        8 => p.clone() - (pow2(r.idx(bits)) % p) ,
        9 => {
            let n = p.iter_u64_digits().count();
            let l: Vec<u64> = (0..n).map(|_| limb(r)).collect();
            from_limbs(&l)
        }
        _ => {
            let n = p.iter_u64_digits().count() + 1;
            let l: Vec<u64> = (0..n).map(|_| r.next()).collect();
            from_limbs(&l)
        }
    };
    v % p
}
