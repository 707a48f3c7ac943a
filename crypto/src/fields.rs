//! C05: prime fields against integers modulo the modulus.
use num_bigint::BigUint;
use num_traits::{One, Zero};
use openzeppelin_crypto::arithmetic::uint::{from_str_radix, Uint};
use openzeppelin_crypto::bits::BitIteratorBE;
use openzeppelin_crypto::field::fp::{Fp, FpParams};
use openzeppelin_crypto::field::group::AdditiveGroup;
use openzeppelin_crypto::field::instance::*;
use openzeppelin_crypto::field::prime::PrimeField;
use openzeppelin_crypto::field::Field;

use crate::mon::{hash_str, Mon, Prop};
use crate::refs::*;

#[macro_export]
macro_rules! field {
    ($name:ident, $n:expr, $modulus:literal) => {
        pub struct $name;
        impl openzeppelin_crypto::field::fp::FpParams<$n> for $name {
            const GENERATOR: openzeppelin_crypto::field::fp::Fp<Self, $n> = openzeppelin_crypto::fp_from_num!("3");
            const MODULUS: openzeppelin_crypto::arithmetic::uint::Uint<$n> = openzeppelin_crypto::arithmetic::uint::from_str_radix($modulus, 10);
        }
    };
}

// One limb.
field!(M3, 1, "3");
field!(M17, 1, "17");
field!(M61, 1, "2305843009213693951"); // 2^61-1
field!(M63, 1, "9223372036854775783"); // largest prime below 2^63: one spare bit
field!(M63P, 1, "9223372036854775837"); // just above 2^63: no spare bit
field!(M64, 1, "18446744073709551557"); // 2^64-59
// Two limbs.
field!(M17W, 2, "17"); // far smaller than its container
field!(M127, 2, "170141183460469231731687303715884105727");
field!(M128, 2, "340282366920938463463374607431768211297"); // 2^128-159
field!(M128P, 2, "170141183460469231731687303715884105757"); // 2^127+29
// Three limbs: P-192.
field!(P192, 3, "6277101735386680763835789423207666416083908700390324961279");
// Four limbs.
field!(F25519, 4, "57896044618658097711785492504343953926634992332820282019728792003956564819949");
field!(Secp, 4, "115792089237316195423570985008687907853269984665640564039457584007908834671663");
field!(P256, 4, "115792089210356248762697446949407573530086143415290314195533631308867097853951");
field!(F256P, 4, "57896044618658097711785492504343953926634992332820282019728792003956564820063"); // 2^255+95
// Five limbs: 2^320-197.
field!(F320, 5, "2135987035920910082395021706169552114602704522356652769947041607822219725780640550022962086936379");
// Six limbs: BLS12-381 base field, P-384.
field!(Bls381, 6, "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787");
field!(P384, 6, "39402006196394479212279040100143613805079739270465446667948293404245721771496870329047266088258938001861606973112319");
// Seven limbs: 2^448-2^224-1.
field!(F448, 7, "726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018365439");
// Nine limbs: 2^521-1.
field!(P521, 9, "6864797660130609714981900799081393217269435300143305409394463459185543183397656052122559640661454554977296311391480858037121987999716643812574028291115057151");

// Eight to thirteen limbs.
field!(F512, 8, "13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006083527");
field!(F639, 10, "2281220308811097609320585802850145662446614253624279965289596258949637583604338693252956405658685699889321154786797203655344352360687718999126330659861107094125997337180132475041437096123302301");
field!(F768, 12, "1552518092300708935148979488462502555256886017116696611139052038026050952686376886330878408828646477950487730697131073206171580044114814391444287275041181139204454976020849905550265285631598444825262999193716468750892846853816057031");
field!(F832, 13, "28638903918474961204418783933674838490721739172170652529441449702311064005352904159345284265824628375429359509218999720074396860757073376700445026041564579620512874307979212102266801261478978776245040008231745247475930553606737583615358787106474295153");

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C05",
        run,
        quick: 300_000,
        thorough: 3_000_000,
        wquick: 50_000,
        wthorough: 300_000,
        rule: "distinct (field, operand) pairs; random straight-line programs over a register file, operands boundary-directed around 0, the modulus, its half and limb edges",
        assumptions: &["num-bigint is the reference", "moduli are odd primes of 2 to 832 bits in 1 to 13 limbs, with and without spare bits, besides the library's six instances"],
    }]
}

/// The shipped instances: published modulus, generator, prime factors of p-1.
fn instance<P: FpParams<N>, const N: usize>(m: &mut Mon, name: &str, modulus: &str, factors: &[&str]) {
    let p = BigUint::parse_bytes(modulus.as_bytes(), 10).unwrap();
    m.eq(&format!("{name}: modulus"), big(&P::MODULUS), p.clone());
    let g = big(&Fp::<P, N>::GENERATOR.into_bigint());
    let e = &p - 1u32;
    m.check(g.modpow(&e, &p).is_one(), &format!("{name}: generator"), || "not a unit".into());
    for q in factors {
        let q = BigUint::parse_bytes(q.as_bytes(), 10).unwrap();
        m.check((&e % &q).is_zero(), "harness", || "factor".into());
        m.check(!g.modpow(&(&e / &q), &p).is_one(), &format!("{name}: generator"), || format!("{g} has an order dividing (p-1)/{q}"));
    }
    m.case();
    prog::<P, N>(m, name);
}

fn run(m: &mut Mon) {
    match m.episode % 34 {
        0 => instance::<VestaParam, 4>(m, "FpVesta", "28948022309329048855892746252171976963363056481941647379679742748393362948097", &["2", "3", "1709", "24859"]),
        1 => {
            instance::<BabyBearParam, 1>(m, "FpBabyBear", "2013265921", &["2", "3", "5"]);
            ints::<BabyBearParam>(m, "FpBabyBear");
        }
        2 => instance::<BLS12Param, 4>(m, "FpBLS12", "52435875175126190479447740508185965837690552500527637822603658699938581184513", &["2", "3", "11", "19", "10177", "125527", "859267", "906349", "2508409", "2529403", "52437899", "254760293"]),
        3 => instance::<BN256Param, 4>(m, "FpBN256", "21888242871839275222246405745257275088548364400416034343698204186575808495617", &["2", "3", "13", "29", "983", "11003", "237073", "405928799", "1670836401704629", "13818364434197438864469338081"]),
        4 => {
            instance::<GoldiLocksParam, 1>(m, "FpGoldiLocks", "18446744069414584321", &["2", "3", "5", "17", "257", "65537"]);
            ints::<GoldiLocksParam>(m, "FpGoldiLocks");
        }
        5 => instance::<PallasParam, 4>(m, "FpPallas", "28948022309329048855892746252171976963363056481941560715954676764349967630337", &["2", "3", "463"]),
        6 => {
            prog::<M3, 1>(m, "3");
            ints::<M3>(m, "3");
        }
        7 => {
            prog::<M17, 1>(m, "17");
            ints::<M17>(m, "17");
        }
        8 => prog::<M61, 1>(m, "2^61-1"),
        9 => {
            prog::<M63, 1>(m, "2^63-25");
            ints::<M63>(m, "2^63-25");
        }
        10 => {
            prog::<M63P, 1>(m, "2^63+29");
            ints::<M63P>(m, "2^63+29");
        }
        11 => {
            prog::<M64, 1>(m, "2^64-59");
            ints::<M64>(m, "2^64-59");
        }
        12 => prog::<M17W, 2>(m, "17 in two limbs"),
        13 => prog::<M127, 2>(m, "2^127-1"),
        14 => prog::<M128, 2>(m, "2^128-159"),
        15 => prog::<M128P, 2>(m, "2^127+29"),
        16 => prog::<P192, 3>(m, "P-192"),
        17 => prog::<F25519, 4>(m, "2^255-19"),
        18 => prog::<Secp, 4>(m, "secp256k1"),
        19 => prog::<P256, 4>(m, "P-256"),
        20 => prog::<F256P, 4>(m, "2^255+95"),
        21 => prog::<F320, 5>(m, "2^320-197"),
        22 => prog::<Bls381, 6>(m, "BLS12-381"),
        23 => prog::<P384, 6>(m, "P-384"),
        24 => prog::<F448, 7>(m, "2^448-2^224-1"),
        25 => prog::<P521, 9>(m, "P-521"),
        26 => prog::<GoldiLocksParam, 1>(m, "FpGoldiLocks"),
        27 => prog::<BN256Param, 4>(m, "FpBN256"),
        28 => prog::<M64, 1>(m, "2^64-59"),
        29 => prog::<F512, 8>(m, "2^512-569"),
        30 => prog::<F639, 10>(m, "2^639+413"),
        31 => prog::<F768, 12>(m, "2^768-825"),
        32 => prog::<F832, 13>(m, "2^832-143"),
        _ => prog::<M128, 2>(m, "2^128-159"),
    }
}

fn val<P: FpParams<N>, const N: usize>(x: &Fp<P, N>) -> BigUint {
    big(&x.into_bigint())
}

fn signed(v: i128, p: &BigUint) -> BigUint {
    let a = BigUint::from(v.unsigned_abs()) % p;
    if v < 0 && !a.is_zero() {
        p - a
    } else {
        a
    }
}

fn prog<P: FpParams<N>, const N: usize>(m: &mut Mon, name: &str) {
    type F<P, const N: usize> = Fp<P, N>;
    let p = big(&P::MODULUS);
    let top = pow2(64 * N);
    m.count(name);
    // constants
    m.eq("MODULUS", (big(&<F<P, N> as PrimeField>::MODULUS), big(&<F<P, N> as PrimeField>::characteristic())), (p.clone(), p.clone()));
    m.eq("MODULUS_BIT_SIZE", <F<P, N> as PrimeField>::MODULUS_BIT_SIZE as u64, p.bits());
    m.eq("extension_degree", F::<P, N>::extension_degree(), 1);
    m.eq("ZERO", (val(&F::<P, N>::ZERO), val(&F::<P, N>::zero()), val(&F::<P, N>::default()), val(&<F<P, N> as AdditiveGroup>::ZERO)), (BigUint::zero(), BigUint::zero(), BigUint::zero(), BigUint::zero()));
    m.eq("ONE", (val(&F::<P, N>::ONE), val(&F::<P, N>::one()), val(&<F<P, N> as Field>::ONE)), (BigUint::one(), BigUint::one(), BigUint::one()));

    // registers
    let mut regs: Vec<(F<P, N>, BigUint)> = vec![];
    for _ in 0..5 {
        let v = match m.rng.below(6) {
            // not reduced: read modulo p
            0 => from_limbs(&limbs::<N>(&mut m.rng)),
            1 => (&p + below(&mut m.rng, &p)) % &top,
            _ => below(&mut m.rng, &p),
        };
        let u = uint::<N>(&v);
        let f = match m.rng.below(3) {
            0 => F::<P, N>::new(u),
            1 => F::<P, N>::from_bigint(u),
            _ => F::<P, N>::from(u),
        };
        if v >= p {
            m.count("elements from integers above the modulus");
        }
        let r = &v % &p;
        m.step(format!("[{name}] element from {v:#x}"));
        m.eq("from integer", (val(&f), big(&Uint::<N>::from(f))), (r.clone(), r.clone()));
        regs.push((f, r));
    }
    for _ in 0..14 {
        m.case();
        let (i, j, k) = (m.rng.idx(regs.len()), m.rng.idx(regs.len()), m.rng.idx(regs.len()));
        let ((a, x), (b, y)) = (regs[i].clone(), regs[j].clone());
        m.seen(hash_str(name) ^ hash_str(&x.to_str_radix(36)) ^ hash_str(&y.to_str_radix(36)).rotate_left(9));
        let op = m.rng.below(19);
        m.step(format!("[{name}] op {op} a={x:#x} b={y:#x}"));
        let form = m.rng.below(6);
        let mut bb = b;
        let (r, want, what): (F<P, N>, BigUint, &str) = match op {
            0 | 1 => (
                match form {
                    0 => a + b,
                    1 => a + &b,
                    2 => a + &mut bb,
                    3 => &a + &b,
                    4 => {
                        let mut t = a;
                        t += b;
                        t += &F::<P, N>::ZERO;
                        t
                    }
                    _ => {
                        let mut t = a;
                        t += &mut bb;
                        t
                    }
                },
                (&x + &y) % &p,
                "add",
            ),
            2 | 3 => (
                match form {
                    0 => a - b,
                    1 => a - &b,
                    2 => a - &mut bb,
                    3 => &a - &b,
                    4 => {
                        let mut t = a;
                        t -= b;
                        t -= &F::<P, N>::ZERO;
                        t
                    }
                    _ => {
                        let mut t = a;
                        t -= &mut bb;
                        t
                    }
                },
                (&x + &p - &y) % &p,
                "sub",
            ),
            4 | 5 => (
                match form {
                    0 => a * b,
                    1 => a * &b,
                    2 => a * &mut bb,
                    3 => &a * &b,
                    4 => {
                        let mut t = a;
                        t *= b;
                        t *= &F::<P, N>::ONE;
                        t
                    }
                    _ => {
                        let mut t = a;
                        t *= &mut bb;
                        t
                    }
                },
                &x * &y % &p,
                "mul",
            ),
            6 | 7 => {
                if y.is_zero() {
                    m.count("divisions by zero");
                    m.panics("division by zero", || a / b);
                    m.panics("division by zero", || {
                        let mut t = a;
                        t /= &b;
                    });
                    m.eq("inverse of zero", b.inverse().is_none(), true);
                    let mut t = b;
                    m.eq("inverse_in_place of zero", t.inverse_in_place().is_none(), true);
                    m.eq("inverse_in_place of zero leaves it", val(&t), BigUint::zero());
                    continue;
                }
                let inv = modinv(&y, &p).unwrap();
                match b.inverse() {
                    Some(v) => {
                        m.eq("inverse", val(&v), inv.clone());
                    }
                    None => m.fail("inverse", format!("no inverse of {y:#x}")),
                }
                let mut t = b;
                let r = t.inverse_in_place().map(|v| val(v));
                m.eq("inverse_in_place", (r, val(&t)), (Some(inv.clone()), inv.clone()));
                (
                    match form {
                        0 => a / b,
                        1 => a / &b,
                        2 => a / &mut bb,
                        3 => &a / &b,
                        4 => {
                            let mut t = a;
                            t /= b;
                            t
                        }
                        _ => {
                            let mut t = a;
                            if m.rng.chance(1, 2) {
                                t /= &mut bb;
                            } else {
                                t /= &b;
                            }
                            t
                        }
                    },
                    &x * inv % &p,
                    "div",
                )
            }
            8 => (
                if form < 3 {
                    -a
                } else {
                    let mut t = a;
                    t.neg_in_place();
                    t
                },
                (&p - &x) % &p,
                "neg",
            ),
            9 => (
                if form < 3 {
                    a.double()
                } else {
                    let mut t = a;
                    t.double_in_place();
                    t
                },
                (&x << 1) % &p,
                "double",
            ),
            10 => (
                if form < 3 {
                    a.square()
                } else {
                    let mut t = a;
                    t.square_in_place();
                    t
                },
                &x * &x % &p,
                "square",
            ),
            11 | 12 => {
                let e = limbs::<3>(&mut m.rng);
                let (r, e) = match m.rng.below(10) {
                    8 => (a.pow(e[0] as usize), BigUint::from(e[0] as usize)),
                    9 => {
                        let n = m.rng.idx(4);
                        (a.pow(&e[..n]), from_limbs(&e[..n]))
                    }
                    0 => (a.pow(e[0] as u8), BigUint::from(e[0] as u8)),
                    1 => (a.pow(e[0] as u16), BigUint::from(e[0] as u16)),
                    2 => (a.pow(e[0] as u32), BigUint::from(e[0] as u32)),
                    3 => (a.pow(e[0]), BigUint::from(e[0])),
                    4 => {
                        let v = (e[1] as u128) << 64 | e[0] as u128;
                        (a.pow(v), BigUint::from(v))
                    }
                    5 => (a.pow(&e[..2]), from_limbs(&e[..2])),
                    6 => {
                        // Fermat
                        let q = &p - 1u32;
                        (a.pow(uint::<N>(&q)), q)
                    }
                    _ => (a.pow(Uint::<3>::new(e)), from_limbs(&e)),
                };
                if e.is_zero() {
                    m.count("zero exponents");
                }
                (r, x.modpow(&e, &p), "pow")
            }
            13 => {
                // sums and products of iterators
                let n = if m.rng.chance(1, 8) { m.rng.idx(70) } else { m.rng.idx(6) };
                let v: Vec<_> = (0..n).map(|_| regs[m.rng.idx(regs.len())].clone()).collect();
                let s = v.iter().fold(BigUint::zero(), |s, e| (s + &e.1) % &p);
                let t = v.iter().fold(BigUint::one(), |s, e| s * &e.1 % &p);
                let got: (F<P, N>, F<P, N>, F<P, N>, F<P, N>) = (
                    v.iter().map(|e| e.0).sum(),
                    v.iter().map(|e| &e.0).sum(),
                    v.iter().map(|e| e.0).product(),
                    v.iter().map(|e| &e.0).product(),
                );
                m.eq("Sum", (val(&got.0), val(&got.1)), (s.clone(), s.clone()));
                m.eq("Product", (val(&got.2), val(&got.3)), (t.clone(), t.clone()));
                (got.2, t, "Product")
            }
            14 => {
                let (c, z) = regs[k].clone();
                let r = match form {
                    0 => (F::<P, N>::sum_of_products(&[a], &[b]), &x * &y % &p),
                    1 | 2 => (F::<P, N>::sum_of_products(&[a, c], &[b, a]), (&x * &y + &z * &x) % &p),
                    3 => (F::<P, N>::sum_of_products(&[a, c, b, c], &[b, a, c, c]), (&x * &y + &z * &x + &y * &z + &z * &z) % &p),
                    4 => (F::<P, N>::sum_of_products(&[c, a, b], &[b, b, a]), (&z * &y + &x * &y * 2u32) % &p),
                    _ if m.rng.chance(1, 2) => {
                        let l: [F<P, N>; 9] = std::array::from_fn(|i| [a, b, c][i % 3]);
                        let r: [F<P, N>; 9] = std::array::from_fn(|i| [a, b, c][i / 3]);
                        let t = &x + &y + &z;
                        (F::<P, N>::sum_of_products(&l, &r), &t * &t % &p)
                    }
                    _ => (F::<P, N>::sum_of_products(&[], &[]), BigUint::zero()),
                };
                (r.0, r.1, "sum_of_products")
            }
            15 => {
                // small integers
                let l = crate::refs::limb(&mut m.rng);
                let h = if N == 1 { 0 } else { crate::refs::limb(&mut m.rng) };
                let u = (h as u128) << 64 | l as u128;
                match m.rng.below(11) {
                    0 => (F::<P, N>::from(l as u8), BigUint::from(l as u8) % &p, "from u8"),
                    1 => (F::<P, N>::from(l as u16), BigUint::from(l as u16) % &p, "from u16"),
                    2 => (F::<P, N>::from(l as u32), BigUint::from(l as u32) % &p, "from u32"),
                    3 => (F::<P, N>::from(l), BigUint::from(l) % &p, "from u64"),
                    4 => (F::<P, N>::from(u), BigUint::from(u) % &p, "from u128"),
                    5 => (F::<P, N>::from(l as i8), signed(l as i8 as i128, &p), "from i8"),
                    6 => (F::<P, N>::from(l as i16), signed(l as i16 as i128, &p), "from i16"),
                    7 => (F::<P, N>::from(l as i32), signed(l as i32 as i128, &p), "from i32"),
                    8 => (F::<P, N>::from(l as i64), signed(l as i64 as i128, &p), "from i64"),
                    9 => {
                        let v = if N == 1 { l as i64 as i128 } else { u as i128 };
                        (F::<P, N>::from(v), signed(v, &p), "from i128")
                    }
                    _ => (F::<P, N>::from(l & 1 == 1), BigUint::from(l & 1), "from bool"),
                }
            }
            16 => {
                // order, equality, predicates, text
                m.eq("Ord", (a.cmp(&b), a.partial_cmp(&b), a < b, a >= b), (x.cmp(&y), Some(x.cmp(&y)), x < y, x >= y));
                m.eq("Eq", (a == b, a != b), (x == y, x != y));
                m.eq("is_zero/is_one", (a.is_zero(), a.is_one()), (x.is_zero(), x.is_one()));
                for s in [format!("{a}"), format!("{a:?}")] {
                    m.eq("display", BigUint::parse_bytes(s.as_bytes(), 16), Some(x.clone()));
                }
                let mut t = a;
                openzeppelin_zeroize(&mut t);
                m.eq("zeroize", val(&t), BigUint::zero());
                continue;
            }
            17 => {
                // equal values reached along different paths are equal
                let z = (a + b) - b;
                let z2 = if y.is_zero() { a } else { a * b / b };
                m.check(z == a && z2 == a && hash(&z) == hash(&a) && hash(&z2) == hash(&a), "equal values compare and hash equal", || format!("a={x:#x} b={y:#x}"));
                (z, x.clone(), "add then sub")
            }
            _ => {
                let bits: Vec<bool> = a.into_bigint().bit_be_trimmed_iter().collect();
                m.eq("bits of the integer", bits.len() as u64, x.bits());
                let r = F::<P, N>::from_bigint(a.into_bigint());
                m.check(r == a, "round trip", || format!("{x:#x}"));
                (r, x.clone(), "round trip")
            }
        };
        m.check(val(&r) == want, what, || format!("[{name}] {what}({x:#x}, {y:#x}) form {form}: observed {:#x}, expected {want:#x}", val(&r)));
        m.count(what);
        // Canonical: a result equals the same value built afresh.
        m.check(r == F::<P, N>::from_bigint(uint(&want)) && big(&r.into_bigint()) < p, "canonical result", || format!("[{name}] {what}({x:#x}, {y:#x}) is not in canonical form"));
        let d = m.rng.idx(regs.len());
        regs[d] = (r, want);
        if m.rng.chance(1, 6) {
            let v = below(&mut m.rng, &p);
            let d = m.rng.idx(regs.len());
            regs[d] = (F::<P, N>::from_bigint(uint(&v)), v);
        }
    }
}

fn openzeppelin_zeroize<T: Zeroable>(t: &mut T) {
    t.wipe();
}
pub trait Zeroable {
    fn wipe(&mut self);
}
impl<P: FpParams<N>, const N: usize> Zeroable for Fp<P, N> {
    fn wipe(&mut self) {
        zeroize::Zeroize::zeroize(self);
    }
}

fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Integers out of one-limb fields.
fn ints<P: FpParams<1>>(m: &mut Mon, name: &str) {
    let p = big(&P::MODULUS);
    for _ in 0..8 {
        m.case();
        let v = below(&mut m.rng, &p);
        let x: u64 = to_limbs::<1>(&v)[0];
        let f = Fp::<P, 1>::from_bigint(uint(&v));
        m.step(format!("[{name}] integer from element {x}"));
        m.eq("u128 from element", u128::from(f), x as u128);
        m.eq("i128 from element", i128::from(f), x as i128);
        m.eq("u64 from element", u64::from(f), x);
        macro_rules! conv {
            ($($t:ty),*) => {$(
                match <$t>::try_from(x) {
                    Ok(w) => { m.eq(concat!(stringify!($t), " from element"), <$t>::from(f), w); }
                    Err(_) => m.panics(concat!(stringify!($t), " from an element that does not fit"), || <$t>::from(f)),
                }
            )*};
        }
        conv!(u8, u16, u32, i8, i16, i32, i64);
    }
    let _ = from_str_radix::<1>("1", 10);
}
