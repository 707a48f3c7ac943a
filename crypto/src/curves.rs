//! C06: short Weierstrass groups against the affine chord-and-tangent law.
use num_bigint::BigUint;
use num_traits::{One, Zero};
use openzeppelin_crypto::arithmetic::uint::Uint;
use openzeppelin_crypto::curve::sw::{Affine, Projective, SWCurveConfig};
use openzeppelin_crypto::curve::{batch_inversion, AffineRepr, CurveConfig, CurveGroup, PrimeGroup};
use openzeppelin_crypto::field::fp::{Fp, FpParams};
use openzeppelin_crypto::field::group::AdditiveGroup;
use openzeppelin_crypto::field::prime::PrimeField;
use openzeppelin_crypto::field::Field;

use crate::mon::{hash_str, Mon, Prop};
use crate::refs::*;

pub trait Info {
    const NAME: &'static str;
    const SEED: (&'static str, &'static str);
    const P: &'static str;
    const A: &'static str;
    const B: &'static str;
    const R: &'static str;
}

macro_rules! curve {
    ($c:ident, $q:ident, $nb:expr, $p:literal, $s:ident, $ns:expr, $r:literal, $a:literal, $b:literal, $gx:literal, $gy:literal, $cof:expr, $ci:literal, $sx:literal, $sy:literal) => {
        crate::field!($q, $nb, $p);
        crate::field!($s, $ns, $r);
        #[derive(Clone, Default, PartialEq, Eq)]
        pub struct $c;
        impl CurveConfig for $c {
            type BaseField = Fp<$q, $nb>;
            type ScalarField = Fp<$s, $ns>;
            const COFACTOR: &'static [u64] = &$cof;
            const COFACTOR_INV: Fp<$s, $ns> = openzeppelin_crypto::fp_from_num!($ci);
        }
        impl SWCurveConfig for $c {
            const COEFF_A: Fp<$q, $nb> = openzeppelin_crypto::fp_from_num!($a);
            const COEFF_B: Fp<$q, $nb> = openzeppelin_crypto::fp_from_num!($b);
            const GENERATOR: Affine<$c> = Affine::new_unchecked(openzeppelin_crypto::fp_from_num!($gx), openzeppelin_crypto::fp_from_num!($gy));
        }
        impl Info for $c {
            const NAME: &'static str = stringify!($c);
            const SEED: (&'static str, &'static str) = ($sx, $sy);
            const P: &'static str = $p;
            const A: &'static str = $a;
            const B: &'static str = $b;
            const R: &'static str = $r;
        }
    };
}

curve!(Toy43a, Toy43aQ, 1, "43", Toy43aR, 1, "13", "0", "2", "24", "18", [4], "10", "20", "2");
curve!(Toy31, Toy31Q, 1, "31", Toy31R, 1, "43", "0", "3", "1", "2", [1, 0], "1", "30", "8");
curve!(Toy23, Toy23Q, 1, "23", Toy23R, 1, "23", "20", "1", "0", "1", [1], "1", "20", "11");
curve!(Toy43b, Toy43bQ, 1, "43", Toy43bR, 1, "17", "1", "1", "11", "15", [2], "9", "3", "17");
curve!(Toy43c, Toy43cQ, 1, "43", Toy43cR, 1, "11", "2", "0", "40", "28", [4], "3", "6", "20");
curve!(Toy97, Toy97Q, 1, "97", Toy97R, 1, "13", "1", "2", "92", "58", [8], "5", "46", "44");
curve!(Toy61, Toy61Q, 1, "61", Toy61R, 1, "73", "58", "3", "0", "8", [1], "1", "58", "30");
curve!(Wide64a, Wide64aQ, 1, "18446744073709551557", Wide64aR, 1, "439208192231179799", "0", "3", "9559673482883901395", "3443885538895678203", [42], "135945392833460414", "4439448776366754703", "1205833504612120549");
curve!(Wide64b, Wide64bQ, 1, "18446744073709551557", Wide64bR, 1, "4611686019215613329", "1", "0", "295590538275458989", "9230433409768232689", [4], "3458764514411709997", "10165027665383847897", "7415962715065018731");
curve!(Secp256k1, Secp256k1Q, 4, "115792089237316195423570985008687907853269984665640564039457584007908834671663", Secp256k1R, 4, "115792089237316195423570985008687907852837564279074904382605163141518161494337", "0", "7", "55066263022277343669578718895168534326250603453777594175500187360389116729240", "32670510020758816978083085130507043184471273380659243275938904335757337482424", [1], "1", "5742050124585509989473606131551554389540431042732688023993112172183871780533", "7353563762905340721342295074562158772123166916446848336143624282358854619219");
curve!(P256c, P256cQ, 4, "115792089210356248762697446949407573530086143415290314195533631308867097853951", P256cR, 4, "115792089210356248762697446949407573529996955224135760342422259061068512044369", "115792089210356248762697446949407573530086143415290314195533631308867097853948", "41058363725152142129326129780047268409114441015993725554835256314039467401291", "48439561293906451759052585252797914202762949526041747995844080717082404635286", "36134250956749795798585127919587881956611106672985015071877198253568414405109", [1], "1", "11281689972794981837208090099226293129359221739118675812871758398703672759691", "40522644117038003435080178362968768701028504459168879303485375393389151828436");
curve!(Bls381G1, Bls381G1Q, 6, "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787", Bls381G1R, 4, "52435875175126190479447740508185965837690552500527637822603658699938581184513", "0", "4", "3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507", "1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569", [10088250816726084267, 4137836090706223446], "52435875175126190458656871551744051925719901746859129887267498875565241663483", "3840856489506759715862964615136134829880478225543545087883998900577038219761895895348611876056599884435150265381615", "1782677777536851871752528460789561840549785451599522738173863122758371373143642431186082614052688383132144510962999");

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C06",
        run,
        quick: 24_000,
        thorough: 1_200_000,
        wquick: 3_000,
        wthorough: 100_000,
        rule: "distinct (curve, point pair) observations; points include the identity, inverses, order-2 points and points outside the prime-order subgroup, in random Jacobian representations",
        assumptions: &["num-bigint affine arithmetic is the reference", "curves: seven toy groups, two over a 64-bit prime, secp256k1, P-256, BLS12-381 G1"],
    }]
}

fn run(m: &mut Mon) {
    match m.episode % 24 {
        0 | 12 => ep::<Toy43a, _, _, 1, 1>(m),
        1 | 13 => ep::<Toy31, _, _, 1, 1>(m),
        2 | 14 => ep::<Toy23, _, _, 1, 1>(m),
        3 | 15 => ep::<Toy43b, _, _, 1, 1>(m),
        4 | 16 => ep::<Toy43c, _, _, 1, 1>(m),
        5 | 17 => ep::<Toy97, _, _, 1, 1>(m),
        6 | 18 => ep::<Toy61, _, _, 1, 1>(m),
        7 | 19 => ep::<Wide64a, _, _, 1, 1>(m),
        8 | 20 => ep::<Wide64b, _, _, 1, 1>(m),
        9 => ep::<Secp256k1, _, _, 4, 4>(m),
        10 => ep::<P256c, _, _, 4, 4>(m),
        11 => ep::<Bls381G1, _, _, 6, 4>(m),
        21 => batch::<Secp256k1Q, 4>(m),
        22 => batch::<Toy43aQ, 1>(m),
        _ => batch::<Wide64aQ, 1>(m),
    }
}

// Cofactors that are, or only look like, one.
macro_rules! cofactors {
    ($m:ident: $($n:ident = $l:expr, $w:expr;)*) => {$({
        #[derive(Clone, Default, PartialEq, Eq)]
        struct $n;
        impl CurveConfig for $n {
            type BaseField = Fp<Toy31Q, 1>;
            type ScalarField = Fp<Toy31R, 1>;
            const COFACTOR: &'static [u64] = &$l;
            const COFACTOR_INV: Fp<Toy31R, 1> = openzeppelin_crypto::fp_from_num!("1");
        }
        $m.eq(stringify!(cofactor_is_one $l), $n::cofactor_is_one(), $w);
    })*};
}

fn batch<Q: FpParams<N>, const N: usize>(m: &mut Mon) {
    cofactors!(m: A = [1], true; B = [1, 0, 0, 0, 0, 0], true; C = [1, 1], false; D = [1, 0, 1], false; E = [0, 1], false; F = [0], false;
        G = [2], false; H = [u64::MAX], false; I = [1, 0, 0, 0, 0, 0, 1 << 63], false; J = [0, 0], false; K = [1 << 32], false;);
    let p = big(&Q::MODULUS);
    for _ in 0..6 {
        m.case();
        let n = if m.rng.chance(1, 8) { m.rng.idx(80) } else { m.rng.idx(12) };
        let z = m.rng.below(5);
        let v: Vec<BigUint> = (0..n).map(|_| if m.rng.chance(z, 8) { BigUint::zero() } else { below(&mut m.rng, &p) }).collect();
        let mut f: Vec<Fp<Q, N>> = v.iter().map(|x| Fp::from_bigint(uint(x))).collect();
        m.step(format!("batch_inversion of {n} elements modulo {p}"));
        batch_inversion(&mut f);
        let want: Vec<BigUint> = v.iter().map(|x| modinv(x, &p).unwrap_or_default()).collect();
        let got: Vec<BigUint> = f.iter().map(|x| big(&x.into_bigint())).collect();
        m.seen(hash_str(&format!("{v:?}")));
        m.eq("batch_inversion", got, want);
    }
    m.count("batch inversions");
}

#[derive(Clone, Debug, PartialEq)]
struct Ref {
    p: BigUint,
    a: BigUint,
    b: BigUint,
}
type Pt = Option<(BigUint, BigUint)>;
impl Ref {
    fn on(&self, x: &BigUint, y: &BigUint) -> bool {
        (y * y) % &self.p == (x * x * x + &self.a * x + &self.b) % &self.p
    }
    fn neg(&self, u: &Pt) -> Pt {
        u.as_ref().map(|(x, y)| (x.clone(), (&self.p - y) % &self.p))
    }
    fn add(&self, u: &Pt, v: &Pt) -> Pt {
        let (Some((x1, y1)), Some((x2, y2))) = (u, v) else {
            return if u.is_none() { v.clone() } else { u.clone() };
        };
        let p = &self.p;
        let l = if x1 == x2 {
            if (y1 + y2) % p == BigUint::zero() {
                return None;
            }
            (x1 * x1 * 3u32 + &self.a) * modinv(&(y1 * 2u32), p).unwrap() % p
        } else {
            ((y2 + p - y1) * modinv(&(x2 + p - x1), p).unwrap()) % p
        };
        let x = (&l * &l + p + p - x1 - x2) % p;
        let y = (l * (x1 + p - &x) + p - y1) % p;
        Some((x, y))
    }
    fn mul(&self, k: &BigUint, u: &Pt) -> Pt {
        let mut r = None;
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, u);
            }
        }
        r
    }
}

fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn dec(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 10).unwrap()
}

fn ep<C, Q, S, const NB: usize, const NS: usize>(m: &mut Mon)
where
    Q: FpParams<NB>,
    S: FpParams<NS>,
    C: SWCurveConfig<BaseField = Fp<Q, NB>, ScalarField = Fp<S, NS>> + Info,
{
    let c = Ref { p: dec(C::P), a: dec(C::A), b: dec(C::B) };
    let r = dec(C::R);
    let h = from_limbs(C::COFACTOR);
    let toy = c.p < BigUint::from(2000u32);
    let fp = |v: &BigUint| Fp::<Q, NB>::from_bigint(uint(v));
    let aff = |u: &Pt| -> Affine<C> { u.as_ref().map_or(Affine::identity(), |(x, y)| Affine::new_unchecked(fp(x), fp(y))) };
    let un = |a: &Affine<C>| -> Pt { a.xy().map(|(x, y)| (big(&x.into_bigint()), big(&y.into_bigint()))) };
    m.count(C::NAME);
    let seed: Pt = Some((dec(C::SEED.0), dec(C::SEED.1)));
    let gen: Pt = un(&Affine::<C>::generator());

    // Random point.
    let all: Vec<Pt> = if toy {
        let n: u32 = c.p.iter_u32_digits().next().unwrap();
        let mut v: Vec<Pt> = vec![None];
        for x in 0..n {
            for y in 0..n {
                let (x, y) = (BigUint::from(x), BigUint::from(y));
                if c.on(&x, &y) {
                    v.push(Some((x, y)));
                }
            }
        }
        v
    } else {
        let mut v = vec![None, gen.clone(), seed.clone()];
        let k = BigUint::from(m.rng.below(1 << 20));
        v.push(c.mul(&k, &seed));
        if !h.is_one() {
            // a point of small order, if there is one
            let t = c.mul(&r, &seed);
            v.push(t.clone());
            if (&h % 2u32).is_zero() {
                v.push(c.mul(&(&h / 2u32), &t));
            }
        }
        let k = BigUint::from(m.rng.below(1 << 20));
        v.push(c.mul(&k, &gen));
        v
    };
    // A random Jacobian representation of a point.
    macro_rules! proj {
        ($u:expr) => {{
            let u: &Pt = $u;
            let z = loop {
                let z = below(&mut m.rng, &c.p);
                if !z.is_zero() {
                    break z;
                }
            };
            match (u, m.rng.below(4)) {
                (None, 0) => Projective::<C>::ZERO,
                (None, 1) => Projective::<C>::new_unchecked(fp(&(&z * &z % &c.p)), fp(&(&z * &z * &z % &c.p)), fp(&BigUint::zero())),
                (_, 2) => Projective::<C>::from(aff(u)),
                (None, _) => Projective::<C>::default(),
                (Some((x, y)), _) => {
                    let z2 = &z * &z % &c.p;
                    Projective::<C>::new_unchecked(fp(&(x * &z2 % &c.p)), fp(&(y * &z2 * &z % &c.p)), fp(&z))
                }
            }
        }};
    }
    let mut regs: Vec<(Projective<C>, Pt)> = vec![];
    for _ in 0..5 {
        let u = all[m.rng.idx(all.len())].clone();
        let u = if m.rng.chance(1, 3) { c.neg(&u) } else { u };
        let q = proj!(&u);
        regs.push((q, u));
    }
    let nops = if toy { 16 } else { 10 };
    for _ in 0..nops {
        m.case();
        let (i, j) = (m.rng.idx(regs.len()), m.rng.idx(regs.len()));
        let ((a, u), (mut b, mut v)) = (regs[i].clone(), regs[j].clone());
        match m.rng.below(8) {
            0 => {
                v = c.neg(&u);
                b = proj!(&v);
            }
            1 => {
                v = u.clone();
                b = proj!(&v);
            }
            _ => {}
        }
        let (aa, ab) = (aff(&u), aff(&v));
        let op = m.rng.below(16);
        let form = m.rng.below(20);
        m.seen(hash_str(C::NAME) ^ hash_str(&format!("{u:?}")) ^ hash_str(&format!("{v:?}")).rotate_left(5));
        m.step(format!("[{}] op {op} form {form} u={u:?} v={v:?}", C::NAME));
        if u.is_none() || v.is_none() {
            m.count("operations with the identity");
        } else if u == v {
            m.count("operations with equal points");
        } else if u == c.neg(&v) {
            m.count("operations with inverse points");
        }
        let mut bm = b;
        let (q, want, what): (Projective<C>, Pt, &str) = match op {
            0..=3 => (
                match form {
                    0 => a + b,
                    1 => a + &b,
                    2 => a + ab,
                    3 => aa + ab,
                    4 => aa + b,
                    5 => {
                        let mut t = a;
                        t += &b;
                        t
                    }
                    6 => {
                        let mut t = a;
                        t += ab;
                        t
                    }
                    7 => {
                        let mut t = a;
                        t += &mut bm;
                        t
                    }
                    8 => a + &mut bm,
                    9 => &a + b,
                    10 => &a + &b,
                    11 => &a + &mut bm,
                    12 => aa + &ab,
                    13 => aa + &b,
                    14 => a + &ab,
                    15 => {
                        let mut t = a;
                        t += b;
                        t
                    }
                    16 => {
                        let mut t = a;
                        t += &ab;
                        t
                    }
                    _ => a + b,
                },
                c.add(&u, &v),
                "add",
            ),
            4 | 5 => (
                match form {
                    0 => a - b,
                    1 => a - &b,
                    2 => a - ab,
                    3 => aa - ab,
                    4 => aa - b,
                    5 => {
                        let mut t = a;
                        t -= &b;
                        t
                    }
                    6 => {
                        let mut t = a;
                        t -= ab;
                        t
                    }
                    7 => &a - &b,
                    8 => a - &mut bm,
                    9 => &a - b,
                    10 => &a - &mut bm,
                    11 => aa - &ab,
                    12 => aa - &b,
                    13 => a - &ab,
                    14 => {
                        let mut t = a;
                        t -= b;
                        t
                    }
                    15 => {
                        let mut t = a;
                        t -= &ab;
                        t
                    }
                    16 => {
                        let mut t = a;
                        t -= &mut bm;
                        t
                    }
                    _ => a - b,
                },
                c.add(&u, &c.neg(&v)),
                "sub",
            ),
            6 => (
                if form % 2 == 0 {
                    a.double()
                } else {
                    let mut t = a;
                    t.double_in_place();
                    t
                },
                c.add(&u, &u),
                "double",
            ),
            7 => (
                match form % 8 {
                    0..=2 => -a,
                    3..=5 => {
                        let mut t = a;
                        t.neg_in_place();
                        t
                    }
                    _ => (-aa).into(),
                },
                c.neg(&u),
                "neg",
            ),
            8 | 9 => {
                let k: BigUint = if m.rng.chance(1, if toy { 5 } else { 30 }) {
                    m.count("multiples by up to 512 bits");
                    from_limbs(&limbs::<8>(&mut m.rng))
                } else if toy {
                    from_limbs(&limbs::<2>(&mut m.rng)) % BigUint::from(1u32 << 16)
                } else if m.rng.chance(1, 4) {
                    match m.rng.below(4) {
                        0 => r.clone(),
                        1 => &r - 1u32,
                        _ => below(&mut m.rng, &r),
                    }
                } else {
                    BigUint::from(m.rng.below(1 << 16))
                };
                let t = c.mul(&k, &u);
                let kl: [u64; 8] = to_limbs(&k);
                let q = match form % 12 {
                    0 => a.mul_bigint(Uint::<8>::new(kl)),
                    1 => aa.mul_bigint(&kl[..]),
                    2 if k < r => a * Fp::<S, NS>::from_bigint(uint(&k)),
                    3 if k < r => aa * Fp::<S, NS>::from_bigint(uint(&k)),
                    4 if k < r => {
                        let mut t = a;
                        t *= &Fp::<S, NS>::from_bigint(uint(&k));
                        t
                    }
                    5 => a.mul_bits_be((0..k.bits() + 3).rev().map(|i| k.bit(i))),
                    6 if k < BigUint::from(1u32 << 16) => a.mul_bigint(kl[0] as u16),
                    7 if k < r => a * &Fp::<S, NS>::from_bigint(uint(&k)),
                    8 if k < r => aa * &Fp::<S, NS>::from_bigint(uint(&k)),
                    9 if k < r => {
                        let mut t = a;
                        t *= Fp::<S, NS>::from_bigint(uint(&k));
                        t
                    }
                    10 => a.mul_bigint(&kl[..]),
                    _ => aa.mul_bigint(Uint::<8>::new(kl)),
                };
                if k.is_zero() {
                    m.count("multiples by zero");
                }
                (q, t, "scalar multiple")
            }
            10 => {
                let n = if m.rng.chance(1, 6) { m.rng.idx(30) } else { m.rng.idx(5) };
                let w: Vec<_> = (0..n).map(|_| regs[m.rng.idx(regs.len())].clone()).collect();
                let t = w.iter().fold(None, |s, e| c.add(&s, &e.1));
                let q: Projective<C> = match form % 4 {
                    0 => w.iter().map(|e| e.0).sum(),
                    1 => w.iter().map(|e| &e.0).sum(),
                    2 => w.iter().map(|e| aff(&e.1)).sum(),
                    _ => {
                        let v: Vec<Affine<C>> = w.iter().map(|e| aff(&e.1)).collect();
                        v.iter().sum()
                    }
                };
                (q, t, "Sum")
            }
            11 => {
                // equality and hashing across representations
                let same = u == v;
                m.eq("Projective ==", (a == b, a != b, b == a), (same, !same, same));
                m.eq("Projective == Affine", (a == ab, aa == b, ab == a), (same, same, same));
                m.eq("Affine ==", aa == ab, same);
                let a2 = proj!(&u);
                m.check(a2 == a && hash(&a2) == hash(&a) && hash(&a.into_affine()) == hash(&aa), "equal points compare and hash equal", || format!("[{}] {u:?}", C::NAME));
                m.eq("is_zero", (a.is_zero(), AffineRepr::is_zero(&aa)), (u.is_none(), u.is_none()));
                m.eq("text", (format!("{a}"), format!("{aa}")), (format!("{aa}"), format!("{a}")));
                m.eq("x, y", (aa.x().is_some(), aa.y().is_some()), (u.is_some(), u.is_some()));
                continue;
            }
            12 => {
                // batch normalisation
                let n = if m.rng.chance(1, 6) { m.rng.idx(40) } else { m.rng.idx(7) };
                let w: Vec<_> = (0..n).map(|_| regs[m.rng.idx(regs.len())].clone()).collect();
                let pr: Vec<Projective<C>> = w.iter().map(|e| e.0).collect();
                let got: Vec<Pt> = Projective::normalize_batch(&pr).iter().map(|x| un(x)).collect();
                let want: Vec<Pt> = w.into_iter().map(|e| e.1).collect();
                m.eq("normalize_batch", got, want);
                continue;
            }
            13 => {
                // curve membership of arbitrary coordinates
                let (x, y) = match (&u, form % 8) {
                    (Some((x, y)), 0..=2) => (x.clone(), y.clone()),
                    (Some((x, y)), 3) => (x.clone(), (y + 1u32) % &c.p),
                    (Some((x, y)), 4) => ((x + 1u32) % &c.p, y.clone()),
                    (Some((x, y)), 5) => (y.clone(), x.clone()),
                    _ => (below(&mut m.rng, &c.p), below(&mut m.rng, &c.p)),
                };
                let on = c.on(&x, &y);
                let t = Affine::<C>::new_unchecked(fp(&x), fp(&y));
                m.eq("is_on_curve", t.is_on_curve(), on);
                m.eq("identity is on the curve", Affine::<C>::identity().is_on_curve(), true);
                m.count(if on { "points on the curve" } else { "points off the curve" });
                if !on {
                    m.panics("Affine::new off the curve", || Affine::<C>::new(fp(&x), fp(&y)));
                    let z = fp(&((&x + 1u32) % &c.p));
                    if !z.is_zero() {
                        m.panics("Projective::new off the curve", || Projective::<C>::new(fp(&x) * z.square(), fp(&y) * z.square() * z, z));
                    }
                }
                continue;
            }
            14 => {
                // subgroup membership, cofactor
                if !toy && m.rng.chance(1, 2) {
                    continue;
                }
                let ins = c.mul(&r, &u).is_none();
                m.eq("subgroup membership", aa.is_in_correct_subgroup_assuming_on_curve(), ins);
                m.eq("cofactor_is_one", C::cofactor_is_one(), h.is_one());
                let t = c.mul(&h, &u);
                m.eq("mul_by_cofactor", un(&aa.mul_by_cofactor()), t.clone());
                m.eq("clear_cofactor", un(&aa.clear_cofactor()), t.clone());
                m.eq("mul_by_cofactor_to_group", un(&aa.mul_by_cofactor_to_group().into_affine()), t);
                if ins {
                    m.count("points in the subgroup");
                    m.eq("cofactor inverse undoes the cofactor", un(&aa.mul_by_cofactor().mul_by_cofactor_inv()), u.clone());
                    if let Some((x, y)) = &u {
                        m.eq("Affine::new", un(&Affine::<C>::new(fp(x), fp(y))), u.clone());
                        m.eq("Projective::new", un(&Projective::<C>::new(a.x, a.y, a.z).into_affine()), u.clone());
                    }
                } else {
                    m.count("points outside the subgroup");
                    m.panics("Affine::new outside the subgroup", || Affine::<C>::new(aa.x, aa.y));
                    m.panics("Projective::new outside the subgroup", || Projective::<C>::new(a.x, a.y, a.z));
                }
                continue;
            }
            _ => {
                m.eq("constants", (un(&Affine::<C>::zero()), un(&Affine::<C>::default()), un(&Projective::<C>::ZERO.into_affine()), un(&Projective::<C>::zero().into())), (None, None, None, None));
                m.eq("generator", un(&Projective::<C>::generator().into_affine()), gen.clone());
                (aa.into_group(), u.clone(), "into_group")
            }
        };
        let got = un(&q.into_affine());
        m.check(got == want, what, || format!("[{}] {what} form {form} of {u:?} and {v:?}: observed {got:?}, expected {want:?}", C::NAME));
        m.check(q == aff(&want), "result equals the expected point", || format!("[{}] {what} of {u:?} and {v:?}", C::NAME));
        m.count(what);
        let d = m.rng.idx(regs.len());
        regs[d] = (q, want);
    }
}
