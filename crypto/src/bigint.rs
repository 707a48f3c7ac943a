//! C04: fixed-width integers against num-bigint.
use num_bigint::BigUint;
use num_traits::{One, Zero};
use openzeppelin_crypto::arithmetic::limb;
use openzeppelin_crypto::arithmetic::uint::{from_str_hex, from_str_radix, Uint, WideUint};
use openzeppelin_crypto::arithmetic::BigInteger;
use openzeppelin_crypto::bits::BitIteratorBE;

use crate::mon::{hash_words, Mon, Prop};
use crate::refs::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C04",
        run,
        quick: 60_000,
        thorough: 3_000_000,
        wquick: 12_000,
        wthorough: 400_000,
        rule: "distinct operand pairs (width, limbs); operands are boundary-directed (all-zero and all-one limbs, single bits, neighbours, complements) or random",
        assumptions: &["num-bigint is the reference", "widths 64 to 832 bits"],
    }]
}

fn run(m: &mut Mon) {
    match m.episode % 16 {
        1 => ops::<1>(m),
        2 => ops::<2>(m),
        3 => ops::<3>(m),
        4 | 14 => ops::<4>(m),
        5 => ops::<5>(m),
        6 => ops::<6>(m),
        7 => ops::<7>(m),
        8 => ops::<8>(m),
        9 => ops::<9>(m),
        10 => ops::<10>(m),
        11 => ops::<11>(m),
        12 => ops::<12>(m),
        13 => ops::<13>(m),
        _ => limbs_ops(m),
    }
}

fn limbs_ops(m: &mut Mon) {
    for _ in 0..40 {
        m.case();
        let (a, b, c, d) = (crate::refs::limb(&mut m.rng), crate::refs::limb(&mut m.rng), crate::refs::limb(&mut m.rng), crate::refs::limb(&mut m.rng));
        let bit = m.rng.chance(1, 2);
        m.seen(hash_words(&[a, b, c, d]));
        m.step(format!("limbs {a:#x} {b:#x} {c:#x} {d:#x} {bit}"));
        let split = |v: &BigUint| {
            let l: [u64; 2] = to_limbs(v);
            (l[0], l[1])
        };
        let (ba, bb, bc, bd) = (BigUint::from(a), BigUint::from(b), BigUint::from(c), BigUint::from(d));
        m.eq("limb::widening_mul", BigUint::from(limb::widening_mul(a, b)), &ba * &bb);
        m.eq("limb::mac", limb::mac(a, b, c), split(&(&ba + &bb * &bc)));
        m.eq("limb::carrying_mac", limb::carrying_mac(a, b, c, d), split(&(&ba + &bb * &bc + &bd)));
        m.eq("limb::adc", limb::adc(a, b, d), split(&(&ba + &bb + &bd)));
        let mut x = a;
        let carry = limb::adc_assign(&mut x, b, bit);
        m.eq("limb::adc_assign", (x, carry as u64), split(&(&ba + &bb + bit as u32)));
        let want = {
            let t = pow2(64) + &ba - &bb - bit as u32;
            let (lo, hi) = split(&t);
            (lo, 1 - hi)
        };
        m.eq("limb::sbb", limb::sbb(a, b, bit as u64), want);
        let mut x = a;
        let borrow = limb::sbb_assign(&mut x, b, bit);
        m.eq("limb::sbb_assign", (x, borrow as u64), want);
        // Bit iterators of primitive integers.
        macro_rules! bits {
            ($t:ty) => {{
                let v = a as $t;
                let got: Vec<bool> = v.bit_be_iter().collect();
                let want: Vec<bool> = (0..<$t>::BITS).rev().map(|i| v >> i & 1 == 1).collect();
                m.eq("bit_be_iter", got, want.clone());
                let got: Vec<bool> = v.bit_be_trimmed_iter().collect();
                m.eq("bit_be_trimmed_iter", got, want.into_iter().skip_while(|b| !b).collect());
            }};
        }
        bits!(u8);
        bits!(u16);
        bits!(u32);
        bits!(u64);
        bits!(usize);
        let v = (a as u128) << 64 | b as u128;
        let got: Vec<bool> = v.bit_be_iter().collect();
        m.eq("bit_be_iter u128", got, (0..128).rev().map(|i| v >> i & 1 == 1).collect());
        let arr = [a, b, c];
        let s: &[u64] = &arr;
        let got: Vec<bool> = s.bit_be_trimmed_iter().collect();
        let v = from_limbs(s);
        m.eq("bit_be_trimmed_iter slice", got, (0..v.bits()).rev().map(|i| v.bit(i)).collect());
    }
    m.count("limb batches");
}

fn ops<const N: usize>(m: &mut Mon) {
    let w = 64 * N;
    let top = pow2(w);
    for _ in 0..12 {
        m.case();
        let la = limbs::<N>(&mut m.rng);
        let lb = if m.rng.chance(1, 2) { related(&mut m.rng, &la) } else { limbs::<N>(&mut m.rng) };
        let (a, b) = (Uint::<N>::new(la), Uint::<N>::new(lb));
        let (x, y) = (from_limbs(&la), from_limbs(&lb));
        m.seen(hash_words(&la) ^ hash_words(&lb).rotate_left(7));
        m.step(format!("Uint<{N}> a={x:#x} b={y:#x}"));
        let sg = |s: &str| format!("Uint::{s}");

        // construction and views
        m.eq(&sg("as_limbs"), *a.as_limbs(), la);
        m.eq(&sg("into_limbs"), a.into_limbs(), la);
        m.eq(&sg("as_ref"), a.as_ref().to_vec(), la.to_vec());
        let mut t = a;
        t.as_mut()[N - 1] = lb[N - 1];
        let mut want = la;
        want[N - 1] = lb[N - 1];
        m.eq(&sg("as_mut"), *t.as_limbs(), want);

        // predicates and order
        m.eq(&sg("is_odd"), (a.is_odd(), a.ct_is_odd(), a.is_even(), a.ct_is_even()), (x.bit(0), x.bit(0), !x.bit(0), !x.bit(0)));
        m.eq(&sg("is_zero"), (a.is_zero(), a.ct_is_zero()), (x.is_zero(), x.is_zero()));
        m.eq(&sg("compare"), (a.ct_ge(&b), a.ct_gt(&b), a.ct_le(&b), a.ct_lt(&b)), (x >= y, x > y, x <= y, x < y));
        m.eq(&sg("ct_eq"), (a.ct_eq(&b), a.ct_ne(&b), a == b, a != b), (x == y, x != y, x == y, x != y));
        m.eq(&sg("cmp"), (a.cmp(&b), a.partial_cmp(&b)), (x.cmp(&y), Some(x.cmp(&y))));
        m.eq(&sg("max/min"), (big(&a.max(b)), big(&a.min(b))), (x.clone().max(y.clone()), x.clone().min(y.clone())));
        m.eq(&sg("num_bits"), (a.num_bits(), a.ct_num_bits()), (x.bits() as usize, x.bits() as usize));
        for _ in 0..4 {
            let i = match m.rng.below(6) {
                0 => m.rng.idx(w + 130),
                1 => 64 * m.rng.idx(N + 1),
                2 => w,
                3 => usize::MAX,
                _ => m.rng.idx(w),
            };
            m.eq(&sg("get_bit"), (a.get_bit(i), a.ct_get_bit(i)), (x.bit(i as u64), x.bit(i as u64)));
        }
        let bits: Vec<bool> = a.bit_be_iter().collect();
        m.eq(&sg("bit_be_iter"), bits, (0..w as u64).rev().map(|i| x.bit(i)).collect());
        let bits: Vec<bool> = a.bit_be_trimmed_iter().collect();
        m.eq(&sg("bit_be_trimmed_iter"), bits, (0..x.bits()).rev().map(|i| x.bit(i)).collect());

        // addition, subtraction
        let sum = &x + &y;
        let carry = sum >= top;
        let wsum = &sum % &top;
        let (r, c) = a.ct_checked_add(&b);
        m.eq(&sg("ct_checked_add"), (big(&r), c), (wsum.clone(), carry));
        let mut t = a;
        let c = t.checked_add_assign(&b);
        m.eq(&sg("checked_add_assign"), (big(&t), c), (wsum.clone(), carry));
        m.eq(&sg("ct_wrapping_add"), big(&a.ct_wrapping_add(&b)), wsum.clone());
        let ci = crate::refs::limb(&mut m.rng);
        let (r, c) = a.ct_adc(&b, ci);
        let full = &sum + ci;
        m.eq(&sg("ct_adc"), (big(&r), BigUint::from(c)), (&full % &top, &full >> w));
        if carry {
            m.count("additions with carry out");
            m.panics(&sg("ct_add on overflow"), || a.ct_add(&b));
        } else {
            m.eq(&sg("ct_add"), big(&a.ct_add(&b)), wsum);
        }
        let borrow = x < y;
        let wdiff = (&x + &top - &y) % &top;
        let (r, c) = a.ct_checked_sub(&b);
        m.eq(&sg("ct_checked_sub"), (big(&r), c), (wdiff.clone(), borrow));
        let mut t = a;
        let c = t.checked_sub_assign(&b);
        m.eq(&sg("checked_sub_assign"), (big(&t), c), (wdiff.clone(), borrow));
        m.eq(&sg("ct_wrapping_sub"), big(&a.ct_wrapping_sub(&b)), wdiff);

        // doubling, halving
        let mut t = a;
        let c = t.checked_mul2_assign();
        m.eq(&sg("checked_mul2_assign"), (big(&t), c), ((&x << 1) % &top, x.bit(w as u64 - 1)));
        let mut t = a;
        t.div2_assign();
        m.eq(&sg("div2_assign"), big(&t), &x >> 1);

        // multiplication
        let prod = &x * &y;
        let (lo, hi) = a.ct_widening_mul(&b);
        m.eq(&sg("ct_widening_mul"), (big(&lo), big(&hi)), (&prod % &top, &prod >> w));
        if prod >= top {
            m.count("products wider than the type");
            m.panics(&sg("ct_mul on overflow"), || a.ct_mul(&b));
        } else {
            m.count("products that fit");
            m.eq(&sg("ct_mul"), big(&a.ct_mul(&b)), prod.clone());
        }
        // a factor small enough that the product fits
        let k = m.rng.below(1 << 20);
        if &x * k < top {
            m.eq(&sg("ct_mul"), big(&a.ct_mul(&Uint::from_u64(k))), &x * k);
        }

        // wide remainder
        let lc = if m.rng.chance(1, 4) { [0; N] } else { limbs::<N>(&mut m.rng) };
        let hi = Uint::<N>::new(lc);
        let wide = WideUint::new(a, hi);
        let wv = (from_limbs(&lc) << w) + &x;
        m.eq("WideUint::ct_num_bits", wide.ct_num_bits(), wv.bits() as usize);
        let i = m.rng.idx(2 * w + 70);
        m.eq("WideUint::ct_get_bit", wide.ct_get_bit(i), wv.bit(i as u64));
        if y.is_zero() {
            m.panics("WideUint::ct_rem by zero", || wide.ct_rem(&b));
        } else {
            if wv.is_zero() {
                m.count("zero dividends");
            }
            m.eq("WideUint::ct_rem", big(&wide.ct_rem(&b)), &wv % &y);
            m.count("wide remainders");
        }

        // bit operations
        m.eq(&sg("xor"), (big(&(a ^ b)), big(&(a ^ &b))), (&x ^ &y, &x ^ &y));
        m.eq(&sg("and"), (big(&(a & b)), big(&(a & &b))), (&x & &y, &x & &y));
        m.eq(&sg("or"), (big(&(a | b)), big(&(a | &b))), (&x | &y, &x | &y));
        let (mut p, mut q, mut r) = (a, a, a);
        p ^= b;
        q &= &b;
        r |= b;
        m.eq(&sg("bit assign"), (big(&p), big(&q), big(&r)), (&x ^ &y, &x & &y, &x | &y));
        m.eq(&sg("not"), big(&!a), &top - 1u32 - &x);

        // conversions
        let mut le = x.to_bytes_le();
        le.resize(8 * N, 0);
        m.eq(&sg("into_bytes_le"), a.into_bytes_le(), le.clone());
        m.eq(&sg("from_bytes_le"), big(&Uint::<N>::from_bytes_le(&le)), x.clone());
        m.eq(&sg("ct_from_le_slice"), big(&Uint::<N>::ct_from_le_slice(&le)), x.clone());
        if m.rng.chance(1, 8) {
            let cut = m.rng.idx(8 * N);
            m.panics(&sg("from_bytes_le with a wrong length"), || Uint::<N>::from_bytes_le(&le[..cut]));
        }
        let v = la[0];
        m.eq(&sg("from u64"), (big(&Uint::<N>::from(v)), big(&Uint::<N>::from_u64(v))), (BigUint::from(v), BigUint::from(v)));
        m.eq(&sg("from u32"), (big(&Uint::<N>::from(v as u32)), big(&Uint::<N>::from_u32(v as u32))), (BigUint::from(v as u32), BigUint::from(v as u32)));
        m.eq(&sg("from u16"), (big(&Uint::<N>::from(v as u16)), big(&Uint::<N>::from_u16(v as u16))), (BigUint::from(v as u16), BigUint::from(v as u16)));
        m.eq(&sg("from u8"), (big(&Uint::<N>::from(v as u8)), big(&Uint::<N>::from_u8(v as u8))), (BigUint::from(v as u8), BigUint::from(v as u8)));
        m.eq(&sg("from usize"), (big(&Uint::<N>::from(v as usize)), big(&Uint::<N>::from_usize(v as usize))), (BigUint::from(v as usize), BigUint::from(v as usize)));
        let v = (lb[0] as u128) << 64 | la[0] as u128;
        if N >= 2 || lb[0] == 0 {
            m.eq(&sg("from u128"), (big(&Uint::<N>::from(v)), big(&Uint::<N>::from_u128(v))), (BigUint::from(v), BigUint::from(v)));
        } else {
            m.panics(&sg("from u128 that does not fit"), || Uint::<N>::from(v));
        }
        m.eq(&sg("constants"), (big(&Uint::<N>::ZERO), big(&Uint::<N>::ONE), big(&Uint::<N>::MAX), big(&Uint::<N>::default())), (BigUint::zero(), BigUint::one(), &top - 1u32, BigUint::zero()));
        m.eq(&sg("BITS"), (Uint::<N>::BITS, Uint::<N>::NUM_LIMBS, Uint::<N>::LIMB_BITS), (w, N, 64));

        // text
        for s in [format!("{a}"), format!("{a:X}"), format!("{a:?}")] {
            m.eq(&sg("display"), BigUint::parse_bytes(s.as_bytes(), 16), Some(x.clone()));
            m.eq(&sg("display read back"), big(&from_str_hex::<N>(&s)), x.clone());
        }
        let radix = match m.rng.below(4) {
            0 => 10,
            1 => 16,
            _ => 2 + m.rng.below(35) as u32,
        };
        let mut s = x.to_str_radix(radix);
        if m.rng.chance(1, 2) {
            s = s.chars().map(|c| if m.rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
        }
        m.eq(&sg("from_str_radix"), big(&from_str_radix::<N>(&s, radix)), x.clone());
        let mut h = x.to_str_radix(16);
        while h.len() < 16 * N && m.rng.chance(2, 3) {
            h.insert(0, '0');
        }
        if m.rng.chance(1, 2) {
            h = h.to_uppercase();
        }
        m.eq(&sg("from_str_hex"), big(&from_str_hex::<N>(&h)), x.clone());
        if m.rng.chance(1, 6) {
            let pos = m.rng.idx(h.len());
            let mut bad = h.clone();
            bad.replace_range(pos..pos + 1, *m.rng.pick(&["g", "/", ":", "@", "`", "G", " ", "-", "+", "_"]));
            m.panics(&sg("from_str_hex of a non-hex text"), || from_str_hex::<N>(&bad));
            m.panics(&sg("from_str_radix of a non-hex text"), || from_str_radix::<N>(&bad, 16));
            m.panics(&sg("from_str_hex of an empty text"), || from_str_hex::<N>(""));
            m.panics(&sg("from_str_radix of an empty text"), || from_str_radix::<N>("", 10));
            let over = (&top + &x).to_str_radix(radix);
            m.panics(&sg("from_str_radix of a number too large"), || from_str_radix::<N>(&over, radix));
            let over = format!("{:x}", &top + &x);
            m.panics(&sg("from_str_hex of a number too large"), || from_str_hex::<N>(&over));
            m.count("rejected texts");
        }
    }
    m.count(&format!("batches of width {w}"));
}
