//! P23 checkpoints, P24 bitmap, P25 integer math.
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

use alloy_primitives::{Uint, U256, U32};
use alloy_sol_types::sol;
use openzeppelin_stylus::utils::math::alloy::{Math, Rounding};
use openzeppelin_stylus::utils::structs::{
    bitmap::BitMap,
    checkpoints::{Trace, S160, S208, S224},
};
use vcore::mon::{hash_str, Mon};
use vcore::util::*;
use vcore::vm;

sol! {
    error CheckpointUnorderedInsertion();
}

#[derive(Clone, Debug, PartialEq)]
enum Q {
    Lower(U256),
    Upper(U256),
    Recent(U256),
    At(u32),
    Latest,
    LatestCk,
    Len,
}
#[derive(Clone, Debug, PartialEq)]
enum A {
    V(U256),
    Kv(U256, U256),
    None,
}

fn reference(ck: &[(U256, U256)], q: &Q) -> Option<A> {
    // Linear scans: no search to get wrong.
    Some(match q {
        Q::Lower(k) => A::V(ck.iter().find(|c| c.0 >= *k).map(|c| c.1).unwrap_or_default()),
        Q::Upper(k) | Q::Recent(k) => {
            A::V(ck.iter().rev().find(|c| c.0 <= *k).map(|c| c.1).unwrap_or_default())
        }
        Q::At(i) => {
            let c = ck.get(*i as usize)?;
            A::Kv(c.0, c.1)
        }
        Q::Latest => A::V(ck.last().map(|c| c.1).unwrap_or_default()),
        Q::LatestCk => ck.last().map(|c| A::Kv(c.0, c.1)).unwrap_or(A::None),
        Q::Len => A::V(u(ck.len() as u64)),
    })
}

macro_rules! trace_driver {
    ($name:ident, $s:ty, $kb:expr, $vb:expr) => {
        fn $name(m: &mut Mon) {
            type K = Uint<$kb, { usize::div_ceil($kb, 64) }>;
            type V = Uint<$vb, { usize::div_ceil($vb, 64) }>;
            let t = a(9600);
            let maxk = (ONE << $kb) - ONE;
            let maxv = (ONE << $vb) - ONE;
            let mut ck: Vec<(U256, U256)> = vec![];
            // Now and then a long history, questioned less often.
            let long = m.rng.chance(1, 50);
            let n = match m.rng.below(8) {
                _ if long && m.thorough => 500 + m.rng.idx(3500),
                _ if long => 400 + m.rng.idx(900),
                0 => 1 + m.rng.idx(4),
                1 | 2 => 150 + m.rng.idx(if m.thorough { 600 } else { 120 }),
                _ => 3 + m.rng.idx(60),
            };
            let style = m.rng.below(4);
            for step in 0..n {
                let last = ck.last().map(|c| c.0).unwrap_or_default();
                let key = match m.rng.below(12) {
                    0 => last,
                    1 => last.saturating_sub(u(1 + m.rng.below(5))),
                    2 if m.rng.chance(1, 40) => maxk,
                    3 if step == 0 => U256::ZERO,
                    _ => match style {
                        0 => last + ONE,
                        1 => last + u(1 + m.rng.below(9)),
                        2 => last + (m.rng.u256() >> (256 - $kb + 9)),
                        _ => last + u(2),
                    },
                }
                .min(maxk);
                let value = match m.rng.below(5) {
                    0 => U256::ZERO,
                    1 => maxv,
                    _ => m.rng.u256() & maxv,
                };
                let (k, v): (K, V) = (K::from(key), V::from(value));
                let r = vm::run_as::<Trace<$s>, _>(t, a(1), move |c| {
                    c.push(k, v).map_err(|e| Vec::<u8>::from(e))
                });
                m.step(format!("push({key}, {value}) -> {r:?}"));
                let want: Result<(U256, U256), Vec<u8>> = match ck.last().copied() {
                    Some((lk, _)) if lk > key => Err(err(CheckpointUnorderedInsertion {})),
                    Some((lk, lv)) => {
                        if lk == key {
                            ck.last_mut().unwrap().1 = value;
                            m.count("push:overwrite");
                        } else {
                            ck.push((key, value));
                            m.count("push:append");
                        }
                        Ok((lv, value))
                    }
                    None => {
                        ck.push((key, value));
                        m.count("push:append");
                        Ok((U256::ZERO, value))
                    }
                };
                if want.is_err() {
                    m.count("push:unordered");
                }
                let got = match r {
                    Ok(x) => x.map(|(x, y)| (U256::from(x), U256::from(y))),
                    Err(o) => {
                        m.fail("push/trapped", format!("push({key}) {}", show(&o)));
                        return;
                    }
                };
                if !m.eq("push", got, want) {
                    return;
                }
                // Questions about the present trace.
                let heavy = step + 1 == n || m.rng.chance(1, if long { 40 } else { 6 });
                if long && !heavy {
                    continue;
                }
                let mut qs: Vec<Q> = vec![Q::Latest, Q::LatestCk, Q::Len];
                for _ in 0..if long { 60 } else if heavy { 24 } else { 3 } {
                    let base = m.rng.pick(&ck).0;
                    let k = match m.rng.below(8) {
                        0 => U256::ZERO,
                        1 => maxk,
                        2 => base.saturating_sub(ONE),
                        3 => (base + ONE).min(maxk),
                        4 => m.rng.u256() & maxk,
                        _ => base,
                    };
                    qs.push(match m.rng.below(4) {
                        0 => Q::Lower(k),
                        1 => Q::Upper(k),
                        2 => Q::Recent(k),
                        _ => Q::At(m.rng.below(ck.len() as u64) as u32),
                    });
                    if heavy {
                        qs.push(Q::Recent(k));
                    }
                }
                let q2 = qs.clone();
                let r = vm::run_as::<Trace<$s>, _>(t, a(1), move |c| {
                    q2.iter()
                        .map(|q| match q {
                            Q::Lower(k) => A::V(U256::from(c.lower_lookup(K::from(*k)))),
                            Q::Upper(k) => A::V(U256::from(c.upper_lookup(K::from(*k)))),
                            Q::Recent(k) => A::V(U256::from(c.upper_lookup_recent(K::from(*k)))),
                            Q::At(i) => {
                                let (k, v) = c.at(U32::from(*i));
                                A::Kv(U256::from(k), U256::from(v))
                            }
                            Q::Latest => A::V(U256::from(c.latest())),
                            Q::LatestCk => match c.latest_checkpoint() {
                                Some((k, v)) => A::Kv(U256::from(k), U256::from(v)),
                                None => A::None,
                            },
                            Q::Len => A::V(c.length()),
                        })
                        .collect::<Vec<A>>()
                });
                let got = match r {
                    Ok(x) => x,
                    Err(o) => {
                        m.fail("lookup/trapped", format!("{qs:?}: {}", show(&o)));
                        return;
                    }
                };
                for (q, g) in qs.iter().zip(got) {
                    let w = reference(&ck, q).unwrap();
                    let sig = match q {
                        Q::Lower(_) => "lower_lookup",
                        Q::Upper(_) => "upper_lookup",
                        Q::Recent(_) => "upper_lookup_recent",
                        Q::At(_) => "at",
                        Q::Latest => "latest",
                        Q::LatestCk => "latest_checkpoint",
                        Q::Len => "length",
                    };
                    m.count(sig);
                    m.check(g == w, sig, || {
                        format!("{q:?} answered {g:?}, expected {w:?}; {} checkpoints", ck.len())
                    });
                }
                m.seen(hash_str(&format!("{}{:?}", ck.len(), ck.last())));
                if m.failed() {
                    return;
                }
            }
            // Out of range.
            let i = ck.len() as u32 + m.rng.below(3) as u32;
            let r = vm::run_as::<Trace<$s>, _>(t, a(1), move |c| {
                let (k, v) = c.at(U32::from(i));
                (U256::from(k), U256::from(v))
            });
            m.check(r.is_err(), "at/out-of-range", || format!("at({i}) of {} gave {r:?}", ck.len()));
        }
    };
}
trace_driver!(t160, S160, 96, 160);
trace_driver!(t208, S208, 48, 208);
trace_driver!(t224, S224, 32, 224);

pub fn p23(m: &mut Mon) {
    // An empty trace answers zero everywhere.
    if m.episode % 64 == 0 {
        let t = a(9601);
        let k = m.rng.next() as u32;
        let r = vm::run_as::<Trace<S224>, _>(t, a(1), move |c| {
            let k = U32::from(k);
            c.lower_lookup(k).is_zero()
                && c.upper_lookup(k).is_zero()
                && c.upper_lookup_recent(k).is_zero()
                && c.latest().is_zero()
                && c.latest_checkpoint().is_none()
                && c.length().is_zero()
        });
        m.check(matches!(r, Ok(true)), "empty-trace", || format!("{r:?}"));
    }
    match m.rng.below(3) {
        0 => t160(m),
        1 => t208(m),
        _ => t224(m),
    }
}

pub fn p24(m: &mut Mon) {
    let t = a(9700);
    let mut set: BTreeSet<U256> = Default::default();
    let centre = match m.rng.below(4) {
        0 => U256::ZERO,
        1 => U256::MAX,
        2 => u(m.rng.below(1000)),
        _ => m.rng.u256(),
    };
    let mut pool: Vec<U256> = vec![centre];
    for i in 0..12 {
        let d = match i % 6 {
            0 => u(m.rng.below(256)),
            1 => u(256),
            2 => u(255),
            3 => ONE,
            4 => u(m.rng.below(4096)),
            _ => ONE << m.rng.idx(256),
        };
        pool.push(if m.rng.chance(1, 2) { centre.wrapping_add(d) } else { centre ^ d });
    }
    for _ in 0..20 + m.rng.idx(60) {
        let i = *m.rng.pick(&pool);
        let (op, val) = match m.rng.below(4) {
            0 => ("set", true),
            1 => ("unset", false),
            2 => ("set_to", true),
            _ => ("set_to", false),
        };
        let o2 = op;
        let r = vm::run_as::<BitMap, _>(t, a(1), move |b| match o2 {
            "set" => b.set(i),
            "unset" => b.unset(i),
            _ => b.set_to(i, val),
        });
        m.step(format!("{op}({i}, {val}) -> {r:?}"));
        m.count(&format!("{op}({val})"));
        m.check(r.is_ok(), "write-failed", || format!("{op}({i})"));
        if val {
            set.insert(i);
        } else {
            set.remove(&i);
        }
        // Members, their neighbours in the word and in other buckets.
        let mut probe = pool.clone();
        probe.push(i.wrapping_add(ONE));
        probe.push(i.wrapping_sub(ONE));
        probe.push(i.wrapping_add(u(256)));
        probe.push(i.wrapping_sub(u(256)));
        probe.push(i ^ (ONE << m.rng.idx(256)));
        probe.push(i >> 8);
        probe.push(i << 8);
        let p2 = probe.clone();
        let r = vm::run_as::<BitMap, _>(t, a(1), move |b| {
            p2.iter().map(|i| b.get(*i)).collect::<Vec<bool>>()
        });
        let Ok(got) = r else {
            m.fail("get-failed", format!("{r:?}"));
            return;
        };
        for (i, g) in probe.iter().zip(got) {
            m.eq("get", (i, g), (i, set.contains(i)));
        }
        m.seen(hash_str(&format!("{set:?}")));
        if m.failed() {
            return;
        }
    }
}

fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    vm::IN_CONTRACT.with(|c| *c.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
    vm::IN_CONTRACT.with(|c| *c.borrow_mut() -= 1);
    r
}

pub fn p25(m: &mut Mon) {
    // Small values exhaustively, spread over the episodes.
    let base = (m.episode % 256) * 256;
    for k in 0..256u64 {
        sqrt_one(m, u(base + k));
    }
    for _ in 0..200 {
        let x = match m.rng.below(6) {
            0 => {
                let r = m.rng.u256() >> (128 + m.rng.idx(128));
                (r * r).wrapping_add(u(m.rng.below(3))).wrapping_sub(ONE)
            }
            1 => {
                let w: U256 = wide_sq(m);
                w
            }
            2 => (ONE << m.rng.idx(256)).wrapping_sub(u(m.rng.below(2))),
            _ => m.rng.amount(),
        };
        sqrt_one(m, x);
        let y = match m.rng.below(4) {
            0 => m.rng.near(x),
            1 => U256::MAX - x,
            _ => m.rng.amount(),
        };
        m.step(format!("average({x}, {y})"));
        let w = narrow((wide(x) + wide(y)) >> 1).unwrap();
        m.eq("average", (x, y, x.average(y)), (x, y, w));
        m.count("average");
        let d = match m.rng.below(6) {
            0 => U256::ZERO,
            1 => m.rng.near(x),
            2 => m.rng.near(y),
            3 => {
                // Around the smallest divisor whose quotient still fits.
                let (h, _) = split(x, y);
                m.rng.near(h)
            }
            _ => m.rng.amount(),
        };
        for ceil in [false, true] {
            let rd = if ceil { Rounding::Ceil } else { Rounding::Floor };
            let got = quiet(|| Math::mul_div(x, y, d, rd)).ok();
            let want = mul_div(x, y, d, ceil);
            m.step(format!("mul_div({x}, {y}, {d}, ceil={ceil}) -> {got:?}"));
            m.count(match want {
                Some(_) => "mul_div:ok",
                None => "mul_div:trap",
            });
            m.eq("mul_div", (x, y, d, ceil, got), (x, y, d, ceil, want));
            m.seen(hash_str(&format!("{x}{y}{d}{ceil}")));
        }
        if m.failed() {
            return;
        }
    }
}

fn wide_sq(m: &mut Mon) -> U256 {
    // Largest squares below 2^256 and their predecessors.
    let r: U256 = (ONE << 128) - ONE - u(m.rng.below(3));
    let q: U256 = r * r;
    q.wrapping_sub(u(m.rng.below(2)))
}

fn split(x: U256, y: U256) -> (U256, U256) {
    let p = wide(x) * wide(y);
    let h = narrow(p >> 256).unwrap();
    let l = p.as_limbs();
    (h, U256::from_limbs([l[0], l[1], l[2], l[3]]))
}

fn sqrt_one(m: &mut Mon, x: U256) {
    let Ok(r) = quiet(|| Math::sqrt(x)) else {
        m.fail("sqrt/trap", format!("sqrt({x}) trapped"));
        return;
    };
    m.cases += 1;
    m.count("sqrt");
    let lo = wide(r) * wide(r);
    let hi = (wide(r) + U512::from(1u64)) * (wide(r) + U512::from(1u64));
    m.check(lo <= wide(x) && wide(x) < hi, "sqrt", || format!("sqrt({x}) = {r}"));
}
