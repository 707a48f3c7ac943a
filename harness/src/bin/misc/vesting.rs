//! P22: vesting wallet.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use alloy_primitives::{Address, U256};
use alloy_sol_types::{sol, SolCall};
use openzeppelin_stylus::finance::vesting_wallet::VestingWallet;
use stylus_sdk::prelude::*;
use vcore::mocks::*;
use vcore::mon::{hash_str, Mon};
use vcore::util::*;
use vcore::vm::{self, Outcome};

sol! {
    event EtherReleased(uint256 amount);
    event ERC20Released(address indexed token, uint256 amount);
    event Transfer(address indexed from, address indexed to, uint256 value);
    event OwnershipTransferred(address indexed previousOwner, address indexed newOwner);
    error OwnableUnauthorizedAccount(address account);
    error OwnableInvalidOwner(address owner);
    error InvalidToken(address token);
    error SafeErc20FailedOperation(address token);
    interface IVest {
        function owner() external view returns (address);
        function transferOwnership(address newOwner) external;
        function renounceOwnership() external;
        function start() external view returns (uint256);
        function duration() external view returns (uint256);
        function end() external view returns (uint256);
    }
    interface IEth {
        function released() external view returns (uint256);
        function releasable() external view returns (uint256);
        function release() external;
        function vestedAmount(uint64 timestamp) external view returns (uint256);
    }
    interface ITok {
        function released(address token) external view returns (uint256);
        function releasable(address token) external view returns (uint256);
        function release(address token) external;
        function vestedAmount(address token, uint64 timestamp) external view returns (uint256);
    }
}

#[storage]
pub struct VestH {
    #[borrow]
    w: VestingWallet,
}
unsafe impl TopLevelStorage for VestH {}
#[public]
#[inherit(VestingWallet)]
impl VestH {}

#[derive(Clone, Debug, PartialEq)]
enum Take {
    Accept,
    Revert(Vec<u8>),
    Trap,
    /// Calls release() again (and a token release) while being paid.
    Again,
}

fn schedule(total: U256, start: u64, dur: u64, ts: u64) -> Option<U256> {
    let end = start as u128 + dur as u128;
    if ts < start {
        Some(U256::ZERO)
    } else if ts as u128 >= end {
        Some(total)
    } else {
        Some(total.checked_mul(u(ts - start))? / u(dur))
    }
}

fn want_u(x: Option<U256>) -> Expect {
    match x {
        Some(v) => Expect::Ok { ret: ok_ret(&v), logs: vec![] },
        None => Expect::Err(vec![vec![]]),
    }
}

pub fn p22(m: &mut Mon) {
    let t = a(9500);
    vm::install(t, vm::contract::<VestH>());
    let reenter = m.rng.chance(1, 2);
    vm::with(|w| w.allow_reentrancy = reenter);

    let start: u64 = match m.rng.below(6) {
        0 => 0,
        1 => u64::MAX - m.rng.below(5),
        2 => m.rng.next(),
        _ => 1_000_000 + m.rng.below(1000),
    };
    let dur: u64 = match m.rng.below(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX - m.rng.below(5),
        3 => m.rng.next() >> m.rng.idx(63),
        _ => 1 + m.rng.below(2000),
    };
    let mut owner = *m.rng.pick(&[a(1), a(1), a(1), a(50), a(50), a(50), t, a(60)]);
    vm::poke(t, U256::ZERO, word_addr(owner));
    vm::poke(t, u(3), packed(&[(u(start), 8), (u(dur), 8)]));

    // The paying side: a(50) is a contract with a script.
    let take = Rc::new(RefCell::new(Take::Accept));
    let depth = Rc::new(RefCell::new(0u32));
    let toks: Vec<MockToken> = (0..2).map(|i| MockToken::install(a(60 + i))).collect();
    {
        let (take, depth, tk) = (take.clone(), depth.clone(), toks[0].addr);
        vm::install(
            a(50),
            Rc::new(move |_| {
                let k = take.borrow().clone();
                match k {
                    Take::Accept => Ok(vec![]),
                    Take::Revert(d) => Err(d),
                    Take::Trap => panic!("payee trap"),
                    Take::Again => {
                        if *depth.borrow() < 3 {
                            *depth.borrow_mut() += 1;
                            let _ = vm::call(t, U256::ZERO, &IEth::releaseCall {}.abi_encode());
                            let _ = vm::call(
                                t,
                                U256::ZERO,
                                &ITok::releaseCall { token: tk }.abi_encode(),
                            );
                        }
                        Ok(vec![])
                    }
                }
            }),
        );
    }
    let nocode = a(70);
    let mut eth_rel = U256::ZERO;
    let mut tok_rel: BTreeMap<Address, U256> = Default::default();
    let mut now: u64 = match m.rng.below(3) {
        0 => start.saturating_sub(m.rng.below(50)),
        1 => m.rng.below(start.max(1)),
        _ => start,
    };
    vm::with(|w| w.timestamp = now);
    let big = m.rng.chance(1, 4);
    let deposit = |m: &mut Mon| -> U256 {
        if big {
            m.rng.amount()
        } else {
            m.rng.u256() >> (256 - 1 - m.rng.idx(120))
        }
    };

    for _ in 0..15 + m.rng.idx(30) {
        // Time never runs backwards on chain.
        if m.rng.chance(1, 2) {
            let step = match m.rng.below(5) {
                0 => 1,
                1 => dur / 2,
                2 => dur.saturating_sub(now.saturating_sub(start)),
                3 => m.rng.below(dur.max(1)),
                _ => m.rng.below(100),
            };
            now = now.saturating_add(step);
            vm::with(|w| w.timestamp = now);
        }
        let s = match m.rng.below(20) {
            0 => t,
            1 => a(60),
            2 => a(50),
            _ => a(m.rng.below(4)),
        };
        let tk = m.rng.idx(2);
        let tok = toks[tk].clone();
        let eb = vm::balance_of(t);
        let eth_total = eb.checked_add(eth_rel);
        let eth_vest = eth_total.and_then(|x| schedule(x, start, dur, now));
        let tb = tok.bal(t);
        let tr = tok_rel.get(&tok.addr).copied().unwrap_or_default();
        let tvest = tb.checked_add(tr).and_then(|x| schedule(x, start, dur, now));
        let before_owner = vm::balance_of(owner);
        match m.rng.below(16) {
            0 | 1 => {
                // Ether arrives (a coinbase or forced transfer: no code runs).
                let v = deposit(m);
                if let Some(x) = eb.checked_add(v) {
                    vm::fund(t, x);
                    m.step(format!("ether +{v}"));
                }
            }
            2 | 3 => {
                let v = deposit(m);
                if let Some(x) = tb.checked_add(v) {
                    tok.set(t, x);
                    m.step(format!("token{tk} +{v}"));
                }
            }
            4 if m.rng.chance(1, 2) => {
                // A rebasing or seizing token takes some away.
                let v = m.rng.near(tb);
                tok.set(t, tb.saturating_sub(v));
                m.step(format!("token{tk} -{v}"));
            }
            // The wallet and the tokens take no ether.
            5..=7 if owner != t && owner != a(60) => {
                *depth.borrow_mut() = 0;
                let k = match m.rng.below(6) {
                    0 => Take::Revert(m.rng.bytes(7)),
                    1 => Take::Trap,
                    2 | 3 => Take::Again,
                    _ => Take::Accept,
                };
                *take.borrow_mut() = k.clone();
                // The reentering payee also draws on token 0.
                let sc0 = TokenScript::default();
                *toks[0].script.borrow_mut() = sc0;
                let amount = eth_vest.and_then(|v| v.checked_sub(eth_rel));
                let (tb0, ob0) = (toks[0].bal(t), toks[0].bal(owner));
                let (o, logs) = send(s, t, &IEth::releaseCall {}.abi_encode());
                m.step(format!("{} release() at {now} payee {k:?} -> {}", nm(s), show(&o)));
                let again = k == Take::Again && owner == a(50) && reenter;
                let overflow = amount.map_or(true, |x| before_owner.checked_add(x).is_none() && owner != t);
                let want = match amount {
                    None => Expect::Err(vec![vec![]]),
                    Some(_) if overflow => Expect::Err(vec![]),
                    Some(x) => match (&k, owner == a(50)) {
                        (Take::Revert(d), true) => Expect::Err(vec![d.clone()]),
                        (Take::Trap, true) => Expect::Err(vec![vec![]]),
                        _ if again => Expect::Ok { ret: Some(vec![]), logs: logs.clone() },
                        _ => Expect::Ok {
                            ret: Some(vec![]),
                            logs: vec![ev(t, &EtherReleased { amount: x })],
                        },
                    },
                };
                if !judge(m, if again { "release(reenter)" } else { "release" }, &o, &logs, &want) {
                    return;
                }
                if o.is_ok() {
                    let x = amount.unwrap();
                    // Whatever happened inside, exactly the vested part left.
                    let paid: U256 = logs_of(&logs, t)
                        .iter()
                        .filter(|g| g.topics[0] == vm::keccak(b"EtherReleased(uint256)"))
                        .map(|g| U256::from_be_slice(&g.data))
                        .fold(U256::ZERO, |x, y| x.wrapping_add(y));
                    m.eq("release/events-sum", paid, x);
                    if owner != t {
                        m.eq("release/ether-paid", vm::balance_of(owner), before_owner + x);
                        m.eq("release/ether-left", vm::balance_of(t), eb - x);
                    }
                    eth_rel += x;
                    if again {
                        // The token release nested in the callback.
                        let tr0 = tok_rel.get(&toks[0].addr).copied().unwrap_or_default();
                        let Some(g) = get(m, t, ITok::releasedCall { token: toks[0].addr }) else { return };
                        let got: U256 = logs_of(&logs, t)
                            .iter()
                            .filter(|g| g.topics[0] == vm::keccak(b"ERC20Released(address,uint256)"))
                            .map(|g| U256::from_be_slice(&g.data))
                            .fold(U256::ZERO, |x, y| x.wrapping_add(y));
                        m.eq("release/nested-token", g._0, tr0 + got);
                        let due = tb0
                            .checked_add(tr0)
                            .and_then(|x| schedule(x, start, dur, now))
                            .and_then(|v| v.checked_sub(tr0))
                            .filter(|x| ob0.checked_add(*x).is_some())
                            .unwrap_or_default();
                        m.eq("release/nested-token-amount", got, due);
                        tok_rel.insert(toks[0].addr, tr0 + got);
                    }
                } else {
                    m.eq("release/ether-kept", vm::balance_of(t), eb);
                }
            }
            8..=11 => {
                let mut sc = TokenScript::default();
                match m.rng.below(9) {
                    0 => sc.transfer = Ret::False,
                    1 => sc.transfer = Ret::Nothing,
                    2 => sc.transfer = Ret::Revert(m.rng.bytes(9)),
                    3 => sc.transfer = Ret::Trap,
                    4 => sc.balance_reverts = true,
                    _ => {}
                }
                let hook = owner != t && m.rng.chance(1, 3);
                *depth.borrow_mut() = 0;
                if hook {
                    let (d, ta) = (depth.clone(), tok.addr);
                    let h: Hook = Rc::new(move |_| {
                        if *d.borrow() < 2 {
                            *d.borrow_mut() += 1;
                            let _ = vm::call(
                                t,
                                U256::ZERO,
                                &ITok::releaseCall { token: ta }.abi_encode(),
                            );
                        }
                    });
                    if m.rng.chance(1, 2) {
                        sc.before = Some(h);
                    } else {
                        sc.after = Some(h);
                    }
                }
                *tok.script.borrow_mut() = sc.clone();
                let ob = tok.bal(owner);
                let amount = tvest.and_then(|v| v.checked_sub(tr));
                let (o, logs) = send(s, t, &ITok::releaseCall { token: tok.addr }.abi_encode());
                *tok.script.borrow_mut() = TokenScript { balance_reverts: sc.balance_reverts, ..Default::default() };
                m.step(format!(
                    "{} release(token{tk}) at {now} hook={hook} -> {}",
                    nm(s),
                    show(&o)
                ));
                let failed = Expect::Err(vec![err(SafeErc20FailedOperation { token: tok.addr })]);
                let want = if sc.balance_reverts {
                    Expect::Err(vec![err(InvalidToken { token: tok.addr })])
                } else {
                    match amount {
                        None => Expect::Err(vec![vec![]]),
                        Some(x) => {
                            let moves = !owner.is_zero()
                                && sc.transfer.safe_ok()
                                && (owner == t || ob.checked_add(x).is_some());
                            if !moves {
                                failed
                            } else if hook && reenter {
                                Expect::Ok { ret: Some(vec![]), logs: logs.clone() }
                            } else {
                                Expect::Ok {
                                    ret: Some(vec![]),
                                    logs: vec![
                                        ev(tok.addr, &Transfer { from: t, to: owner, value: x }),
                                        ev(t, &ERC20Released { token: tok.addr, amount: x }),
                                    ],
                                }
                            }
                        }
                    }
                };
                // When the token calls back after moving, the outer release is
                // already accounted for and nothing more can be drawn; a call
                // before the move sees the amount twice (as in Solidity).
                let nested = hook && reenter && sc.before.is_some();
                let op = if hook && reenter { "release(token,reenter)" } else { "release(token)" };
                if nested && matches!(want, Expect::Ok { .. }) && !o.is_ok() {
                    // A nested release may legitimately spoil the outer one
                    // (the balance it counted on is gone); it must not leak.
                    m.count("release(token,reenter):spoiled");
                } else if !judge(m, op, &o, &logs, &want) {
                    return;
                }
                *tok.script.borrow_mut() = TokenScript::default();
                if o.is_ok() {
                    let paid: U256 = logs_of(&logs, t)
                        .iter()
                        .map(|g| U256::from_be_slice(&g.data))
                        .fold(U256::ZERO, |x, y| x.wrapping_add(y));
                    if owner != t {
                        m.eq("release(token)/paid", tok.bal(owner).wrapping_sub(ob), paid);
                        m.eq("release(token)/left", tok.bal(t), tb.wrapping_sub(paid));
                    }
                    // Never more than what was vested.
                    let most = amount.unwrap_or_default();
                    let cap = if nested && owner != t { tb } else { most };
                    m.check(paid <= cap, "release(token)/over-release", || {
                        format!("paid {paid}, vested and unreleased {most}, balance {tb}")
                    });
                    if !nested {
                        m.eq("release(token)/amount", paid, most);
                    }
                    tok_rel.insert(tok.addr, tr.wrapping_add(paid));
                } else {
                    m.eq("release(token)/kept", tok.bal(t), tb);
                }
            }
            12 => {
                let (op, data) = match m.rng.below(2) {
                    0 => ("release(no code)", ITok::releaseCall { token: nocode }.abi_encode()),
                    _ => ("releasable(no code)", ITok::releasableCall { token: nocode }.abi_encode()),
                };
                let (o, logs) = send(s, t, &data);
                m.step(format!("{op} -> {}", show(&o)));
                let want = Expect::Err(vec![err(InvalidToken { token: nocode })]);
                if !judge(m, op, &o, &logs, &want) {
                    return;
                }
            }
            13 => {
                let s = if m.rng.chance(1, 2) && !owner.is_zero() { owner } else { s };
                let x = *m.rng.pick(&[a(1), a(2), a(50), a(50), t, a(60), Address::ZERO]);
                let (op, data, to) = if m.rng.chance(1, 12) {
                    ("renounceOwnership", IVest::renounceOwnershipCall {}.abi_encode(), None)
                } else {
                    ("transferOwnership", IVest::transferOwnershipCall { newOwner: x }.abi_encode(), Some(x))
                };
                let (o, logs) = send(s, t, &data);
                m.step(format!("{} {op}({}) -> {}", nm(s), nm(x), show(&o)));
                let mut e = vec![];
                if s != owner {
                    e.push(err(OwnableUnauthorizedAccount { account: s }));
                }
                if to == Some(Address::ZERO) {
                    e.push(err(OwnableInvalidOwner { owner: Address::ZERO }));
                }
                let want = if e.is_empty() {
                    let n = to.unwrap_or(Address::ZERO);
                    let l = ev(t, &OwnershipTransferred { previousOwner: owner, newOwner: n });
                    owner = n;
                    Expect::Ok { ret: Some(vec![]), logs: vec![l] }
                } else {
                    Expect::Err(e)
                };
                if !judge(m, op, &o, &logs, &want) {
                    return;
                }
            }
            _ => {
                // The schedule at any instant.
                let end = start.saturating_add(dur);
                let ts = match m.rng.below(7) {
                    0 => start,
                    1 => start.saturating_sub(1),
                    2 => end,
                    3 => end.saturating_sub(1),
                    4 => start.saturating_add(m.rng.below(dur.max(1))),
                    5 => m.rng.next(),
                    _ => end.saturating_add(1),
                };
                let o = peek_call(t, IEth::vestedAmountCall { timestamp: ts });
                let w = want_u(eth_total.and_then(|x| schedule(x, start, dur, ts)));
                m.step(format!("vestedAmount({ts}) -> {}", show(&o)));
                judge(m, "vestedAmount", &o, &[], &w);
                let o = peek_call(t, ITok::vestedAmountCall { token: tok.addr, timestamp: ts });
                let w = want_u(tb.checked_add(tr).and_then(|x| schedule(x, start, dur, ts)));
                m.step(format!("vestedAmount(token{tk}, {ts}) -> {}", show(&o)));
                judge(m, "vestedAmount(token)", &o, &[], &w);
            }
        }
        if m.failed() {
            return;
        }
        // Views after every step.
        let Some(g) = get(m, t, IVest::ownerCall {}) else { return };
        m.eq("state/owner", g._0, owner);
        let Some(g) = get(m, t, IVest::startCall {}) else { return };
        m.eq("state/start", g._0, u(start));
        let Some(g) = get(m, t, IVest::durationCall {}) else { return };
        m.eq("state/duration", g._0, u(dur));
        let Some(g) = get(m, t, IVest::endCall {}) else { return };
        m.eq("state/end", g._0, u(start) + u(dur));
        let Some(g) = get(m, t, IEth::releasedCall {}) else { return };
        m.eq("state/released", g._0, eth_rel);
        let o = peek_call(t, IEth::releasableCall {});
        let v = vm::balance_of(t)
            .checked_add(eth_rel)
            .and_then(|x| schedule(x, start, dur, now))
            .and_then(|v| v.checked_sub(eth_rel));
        judge(m, "releasable", &o, &[], &want_u(v));
        if let Some(v) = v {
            m.check(v <= vm::balance_of(t), "state/releasable-unbacked", || {
                format!("releasable {v} exceeds the balance {}", vm::balance_of(t))
            });
        }
        for tok in &toks {
            let tr = tok_rel.get(&tok.addr).copied().unwrap_or_default();
            let Some(g) = get(m, t, ITok::releasedCall { token: tok.addr }) else { return };
            m.eq("state/released(token)", g._0, tr);
            let o = peek_call(t, ITok::releasableCall { token: tok.addr });
            let v = tok
                .bal(t)
                .checked_add(tr)
                .and_then(|x| schedule(x, start, dur, now))
                .and_then(|v| v.checked_sub(tr));
            judge(m, "releasable(token)", &o, &[], &want_u(v));
            if let Outcome::Ok(d) = &o {
                let got = U256::from_be_slice(d);
                m.check(got <= tok.bal(t), "state/releasable(token)-unbacked", || {
                    format!("releasable {got} exceeds the balance {}", tok.bal(t))
                });
            }
        }
        m.seen(hash_str(&format!("{owner}{eth_rel}{tok_rel:?}{now}{start}{dur}")));
        if m.failed() {
            return;
        }
    }
}
