//! P08: SafeERC20 against honest, non-standard and hostile tokens.
use alloy_primitives::{Address, U256};
use alloy_sol_types::{sol, SolCall};
use openzeppelin_stylus::token::erc20::utils::safe_erc20::SafeErc20;
use stylus_sdk::prelude::*;
use vcore::ledger::*;
use vcore::mocks::*;
use vcore::mon::Mon;
use vcore::util::*;
use vcore::vm;

sol! {
    error SafeErc20FailedOperation(address token);
    error SafeErc20FailedDecreaseAllowance(address spender, uint256 currentAllowance, uint256 requestedDecrease);
    interface ISafe {
        function safeTransfer(address token, address to, uint256 value) external;
        function safeTransferFrom(address token, address from, address to, uint256 value) external;
        function safeIncreaseAllowance(address token, address spender, uint256 value) external;
        function safeDecreaseAllowance(address token, address spender, uint256 value) external;
        function forceApprove(address token, address spender, uint256 value) external;
    }
}

#[storage]
pub struct SafeH {
    #[borrow]
    safe: SafeErc20,
}
unsafe impl TopLevelStorage for SafeH {}
#[public]
#[inherit(SafeErc20)]
impl SafeH {}

pub fn gen_ret(m: &mut Mon) -> Ret {
    match m.rng.below(14) {
        0..=3 => Ret::True,
        4 | 5 => Ret::Nothing,
        6 | 7 => Ret::False,
        8 => Ret::Revert(match m.rng.below(3) {
            0 => vec![],
            1 => word_u(ONE).to_vec(), // revert data that looks like `true`
            _ => m.rng.bytes(40),
        }),
        9 => Ret::Trap,
        10 => {
            // A word that is neither true nor false.
            let mut w = word_u(m.rng.u256_width());
            if w == word_u(ONE) {
                w = word_u(u(2));
            }
            Ret::Bytes(w.to_vec())
        }
        11 => {
            // `1` in a wrong byte, or the right byte with dirty upper bytes.
            let mut w = [0u8; 32];
            w[m.rng.idx(31)] = 1;
            if m.rng.chance(1, 2) {
                w[31] = 1;
            }
            Ret::Bytes(w.to_vec())
        }
        12 => {
            // `true` followed by more data: only the first word counts.
            let mut b = word_u(ONE).to_vec();
            let n = 1 + m.rng.idx(80);
            b.extend(m.rng.bytes(n));
            Ret::Bytes(b)
        }
        _ => {
            // A false word followed by trailing ones.
            let mut b = vec![0u8; 32];
            b.extend(word_u(ONE).to_vec());
            Ret::Bytes(b)
        }
    }
}

pub fn p08(m: &mut Mon) {
    let t = a(100);
    vm::install(t, vm::contract::<SafeH>());
    let tok = MockToken::install(a(50));
    let eoa = a(60); // no code: an account that is no contract
    if m.rng.chance(1, 2) {
        vm::fund(eoa, u(1));
    }
    let users = [a(1), a(2), a(3), t, tok.addr];
    for x in users {
        let v = if m.rng.chance(1, 4) { m.rng.amount() >> 2 } else { m.rng.u256_width() >> 2 };
        tok.set(x, v);
    }
    let n = 8 + m.rng.idx(20);
    for _ in 0..n {
        {
            let r1 = gen_ret(m);
            let r2 = gen_ret(m);
            let r3 = gen_ret(m);
            let mut s = tok.script.borrow_mut();
            if m.rng.chance(1, 3) {
                *s = TokenScript::default();
            } else {
                s.transfer = r1;
                s.transfer_from = r2;
                s.approve = r3;
            }
            s.usdt = m.rng.chance(1, 3);
            s.approve_seq.clear();
            if m.rng.chance(1, 4) {
                // A token whose answer changes from call to call.
                for _ in 0..1 + m.rng.idx(3) {
                    s.approve_seq.push(gen_ret(m));
                }
            }
            s.allowance_reverts = m.rng.chance(1, 16);
            s.approvals.set(0);
        }
        let sc = tok.script.borrow().clone();
        // Also no token: an account without code, nobody, the client itself.
        let token = match m.rng.below(24) {
            0..=2 => eoa,
            3 => Address::ZERO,
            4 => t,
            _ => tok.addr,
        };
        let has_code = token == tok.addr; // and answers as a token
        let s = users[m.rng.idx(4)];
        let f = *m.rng.pick(&users);
        let to = match m.rng.below(16) {
            0 => Address::ZERO,
            1 => tok.addr,
            _ => *m.rng.pick(&users),
        };
        let mut fo = vec![err(SafeErc20FailedOperation { token })];
        let bal0: Vec<U256> = users.iter().map(|x| tok.bal(*x)).collect();
        let mut bal1 = bal0.clone();
        let al0 = tok.allow(t, to);
        let mut al1 = al0;
        let ix = |x: Address| users.iter().position(|y| *y == x);
        let mut mv = |from: Address, to: Address, v: U256| -> bool {
            let (Some(i), Some(j)) = (ix(from), ix(to)) else { return false };
            if bal1[i] < v {
                return false;
            }
            bal1[i] -= v;
            let Some(x) = bal1[j].checked_add(v) else { return false };
            bal1[j] = x;
            true
        };
        // approve-style step of the script; updates the tracked allowance.
        let mut tries: Vec<Vec<u8>> = vec![];
        let mut appr = |al: &mut U256, v: U256| -> bool {
            let r = sc.approve_seq.get(tries.len()).unwrap_or(&sc.approve).clone();
            tries.push(IToken::approveCall { spender: to, value: v }.abi_encode());
            if sc.usdt && !v.is_zero() && !al.is_zero() {
                return false;
            }
            if r.completes() {
                *al = v;
            }
            r.safe_ok()
        };
        let mut force = |al: &mut U256, v: U256| -> bool {
            if appr(al, v) {
                return true;
            }
            appr(al, U256::ZERO) && appr(al, v)
        };
        let mut extra: Option<Vec<u8>> = None;
        let mut spent = None;
        let mut inner = vec![]; // the token calls an honest client must make
        let (op, data, okk);
        match m.rng.below(5) {
            0 => {
                op = "safe_transfer";
                let v = m.rng.near(tok.bal(t));
                data = ISafe::safeTransferCall { token, to, value: v }.abi_encode();
                okk = has_code && mv(t, to, v) && sc.transfer.safe_ok();
                inner.push(IToken::transferCall { to, value: v }.abi_encode());
            }
            1 => {
                op = "safe_transfer_from";
                let v = m.rng.near(tok.bal(f));
                let al = if m.rng.chance(1, 4) { m.rng.near(v) } else { v };
                tok.set_allow(f, t, al);
                data = ISafe::safeTransferFromCall { token, from: f, to, value: v }.abi_encode();
                okk = has_code && al >= v && mv(f, to, v) && sc.transfer_from.safe_ok();
                spent = Some((f, if al == U256::MAX { al } else { al.saturating_sub(v) }));
                inner.push(IToken::transferFromCall { from: f, to, value: v }.abi_encode());
            }
            2 => {
                op = "safe_increase_allowance";
                let v = if m.rng.chance(1, 3) { m.rng.near(U256::MAX - al0) } else { m.rng.amount() };
                data = ISafe::safeIncreaseAllowanceCall { token, spender: to, value: v }.abi_encode();
                match al0.checked_add(v) {
                    _ if sc.allowance_reverts => okk = false,
                    Some(nv) => okk = has_code && force(&mut al1, nv),
                    None => {
                        okk = false;
                        extra = Some(vec![]);
                    }
                }
            }
            3 => {
                op = "safe_decrease_allowance";
                let v = m.rng.near(al0);
                data = ISafe::safeDecreaseAllowanceCall { token, spender: to, value: v }.abi_encode();
                if sc.allowance_reverts {
                    okk = false;
                } else if al0 < v {
                    okk = false;
                    extra = Some(err(SafeErc20FailedDecreaseAllowance {
                        spender: to,
                        currentAllowance: al0,
                        requestedDecrease: v,
                    }));
                } else {
                    okk = has_code && force(&mut al1, al0 - v);
                }
            }
            _ => {
                op = "force_approve";
                let v = if m.rng.chance(1, 3) { al0 } else { m.rng.amount() };
                data = ISafe::forceApproveCall { token, spender: to, value: v }.abi_encode();
                okk = has_code && force(&mut al1, v);
            }
        }
        if let Some(e) = extra {
            if has_code {
                fo = vec![e];
            } else {
                fo.push(e);
            }
        }
        vm::with(|w| w.record_calls = true);
        let before = vm::with(|w| w.digest());
        let (o, _logs) = send(s, t, &data);
        let calls: Vec<_> =
            vm::with(|w| w.calls.iter().filter(|c| c.depth == 1).cloned().collect());
        vm::with(|w| w.record_calls = false);
        m.step(format!(
            "{} {op}({}) token[code={has_code} t={:?} tf={:?} ap={:?} {:?} usdt={}] -> {}",
            nm(s), hex(&data[4..]), sc.transfer, sc.transfer_from, sc.approve, sc.approve_seq, sc.usdt, show(&o)
        ));
        let want = if okk {
            Expect::Ok { ret: Some(vec![]), logs: logs_of(&_logs, tok.addr) }
        } else {
            Expect::Err(fo)
        };
        if !judge(m, op, &o, &_logs, &want) {
            return;
        }
        if okk {
            for (i, x) in users.iter().enumerate() {
                m.eq("state/token-balance", (i, tok.bal(*x)), (i, bal1[i]));
            }
            match spent {
                Some((f, al)) => m.eq("state/spent-allowance", tok.allow(f, t), al),
                None => m.eq("state/allowance", tok.allow(t, to), al1),
            };
            if !inner.is_empty() {
                let got: Vec<_> = calls.iter().map(|c| c.data.clone()).collect();
                m.eq("calls/exact-calldata", got, inner);
            } else {
                let got: Vec<_> = calls
                    .iter()
                    .filter(|c| c.data[..4] == IToken::approveCall::SELECTOR)
                    .map(|c| c.data.clone())
                    .collect();
                m.eq("calls/exact-approvals", got, tries);
            }
            for c in &calls {
                m.check(c.to == token && c.value.is_zero(), "calls/target-and-value", || {
                    format!("{c:?}")
                });
            }
        } else {
            let after = vm::with(|w| w.digest());
            m.eq("atomicity/failed-op-left-state", after, before);
        }
        m.seen(vcore::mon::hash_str(&format!(
            "{op}{okk}{has_code}{:?}{:?}{:?}{}{}", sc.transfer, sc.transfer_from, sc.approve, al0, sc.usdt
        )));
        if m.failed() {
            return;
        }
    }
}
