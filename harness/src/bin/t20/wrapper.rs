//! P04: the ERC-20 wrapper is backed one to one.
use alloy_primitives::{Address, U256, U8};
use alloy_sol_types::{sol, SolCall};
use openzeppelin_stylus::token::erc20::{
    extensions::{wrapper, Erc20Wrapper, IErc20Wrapper},
    Erc20,
};
use stylus_sdk::prelude::*;
use vcore::ledger::*;
use vcore::mocks::*;
use vcore::mon::Mon;
use vcore::util::*;
use vcore::vm;

use crate::safe::{gen_ret, SafeErc20FailedOperation};

sol! {
    error ERC20InvalidUnderlying(address token);
    interface IWrap {
        function depositFor(address account, uint256 value) external returns (bool);
        function withdrawTo(address account, uint256 value) external returns (bool);
        function recover(address account) external returns (uint256);
        function underlying() external view returns (address);
        function decimals() external view returns (uint8);
    }
}

#[storage]
pub struct WrapH {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    wrapper: Erc20Wrapper,
}
unsafe impl TopLevelStorage for WrapH {}
#[public]
#[inherit(Erc20)]
impl WrapH {
    fn underlying(&self) -> Address {
        self.wrapper.underlying()
    }
    fn decimals(&self) -> U8 {
        self.wrapper.decimals()
    }
    fn deposit_for(&mut self, account: Address, value: U256) -> Result<bool, wrapper::Error> {
        self.wrapper.deposit_for(account, value, &mut self.erc20)
    }
    fn withdraw_to(&mut self, account: Address, value: U256) -> Result<bool, wrapper::Error> {
        self.wrapper.withdraw_to(account, value, &mut self.erc20)
    }
    fn recover(&mut self, account: Address) -> Result<U256, wrapper::Error> {
        self.wrapper._recover(account, &mut self.erc20)
    }
}

pub fn tlog(tok: Address, from: Address, to: Address, value: U256) -> vm::Log {
    ev(tok, &Transfer { from, to, value })
}

pub fn p04(m: &mut Mon) {
    if m.rng.chance(1, 5) {
        return crate::reent::episode(m, false);
    }
    let t = a(100);
    vm::install(t, vm::contract::<WrapH>());
    let tok = MockToken::install(a(50));
    let dec = m.rng.below(256);
    vm::poke(t, u(3), packed(&[(addr_u(tok.addr), 20), (u(dec), 1)]));
    vm::with(|w| w.allow_reentrancy = m.rng.chance(1, 2));
    let users = [a(1), a(2), a(3)];
    let mut all = users.to_vec();
    all.push(t);
    all.push(tok.addr);
    all.push(Address::ZERO);
    // Underlying supply is distributed at start; optionally near the top.
    let mut un = Ledger::new(tok.addr);
    let big = m.rng.chance(1, 4);
    for x in users {
        let v = if big { U256::MAX / u(3) } else { m.rng.u256_width() >> 3 };
        tok.set(x, v);
        un.mint(x, v).unwrap();
        tok.set_allow(x, t, U256::MAX);
        un.allow.insert((x, t), U256::MAX);
    }
    tok.set_allow(t, t, U256::MAX);
    un.allow.insert((t, t), U256::MAX);
    // Now and then the underlying itself loses the wrapper's tokens.
    let lossy = m.rng.chance(1, 8);
    let mut l = Ledger::new(t);
    let Some(r) = get(m, t, IWrap::underlyingCall {}) else { return };
    m.eq("underlying", r._0, tok.addr);
    let Some(r) = get(m, t, IWrap::decimalsCall {}) else { return };
    m.eq("decimals", r._0 as u64, dec);
    let n = 12 + m.rng.idx(24);
    for _ in 0..n {
        {
            let r1 = gen_ret(m);
            let r2 = gen_ret(m);
            let mut s = tok.script.borrow_mut();
            *s = TokenScript::default();
            if m.rng.chance(1, 4) {
                s.transfer = r1;
                s.transfer_from = r2;
            }
            s.balance_reverts = m.rng.chance(1, 16);
        }
        let sc = tok.script.borrow().clone();
        let s = match m.rng.below(16) {
            0 => t,
            1 => tok.addr,
            _ => *m.rng.pick(&users),
        };
        if lossy && m.rng.chance(1, 6) {
            let v = m.rng.near(un.b(t)).min(un.b(t));
            tok.set(t, v);
            un.supply -= un.b(t) - v;
            un.bal.insert(t, v);
            m.step(format!("the wrapper's underlying balance becomes {v}"));
        }
        let x = match m.rng.below(13) {
            0 => Address::ZERO,
            1 => t,
            2 => tok.addr,
            _ => *m.rng.pick(&users),
        };
        if m.rng.chance(1, 5) {
            let v = m.rng.near(un.b(s));
            tok.set_allow(s, t, v);
            un.allow.insert((s, t), v);
        }
        let (op, data, want);
        let fo = err(SafeErc20FailedOperation { token: tok.addr });
        match m.rng.below(12) {
            0..=4 => {
                op = "depositFor";
                let v = m.rng.near(un.b(s));
                data = IWrap::depositForCall { account: x, value: v }.abi_encode();
                let mut e = vec![];
                if s == t {
                    e.push(err(ERC20InvalidSender { sender: s }));
                }
                if x == t {
                    e.push(err(ERC20InvalidReceiver { receiver: x }));
                }
                if x.is_zero() {
                    e.push(err(ERC20InvalidReceiver { receiver: x }));
                }
                let mut un2 = un.clone();
                if un2.transfer_from(t, s, t, v).is_err() || !sc.transfer_from.safe_ok() {
                    e.push(fo);
                }
                if l.supply.checked_add(v).is_none() {
                    e.push(vec![]);
                }
                want = if e.is_empty() {
                    un = un2;
                    let mut logs = vec![tlog(tok.addr, s, t, v)];
                    logs.extend(l.mint(x, v).unwrap());
                    Expect::Ok { ret: ok_ret(&true), logs }
                } else {
                    Expect::Err(e)
                };
            }
            5..=7 => {
                op = "withdrawTo";
                let v = m.rng.near(l.b(s));
                data = IWrap::withdrawToCall { account: x, value: v }.abi_encode();
                let mut e = l.burn_errs(s, v);
                if x == t {
                    e.push(err(ERC20InvalidReceiver { receiver: x }));
                }
                let mut un2 = un.clone();
                if un2.transfer(t, x, v).is_err() || !sc.transfer.safe_ok() {
                    e.push(fo);
                }
                want = if e.is_empty() {
                    un = un2;
                    let mut logs = vec![l.do_burn(s, v)];
                    logs.push(tlog(tok.addr, t, x, v));
                    Expect::Ok { ret: ok_ret(&true), logs }
                } else {
                    Expect::Err(e)
                };
            }
            8 => {
                op = "recover";
                data = IWrap::recoverCall { account: x }.abi_encode();
                let surplus = un.b(t).checked_sub(l.supply);
                let mut e = vec![];
                if sc.balance_reverts {
                    e.push(err(ERC20InvalidUnderlying { token: tok.addr }));
                } else {
                    match surplus {
                        None => e.push(vec![]),
                        Some(v) if !v.is_zero() && x.is_zero() => {
                            e.push(err(ERC20InvalidReceiver { receiver: x }))
                        }
                        _ => {}
                    }
                }
                want = if e.is_empty() {
                    let v = surplus.unwrap();
                    let logs = if v.is_zero() { vec![] } else { l.mint(x, v).unwrap() };
                    Expect::Ok { ret: ok_ret(&v), logs }
                } else {
                    Expect::Err(e)
                };
            }
            9 => {
                op = "donate";
                // A plain transfer of the underlying to the wrapper.
                let v = m.rng.near(un.b(s));
                tok.script.borrow_mut().transfer = Ret::True;
                data = IToken::transferCall { to: t, value: v }.abi_encode();
                let (o, _) = send(s, tok.addr, &data);
                let w = un.clone().run(|l| l.transfer(s, t, v), &mut un);
                m.step(format!("{} donates {v} underlying -> {}", nm(s), show(&o)));
                m.eq("mock/donate", o.is_ok(), w.is_ok());
                continue;
            }
            10 => {
                op = "transfer";
                let v = gen_amount(m, &l, s, None);
                data = IToken::transferCall { to: x, value: v }.abi_encode();
                want = to_expect(l.clone().run(|l| l.transfer(s, x, v), &mut l), ok_ret(&true));
            }
            _ => {
                op = "approve";
                let v = m.rng.amount();
                data = IToken::approveCall { spender: x, value: v }.abi_encode();
                want = to_expect(l.clone().run(|l| l.approve(s, x, v), &mut l), ok_ret(&true));
            }
        }
        let (o, logs) = send(s, t, &data);
        m.step(format!("{} {op}({}) -> {}", nm(s), hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        l.check(m, &all);
        for x in &all {
            m.eq("state/underlying-balance", (nm(*x), tok.bal(*x)), (nm(*x), un.b(*x)));
        }
        // Independent of the model: every wrapped token is backed.
        let Some(r) = get(m, t, IToken::totalSupplyCall {}) else { return };
        let held = tok.bal(t);
        m.check(lossy || r._0 <= held, "backing", || format!("supply {} but only {held} underlying held", r._0));
        m.seen(l.digest() ^ un.digest().rotate_left(7));
        if m.failed() {
            return;
        }
    }
    if lossy {
        return;
    }
    // Everyone can leave: redeem every wrapped token.
    *tok.script.borrow_mut() = TokenScript::default();
    for x in users {
        let v = l.b(x);
        let (o, _) = send(x, t, &IWrap::withdrawToCall { account: x, value: v }.abi_encode());
        m.step(format!("{} exits with {v} -> {}", nm(x), show(&o)));
        m.check(o.is_ok(), "exit", || format!("holder cannot redeem {v}: {}", show(&o)));
    }
}
