//! P01: the ERC-20 ledger.
use std::collections::BTreeMap;

use alloy_primitives::{Address, U256};
use alloy_sol_types::{sol, SolCall};
use openzeppelin_stylus::{
    token::erc20::{
        self,
        extensions::{capped, Capped, Erc20Metadata, IErc20Burnable},
        Erc20, IErc20,
    },
    utils::{pausable, Pausable},
};
use stylus_sdk::prelude::*;

use vcore::ledger::*;
use vcore::mon::Mon;
use vcore::util::*;
use vcore::vm;

sol! {
    error ERC20ExceededCap(uint256 increased_supply, uint256 cap);
    error EnforcedPause();
    #[derive(Debug)]
    event Paused(address account);
    #[derive(Debug)]
    event Unpaused(address account);
    interface IGuard {
        function pause() external;
        function unpause() external;
        function mintCapped(address to, uint256 value) external;
    }
}

#[storage]
pub struct TokenH {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    metadata: Erc20Metadata,
    #[borrow]
    capped: Capped,
    #[borrow]
    pausable: Pausable,
}
unsafe impl TopLevelStorage for TokenH {}

#[public]
#[inherit(Erc20, Erc20Metadata, Capped, Pausable)]
impl TokenH {
    fn mint(&mut self, to: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._mint(to, value)
    }
    fn pause(&mut self) -> Result<(), pausable::Error> {
        self.pausable.pause()
    }
    fn unpause(&mut self) -> Result<(), pausable::Error> {
        self.pausable.unpause()
    }
    /// As documented for a capped and pausable token.
    fn mint_capped(&mut self, to: Address, value: U256) -> Result<(), Vec<u8>> {
        self.pausable.when_not_paused()?;
        let cap = self.capped.cap();
        let supply = self.erc20.total_supply().checked_add(value).expect("supply");
        if supply > cap {
            return Err(capped::Error::ExceededCap(capped::ERC20ExceededCap { increased_supply: supply, cap }).into());
        }
        Ok(self.erc20._mint(to, value)?)
    }
    fn burn(&mut self, value: U256) -> Result<(), erc20::Error> {
        self.erc20.burn(value)
    }
    fn burn_from(&mut self, account: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20.burn_from(account, value)
    }
    fn burn_any(&mut self, account: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._burn(account, value)
    }
    fn update(&mut self, from: Address, to: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._update(from, to, value)
    }
    fn spend(&mut self, owner: Address, spender: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._spend_allowance(owner, spender, value)
    }
}

pub fn p01(m: &mut Mon) {
    let t = a(100);
    vm::install(t, vm::contract::<TokenH>());
    vm::with(|w| w.allow_reentrancy = m.rng.chance(1, 2));
    let users = [a(1), a(2), a(3), t];
    let mut all = users.to_vec();
    all.push(Address::ZERO);
    let mut l = Ledger::new(t);
    // Event-sourced view: balances and supply rebuilt from logs alone.
    let mut esum: BTreeMap<Address, U256> = BTreeMap::new();
    // Episodes with a cap mint only under it.
    let cap = m.rng.chance(1, 3).then(|| if m.rng.chance(1, 3) { u(m.rng.below(3000)) } else { m.rng.amount() });
    if let Some(c) = cap {
        vm::poke(t, u(5), word_u(c));
        let r = get(m, t, IToken::capCall {});
        m.eq("cap", r.map(|r| r._0), Some(c));
    }
    let mut paused = false;
    let n = 12 + m.rng.idx(30);
    for i in 0..n {
        let s = if m.rng.chance(1, 12) { t } else { users[m.rng.idx(3)] };
        let f = if m.rng.chance(1, 12) { Address::ZERO } else { *m.rng.pick(&users) };
        let to = if m.rng.chance(1, 12) { Address::ZERO } else { *m.rng.pick(&users) };
        let kind = m.rng.below(20);
        let (op, data, want) = match kind {
            0..=3 if cap.is_some() => {
                let c = cap.unwrap();
                if m.rng.chance(1, 4) {
                    let p = m.rng.chance(1, 2);
                    let w = match (p, paused) {
                        (true, false) => Expect::Ok { ret: Some(vec![]), logs: vec![ev(t, &Paused { account: s })] },
                        (false, true) => Expect::Ok { ret: Some(vec![]), logs: vec![ev(t, &Unpaused { account: s })] },
                        _ => Expect::Err(vec![]),
                    };
                    if matches!(w, Expect::Ok { .. }) {
                        paused = p;
                    }
                    let d = if p { IGuard::pauseCall {}.abi_encode() } else { IGuard::unpauseCall {}.abi_encode() };
                    (if p { "pause" } else { "unpause" }, d, w)
                } else {
                    let room = c.saturating_sub(l.supply);
                    let v = match m.rng.below(5) {
                        0 => m.rng.amount(),
                        1 => room / u(4),
                        2 => room / u(1000),
                        _ => m.rng.near(room),
                    };
                    let w = if paused {
                        Expect::Err(vec![err(EnforcedPause {})])
                    } else {
                        match l.supply.checked_add(v) {
                            None => Expect::Err(vec![vec![]]),
                            Some(x) if x > c => Expect::Err(vec![err(ERC20ExceededCap { increased_supply: x, cap: c })]),
                            _ => to_expect(l.clone().run(|l| l.mint(to, v), &mut l), Some(vec![])),
                        }
                    };
                    ("mint under a cap", IGuard::mintCappedCall { to, value: v }.abi_encode(), w)
                }
            }
            0..=3 => {
                let v = if i < 4 { m.rng.u256_width() >> 3 } else { gen_amount(m, &l, to, None) };
                (
                    "mint",
                    IToken::mintCall { to, value: v }.abi_encode(),
                    to_expect(l.clone().run(|l| l.mint(to, v), &mut l), Some(vec![])),
                )
            }
            4..=7 => {
                let v = gen_amount(m, &l, s, None);
                (
                    "transfer",
                    IToken::transferCall { to, value: v }.abi_encode(),
                    to_expect(l.clone().run(|l| l.transfer(s, to, v), &mut l), ok_ret(&true)),
                )
            }
            8..=10 => {
                let v = match m.rng.below(5) {
                    0 => U256::MAX,
                    1 => m.rng.near(l.b(s)),
                    _ => m.rng.amount(),
                };
                (
                    "approve",
                    IToken::approveCall { spender: to, value: v }.abi_encode(),
                    to_expect(l.clone().run(|l| l.approve(s, to, v), &mut l), ok_ret(&true)),
                )
            }
            11..=14 => {
                let v = gen_amount(m, &l, f, Some(s));
                (
                    "transferFrom",
                    IToken::transferFromCall { from: f, to, value: v }.abi_encode(),
                    to_expect(
                        l.clone().run(|l| l.transfer_from(s, f, to, v), &mut l),
                        ok_ret(&true),
                    ),
                )
            }
            15 => {
                let v = gen_amount(m, &l, s, None);
                (
                    "burn",
                    IToken::burnCall { value: v }.abi_encode(),
                    to_expect(l.clone().run(|l| l.burn(s, v), &mut l), Some(vec![])),
                )
            }
            16 => {
                let v = gen_amount(m, &l, f, Some(s));
                (
                    "burnFrom",
                    IToken::burnFromCall { account: f, value: v }.abi_encode(),
                    to_expect(l.clone().run(|l| l.burn_from(s, f, v), &mut l), Some(vec![])),
                )
            }
            17 => {
                let v = gen_amount(m, &l, f, None);
                (
                    "_burn",
                    IToken::burnAnyCall { account: f, value: v }.abi_encode(),
                    to_expect(l.clone().run(|l| l.burn(f, v), &mut l), Some(vec![])),
                )
            }
            18 => {
                let f = if f.is_zero() && cap.is_some() { s } else { f };
                let v = gen_amount(m, &l, f, None);
                (
                    "_update",
                    IToken::updateCall { from: f, to, value: v }.abi_encode(),
                    to_expect(l.clone().run(|l| l.update(f, to, v), &mut l), Some(vec![])),
                )
            }
            _ => {
                let v = gen_amount(m, &l, f, Some(to));
                (
                    "_spend_allowance",
                    IToken::spendCall { owner: f, spender: to, value: v }.abi_encode(),
                    to_expect(l.clone().run(|l| l.spend(f, to, v), &mut l), Some(vec![])),
                )
            }
        };
        let (o, logs) = send(s, t, &data);
        m.step(format!("{} {op}({}) -> {}", nm(s), hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        for g in &logs {
            if g.topics[0] == vm::keccak(b"Transfer(address,address,uint256)") {
                let f = Address::from_slice(&g.topics[1][12..]);
                let to = Address::from_slice(&g.topics[2][12..]);
                let v = U256::from_be_slice(&g.data);
                if !f.is_zero() {
                    let e = esum.entry(f).or_default();
                    *e = e.wrapping_sub(v);
                }
                if !to.is_zero() {
                    let e = esum.entry(to).or_default();
                    *e = e.wrapping_add(v);
                }
            }
        }
        l.check(m, &all);
        for (x, v) in &esum {
            let got = l.b(*x);
            m.check(got == *v, "events/replayed-balance", || {
                format!("balance rebuilt from Transfer events of {} is {v}, ledger {got}", nm(*x))
            });
        }
        if let Some(c) = cap {
            m.check(l.supply <= c, "cap exceeded", || format!("supply {} above the cap {c}", l.supply));
            let r = get(m, t, IToken::pausedCall {});
            m.eq("paused", r.map(|r| r._0), Some(paused));
        }
        let d = l.digest();
        m.seen(d);
        if m.failed() {
            return;
        }
    }
}

