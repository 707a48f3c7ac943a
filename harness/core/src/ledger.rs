//! ERC-20 reference ledger, shared by every monitor that involves a token.
use std::collections::BTreeMap;

use alloy_primitives::{Address, U256};
use alloy_sol_types::sol;

use crate::mon::Mon;
use crate::util::*;
use crate::vm::Log;

sol! {
    #[derive(Debug)]
    event Transfer(address indexed from, address indexed to, uint256 value);
    #[derive(Debug)]
    event Approval(address indexed owner, address indexed spender, uint256 value);
    error ERC20InsufficientBalance(address sender, uint256 balance, uint256 needed);
    error ERC20InvalidSender(address sender);
    error ERC20InvalidReceiver(address receiver);
    error ERC20InsufficientAllowance(address spender, uint256 allowance, uint256 needed);
    error ERC20InvalidSpender(address spender);
    error ERC20InvalidApprover(address approver);

    interface IToken {
        function totalSupply() external view returns (uint256);
        function balanceOf(address account) external view returns (uint256);
        function transfer(address to, uint256 value) external returns (bool);
        function allowance(address owner, address spender) external view returns (uint256);
        function approve(address spender, uint256 value) external returns (bool);
        function transferFrom(address from, address to, uint256 value) external returns (bool);
        function name() external view returns (string memory);
        function symbol() external view returns (string memory);
        function decimals() external view returns (uint8);
        function cap() external view returns (uint256);
        function paused() external view returns (bool);
        function mint(address to, uint256 value) external;
        function burn(uint256 value) external;
        function burnFrom(address account, uint256 value) external;
        function burnAny(address account, uint256 value) external;
        function update(address from, address to, uint256 value) external;
        function spend(address owner, address spender, uint256 value) external;
    }
}

/// Reference ledger.
#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Ledger {
    pub addr: Address,
    pub bal: BTreeMap<Address, U256>,
    pub allow: BTreeMap<(Address, Address), U256>,
    pub supply: U256,
}

pub type Res = Result<Vec<Log>, Vec<Vec<u8>>>;

impl Ledger {
    pub fn new(addr: Address) -> Self {
        Self { addr, ..Default::default() }
    }
    pub fn b(&self, x: Address) -> U256 {
        self.bal.get(&x).copied().unwrap_or_default()
    }
    pub fn al(&self, o: Address, s: Address) -> U256 {
        self.allow.get(&(o, s)).copied().unwrap_or_default()
    }
    fn ev(&self, from: Address, to: Address, value: U256) -> Log {
        ev(self.addr, &Transfer { from, to, value })
    }
    /// Conditions that forbid moving `value` (all of them).
    fn move_errs(&self, from: Address, to: Address, value: U256) -> Vec<Vec<u8>> {
        let mut e = vec![];
        if from.is_zero() {
            e.push(err(ERC20InvalidSender { sender: from }));
        }
        if to.is_zero() {
            e.push(err(ERC20InvalidReceiver { receiver: to }));
        }
        if !from.is_zero() && self.b(from) < value {
            e.push(err(ERC20InsufficientBalance {
                sender: from,
                balance: self.b(from),
                needed: value,
            }));
        }
        e
    }
    fn do_move(&mut self, from: Address, to: Address, value: U256) {
        let f = self.b(from) - value;
        self.bal.insert(from, f);
        let t = self.b(to) + value;
        self.bal.insert(to, t);
    }
    pub fn transfer(&mut self, from: Address, to: Address, value: U256) -> Res {
        let e = self.move_errs(from, to, value);
        if !e.is_empty() {
            return Err(e);
        }
        self.do_move(from, to, value);
        Ok(vec![self.ev(from, to, value)])
    }
    pub fn spend_errs(&self, owner: Address, spender: Address, value: U256) -> Vec<Vec<u8>> {
        let mut e = vec![];
        let cur = self.al(owner, spender);
        if cur != U256::MAX {
            if cur < value {
                e.push(err(ERC20InsufficientAllowance {
                    spender,
                    allowance: cur,
                    needed: value,
                }));
            }
            if owner.is_zero() {
                e.push(err(ERC20InvalidApprover { approver: owner }));
            }
            if spender.is_zero() {
                e.push(err(ERC20InvalidSpender { spender }));
            }
        }
        e
    }
    pub fn do_spend(&mut self, owner: Address, spender: Address, value: U256) {
        let cur = self.al(owner, spender);
        if cur != U256::MAX {
            self.allow.insert((owner, spender), cur - value);
        }
    }
    pub fn spend(&mut self, owner: Address, spender: Address, value: U256) -> Res {
        let e = self.spend_errs(owner, spender, value);
        if !e.is_empty() {
            return Err(e);
        }
        self.do_spend(owner, spender, value);
        Ok(vec![])
    }
    pub fn transfer_from(&mut self, spender: Address, from: Address, to: Address, value: U256) -> Res {
        let mut e = self.spend_errs(from, spender, value);
        e.extend(self.move_errs(from, to, value));
        if !e.is_empty() {
            return Err(e);
        }
        self.do_spend(from, spender, value);
        self.do_move(from, to, value);
        Ok(vec![self.ev(from, to, value)])
    }
    pub fn approve(&mut self, owner: Address, spender: Address, value: U256) -> Res {
        let mut e = vec![];
        if owner.is_zero() {
            e.push(err(ERC20InvalidApprover { approver: owner }));
        }
        if spender.is_zero() {
            e.push(err(ERC20InvalidSpender { spender }));
        }
        if !e.is_empty() {
            return Err(e);
        }
        self.allow.insert((owner, spender), value);
        Ok(vec![ev(self.addr, &Approval { owner, spender, value })])
    }
    pub fn mint(&mut self, to: Address, value: U256) -> Res {
        if to.is_zero() {
            return Err(vec![err(ERC20InvalidReceiver { receiver: to })]);
        }
        let Some(s) = self.supply.checked_add(value) else { return Err(vec![vec![]]) };
        self.supply = s;
        let t = self.b(to) + value;
        self.bal.insert(to, t);
        Ok(vec![self.ev(Address::ZERO, to, value)])
    }
    pub fn burn_errs(&self, from: Address, value: U256) -> Vec<Vec<u8>> {
        let mut e = vec![];
        if from.is_zero() {
            e.push(err(ERC20InvalidSender { sender: from }));
        } else if self.b(from) < value {
            e.push(err(ERC20InsufficientBalance {
                sender: from,
                balance: self.b(from),
                needed: value,
            }));
        }
        e
    }
    pub fn do_burn(&mut self, from: Address, value: U256) -> Log {
        let f = self.b(from) - value;
        self.bal.insert(from, f);
        self.supply -= value;
        self.ev(from, Address::ZERO, value)
    }
    pub fn burn(&mut self, from: Address, value: U256) -> Res {
        let e = self.burn_errs(from, value);
        if !e.is_empty() {
            return Err(e);
        }
        Ok(vec![self.do_burn(from, value)])
    }
    pub fn burn_from(&mut self, spender: Address, from: Address, value: U256) -> Res {
        let mut e = self.spend_errs(from, spender, value);
        e.extend(self.burn_errs(from, value));
        if !e.is_empty() {
            return Err(e);
        }
        self.do_spend(from, spender, value);
        Ok(vec![self.do_burn(from, value)])
    }
    /// Raw update: zero source mints, zero destination burns.
    pub fn update(&mut self, from: Address, to: Address, value: U256) -> Res {
        if from.is_zero() && to.is_zero() {
            if self.supply.checked_add(value).is_none() {
                return Err(vec![vec![]]);
            }
            return Ok(vec![self.ev(from, to, value)]);
        }
        if from.is_zero() {
            return self.mint(to, value);
        }
        if to.is_zero() {
            return self.burn(from, value);
        }
        self.transfer(from, to, value)
    }
    /// Compare every observable of the token with the ledger.
    pub fn check(&self, m: &mut Mon, addrs: &[Address]) {
        let t = self.addr;
        let mut sum = U256::ZERO;
        let mut overflow = false;
        for &x in addrs {
            let Some(r) = get(m, t, IToken::balanceOfCall { account: x }) else { return };
            if !m.eq("state/balanceOf", (nm(x), r._0), (nm(x), self.b(x))) {
                return;
            }
            match sum.checked_add(r._0) {
                Some(s) => sum = s,
                None => overflow = true,
            }
        }
        let Some(r) = get(m, t, IToken::totalSupplyCall {}) else { return };
        m.eq("state/totalSupply", r._0, self.supply);
        m.check(!overflow && sum == r._0, "conservation/sum-of-balances", || {
            format!("sum of balances {sum} (overflow {overflow}) but totalSupply {}", r._0)
        });
        for &o in addrs {
            for &s in addrs {
                let Some(r) = get(m, t, IToken::allowanceCall { owner: o, spender: s }) else {
                    return;
                };
                if !m.eq("state/allowance", (nm(o), nm(s), r._0), (nm(o), nm(s), self.al(o, s))) {
                    return;
                }
            }
        }
    }
    pub fn digest(&self) -> u64 {
        crate::mon::hash_str(&format!("{:?}{:?}{}", self.bal, self.allow, self.supply))
    }
}

pub fn to_expect(r: Res, ret: Option<Vec<u8>>) -> Expect {
    match r {
        Ok(logs) => Expect::Ok { ret, logs },
        Err(e) => Expect::Err(e),
    }
}

/// Amounts that hit the interesting thresholds of the current state.
pub fn gen_amount(m: &mut Mon, l: &Ledger, from: Address, spender: Option<Address>) -> U256 {
    match m.rng.below(8) {
        0..=2 => m.rng.near(l.b(from)),
        3 | 4 if spender.is_some() => m.rng.near(l.al(from, spender.unwrap())),
        5 => {
            let room = U256::MAX - l.supply;
            m.rng.near(room)
        }
        _ => m.rng.amount(),
    }
}

pub trait RunOn: Sized {
    /// Run on a copy; commit to `dst` only on success.
    fn run<T, E>(self, f: impl FnOnce(&mut Self) -> Result<T, E>, dst: &mut Self) -> Result<T, E>;
}
impl<M: Sized> RunOn for M {
    fn run<T, E>(mut self, f: impl FnOnce(&mut Self) -> Result<T, E>, dst: &mut Self) -> Result<T, E> {
        let r = f(&mut self);
        if r.is_ok() {
            *dst = self;
        }
        r
    }
}
