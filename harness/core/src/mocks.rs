//! Scripted external contracts.
use std::cell::{Cell, RefCell};
use std::rc::Rc;

use alloy_primitives::{Address, B256, U256};
use alloy_sol_types::SolCall;

use crate::ledger::{Approval, IToken, Transfer};
use crate::util::*;
use crate::vm::{self, CallResult};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ret {
    True,
    Nothing,
    False,
    /// Raw return bytes.
    Bytes(Vec<u8>),
    Revert(Vec<u8>),
    Trap,
}

impl Ret {
    /// Does the call go through, whatever it answers?
    pub fn completes(&self) -> bool {
        !matches!(self, Ret::Revert(_) | Ret::Trap)
    }
    /// Would a caller that follows SafeERC20 treat this as success?
    pub fn safe_ok(&self) -> bool {
        match self {
            Ret::True | Ret::Nothing => true,
            Ret::False | Ret::Revert(_) | Ret::Trap => false,
            Ret::Bytes(b) => {
                b.is_empty()
                    || (b.len() >= 32 && b[31] == 1 && b[..31].iter().all(|x| *x == 0))
            }
        }
    }
}

pub type Hook = Rc<dyn Fn(&str)>;

#[derive(Clone)]
pub struct TokenScript {
    pub transfer: Ret,
    pub transfer_from: Ret,
    pub approve: Ret,
    /// Reactions to the first, second, ... approval; then `approve`.
    pub approve_seq: Vec<Ret>,
    pub approvals: Rc<Cell<usize>>,
    pub allowance_reverts: bool,
    /// Refuse non-zero to non-zero approvals (USDT).
    pub usdt: bool,
    pub balance_reverts: bool,
    /// Called before / after the effects of transfer and transferFrom.
    pub before: Option<Hook>,
    pub after: Option<Hook>,
}

impl Default for TokenScript {
    fn default() -> Self {
        Self {
            transfer: Ret::True,
            transfer_from: Ret::True,
            approve: Ret::True,
            approve_seq: vec![],
            approvals: Rc::new(Cell::new(0)),
            allowance_reverts: false,
            usdt: false,
            balance_reverts: false,
            before: None,
            after: None,
        }
    }
}

fn key(tag: u8, x: Address, y: Address) -> U256 {
    let mut b = vec![tag];
    b.extend_from_slice(x.as_slice());
    b.extend_from_slice(y.as_slice());
    vm::keccak(&b).into()
}

/// An ERC-20 whose balances live in journalled VM storage and whose reactions
/// follow a script shared with the driver.
#[derive(Clone)]
pub struct MockToken {
    pub addr: Address,
    pub script: Rc<RefCell<TokenScript>>,
}

impl MockToken {
    pub fn install(addr: Address) -> Self {
        let script = Rc::new(RefCell::new(TokenScript::default()));
        let s = script.clone();
        vm::install(addr, Rc::new(move |d: &[u8]| mock_token(&s, d)));
        Self { addr, script }
    }
    pub fn set(&self, x: Address, v: U256) {
        vm::poke(self.addr, key(1, x, Address::ZERO), v.into());
    }
    pub fn bal(&self, x: Address) -> U256 {
        vm::peek(self.addr, key(1, x, Address::ZERO)).into()
    }
    pub fn set_allow(&self, o: Address, s: Address, v: U256) {
        vm::poke(self.addr, key(2, o, s), v.into());
    }
    pub fn allow(&self, o: Address, s: Address) -> U256 {
        vm::peek(self.addr, key(2, o, s)).into()
    }
}

fn finish(r: &Ret) -> CallResult {
    match r {
        Ret::True => Ok(word_u(ONE).to_vec()),
        Ret::False => Ok(vec![0u8; 32]),
        Ret::Nothing => Ok(vec![]),
        Ret::Bytes(b) => Ok(b.clone()),
        Ret::Revert(b) => Err(b.clone()),
        Ret::Trap => panic!("mock trap"),
    }
}

fn mock_move(from: Address, to: Address, v: U256) -> bool {
    if from.is_zero() || to.is_zero() {
        return false;
    }
    let kf = key(1, from, Address::ZERO);
    let f = vm::sload(kf);
    if f < v {
        return false;
    }
    vm::sstore(kf, f - v);
    let kt = key(1, to, Address::ZERO);
    let Some(t) = vm::sload(kt).checked_add(v) else { return false };
    vm::sstore(kt, t);
    let e = ev(vm::me(), &Transfer { from, to, value: v });
    vm::emit(&e.topics, &e.data);
    true
}

fn mock_token(s: &Rc<RefCell<TokenScript>>, d: &[u8]) -> CallResult {
    let sc = s.borrow().clone();
    if d.len() < 4 {
        return Err(vec![]);
    }
    let sel: [u8; 4] = d[..4].try_into().unwrap();
    let me = vm::caller();
    match sel {
        IToken::transferCall::SELECTOR => {
            let c = IToken::transferCall::abi_decode(d, true).map_err(|_| vec![])?;
            if let Some(h) = &sc.before {
                h("transfer");
            }
            if !mock_move(me, c.to, c.value) {
                return Err(b"mock: transfer".to_vec());
            }
            if let Some(h) = &sc.after {
                h("transfer");
            }
            finish(&sc.transfer)
        }
        IToken::transferFromCall::SELECTOR => {
            let c = IToken::transferFromCall::abi_decode(d, true).map_err(|_| vec![])?;
            if let Some(h) = &sc.before {
                h("transferFrom");
            }
            let k = key(2, c.from, me);
            let al = vm::sload(k);
            if al < c.value {
                return Err(b"mock: allowance".to_vec());
            }
            if al != U256::MAX {
                vm::sstore(k, al - c.value);
            }
            if !mock_move(c.from, c.to, c.value) {
                return Err(b"mock: transferFrom".to_vec());
            }
            if let Some(h) = &sc.after {
                h("transferFrom");
            }
            finish(&sc.transfer_from)
        }
        IToken::approveCall::SELECTOR => {
            let c = IToken::approveCall::abi_decode(d, true).map_err(|_| vec![])?;
            let k = key(2, me, c.spender);
            let n = sc.approvals.get();
            sc.approvals.set(n + 1);
            if sc.usdt && !c.value.is_zero() && !vm::sload(k).is_zero() {
                return Err(b"mock: usdt".to_vec());
            }
            vm::sstore(k, c.value);
            let e = ev(vm::me(), &Approval { owner: me, spender: c.spender, value: c.value });
            vm::emit(&e.topics, &e.data);
            finish(sc.approve_seq.get(n).unwrap_or(&sc.approve))
        }
        IToken::balanceOfCall::SELECTOR => {
            if sc.balance_reverts {
                return Err(b"mock: balance".to_vec());
            }
            let c = IToken::balanceOfCall::abi_decode(d, true).map_err(|_| vec![])?;
            Ok(word_u(vm::sload(key(1, c.account, Address::ZERO))).to_vec())
        }
        IToken::allowanceCall::SELECTOR => {
            if sc.allowance_reverts {
                return Err(b"mock: allowance".to_vec());
            }
            let c = IToken::allowanceCall::abi_decode(d, true).map_err(|_| vec![])?;
            Ok(word_u(vm::sload(key(2, c.owner, c.spender))).to_vec())
        }
        _ => Err(b"mock: selector".to_vec()),
    }
}

/// Logs of one address.
pub fn logs_of(logs: &[vm::Log], x: Address) -> Vec<vm::Log> {
    logs.iter().filter(|l| l.addr == x).cloned().collect()
}

pub fn b32(x: U256) -> B256 {
    B256::from(x)
}
