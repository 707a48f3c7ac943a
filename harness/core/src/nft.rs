//! ERC-721 reference ledger.
use std::collections::{BTreeMap, BTreeSet};

use alloy_primitives::{Address, U256};
use alloy_sol_types::{sol, SolCall};

use crate::ledger::Res;
use crate::mon::Mon;
use crate::util::*;
use crate::vm::{self, Log, Outcome};

sol! {
    #[derive(Debug)]
    event NTransfer(address indexed from, address indexed to, uint256 indexed tokenId);
    #[derive(Debug)]
    event NApproval(address indexed owner, address indexed approved, uint256 indexed tokenId);
    #[derive(Debug)]
    event ApprovalForAll(address indexed owner, address indexed operator, bool approved);
    error ERC721InvalidOwner(address owner);
    error ERC721NonexistentToken(uint256 tokenId);
    error ERC721IncorrectOwner(address sender, uint256 tokenId, address owner);
    error ERC721InvalidSender(address sender);
    error ERC721InvalidReceiver(address receiver);
    error ERC721InsufficientApproval(address operator, uint256 tokenId);
    error ERC721InvalidApprover(address approver);
    error ERC721InvalidOperator(address operator);

    interface INft {
        function balanceOf(address owner) external view returns (uint256);
        function ownerOf(uint256 tokenId) external view returns (address);
        function transferFrom(address from, address to, uint256 tokenId) external;
        function approve(address to, uint256 tokenId) external;
        function setApprovalForAll(address operator, bool approved) external;
        function getApproved(uint256 tokenId) external view returns (address);
        function isApprovedForAll(address owner, address operator) external view returns (bool);
        function mint(address to, uint256 tokenId) external;
        function safeMint(address to, uint256 tokenId, bytes data) external;
        function burn(uint256 tokenId) external;
        function burnAny(uint256 tokenId) external;
        function moveAny(address from, address to, uint256 tokenId) external;
        function safeMoveAny(address from, address to, uint256 tokenId, bytes data) external;
        function updateAny(address to, uint256 tokenId, address auth) external returns (address);
        function approveAny(address to, uint256 tokenId, address auth, bool emitEvent) external;
        function setApprovalForAllAny(address owner, address operator, bool approved) external;
        function onERC721Received(address operator, address from, uint256 tokenId, bytes data) external returns (bytes4);
    }
    interface ISafe3 {
        function safeTransferFrom(address from, address to, uint256 tokenId) external;
    }
    interface ISafe4 {
        function safeTransferFrom(address from, address to, uint256 tokenId, bytes data) external;
    }
}

#[derive(Clone, Default, Debug)]
pub struct Nft {
    pub addr: Address,
    /// Explicit ownership; the zero address marks a burned token.
    pub owner: BTreeMap<U256, Address>,
    /// Consecutively minted ranges (first, last, owner).
    pub batches: Vec<(U256, U256, Address)>,
    pub bal: BTreeMap<Address, U256>,
    pub appr: BTreeMap<U256, Address>,
    pub op: BTreeSet<(Address, Address)>,
}

fn fix(mut l: Log, name: &str) -> Log {
    l.topics[0] = vm::keccak(name.as_bytes());
    l
}

impl Nft {
    pub fn new(addr: Address) -> Self {
        Self { addr, ..Default::default() }
    }
    pub fn own(&self, id: U256) -> Address {
        if let Some(o) = self.owner.get(&id) {
            return *o;
        }
        for (f, l, o) in &self.batches {
            if id >= *f && id <= *l {
                return *o;
            }
        }
        Address::ZERO
    }
    pub fn b(&self, x: Address) -> U256 {
        self.bal.get(&x).copied().unwrap_or_default()
    }
    pub fn ap(&self, id: U256) -> Address {
        self.appr.get(&id).copied().unwrap_or_default()
    }
    pub fn is_op(&self, o: Address, s: Address) -> bool {
        self.op.contains(&(o, s))
    }
    pub fn authorized(&self, owner: Address, s: Address, id: U256) -> bool {
        !s.is_zero() && (owner == s || self.is_op(owner, s) || self.ap(id) == s)
    }
    pub fn ev_transfer(&self, from: Address, to: Address, id: U256) -> Log {
        fix(ev(self.addr, &NTransfer { from, to, tokenId: id }), "Transfer(address,address,uint256)")
    }
    fn set(&mut self, to: Address, id: U256) -> Log {
        let from = self.own(id);
        if !from.is_zero() {
            let b = self.b(from) - ONE;
            self.bal.insert(from, b);
        }
        if !to.is_zero() {
            let b = self.b(to) + ONE;
            self.bal.insert(to, b);
        }
        self.appr.remove(&id);
        self.owner.insert(id, to);
        self.ev_transfer(from, to, id)
    }
    fn auth_errs(&self, s: Address, id: U256) -> Vec<Vec<u8>> {
        let o = self.own(id);
        let mut e = vec![];
        if o.is_zero() {
            e.push(err(ERC721NonexistentToken { tokenId: id }));
        } else if !self.authorized(o, s, id) {
            e.push(err(ERC721InsufficientApproval { operator: s, tokenId: id }));
        }
        e
    }
    fn recv_errs(&self, to: Address) -> Vec<Vec<u8>> {
        if to.is_zero() {
            vec![err(ERC721InvalidReceiver { receiver: to })]
        } else {
            vec![]
        }
    }
    pub fn transfer_from(&mut self, s: Address, from: Address, to: Address, id: U256) -> Res {
        let mut e = self.recv_errs(to);
        e.extend(self.auth_errs(s, id));
        let o = self.own(id);
        if o != from {
            e.push(err(ERC721IncorrectOwner { sender: from, tokenId: id, owner: o }));
        }
        if !e.is_empty() {
            return Err(e);
        }
        Ok(vec![self.set(to, id)])
    }
    /// `_transfer`: no authorization.
    pub fn transfer(&mut self, from: Address, to: Address, id: U256) -> Res {
        let mut e = self.recv_errs(to);
        let o = self.own(id);
        if o.is_zero() {
            e.push(err(ERC721NonexistentToken { tokenId: id }));
        } else if o != from {
            e.push(err(ERC721IncorrectOwner { sender: from, tokenId: id, owner: o }));
        }
        if !e.is_empty() {
            return Err(e);
        }
        Ok(vec![self.set(to, id)])
    }
    pub fn mint(&mut self, to: Address, id: U256) -> Res {
        let mut e = self.recv_errs(to);
        if !self.own(id).is_zero() {
            e.push(err(ERC721InvalidSender { sender: Address::ZERO }));
        }
        if !e.is_empty() {
            return Err(e);
        }
        Ok(vec![self.set(to, id)])
    }
    /// Burn by an authorized account; `None` skips authorization.
    pub fn burn(&mut self, s: Option<Address>, id: U256) -> Res {
        let e = match s {
            Some(s) => self.auth_errs(s, id),
            None if self.own(id).is_zero() => {
                vec![err(ERC721NonexistentToken { tokenId: id })]
            }
            None => vec![],
        };
        if !e.is_empty() {
            return Err(e);
        }
        Ok(vec![self.set(Address::ZERO, id)])
    }
    /// `_update`: previous owner and logs.
    pub fn update(&mut self, to: Address, id: U256, auth: Address) -> Result<(Address, Vec<Log>), Vec<Vec<u8>>> {
        if !auth.is_zero() {
            let e = self.auth_errs(auth, id);
            if !e.is_empty() {
                return Err(e);
            }
        }
        let prev = self.own(id);
        Ok((prev, vec![self.set(to, id)]))
    }
    pub fn approve(&mut self, to: Address, id: U256, auth: Address, emit: bool) -> Res {
        let o = self.own(id);
        let mut logs = vec![];
        if emit || !auth.is_zero() {
            let mut e = vec![];
            if o.is_zero() {
                e.push(err(ERC721NonexistentToken { tokenId: id }));
            } else if !auth.is_zero() && auth != o && !self.is_op(o, auth) {
                e.push(err(ERC721InvalidApprover { approver: auth }));
            }
            if !e.is_empty() {
                return Err(e);
            }
            if emit {
                logs.push(fix(
                    ev(self.addr, &NApproval { owner: o, approved: to, tokenId: id }),
                    "Approval(address,address,uint256)",
                ));
            }
        }
        self.appr.insert(id, to);
        Ok(logs)
    }
    pub fn set_all(&mut self, owner: Address, operator: Address, approved: bool) -> Res {
        if operator.is_zero() {
            return Err(vec![err(ERC721InvalidOperator { operator })]);
        }
        if approved {
            self.op.insert((owner, operator));
        } else {
            self.op.remove(&(owner, operator));
        }
        Ok(vec![ev(self.addr, &ApprovalForAll { owner, operator, approved })])
    }
    /// Compare observables. `ids` should contain every id that may exist when
    /// `count` is set (then balances are also counted from ownership).
    pub fn check(&self, m: &mut Mon, addrs: &[Address], ids: &[U256], count: bool) {
        let t = self.addr;
        let mut cnt: BTreeMap<Address, U256> = BTreeMap::new();
        for &id in ids {
            let o = peek_call(t, INft::ownerOfCall { tokenId: id });
            let w = self.own(id);
            let wa = if w.is_zero() {
                Outcome::Revert(err(ERC721NonexistentToken { tokenId: id }))
            } else {
                Outcome::Ok(word_addr(w).to_vec())
            };
            if !m.check(o == wa, "state/ownerOf", || {
                format!("ownerOf({id}) observed {} expected owner {}", show(&o), nm(w))
            }) {
                return;
            }
            if let Outcome::Ok(d) = &o {
                let e = cnt.entry(Address::from_slice(&d[12..])).or_default();
                *e += ONE;
            }
            let o = peek_call(t, INft::getApprovedCall { tokenId: id });
            let wa = if w.is_zero() {
                Outcome::Revert(err(ERC721NonexistentToken { tokenId: id }))
            } else {
                Outcome::Ok(word_addr(self.ap(id)).to_vec())
            };
            if !m.check(o == wa, "state/getApproved", || {
                format!("getApproved({id}) observed {} expected {}", show(&o), nm(self.ap(id)))
            }) {
                return;
            }
        }
        for &x in addrs {
            let o = peek_call(t, INft::balanceOfCall { owner: x });
            let wa = if x.is_zero() {
                Outcome::Revert(err(ERC721InvalidOwner { owner: x }))
            } else {
                Outcome::Ok(word_u(self.b(x)).to_vec())
            };
            m.check(o == wa, "state/balanceOf", || {
                format!("balanceOf({}) observed {} expected {}", nm(x), show(&o), self.b(x))
            });
            if count && !x.is_zero() {
                let n = cnt.get(&x).copied().unwrap_or_default();
                if let Outcome::Ok(d) = &o {
                    let b = U256::from_be_slice(d);
                    m.check(b == n, "conservation/balance-is-owned-count", || {
                        format!("{} has balance {b} but owns {n} tokens", nm(x))
                    });
                }
            }
            for &y in addrs {
                let Some(r) = get(m, t, INft::isApprovedForAllCall { owner: x, operator: y }) else {
                    return;
                };
                if !m.eq("state/isApprovedForAll", r._0, self.is_op(x, y)) {
                    return;
                }
            }
        }
    }
    pub fn digest(&self) -> u64 {
        crate::mon::hash_str(&format!(
            "{:?}{:?}{:?}{:?}{:?}",
            self.owner, self.batches, self.bal, self.appr, self.op
        ))
    }
}

pub const MAGIC721: [u8; 4] = [0x15, 0x0b, 0x7a, 0x02];

/// A receiver that accepts everything.
pub fn install_good_receiver(x: Address) {
    vm::install(
        x,
        std::rc::Rc::new(|d: &[u8]| {
            if d.len() >= 4 && d[..4] == INft::onERC721ReceivedCall::SELECTOR {
                let mut w = [0u8; 32];
                w[..4].copy_from_slice(&MAGIC721);
                Ok(w.to_vec())
            } else {
                Err(vec![])
            }
        }),
    );
}
