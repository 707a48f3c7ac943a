//! P09: the ERC-721 ledger. P10: safe transfers only reach accepting receivers.
use std::cell::{Cell, RefCell};
use std::rc::Rc;

use alloy_primitives::{Address, U256};
use alloy_sol_types::SolCall;
use openzeppelin_stylus::token::erc721::{self, extensions::IErc721Burnable, Erc721};
use stylus_sdk::{abi::Bytes, prelude::*};
use vcore::ledger::{to_expect, Res, RunOn};
use vcore::mon::Mon;
use vcore::nft::*;
use vcore::util::*;
use vcore::vm;

#[storage]
pub struct NftH {
    #[borrow]
    erc721: Erc721,
}
unsafe impl TopLevelStorage for NftH {}
type E = erc721::Error;
#[public]
#[inherit(Erc721)]
impl NftH {
    fn mint(&mut self, to: Address, id: U256) -> Result<(), E> {
        self.erc721._mint(to, id)
    }
    fn safe_mint(&mut self, to: Address, id: U256, data: Bytes) -> Result<(), E> {
        self.erc721._safe_mint(to, id, &data)
    }
    fn burn(&mut self, id: U256) -> Result<(), E> {
        self.erc721.burn(id)
    }
    fn burn_any(&mut self, id: U256) -> Result<(), E> {
        self.erc721._burn(id)
    }
    fn move_any(&mut self, from: Address, to: Address, id: U256) -> Result<(), E> {
        self.erc721._transfer(from, to, id)
    }
    fn safe_move_any(&mut self, from: Address, to: Address, id: U256, data: Bytes) -> Result<(), E> {
        self.erc721._safe_transfer(from, to, id, &data)
    }
    fn update_any(&mut self, to: Address, id: U256, auth: Address) -> Result<Address, E> {
        self.erc721._update(to, id, auth)
    }
    fn approve_any(&mut self, to: Address, id: U256, auth: Address, emit_event: bool) -> Result<(), E> {
        self.erc721._approve(to, id, auth, emit_event)
    }
    fn set_approval_for_all_any(&mut self, owner: Address, operator: Address, approved: bool) -> Result<(), E> {
        self.erc721._set_approval_for_all(owner, operator, approved)
    }
}

pub fn gen_ids(m: &mut Mon) -> Vec<U256> {
    let mut v = vec![U256::ZERO, ONE, u(2), U256::MAX];
    let k = m.rng.idx(5);
    for _ in 0..k {
        v.push(m.rng.u256_width());
    }
    m.rng.twins(&mut v);
    v.sort();
    v.dedup();
    v
}

pub fn p09(m: &mut Mon) {
    let t = a(100);
    vm::install(t, vm::contract::<NftH>());
    vm::with(|w| w.allow_reentrancy = m.rng.chance(1, 2));
    let good = a(5);
    install_good_receiver(good);
    let users = [a(1), a(2), a(3), good, t];
    let mut all = users.to_vec();
    all.push(Address::ZERO);
    let ids = gen_ids(m);
    let mut l = Nft::new(t);
    let n = 16 + m.rng.idx(34);
    for i in 0..n {
        let s = *m.rng.pick(&users);
        let id = *m.rng.pick(&ids);
        let to = if m.rng.chance(1, 14) { Address::ZERO } else { *m.rng.pick(&users) };
        let f = match m.rng.below(8) {
            0 => *m.rng.pick(&all),
            _ => l.own(id),
        };
        // Mostly act as somebody with a right to.
        let s = if m.rng.chance(1, 3) && !l.own(id).is_zero() { l.own(id) } else { s };
        let payload = m.rng.payload();
        // The token contract itself is no receiver.
        let safe = |r: Res| match r {
            Ok(_) if to == t => Err(vec![err(ERC721InvalidReceiver { receiver: t })]),
            r => r,
        };
        let k = if i < 4 { m.rng.below(4) } else { m.rng.below(26) };
        let z = Some(vec![]);
        let (op, data, want) = match k {
            0..=3 => (
                "mint",
                INft::mintCall { to, tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.mint(to, id), &mut l), z),
            ),
            4..=8 => (
                "transferFrom",
                INft::transferFromCall { from: f, to, tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.transfer_from(s, f, to, id), &mut l), z),
            ),
            9 | 10 => (
                "safeTransferFrom",
                ISafe3::safeTransferFromCall { from: f, to, tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| safe(l.transfer_from(s, f, to, id)), &mut l), z),
            ),
            11 | 12 => (
                "safeTransferFromWithData",
                ISafe4::safeTransferFromCall { from: f, to, tokenId: id, data: payload.into() }
                    .abi_encode(),
                to_expect(l.clone().run(|l| safe(l.transfer_from(s, f, to, id)), &mut l), z),
            ),
            13..=15 => (
                "approve",
                INft::approveCall { to, tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.approve(to, id, s, true), &mut l), z),
            ),
            16 | 17 => {
                let ap = m.rng.chance(2, 3);
                (
                    "setApprovalForAll",
                    INft::setApprovalForAllCall { operator: to, approved: ap }.abi_encode(),
                    to_expect(l.clone().run(|l| l.set_all(s, to, ap), &mut l), z),
                )
            }
            18 => (
                "burn",
                INft::burnCall { tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.burn(Some(s), id), &mut l), z),
            ),
            19 => (
                "_burn",
                INft::burnAnyCall { tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.burn(None, id), &mut l), z),
            ),
            20 => (
                "_transfer",
                INft::moveAnyCall { from: f, to, tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.transfer(f, to, id), &mut l), z),
            ),
            21 => (
                "_safe_transfer",
                INft::safeMoveAnyCall { from: f, to, tokenId: id, data: payload.into() }.abi_encode(),
                to_expect(l.clone().run(|l| safe(l.transfer(f, to, id)), &mut l), z),
            ),
            22 => (
                "_safe_mint",
                INft::safeMintCall { to, tokenId: id, data: payload.into() }.abi_encode(),
                to_expect(l.clone().run(|l| safe(l.mint(to, id)), &mut l), z),
            ),
            23 => {
                let auth = *m.rng.pick(&all);
                let r = l.clone().run(|l| l.update(to, id, auth), &mut l);
                (
                    "_update",
                    INft::updateAnyCall { to, tokenId: id, auth }.abi_encode(),
                    match r {
                        Ok((p, logs)) => Expect::Ok { ret: ok_ret(&p), logs },
                        Err(e) => Expect::Err(e),
                    },
                )
            }
            24 => {
                let auth = *m.rng.pick(&all);
                // Without an owner the outcome only matters when guarded.
                let emit = m.rng.chance(1, 2) || l.own(id).is_zero();
                (
                    "_approve",
                    INft::approveAnyCall { to, tokenId: id, auth, emitEvent: emit }.abi_encode(),
                    to_expect(l.clone().run(|l| l.approve(to, id, auth, emit), &mut l), z),
                )
            }
            _ => {
                let ap = m.rng.chance(2, 3);
                let o = *m.rng.pick(&users);
                (
                    "_set_approval_for_all",
                    INft::setApprovalForAllAnyCall { owner: o, operator: to, approved: ap }.abi_encode(),
                    to_expect(l.clone().run(|l| l.set_all(o, to, ap), &mut l), z),
                )
            }
        };
        let (o, logs) = send(s, t, &data);
        m.step(format!("{} {op}({}) -> {}", nm(s), hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        l.check(m, &all, &ids, true);
        m.seen(l.digest());
        if m.failed() {
            return;
        }
    }
}

// ---- P10 -------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Reply {
    Magic,
    /// The acceptance value with one bit flipped.
    Wrong(usize),
    /// Some other value.
    Word(Vec<u8>),
    Zero,
    Nothing,
    Short,
    Revert(Vec<u8>),
    Trap,
}

impl Reply {
    pub fn gen(m: &mut Mon) -> Self {
        match m.rng.below(17) {
            16 => Reply::Word(odd_answer(m, &[0x15, 0x0b, 0x7a, 0x02])),
            0 => Reply::Wrong(m.rng.idx(32)),
            1 => Reply::Zero,
            2 => Reply::Nothing,
            3 => Reply::Short,
            4 => Reply::Revert(vec![]),
            5 => {
                let n = 1 + m.rng.idx(70);
                Reply::Revert(m.rng.bytes(n))
            }
            6 => Reply::Trap,
            _ => Reply::Magic,
        }
    }
    pub fn reply_with(&self, magic: [u8; 4]) -> vm::CallResult {
        let mut w = [0u8; 32];
        w[..4].copy_from_slice(&magic);
        match self {
            Reply::Magic => Ok(w.to_vec()),
            Reply::Wrong(b) => {
                w[*b / 8] ^= 1 << (*b % 8);
                Ok(w.to_vec())
            }
            Reply::Word(v) => Ok(v.clone()),
            Reply::Zero => Ok(vec![0; 32]),
            Reply::Nothing => Ok(vec![]),
            Reply::Short => Ok(magic.to_vec()),
            Reply::Revert(d) => Err(d.clone()),
            Reply::Trap => panic!("receiver trap"),
        }
    }
    /// Accepted?
    pub fn ok(&self) -> bool {
        matches!(self, Reply::Magic)
    }
}

#[derive(Clone, Debug)]
pub struct Rx {
    pub reply: Reply,
    /// Calls the receiver makes before replying (as itself), ignoring failures.
    pub acts: Vec<Act>,
}

#[derive(Clone, Debug)]
pub enum Act {
    Send(Address, U256),
    SafeSend(Address, U256),
    Approve(Address, U256),
    Operator(Address, bool),
    Burn(U256),
}

impl Act {
    fn data(&self, me: Address) -> Vec<u8> {
        match self {
            Act::Send(to, id) => INft::transferFromCall { from: me, to: *to, tokenId: *id }.abi_encode(),
            Act::SafeSend(to, id) => {
                ISafe4::safeTransferFromCall { from: me, to: *to, tokenId: *id, data: vec![9].into() }
                    .abi_encode()
            }
            Act::Approve(to, id) => INft::approveCall { to: *to, tokenId: *id }.abi_encode(),
            Act::Operator(o, b) => {
                INft::setApprovalForAllCall { operator: *o, approved: *b }.abi_encode()
            }
            Act::Burn(id) => INft::burnCall { tokenId: *id }.abi_encode(),
        }
    }
}

struct World {
    t: Address,
    rx: [Address; 2],
    /// Script per nesting depth.
    plan: Vec<Rx>,
    depth: Cell<usize>,
    seen: RefCell<Vec<Vec<u8>>>,
}

impl World {
    fn rx(&self, d: usize) -> Rx {
        self.plan.get(d).cloned().unwrap_or(Rx { reply: Reply::Magic, acts: vec![] })
    }
}

struct Model<'a> {
    w: &'a World,
    reenter: bool,
    seen: Vec<Vec<u8>>,
}

impl Model<'_> {
    fn receive(
        &mut self,
        l: &mut Nft,
        operator: Address,
        from: Address,
        to: Address,
        id: U256,
        data: &[u8],
        d: usize,
    ) -> Res {
        if !self.w.rx.contains(&to) {
            if to == self.w.t {
                // The token contract itself is no receiver.
                return Err(vec![err(ERC721InvalidReceiver { receiver: to })]);
            }
            return Ok(vec![]);
        }
        self.seen.push(
            INft::onERC721ReceivedCall { operator, from, tokenId: id, data: data.to_vec().into() }
                .abi_encode(),
        );
        let rx = self.w.rx(d);
        let mut logs = vec![];
        if self.reenter {
            for act in &rx.acts {
                let mut c = l.clone();
                let s0 = self.seen.clone();
                let r = match act {
                    Act::Send(x, i) => c.transfer_from(to, to, *x, *i),
                    Act::SafeSend(x, i) => match c.transfer_from(to, to, *x, *i) {
                        Ok(mut g) => self.receive(&mut c, to, to, *x, *i, &[9], d + 1).map(|h| {
                            g.extend(h);
                            g
                        }),
                        Err(e) => Err(e),
                    },
                    Act::Approve(x, i) => c.approve(*x, *i, to, true),
                    Act::Operator(x, b) => c.set_all(to, *x, *b),
                    Act::Burn(i) => c.burn(Some(to), *i),
                };
                match r {
                    Ok(g) => {
                        *l = c;
                        logs.extend(g);
                    }
                    Err(_) => {
                        let _ = s0;
                    }
                }
            }
        }
        let inv = err(ERC721InvalidReceiver { receiver: to });
        match rx.reply {
            r if r.ok() => Ok(logs),
            Reply::Revert(d) if !d.is_empty() => Err(vec![d]),
            _ => Err(vec![inv]),
        }
    }
}

pub fn p10(m: &mut Mon) {
    let t = a(100);
    vm::install(t, vm::contract::<NftH>());
    let reenter = m.rng.chance(3, 4);
    vm::with(|w| w.allow_reentrancy = reenter);
    let rx = [a(5), a(6)];
    let world: Rc<RefCell<World>> = Rc::new(RefCell::new(World {
        t,
        rx,
        plan: vec![],
        depth: Cell::new(0),
        seen: RefCell::new(vec![]),
    }));
    for x in rx {
        let w = world.clone();
        vm::install(
            x,
            Rc::new(move |d: &[u8]| {
                if d.len() < 4 || d[..4] != INft::onERC721ReceivedCall::SELECTOR {
                    return Err(vec![]);
                }
                let wb = w.borrow();
                wb.seen.borrow_mut().push(d.to_vec());
                let dd = wb.depth.get();
                let r = wb.rx(dd);
                wb.depth.set(dd + 1);
                for act in &r.acts {
                    let _ = vm::call(wb.t, U256::ZERO, &act.data(vm::me()));
                }
                wb.depth.set(dd);
                r.reply.reply_with(MAGIC721)
            }),
        );
    }
    let users = [a(1), a(2), rx[0], rx[1]];
    let mut all = users.to_vec();
    all.extend([Address::ZERO, t]);
    let ids = gen_ids(m);
    let mut l = Nft::new(t);
    for id in &ids {
        if m.rng.chance(3, 4) {
            let to = *m.rng.pick(&users);
            let (o, _) = send(a(1), t, &INft::mintCall { to, tokenId: *id }.abi_encode());
            m.check(o.is_ok() && l.mint(to, *id).is_ok(), "setup/mint", || show(&o));
        }
    }
    let n = 8 + m.rng.idx(14);
    for _ in 0..n {
        let mut plan = vec![];
        for _ in 0..3 {
            let mut acts = vec![];
            let na = m.rng.idx(4);
            for _ in 0..na {
                let id = *m.rng.pick(&ids);
                let x = if m.rng.chance(1, 12) { t } else { *m.rng.pick(&users) };
                acts.push(match m.rng.below(6) {
                    0 | 1 => Act::Send(x, id),
                    2 => Act::SafeSend(x, id),
                    3 => Act::Approve(x, id),
                    4 => Act::Operator(x, m.rng.chance(1, 2)),
                    _ => Act::Burn(id),
                });
            }
            plan.push(Rx { reply: Reply::gen(m), acts });
        }
        {
            let mut w = world.borrow_mut();
            w.plan = plan.clone();
            w.depth.set(0);
            w.seen.borrow_mut().clear();
        }
        let id = *m.rng.pick(&ids);
        let to = match m.rng.below(14) {
            0 => Address::ZERO,
            1 => t,
            _ => *m.rng.pick(&users),
        };
        let own = l.own(id);
        let s = if m.rng.chance(3, 4) && !own.is_zero() { own } else if m.rng.chance(1, 8) { t } else { *m.rng.pick(&users) };
        let f = if m.rng.chance(9, 10) { own } else { *m.rng.pick(&users) };
        let payload = m.rng.payload();
        let w = world.borrow();
        let mut mo = Model { w: &w, reenter, seen: vec![] };
        let mut c = l.clone();
        let (op, data, pre, from, pl): (_, _, Res, _, Vec<u8>) = match m.rng.below(6) {
            0 | 1 => (
                "safeTransferFrom",
                ISafe3::safeTransferFromCall { from: f, to, tokenId: id }.abi_encode(),
                c.transfer_from(s, f, to, id),
                f,
                vec![],
            ),
            2 | 3 => (
                "safeTransferFromWithData",
                ISafe4::safeTransferFromCall { from: f, to, tokenId: id, data: payload.clone().into() }
                    .abi_encode(),
                c.transfer_from(s, f, to, id),
                f,
                payload,
            ),
            4 => (
                "_safe_mint",
                INft::safeMintCall { to, tokenId: id, data: payload.clone().into() }.abi_encode(),
                c.mint(to, id),
                Address::ZERO,
                payload,
            ),
            _ => (
                "_safe_transfer",
                INft::safeMoveAnyCall { from: f, to, tokenId: id, data: payload.clone().into() }
                    .abi_encode(),
                c.transfer(f, to, id),
                f,
                payload,
            ),
        };
        let r = match pre {
            Ok(mut g) => mo.receive(&mut c, s, from, to, id, &pl, 0).map(|h| {
                g.extend(h);
                g
            }),
            Err(e) => Err(e),
        };
        let seen_want = mo.seen.clone();
        drop(w);
        let want = match r {
            Ok(logs) => {
                l = c;
                Expect::Ok { ret: Some(vec![]), logs }
            }
            Err(e) => Expect::Err(e),
        };
        let (o, logs) = send(s, t, &data);
        m.step(format!("{} {op}({}) receivers={plan:?} -> {}", nm(s), hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        if o.is_ok() {
            let seen = world.borrow().seen.borrow().clone();
            m.count(&format!("callbacks:{}", seen.len().min(5)));
            m.eq("callback/calldata", seen, seen_want);
        }
        l.check(m, &all, &ids, true);
        m.seen(l.digest() ^ vcore::mon::hash_str(&format!("{plan:?}")));
        if m.failed() {
            return;
        }
    }
}
