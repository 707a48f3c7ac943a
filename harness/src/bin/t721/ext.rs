//! P11: enumeration. P12: consecutive minting. P13: the ERC-721 wrapper.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use alloy_primitives::{Address, FixedBytes, B256, U256};
use alloy_primitives::aliases::U96;
use alloy_sol_types::{sol, SolCall};
use openzeppelin_stylus::token::erc721::extensions::{
    consecutive, enumerable, wrapper, Erc721Consecutive, Erc721Enumerable, Erc721Wrapper,
    IErc721Burnable,
};
use openzeppelin_stylus::token::erc721::{self, Erc721, IErc721};
use stylus_sdk::{abi::Bytes, prelude::*};
use vcore::ledger::{to_expect, Res, RunOn};
use vcore::mon::Mon;
use vcore::nft::*;
use vcore::util::*;
use vcore::vm::{self, Outcome};

use crate::plain::{NftH, Reply};

sol! {
    error ERC721OutOfBoundsIndex(address owner, uint256 index);
    error ERC721EnumerableForbiddenBatchMint();
    error ERC721ExceededMaxBatchMint(uint256 batchSize, uint256 maxBatch);
    error ERC721UnsupportedToken(address token);
    error Erc721FailedOperation(address token);
    #[derive(Debug)]
    event ConsecutiveTransfer(uint256 indexed fromTokenId, uint256 toTokenId, address indexed fromAddress, address indexed toAddress);

    interface IEnum {
        function totalSupply() external view returns (uint256);
        function tokenByIndex(uint256 index) external view returns (uint256);
        function tokenOfOwnerByIndex(address owner, uint256 index) external view returns (uint256);
        function checkIncrease(uint128 amount) external;
    }
    interface IConsec {
        function mintConsecutive(address to, uint96 batch) external returns (uint96);
    }
    interface IWrap {
        function underlying() external view returns (address);
        function depositFor(address account, uint256[] ids) external returns (bool);
        function withdrawTo(address account, uint256[] ids) external returns (bool);
        function recover(address account, uint256 id) external returns (uint256);
    }
}

// ---- P11 -------------------------------------------------------------------

#[derive(SolidityError, Debug)]
pub enum EnumErr {
    Erc721(erc721::Error),
    Enumerable(enumerable::Error),
}

#[storage]
pub struct EnumH {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    en: Erc721Enumerable,
}
unsafe impl TopLevelStorage for EnumH {}
#[public]
#[inherit(Erc721, Erc721Enumerable)]
impl EnumH {
    fn mint(&mut self, to: Address, id: U256) -> Result<(), EnumErr> {
        self.erc721._mint(to, id)?;
        self.en._add_token_to_all_tokens_enumeration(id);
        self.en._add_token_to_owner_enumeration(to, id, &self.erc721)?;
        Ok(())
    }
    fn burn(&mut self, id: U256) -> Result<(), EnumErr> {
        let o = self.erc721.owner_of(id)?;
        self.erc721.burn(id)?;
        self.en._remove_token_from_owner_enumeration(o, id, &self.erc721)?;
        self.en._remove_token_from_all_tokens_enumeration(id);
        Ok(())
    }
    fn transfer_from(&mut self, from: Address, to: Address, id: U256) -> Result<(), EnumErr> {
        let o = self.erc721.owner_of(id)?;
        self.erc721.transfer_from(from, to, id)?;
        if o != to {
            self.en._remove_token_from_owner_enumeration(o, id, &self.erc721)?;
            self.en._add_token_to_owner_enumeration(to, id, &self.erc721)?;
        }
        Ok(())
    }
    fn check_increase(&mut self, amount: u128) -> Result<(), EnumErr> {
        Ok(Erc721Enumerable::_check_increase_balance(amount)?)
    }
}

fn check_enum(m: &mut Mon, t: Address, l: &Nft, users: &[Address], extra: &[U256]) {
    let mut by: BTreeMap<Address, BTreeSet<U256>> = BTreeMap::new();
    let mut all: BTreeSet<U256> = BTreeSet::new();
    for (id, o) in &l.owner {
        if !o.is_zero() {
            by.entry(*o).or_default().insert(*id);
            all.insert(*id);
        }
    }
    let Some(r) = get(m, t, IEnum::totalSupplyCall {}) else { return };
    let n = u(all.len() as u64);
    if !m.eq("totalSupply", r._0, n) {
        return;
    }
    let mut got = vec![];
    for i in 0..all.len() {
        let Some(r) = get(m, t, IEnum::tokenByIndexCall { index: u(i as u64) }) else { return };
        got.push(r._0);
    }
    got.sort();
    let want: Vec<U256> = all.iter().copied().collect();
    if !m.eq("tokenByIndex/enumerates-all", got, want) {
        return;
    }
    let mut outs = vec![n, n + ONE, U256::MAX];
    outs.extend(extra.iter().copied().filter(|x| *x >= n));
    for index in outs {
        let o = peek_call(t, IEnum::tokenByIndexCall { index });
        let w = err(ERC721OutOfBoundsIndex { owner: Address::ZERO, index });
        m.check(o == Outcome::Revert(w), "tokenByIndex/out-of-bounds", || {
            format!("tokenByIndex({index}) with supply {n} -> {}", show(&o))
        });
    }
    let none = BTreeSet::new();
    for &x in users {
        let mine = by.get(&x).unwrap_or(&none);
        let k = mine.len() as u64;
        let mut got = vec![];
        let mut oob = 0;
        for i in 0..k {
            let c = IEnum::tokenOfOwnerByIndexCall { owner: x, index: u(i) };
            let o = peek_call(t, c.clone());
            match &o {
                Outcome::Ok(d) if d.len() == 32 => got.push(U256::from_be_slice(d)),
                Outcome::Revert(e) if mine.contains(&U256::ZERO) && *e == err(ERC721OutOfBoundsIndex { owner: x, index: u(i) }) => oob += 1,
                _ => {
                    m.fail("tokenOfOwnerByIndex/failed", format!("index {i} of {k} -> {}", show(&o)));
                    return;
                }
            }
        }
        if oob == 1 && !got.contains(&U256::ZERO) {
            // Known: token id 0 is reported as out of bounds.
            let f = m.ep_failed;
            m.fail(
                "tokenOfOwnerByIndex/token-id-zero",
                format!("{} owns token 0 but its index reports ERC721OutOfBoundsIndex", nm(x)),
            );
            m.ep_failed = f;
            m.count("tokenOfOwnerByIndex:id-zero");
            got.push(U256::ZERO);
        }
        got.sort();
        let want: Vec<U256> = mine.iter().copied().collect();
        if !m.eq("tokenOfOwnerByIndex/enumerates-owned", (nm(x), got), (nm(x), want)) {
            return;
        }
        for index in [u(k), u(k + 1), u(k + 7), U256::MAX] {
            let o = peek_call(t, IEnum::tokenOfOwnerByIndexCall { owner: x, index });
            let w = err(ERC721OutOfBoundsIndex { owner: x, index });
            m.check(o == Outcome::Revert(w), "tokenOfOwnerByIndex/out-of-bounds", || {
                format!("tokenOfOwnerByIndex({}, {index}) with balance {k} -> {}", nm(x), show(&o))
            });
        }
    }
}

pub fn p11(m: &mut Mon) {
    let t = a(100);
    vm::install(t, vm::contract::<EnumH>());
    let users = [a(1), a(2), a(3), t];
    let mut all = users.to_vec();
    all.push(Address::ZERO);
    let mut ids = vec![];
    if m.rng.chance(1, 4) {
        ids.push(U256::ZERO);
    }
    let k = 2 + m.rng.idx(12);
    for i in 0..k {
        ids.push(if m.rng.chance(3, 4) { u(i as u64 + 1) } else { m.rng.u256_width() | ONE });
    }
    if m.rng.chance(1, 3) {
        ids.push(U256::MAX);
    }
    m.rng.twins(&mut ids);
    ids.sort();
    ids.dedup();
    let mut l = Nft::new(t);
    let n = 20 + m.rng.idx(50);
    for i in 0..n {
        let id = *m.rng.pick(&ids);
        let own = l.own(id);
        let s = if m.rng.chance(4, 5) && !own.is_zero() { own } else { *m.rng.pick(&users) };
        let to = if m.rng.chance(1, 20) { Address::ZERO } else { *m.rng.pick(&users) };
        let f = if m.rng.chance(14, 15) { own } else { *m.rng.pick(&users) };
        let z = Some(vec![]);
        let kk = if i < 6 { m.rng.below(5) } else { m.rng.below(15) };
        let (op, data, want) = match kk {
            0..=3 => (
                "mint",
                INft::mintCall { to, tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.mint(to, id), &mut l), z),
            ),
            4..=9 => (
                "transferFrom",
                INft::transferFromCall { from: f, to, tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.transfer_from(s, f, to, id), &mut l), z),
            ),
            10..=12 => (
                "burn",
                INft::burnCall { tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.burn(Some(s), id), &mut l), z),
            ),
            13 => (
                "approve",
                INft::approveCall { to, tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.approve(to, id, s, true), &mut l), z),
            ),
            _ => {
                let amount = match m.rng.below(4) {
                    0 => 0u128,
                    1 => 1,
                    2 => u128::MAX,
                    _ => (m.rng.next() as u128) << m.rng.idx(65),
                };
                (
                    "_check_increase_balance",
                    IEnum::checkIncreaseCall { amount }.abi_encode(),
                    if amount == 0 {
                        Expect::Ok { ret: z, logs: vec![] }
                    } else {
                        Expect::Err(vec![err(ERC721EnumerableForbiddenBatchMint {})])
                    },
                )
            }
        };
        let (o, logs) = send(s, t, &data);
        m.step(format!("{} {op}({}) -> {}", nm(s), hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        l.check(m, &all, &ids, true);
        check_enum(m, t, &l, &all, &ids);
        m.seen(l.digest());
        if m.failed() {
            return;
        }
    }
}

// ---- P12 -------------------------------------------------------------------

#[storage]
pub struct ConsH {
    #[borrow]
    erc721: Erc721Consecutive,
}
unsafe impl TopLevelStorage for ConsH {}
type CE = consecutive::Error;
#[public]
#[inherit(Erc721Consecutive)]
impl ConsH {
    fn mint_consecutive(&mut self, to: Address, batch: U96) -> Result<U96, CE> {
        self.erc721._mint_consecutive(to, batch)
    }
    fn mint(&mut self, to: Address, id: U256) -> Result<(), CE> {
        self.erc721._mint(to, id)
    }
    fn safe_mint(&mut self, to: Address, id: U256, data: Bytes) -> Result<(), CE> {
        self.erc721._safe_mint(to, id, &data)
    }
    fn burn_any(&mut self, id: U256) -> Result<(), CE> {
        self.erc721._burn(id)
    }
    fn move_any(&mut self, from: Address, to: Address, id: U256) -> Result<(), CE> {
        self.erc721._transfer(from, to, id)
    }
    fn safe_move_any(&mut self, from: Address, to: Address, id: U256, data: Bytes) -> Result<(), CE> {
        self.erc721._safe_transfer(from, to, id, &data)
    }
    fn update_any(&mut self, to: Address, id: U256, auth: Address) -> Result<Address, CE> {
        self.erc721._update(to, id, auth)
    }
    fn approve_any(&mut self, to: Address, id: U256, auth: Address, emit_event: bool) -> Result<(), CE> {
        self.erc721._approve(to, id, auth, emit_event)
    }
}

const MAX96: U256 = U256::from_limbs([u64::MAX, 0xffff_ffff, 0, 0]);

fn u96(x: U256) -> U96 {
    U96::from(x)
}

pub fn p12(m: &mut Mon) {
    let t = a(100);
    vm::install(t, vm::contract::<ConsH>());
    let good = a(5);
    install_good_receiver(good);
    let users = [a(1), a(2), a(3), good, t];
    let mut all = users.to_vec();
    all.push(Address::ZERO);
    let first = match m.rng.below(8) {
        0..=2 => U256::ZERO,
        3 => ONE,
        4 => u(m.rng.below(1000)),
        5 => MAX96 - u(m.rng.below(24)),
        6 => u(250 + m.rng.below(10)),
        _ => m.rng.u256() & (MAX96 >> 2),
    };
    let max = match m.rng.below(6) {
        0 => u(m.rng.below(7)),
        1 => MAX96,
        2 => u(m.rng.below(1 << 40)),
        _ => u(5000),
    };
    vm::poke(t, u(6), packed(&[(first, 12), (max, 12)]));
    let small = m.rng.chance(2, 3);
    let mut l = Nft::new(t);
    let mut next = first;
    // The id space may run out exactly at 2^96 - 1.
    let mut full = false;
    let mut ids: BTreeSet<U256> = BTreeSet::new();
    ids.extend([U256::ZERO, first, MAX96, MAX96 + ONE, U256::MAX, U256::from(1u64) << 96usize]);
    if !first.is_zero() {
        ids.insert(first - ONE);
    }
    let n = 14 + m.rng.idx(26);
    let nb = m.rng.idx(10);
    for i in 0..n {
        let idv: Vec<U256> = ids.iter().copied().collect();
        let id = match m.rng.below(10) {
            0 => next,
            1 if !l.batches.is_empty() => {
                let (f, la, _) = *m.rng.pick(&l.batches);
                let x = m.rng.u256() % (la - f + ONE);
                f + x
            }
            _ => *m.rng.pick(&idv),
        };
        if ids.len() < 90 {
            ids.insert(id);
        }
        let to = match m.rng.below(16) {
            0 => Address::ZERO,
            _ => *m.rng.pick(&users),
        };
        let own = l.own(id);
        let s = if m.rng.chance(3, 4) && !own.is_zero() { own } else { *m.rng.pick(&users) };
        let f = if m.rng.chance(12, 13) { own } else { *m.rng.pick(&users) };
        let z = Some(vec![]);
        // The token contract itself is no receiver.
        let safe = |r: Res| match r {
            Ok(_) if to == t => Err(vec![err(ERC721InvalidReceiver { receiver: t })]),
            r => r,
        };
        let before = l.clone();
        // Operations that consult the next id may fail once the space is full.
        let mut may_trap = false;
        let k = if i < nb { 20 } else { m.rng.below(22) };
        let (op, data, want) = match k {
            0..=4 => (
                "transferFrom",
                INft::transferFromCall { from: f, to, tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.transfer_from(s, f, to, id), &mut l), z),
            ),
            5 => (
                "safeTransferFrom",
                ISafe3::safeTransferFromCall { from: f, to, tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| safe(l.transfer_from(s, f, to, id)), &mut l), z),
            ),
            6 => (
                "safeTransferFromWithData",
                ISafe4::safeTransferFromCall { from: f, to, tokenId: id, data: vec![1, 2].into() }
                    .abi_encode(),
                to_expect(l.clone().run(|l| safe(l.transfer_from(s, f, to, id)), &mut l), z),
            ),
            7 | 8 => (
                "approve",
                INft::approveCall { to, tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.approve(to, id, s, true), &mut l), z),
            ),
            9 => {
                let ap = m.rng.chance(1, 2);
                (
                    "setApprovalForAll",
                    INft::setApprovalForAllCall { operator: to, approved: ap }.abi_encode(),
                    to_expect(l.clone().run(|l| l.set_all(s, to, ap), &mut l), z),
                )
            }
            10 | 11 => {
                may_trap = full;
                (
                    "_burn",
                    INft::burnAnyCall { tokenId: id }.abi_encode(),
                    to_expect(l.clone().run(|l| l.burn(None, id), &mut l), z),
                )
            }
            12 => (
                "_mint",
                INft::mintCall { to, tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.mint(to, id), &mut l), z),
            ),
            13 => (
                "_safe_mint",
                INft::safeMintCall { to, tokenId: id, data: vec![7].into() }.abi_encode(),
                to_expect(l.clone().run(|l| safe(l.mint(to, id)), &mut l), z),
            ),
            14 => (
                "_transfer",
                INft::moveAnyCall { from: f, to, tokenId: id }.abi_encode(),
                to_expect(l.clone().run(|l| l.transfer(f, to, id), &mut l), z),
            ),
            15 => (
                "_safe_transfer",
                INft::safeMoveAnyCall { from: f, to, tokenId: id, data: vec![].into() }.abi_encode(),
                to_expect(l.clone().run(|l| safe(l.transfer(f, to, id)), &mut l), z),
            ),
            16 | 17 => {
                let auth = *m.rng.pick(&all);
                may_trap = full && to.is_zero();
                let r = l.clone().run(|l| l.update(to, id, auth), &mut l);
                (
                    "_update",
                    INft::updateAnyCall { to, tokenId: id, auth }.abi_encode(),
                    match r {
                        Ok((p, logs)) => Expect::Ok { ret: ok_ret(&p), logs },
                        Err(e) => Expect::Err(e),
                    },
                )
            }
            18 => {
                let auth = *m.rng.pick(&all);
                let emit = m.rng.chance(1, 2) || own.is_zero();
                (
                    "_approve",
                    INft::approveAnyCall { to, tokenId: id, auth, emitEvent: emit }.abi_encode(),
                    to_expect(l.clone().run(|l| l.approve(to, id, auth, emit), &mut l), z),
                )
            }
            _ => {
                let room = if full { U256::ZERO } else { MAX96 - next + ONE };
                let batch = if small {
                    u(m.rng.below(9))
                } else {
                    match m.rng.below(6) {
                        0 => m.rng.near(max) & MAX96,
                        1 => m.rng.near(room) & MAX96,
                        2 => m.rng.u256() & MAX96 >> m.rng.idx(96),
                        _ => u(m.rng.below(400)),
                    }
                };
                // Batches are defined over ids never minted individually.
                let end = next.saturating_add(batch);
                if !full && l.owner.keys().any(|x| *x >= next && *x < end) {
                    continue;
                }
                let mut e = vec![];
                if !batch.is_zero() {
                    if to.is_zero() {
                        e.push(err(ERC721InvalidReceiver { receiver: to }));
                    }
                    if batch > max {
                        e.push(err(ERC721ExceededMaxBatchMint { batchSize: batch, maxBatch: max }));
                    }
                } else {
                    may_trap = full;
                }
                let want = if batch > room {
                    // Out of ids: how it is refused is not specified.
                    Expect::Err(vec![])
                } else if !e.is_empty() {
                    Expect::Err(e)
                } else if batch.is_zero() {
                    Expect::Ok { ret: Some(word_u(next).to_vec()), logs: vec![] }
                } else {
                    let ret = Some(word_u(next).to_vec());
                    let last = next + batch - ONE;
                    l.batches.push((next, last, to));
                    let b = l.b(to) + batch;
                    l.bal.insert(to, b);
                    let lg = ev(
                        t,
                        &ConsecutiveTransfer {
                            fromTokenId: next,
                            toTokenId: last,
                            fromAddress: Address::ZERO,
                            toAddress: to,
                        },
                    );
                    if small {
                        let mut x = next;
                        while x <= last {
                            ids.insert(x);
                            x += ONE;
                        }
                    } else {
                        ids.extend([next, last, last + ONE, next + (batch >> 1)]);
                    }
                    next = last + ONE;
                    if last == MAX96 {
                        full = true;
                    }
                    Expect::Ok { ret, logs: vec![lg] }
                };
                ("_mint_consecutive", IConsec::mintConsecutiveCall { to, batch: conv96(batch) }.abi_encode(), want)
            }
        };
        let (o, logs) = send(s, t, &data);
        m.step(format!("{} {op}({}) -> {}", nm(s), hex(&data[4..]), show(&o)));
        if may_trap && !o.is_ok() {
            m.count("refused-when-id-space-is-full");
            l = before;
        } else if !judge(m, op, &o, &logs, &want) {
            return;
        }
        if full {
            m.count("states-with-full-id-space");
        }
        let v: Vec<U256> = ids.iter().copied().collect();
        l.check(m, &all, &v, small);
        m.seen(l.digest());
        if m.failed() {
            return;
        }
    }
}

fn conv96(x: U256) -> alloy_primitives::Uint<96, 2> {
    u96(x)
}

// ---- P13 -------------------------------------------------------------------

/// Stands in when `_recover` cannot be called from a contract.
trait Unreachable {
    fn _recover(&mut self, _: Address, _: U256, _: &mut Erc721) -> Result<U256, wrapper::Error> {
        panic!("Erc721Wrapper::_recover cannot be exposed")
    }
}
impl Unreachable for Erc721Wrapper {}

#[storage]
pub struct WrapH {
    #[borrow]
    erc721: Erc721,
    w: Erc721Wrapper,
}
unsafe impl TopLevelStorage for WrapH {}
#[public]
#[inherit(Erc721)]
impl WrapH {
    fn underlying(&self) -> Address {
        self.w.underlying()
    }
    fn deposit_for(&mut self, account: Address, ids: Vec<U256>) -> Result<bool, wrapper::Error> {
        self.w.deposit_for(account, ids, &mut self.erc721)
    }
    fn withdraw_to(&mut self, account: Address, ids: Vec<U256>) -> Result<bool, wrapper::Error> {
        self.w.withdraw_to(account, ids, &mut self.erc721)
    }
    fn recover(&mut self, account: Address, id: U256) -> Result<U256, wrapper::Error> {
        self.w._recover(account, id, &mut self.erc721)
    }
    #[selector(name = "onERC721Received")]
    fn on_erc721_received(
        &mut self,
        operator: Address,
        from: Address,
        id: U256,
        data: Bytes,
    ) -> Result<FixedBytes<4>, wrapper::Error> {
        self.w.on_erc721_received(operator, from, id, data, &mut self.erc721)
    }
}

#[derive(Clone, Debug)]
enum Fault {
    None,
    Revert(Vec<u8>),
    Trap,
}

struct WModel {
    t: Address,
    ul: Address,
    rx: Address,
    reply: Reply,
    fault: Fault,
    reenter: bool,
}

type Two = (Nft, Nft);

impl WModel {
    /// Errors of delivering a token of `tok` to `to` (None: accepted).
    /// Delivery of the underlying to the wrapper mints; handled by the caller.
    fn accept(&self, to: Address) -> Result<(), Vec<Vec<u8>>> {
        if to != self.rx {
            return Ok(());
        }
        match &self.reply {
            r if r.ok() => Ok(()),
            Reply::Revert(d) if !d.is_empty() => Err(vec![d.clone()]),
            _ => Err(vec![err(ERC721InvalidReceiver { receiver: to })]),
        }
    }
    /// `_safe_mint` of a wrapped token, the wrapper being the caller.
    fn wrap_mint(&self, s: &mut Two, to: Address, id: U256) -> Res {
        let logs = s.1.mint(to, id)?;
        if to == self.t {
            return Err(vec![if self.reenter {
                err(ERC721UnsupportedToken { token: self.t })
            } else {
                err(ERC721InvalidReceiver { receiver: self.t })
            }]);
        }
        if to == self.ul {
            // The token contract is no receiver; it may even be on the stack.
            let mut e = vec![err(ERC721InvalidReceiver { receiver: to })];
            if let Fault::Revert(d) = &self.fault {
                e.extend((!d.is_empty()).then(|| d.clone()));
            }
            return Err(e);
        }
        self.accept(to)?;
        Ok(logs)
    }
    fn op_failed(&self, e: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
        e.into_iter()
            .map(|d| if d.is_empty() { err(Erc721FailedOperation { token: self.ul }) } else { d })
            .collect()
    }
    fn faulty(&self) -> Result<(), Vec<Vec<u8>>> {
        match &self.fault {
            Fault::None => Ok(()),
            Fault::Revert(d) => Err(vec![d.clone()]),
            Fault::Trap => Err(vec![vec![]]),
        }
    }
    fn deposit(&self, s: &mut Two, sender: Address, account: Address, ids: &[U256]) -> Res {
        let mut logs = vec![];
        for id in ids {
            self.faulty().map_err(|e| self.op_failed(e))?;
            logs.extend(
                s.0.transfer_from(self.t, sender, self.t, *id).map_err(|e| self.op_failed(e))?,
            );
            logs.extend(self.wrap_mint(s, account, *id)?);
        }
        Ok(logs)
    }
    /// Mint for an underlying token the wrapper holds without a wrapped one.
    fn recover(&self, s: &mut Two, account: Address, id: U256) -> Res {
        let own = s.0.own(id);
        if own.is_zero() || self.faulty().is_err() {
            return Err(vec![err(Erc721FailedOperation { token: self.ul })]);
        }
        if own != self.t {
            return Err(vec![err(ERC721IncorrectOwner { sender: self.t, tokenId: id, owner: own })]);
        }
        self.wrap_mint(s, account, id)
    }
    fn withdraw(&self, s: &mut Two, sender: Address, account: Address, ids: &[U256]) -> Res {
        let mut logs = vec![];
        for id in ids {
            logs.extend(s.1.burn(Some(sender), *id)?);
            self.faulty().map_err(|e| self.op_failed(e))?;
            logs.extend(
                self.ul_safe(s, self.t, self.t, account, *id, true)
                    .map_err(|e| self.op_failed(e))?,
            );
        }
        Ok(logs)
    }
    /// Safe mint of the underlying: a mint to the wrapper has nobody to credit.
    fn ul_mint(&self, s: &mut Two, to: Address, id: U256) -> Res {
        let logs = s.0.mint(to, id)?;
        if to == self.t {
            self.wrap_mint(s, Address::ZERO, id)?;
            return Err(vec![]);
        }
        if to == self.ul {
            return Err(vec![err(ERC721InvalidReceiver { receiver: to })]);
        }
        self.accept(to)?;
        Ok(logs)
    }
    /// safeTransferFrom on the underlying. `nested`: called by the wrapper.
    fn ul_safe(&self, s: &mut Two, by: Address, from: Address, to: Address, id: U256, nested: bool) -> Res {
        let mut logs = s.0.transfer_from(by, from, to, id)?;
        if to == self.t {
            if nested && !self.reenter {
                return Err(vec![err(ERC721InvalidReceiver { receiver: to })]);
            }
            let r = self.wrap_mint(s, from, id).map_err(|e| {
                e.into_iter()
                    .map(|d| if d.is_empty() { err(ERC721InvalidReceiver { receiver: to }) } else { d })
                    .collect::<Vec<_>>()
            })?;
            logs.extend(r);
            return Ok(logs);
        }
        if to == self.ul {
            return Err(vec![err(ERC721InvalidReceiver { receiver: to })]);
        }
        self.accept(to)?;
        Ok(logs)
    }
}

pub fn p13(m: &mut Mon) {
    let t = a(100);
    let ul = a(101);
    let rx = a(5);
    let reenter = m.rng.chance(1, 2);
    vm::with(|w| w.allow_reentrancy = reenter);
    vm::install(t, vm::contract::<WrapH>());
    vm::poke(t, u(4), B256::from(word_addr(ul)));
    // Faults hit calls the wrapper makes.
    let fault = Rc::new(RefCell::new(Fault::None));
    {
        let inner = vm::contract::<NftH>();
        let fault = fault.clone();
        vm::install(
            ul,
            Rc::new(move |d: &[u8]| {
                if vm::caller() == t {
                    match &*fault.borrow() {
                        Fault::None => {}
                        Fault::Revert(e) => return Err(e.clone()),
                        Fault::Trap => panic!("underlying trap"),
                    }
                }
                inner(d)
            }),
        );
    }
    let reply = Rc::new(RefCell::new(Reply::Magic));
    {
        let reply = reply.clone();
        vm::install(
            rx,
            Rc::new(move |d: &[u8]| {
                if d.len() < 4 || d[..4] != INft::onERC721ReceivedCall::SELECTOR {
                    return Err(vec![]);
                }
                reply.borrow().reply_with(MAGIC721)
            }),
        );
    }
    let users = [a(1), a(2), rx];
    let mut all = users.to_vec();
    all.extend([t, ul, Address::ZERO]);
    let k = 3 + m.rng.idx(5);
    let mut ids = vec![U256::ZERO, U256::MAX];
    for i in 0..k {
        ids.push(if m.rng.chance(2, 3) { u(i as u64 + 1) } else { m.rng.u256_width() });
    }
    m.rng.twins(&mut ids);
    ids.sort();
    ids.dedup();
    let mut st: Two = (Nft::new(ul), Nft::new(t));
    for id in &ids {
        if m.rng.chance(6, 7) {
            let to = *m.rng.pick(&users);
            let (o, _) = send(a(1), ul, &INft::mintCall { to, tokenId: *id }.abi_encode());
            m.check(o.is_ok() && st.0.mint(to, *id).is_ok(), "setup/mint", || show(&o));
        }
    }
    for x in users {
        if m.rng.chance(2, 3) {
            let (o, _) = send(x, ul, &INft::setApprovalForAllCall { operator: t, approved: true }.abi_encode());
            m.check(o.is_ok() && st.0.set_all(x, t, true).is_ok(), "setup/approve", || show(&o));
        }
    }
    let r = get(m, t, IWrap::underlyingCall {});
    m.eq("underlying", r.map(|r| r._0), Some(ul));
    let n = 12 + m.rng.idx(24);
    for _ in 0..n {
        *fault.borrow_mut() = match m.rng.below(24) {
            0 => Fault::Revert(vec![]),
            1 => {
                let nb = 1 + m.rng.idx(60);
                Fault::Revert(m.rng.bytes(nb))
            }
            2 => Fault::Trap,
            _ => Fault::None,
        };
        *reply.borrow_mut() = Reply::gen(m);
        let mo = WModel {
            t,
            ul,
            rx,
            reply: reply.borrow().clone(),
            fault: fault.borrow().clone(),
            reenter,
        };
        let id = *m.rng.pick(&ids);
        let acct = match m.rng.below(16) {
            0 => Address::ZERO,
            1 => t,
            2 => ul,
            _ => *m.rng.pick(&users),
        };
        let to = if m.rng.chance(1, 10) { *m.rng.pick(&[t, ul]) } else { *m.rng.pick(&users) };
        let z = Some(vec![]);
        let yes = ok_ret(&true);
        let who = |m: &mut Mon| if m.rng.chance(1, 12) { *m.rng.pick(&[t, ul]) } else { *m.rng.pick(&users) };
        // The wrapper has no transactions of its own with the underlying.
        let who_ul = |m: &mut Mon| if m.rng.chance(1, 12) { ul } else { *m.rng.pick(&users) };
        let pick_ids = |m: &mut Mon, tok: &Nft, s: Address| -> Vec<U256> {
            let mine: Vec<U256> = ids.iter().copied().filter(|i| tok.own(*i) == s).collect();
            let n = if m.rng.chance(1, 10) { 4 + m.rng.idx(6) } else { m.rng.idx(4) };
            let mut v: Vec<U256> = (0..n)
                .map(|_| {
                    if !mine.is_empty() && m.rng.chance(7, 8) {
                        *m.rng.pick(&mine)
                    } else {
                        *m.rng.pick(&ids)
                    }
                })
                .collect();
            if m.rng.chance(5, 6) {
                let mut seen = BTreeSet::new();
                v.retain(|x| seen.insert(*x));
            }
            v
        };
        let (op, s, target, data, want): (_, Address, Address, Vec<u8>, Expect) = match m.rng.below(23) {
            0..=5 => {
                let s = who(m);
                let v = pick_ids(m, &st.0, s);
                (
                    "depositFor",
                    s,
                    t,
                    IWrap::depositForCall { account: acct, ids: v.clone() }.abi_encode(),
                    to_expect(st.clone().run(|x| mo.deposit(x, s, acct, &v), &mut st), yes),
                )
            }
            6..=10 => {
                let s = who(m);
                let v = pick_ids(m, &st.1, s);
                (
                    "withdrawTo",
                    s,
                    t,
                    IWrap::withdrawToCall { account: acct, ids: v.clone() }.abi_encode(),
                    to_expect(st.clone().run(|x| mo.withdraw(x, s, acct, &v), &mut st), yes),
                )
            }
            11 | 12 => {
                // A direct safe transfer of the underlying wraps.
                let own = st.0.own(id);
                let s = if users.contains(&own) && m.rng.chance(2, 3) { own } else { who_ul(m) };
                let f = if m.rng.chance(1, 2) || own.is_zero() { s } else { own };
                let data = m.rng.payload();
                (
                    "direct-safeTransferFrom",
                    s,
                    ul,
                    ISafe4::safeTransferFromCall { from: f, to: t, tokenId: id, data: data.into() }.abi_encode(),
                    to_expect(st.clone().run(|x| mo.ul_safe(x, s, f, t, id, false), &mut st), z),
                )
            }
            13 => {
                let s = if m.rng.chance(1, 6) { t } else { *m.rng.pick(&users) };
                (
                    "forged-onERC721Received",
                    s,
                    t,
                    INft::onERC721ReceivedCall { operator: *m.rng.pick(&[s, ul, t]), from: to, tokenId: id, data: vec![].into() }
                        .abi_encode(),
                    Expect::Err(vec![err(ERC721UnsupportedToken { token: s })]),
                )
            }
            14 | 15 => {
                let own = st.1.own(id);
                let s = if users.contains(&own) { own } else { *m.rng.pick(&users) };
                (
                    "wrapped-transferFrom",
                    s,
                    t,
                    INft::transferFromCall { from: s, to, tokenId: id }.abi_encode(),
                    to_expect(st.clone().run(|x| x.1.transfer_from(s, s, to, id), &mut st), z),
                )
            }
            16 => {
                let own = st.1.own(id);
                let s = if users.contains(&own) { own } else { *m.rng.pick(&users) };
                (
                    "wrapped-approve",
                    s,
                    t,
                    INft::approveCall { to, tokenId: id }.abi_encode(),
                    to_expect(st.clone().run(|x| x.1.approve(to, id, s, true), &mut st), z),
                )
            }
            17 => {
                let s = who(m);
                let ap = m.rng.chance(1, 2);
                (
                    "wrapped-setApprovalForAll",
                    s,
                    t,
                    INft::setApprovalForAllCall { operator: to, approved: ap }.abi_encode(),
                    to_expect(st.clone().run(|x| x.1.set_all(s, to, ap), &mut st), z),
                )
            }
            18 => {
                let s = who_ul(m);
                let ap = m.rng.chance(2, 3);
                let o = if m.rng.chance(3, 4) { t } else { to };
                (
                    "underlying-setApprovalForAll",
                    s,
                    ul,
                    INft::setApprovalForAllCall { operator: o, approved: ap }.abi_encode(),
                    to_expect(st.clone().run(|x| x.0.set_all(s, o, ap), &mut st), z),
                )
            }
            19 => {
                // Approve the wrapper for one token only.
                let own = st.0.own(id);
                let s = if own.is_zero() || own == t { who_ul(m) } else { own };
                let o = if m.rng.chance(2, 3) { t } else { to };
                (
                    "underlying-approve",
                    s,
                    ul,
                    INft::approveCall { to: o, tokenId: id }.abi_encode(),
                    to_expect(st.clone().run(|x| x.0.approve(o, id, s, true), &mut st), z),
                )
            }
            20 => {
                // A safe mint of the underlying, also straight to the wrapper.
                let s = who_ul(m);
                let to = if m.rng.chance(1, 3) { t } else { to };
                (
                    "underlying-safeMint",
                    s,
                    ul,
                    INft::safeMintCall { to, tokenId: id, data: m.rng.payload().into() }.abi_encode(),
                    to_expect(st.clone().run(|x| mo.ul_mint(x, to, id), &mut st), z),
                )
            }
            21 => {
                let s = who(m);
                let held: Vec<U256> = ids.iter().copied().filter(|i| st.0.own(*i) == t).collect();
                let id = if held.is_empty() || m.rng.chance(1, 4) { id } else { *m.rng.pick(&held) };
                (
                    "recover",
                    s,
                    t,
                    IWrap::recoverCall { account: acct, id }.abi_encode(),
                    to_expect(st.clone().run(|x| mo.recover(x, acct, id), &mut st), ok_ret(&id)),
                )
            }
            _ => {
                let own = st.0.own(id);
                let s = if users.contains(&own) { own } else { who_ul(m) };
                // An unsafe transfer straight to the wrapper is a donation.
                let to = if m.rng.chance(1, 3) { t } else { to };
                (
                    "underlying-transferFrom",
                    s,
                    ul,
                    INft::transferFromCall { from: s, to, tokenId: id }.abi_encode(),
                    to_expect(st.clone().run(|x| x.0.transfer_from(s, s, to, id), &mut st), z),
                )
            }
        };
        let (o, logs) = send(s, target, &data);
        m.step(format!(
            "{} {op}({}) fault={:?} reply={:?} -> {}",
            nm(s),
            hex(&data[4..]),
            mo.fault,
            mo.reply,
            show(&o)
        ));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        *fault.borrow_mut() = Fault::None;
        st.0.check(m, &all, &ids, true);
        st.1.check(m, &all, &ids, true);
        // Every wrapped token is backed by the same underlying id.
        for id in &ids {
            let w = peek_call(t, INft::ownerOfCall { tokenId: *id });
            if w.is_ok() {
                let b = peek_call(ul, INft::ownerOfCall { tokenId: *id });
                m.check(b == Outcome::Ok(word_addr(t).to_vec()), "backing", || {
                    format!("wrapped token {id} exists but its underlying is held by {}", show(&b))
                });
            }
        }
        m.seen(st.0.digest() ^ st.1.digest().rotate_left(9));
        if m.failed() {
            return;
        }
    }
}
