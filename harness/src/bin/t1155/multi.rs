//! P15: the ERC-1155 ledger. P16: supply tracking. P31: acceptance.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use alloy_primitives::{Address, U256};
use alloy_sol_types::{sol, SolCall};
use openzeppelin_stylus::token::erc1155::extensions::{
    Erc1155Supply, IErc1155Burnable, IErc1155Supply,
};
use openzeppelin_stylus::token::erc1155::{self, Erc1155};
use stylus_sdk::{abi::Bytes, prelude::*};
use vcore::ledger::{to_expect, Res, RunOn};
use vcore::mon::Mon;
use vcore::util::*;
use vcore::vm::{self, Log, Outcome};

sol! {
    #[derive(Debug)]
    event TransferSingle(address indexed operator, address indexed from, address indexed to, uint256 id, uint256 value);
    #[derive(Debug)]
    event TransferBatch(address indexed operator, address indexed from, address indexed to, uint256[] ids, uint256[] values);
    #[derive(Debug)]
    event ApprovalForAll(address indexed account, address indexed operator, bool approved);
    error ERC1155InsufficientBalance(address sender, uint256 balance, uint256 needed, uint256 tokenId);
    error ERC1155InvalidSender(address sender);
    error ERC1155InvalidReceiver(address receiver);
    error ERC1155MissingApprovalForAll(address operator, address owner);
    error ERC1155InvalidOperator(address operator);
    error ERC1155InvalidArrayLength(uint256 idsLength, uint256 valuesLength);

    interface IMulti {
        function balanceOf(address account, uint256 id) external view returns (uint256);
        function balanceOfBatch(address[] accounts, uint256[] ids) external view returns (uint256[] memory);
        function setApprovalForAll(address operator, bool approved) external;
        function isApprovedForAll(address account, address operator) external view returns (bool);
        function safeTransferFrom(address from, address to, uint256 id, uint256 value, bytes data) external;
        function safeBatchTransferFrom(address from, address to, uint256[] ids, uint256[] values, bytes data) external;
        function mint(address to, uint256 id, uint256 value, bytes data) external;
        function mintBatch(address to, uint256[] ids, uint256[] values, bytes data) external;
        function burn(address account, uint256 id, uint256 value) external;
        function burnBatch(address account, uint256[] ids, uint256[] values) external;
        function burnAny(address account, uint256 id, uint256 value) external;
        function burnBatchAny(address account, uint256[] ids, uint256[] values) external;
        function exists(uint256 id) external view returns (bool);
        function onERC1155Received(address operator, address from, uint256 id, uint256 value, bytes data) external returns (bytes4);
        function onERC1155BatchReceived(address operator, address from, uint256[] ids, uint256[] values, bytes data) external returns (bytes4);
    }
    interface ISupplyId {
        function totalSupply(uint256 id) external view returns (uint256);
    }
    interface ISupplyAll {
        function totalSupply() external view returns (uint256);
    }
}

type E = erc1155::Error;

#[storage]
pub struct MultiH {
    #[borrow]
    erc1155: Erc1155,
}
unsafe impl TopLevelStorage for MultiH {}
#[public]
#[inherit(Erc1155)]
impl MultiH {
    fn mint(&mut self, to: Address, id: U256, value: U256, data: Bytes) -> Result<(), E> {
        self.erc1155._mint(to, id, value, &data)
    }
    fn mint_batch(&mut self, to: Address, ids: Vec<U256>, values: Vec<U256>, data: Bytes) -> Result<(), E> {
        self.erc1155._mint_batch(to, ids, values, &data)
    }
    fn burn(&mut self, account: Address, id: U256, value: U256) -> Result<(), E> {
        self.erc1155.burn(account, id, value)
    }
    fn burn_batch(&mut self, account: Address, ids: Vec<U256>, values: Vec<U256>) -> Result<(), E> {
        self.erc1155.burn_batch(account, ids, values)
    }
    fn burn_any(&mut self, account: Address, id: U256, value: U256) -> Result<(), E> {
        self.erc1155._burn(account, id, value)
    }
    fn burn_batch_any(&mut self, account: Address, ids: Vec<U256>, values: Vec<U256>) -> Result<(), E> {
        self.erc1155._burn_batch(account, ids, values)
    }
}

#[storage]
pub struct SupplyH {
    #[borrow]
    erc1155: Erc1155Supply,
}
unsafe impl TopLevelStorage for SupplyH {}
#[public]
#[inherit(Erc1155Supply)]
impl SupplyH {
    fn mint(&mut self, to: Address, id: U256, value: U256, data: Bytes) -> Result<(), E> {
        self.erc1155._mint(to, id, value, &data)
    }
    fn mint_batch(&mut self, to: Address, ids: Vec<U256>, values: Vec<U256>, data: Bytes) -> Result<(), E> {
        self.erc1155._mint_batch(to, ids, values, &data)
    }
    fn burn_any(&mut self, account: Address, id: U256, value: U256) -> Result<(), E> {
        self.erc1155._burn(account, id, value)
    }
    fn burn_batch_any(&mut self, account: Address, ids: Vec<U256>, values: Vec<U256>) -> Result<(), E> {
        self.erc1155._burn_batch(account, ids, values)
    }
    #[selector(name = "totalSupply")]
    fn total_supply(&self, id: U256) -> U256 {
        self.erc1155.total_supply(id)
    }
    #[selector(name = "totalSupply")]
    fn total_supply_all(&self) -> U256 {
        self.erc1155.total_supply_all()
    }
    fn exists(&self, id: U256) -> bool {
        self.erc1155.exists(id)
    }
}

#[derive(Clone, Default, Debug)]
pub struct Multi {
    addr: Address,
    tracked: bool,
    bal: BTreeMap<(U256, Address), U256>,
    op: BTreeSet<(Address, Address)>,
    supply: BTreeMap<U256, U256>,
    all: U256,
}

impl Multi {
    fn b(&self, x: Address, id: U256) -> U256 {
        self.bal.get(&(id, x)).copied().unwrap_or_default()
    }
    fn s(&self, id: U256) -> U256 {
        self.supply.get(&id).copied().unwrap_or_default()
    }
    fn auth(&self, s: Address, from: Address, e: &mut Vec<Vec<u8>>) {
        if s != from && !self.op.contains(&(from, s)) {
            e.push(err(ERC1155MissingApprovalForAll { operator: s, owner: from }));
        }
    }
    /// Move (zero addresses mint or burn); adds to the errors.
    fn apply(
        &mut self,
        operator: Address,
        from: Address,
        to: Address,
        ids: &[U256],
        vals: &[U256],
        mut e: Vec<Vec<u8>>,
    ) -> Res {
        if ids.len() != vals.len() {
            e.push(err(ERC1155InvalidArrayLength {
                idsLength: u(ids.len() as u64),
                valuesLength: u(vals.len() as u64),
            }));
            return Err(e);
        }
        for (id, v) in ids.iter().zip(vals) {
            if !from.is_zero() {
                let b = self.b(from, *id);
                if b < *v {
                    e.push(err(ERC1155InsufficientBalance {
                        sender: from,
                        balance: b,
                        needed: *v,
                        tokenId: *id,
                    }));
                    return Err(e);
                }
                self.bal.insert((*id, from), b - *v);
            }
            if !to.is_zero() {
                match self.b(to, *id).checked_add(*v) {
                    Some(x) => {
                        self.bal.insert((*id, to), x);
                    }
                    None => {
                        e.push(vec![]);
                        return Err(e);
                    }
                }
            }
        }
        if self.tracked {
            for (id, v) in ids.iter().zip(vals) {
                if from.is_zero() {
                    let (Some(a), Some(b)) = (self.s(*id).checked_add(*v), self.all.checked_add(*v))
                    else {
                        e.push(vec![]);
                        return Err(e);
                    };
                    self.supply.insert(*id, a);
                    self.all = b;
                }
                if to.is_zero() {
                    let a = self.s(*id) - *v;
                    self.supply.insert(*id, a);
                    self.all -= *v;
                }
            }
        }
        if !e.is_empty() {
            return Err(e);
        }
        Ok(vec![if ids.len() == 1 {
            ev(self.addr, &TransferSingle { operator, from, to, id: ids[0], value: vals[0] })
        } else {
            ev(self.addr, &TransferBatch { operator, from, to, ids: ids.to_vec(), values: vals.to_vec() })
        }])
    }
    fn transfer(&mut self, s: Address, from: Address, to: Address, ids: &[U256], vals: &[U256]) -> Res {
        let mut e = vec![];
        self.auth(s, from, &mut e);
        if to.is_zero() {
            e.push(err(ERC1155InvalidReceiver { receiver: to }));
        }
        if from.is_zero() {
            e.push(err(ERC1155InvalidSender { sender: from }));
        }
        if from.is_zero() || to.is_zero() {
            return Err(e);
        }
        self.apply(s, from, to, ids, vals, e)
    }
    fn mint(&mut self, s: Address, to: Address, ids: &[U256], vals: &[U256]) -> Res {
        if to.is_zero() {
            let mut e = vec![err(ERC1155InvalidReceiver { receiver: to })];
            if ids.len() != vals.len() {
                e.push(err(ERC1155InvalidArrayLength {
                    idsLength: u(ids.len() as u64),
                    valuesLength: u(vals.len() as u64),
                }));
            }
            return Err(e);
        }
        self.apply(s, Address::ZERO, to, ids, vals, vec![])
    }
    fn burn(&mut self, s: Address, from: Address, ids: &[U256], vals: &[U256], auth: bool) -> Res {
        let mut e = vec![];
        if auth {
            self.auth(s, from, &mut e);
        }
        if from.is_zero() {
            e.push(err(ERC1155InvalidSender { sender: from }));
            return Err(e);
        }
        self.apply(s, from, Address::ZERO, ids, vals, e)
    }
    fn set_all(&mut self, account: Address, operator: Address, approved: bool) -> Res {
        if operator.is_zero() {
            return Err(vec![err(ERC1155InvalidOperator { operator })]);
        }
        if approved {
            self.op.insert((account, operator));
        } else {
            self.op.remove(&(account, operator));
        }
        Ok(vec![ev(self.addr, &ApprovalForAll { account, operator, approved })])
    }
    fn check(&self, m: &mut Mon, addrs: &[Address], ids: &[U256]) {
        let t = self.addr;
        let mut total = U256::ZERO;
        let mut over = false;
        for &id in ids {
            let mut sum = U256::ZERO;
            let mut o = false;
            for &x in addrs {
                let Some(r) = get(m, t, IMulti::balanceOfCall { account: x, id }) else { return };
                if !m.eq("state/balanceOf", (nm(x), id, r._0), (nm(x), id, self.b(x, id))) {
                    return;
                }
                let (s, c) = sum.overflowing_add(r._0);
                sum = s;
                o |= c;
            }
            if self.tracked {
                let Some(r) = get(m, t, ISupplyId::totalSupplyCall { id }) else { return };
                m.eq("state/totalSupply(id)", (id, r._0), (id, self.s(id)));
                m.check(!o && r._0 == sum, "conservation/sum-of-balances", || {
                    format!("id {id}: sum of balances {sum} (overflow {o}), totalSupply {}", r._0)
                });
                let (s, c) = total.overflowing_add(r._0);
                total = s;
                over |= c;
                let Some(r) = get(m, t, IMulti::existsCall { id }) else { return };
                m.eq("state/exists", (id, r._0), (id, !self.s(id).is_zero()));
            }
        }
        if self.tracked {
            let Some(r) = get(m, t, ISupplyAll::totalSupplyCall {}) else { return };
            m.eq("state/totalSupply()", r._0, self.all);
            m.check(!over && r._0 == total, "conservation/sum-of-supplies", || {
                format!("sum of supplies {total} (overflow {over}), totalSupply() {}", r._0)
            });
        }
        for &x in addrs {
            for &y in addrs {
                let Some(r) = get(m, t, IMulti::isApprovedForAllCall { account: x, operator: y }) else {
                    return;
                };
                if !m.eq("state/isApprovedForAll", r._0, self.op.contains(&(x, y))) {
                    return;
                }
            }
        }
        // A batch query is the list of single queries.
        let n = if m.rng.chance(1, 12) { 6 + m.rng.idx(14) } else { m.rng.idx(6) };
        let xs: Vec<Address> = (0..n).map(|_| *m.rng.pick(addrs)).collect();
        let k = if m.rng.chance(1, 8) { m.rng.idx(6) } else { n };
        let is: Vec<U256> = (0..k).map(|_| *m.rng.pick(ids)).collect();
        let o = peek_call(t, IMulti::balanceOfBatchCall { accounts: xs.clone(), ids: is.clone() });
        let want = if n != k {
            Outcome::Revert(err(ERC1155InvalidArrayLength {
                idsLength: u(k as u64),
                valuesLength: u(n as u64),
            }))
        } else {
            let v: Vec<U256> = xs.iter().zip(&is).map(|(x, i)| self.b(*x, *i)).collect();
            Outcome::Ok(ok_ret(&v).unwrap())
        };
        m.check(o == want, "balanceOfBatch", || {
            format!("balanceOfBatch({xs:?}, {is:?}) -> {} expected {}", show(&o), show(&want))
        });
    }
    fn digest(&self) -> u64 {
        vcore::mon::hash_str(&format!("{:?}{:?}{:?}{}", self.bal, self.op, self.supply, self.all))
    }
}

// ---- receivers -------------------------------------------------------------

const SINGLE: [u8; 4] = IMulti::onERC1155ReceivedCall::SELECTOR;
const BATCH: [u8; 4] = IMulti::onERC1155BatchReceivedCall::SELECTOR;

#[derive(Clone, Debug)]
enum Reply {
    Magic,
    /// The other callback's magic value.
    Other,
    /// The acceptance value with one bit flipped.
    Wrong(usize),
    /// Some other value.
    Word(Vec<u8>),
    Zero,
    Nothing,
    Short,
    Revert(Vec<u8>),
    Trap,
}

impl Reply {
    fn gen(m: &mut Mon) -> Self {
        match m.rng.below(19) {
            18 => Reply::Word({
                let x = if m.rng.chance(1, 2) { SINGLE } else { BATCH };
                odd_answer(m, &x)
            }),
            0 => Reply::Wrong(m.rng.idx(32)),
            1 => Reply::Zero,
            2 => Reply::Nothing,
            3 => Reply::Short,
            4 => Reply::Revert(vec![]),
            5 => {
                let n = 1 + m.rng.idx(70);
                Reply::Revert(m.rng.bytes(n))
            }
            6 => Reply::Trap,
            7 | 8 => Reply::Other,
            _ => Reply::Magic,
        }
    }
    fn answer(&self, sel: [u8; 4]) -> vm::CallResult {
        let pad = |s: [u8; 4]| {
            let mut w = vec![0u8; 32];
            w[..4].copy_from_slice(&s);
            w
        };
        match self {
            Reply::Magic => Ok(pad(sel)),
            Reply::Other => Ok(pad(if sel == SINGLE { BATCH } else { SINGLE })),
            Reply::Wrong(b) => {
                let mut s = sel;
                s[*b / 8] ^= 1 << (*b % 8);
                Ok(pad(s))
            }
            Reply::Word(v) if v[..4] == SINGLE || v[..4] == BATCH => Ok(vec![0; 32]),
            Reply::Word(v) => Ok(v.clone()),
            Reply::Zero => Ok(vec![0; 32]),
            Reply::Nothing => Ok(vec![]),
            Reply::Short => Ok(sel.to_vec()),
            Reply::Revert(d) => Err(d.clone()),
            Reply::Trap => panic!("receiver trap"),
        }
    }
}

#[derive(Clone, Debug)]
enum Act {
    Send(Address, U256, U256),
    SendBatch(Address, Vec<U256>, Vec<U256>),
    Operator(Address, bool),
    Burn(U256, U256),
}

#[derive(Clone, Debug)]
struct Rx {
    reply: Reply,
    acts: Vec<Act>,
}

impl Act {
    fn data(&self, me: Address) -> Vec<u8> {
        match self {
            Act::Send(to, id, v) => IMulti::safeTransferFromCall {
                from: me,
                to: *to,
                id: *id,
                value: *v,
                data: vec![3].into(),
            }
            .abi_encode(),
            Act::SendBatch(to, ids, vals) => IMulti::safeBatchTransferFromCall {
                from: me,
                to: *to,
                ids: ids.clone(),
                values: vals.clone(),
                data: vec![4].into(),
            }
            .abi_encode(),
            Act::Operator(o, b) => {
                IMulti::setApprovalForAllCall { operator: *o, approved: *b }.abi_encode()
            }
            Act::Burn(id, v) => IMulti::burnAnyCall { account: me, id: *id, value: *v }.abi_encode(),
        }
    }
}

struct World {
    t: Address,
    rx: Vec<Address>,
    plan: Vec<Rx>,
    depth: Cell<usize>,
    seen: RefCell<Vec<Vec<u8>>>,
}

impl World {
    fn at(&self, d: usize) -> Rx {
        self.plan.get(d).cloned().unwrap_or(Rx { reply: Reply::Magic, acts: vec![] })
    }
}

struct Model<'a> {
    w: &'a World,
    reenter: bool,
    seen: Vec<Vec<u8>>,
}

impl Model<'_> {
    fn receive(
        &mut self,
        l: &mut Multi,
        operator: Address,
        from: Address,
        to: Address,
        ids: &[U256],
        vals: &[U256],
        data: &[u8],
        d: usize,
    ) -> Res {
        let inv = err(ERC1155InvalidReceiver { receiver: to });
        if !self.w.rx.contains(&to) {
            return if to == self.w.t { Err(vec![inv]) } else { Ok(vec![]) };
        }
        self.seen.push(if ids.len() == 1 {
            IMulti::onERC1155ReceivedCall {
                operator,
                from,
                id: ids[0],
                value: vals[0],
                data: data.to_vec().into(),
            }
            .abi_encode()
        } else {
            IMulti::onERC1155BatchReceivedCall {
                operator,
                from,
                ids: ids.to_vec(),
                values: vals.to_vec(),
                data: data.to_vec().into(),
            }
            .abi_encode()
        });
        let rx = self.w.at(d);
        let mut logs: Vec<Log> = vec![];
        if self.reenter {
            for act in &rx.acts {
                let mut c = l.clone();
                let r = match act {
                    Act::Send(x, i, v) => c.transfer(to, to, *x, &[*i], &[*v]).and_then(|mut g| {
                        g.extend(self.receive(&mut c, to, to, *x, &[*i], &[*v], &[3], d + 1)?);
                        Ok(g)
                    }),
                    Act::SendBatch(x, i, v) => c.transfer(to, to, *x, i, v).and_then(|mut g| {
                        g.extend(self.receive(&mut c, to, to, *x, i, v, &[4], d + 1)?);
                        Ok(g)
                    }),
                    Act::Operator(x, b) => c.set_all(to, *x, *b),
                    Act::Burn(i, v) => c.burn(to, to, &[*i], &[*v], false),
                };
                if let Ok(g) = r {
                    *l = c;
                    logs.extend(g);
                }
            }
        }
        match rx.reply {
            Reply::Magic => Ok(logs),
            Reply::Revert(d) if !d.is_empty() => Err(vec![d]),
            _ => Err(vec![inv]),
        }
    }
}

fn drive(m: &mut Mon, tracked: bool, hostile: bool) {
    let t = a(100);
    if tracked {
        vm::install(t, vm::contract::<SupplyH>());
    } else {
        vm::install(t, vm::contract::<MultiH>());
    }
    let reenter = if hostile { m.rng.chance(3, 4) } else { m.rng.chance(1, 2) };
    vm::with(|w| w.allow_reentrancy = reenter);
    let rx = vec![a(5), a(6)];
    let world = Rc::new(RefCell::new(World {
        t,
        rx: rx.clone(),
        plan: vec![],
        depth: Cell::new(0),
        seen: RefCell::new(vec![]),
    }));
    for x in &rx {
        let w = world.clone();
        vm::install(
            *x,
            Rc::new(move |d: &[u8]| {
                if d.len() < 4 || (d[..4] != SINGLE && d[..4] != BATCH) {
                    return Err(vec![]);
                }
                let wb = w.borrow();
                wb.seen.borrow_mut().push(d.to_vec());
                let dd = wb.depth.get();
                let r = wb.at(dd);
                wb.depth.set(dd + 1);
                for act in &r.acts {
                    let _ = vm::call(wb.t, U256::ZERO, &act.data(vm::me()));
                }
                wb.depth.set(dd);
                r.reply.answer(d[..4].try_into().unwrap())
            }),
        );
    }
    let users = [a(1), a(2), rx[0], rx[1]];
    let mut all = users.to_vec();
    all.extend([Address::ZERO, t]);
    let mut ids = vec![U256::ZERO, ONE, U256::MAX];
    let nk = m.rng.idx(3);
    for _ in 0..nk {
        ids.push(m.rng.u256_width());
    }
    m.rng.twins(&mut ids);
    ids.sort();
    ids.dedup();
    let mut l = Multi { addr: t, tracked, ..Default::default() };
    // Without supply tracking, one id may exceed 2^256 in total.
    let big = m.rng.chance(1, 3);
    let n = if hostile { 10 } else { 16 } + m.rng.idx(20);
    for i in 0..n {
        let s = if m.rng.chance(1, 20) { t } else { *m.rng.pick(&users) };
        let f = match m.rng.below(15) {
            0 => Address::ZERO,
            14 if m.rng.chance(1, 3) => t,
            1..=3 => *m.rng.pick(&users),
            _ => s,
        };
        let to = match m.rng.below(20) {
            0 => Address::ZERO,
            1 if hostile || m.rng.chance(1, 3) => t,
            _ => *m.rng.pick(&users),
        };
        let plan: Vec<Rx> = if hostile {
            (0..3)
                .map(|_| {
                    let na = m.rng.idx(4);
                    let acts = (0..na)
                        .map(|_| {
                            let id = *m.rng.pick(&ids);
                            let x = *m.rng.pick(&users);
                            let v = m.rng.near(l.b(to, id));
                            match m.rng.below(6) {
                                0..=2 => Act::Send(x, id, v),
                                3 => {
                                    let id2 = *m.rng.pick(&ids);
                                    let v2 = m.rng.near(l.b(to, id2));
                                    Act::SendBatch(x, vec![id, id2], vec![v, v2])
                                }
                                4 => Act::Operator(x, m.rng.chance(1, 2)),
                                _ => Act::Burn(id, v),
                            }
                        })
                        .collect();
                    Rx { reply: Reply::gen(m), acts }
                })
                .collect()
        } else {
            vec![]
        };
        {
            let mut w = world.borrow_mut();
            w.plan = plan.clone();
            w.depth.set(0);
            w.seen.borrow_mut().clear();
        }
        let amount = |m: &mut Mon, l: &Multi, id: U256, minting: bool| -> U256 {
            if minting {
                match m.rng.below(8) {
                    0 if big => m.rng.near(U256::MAX - l.all),
                    1 if big => m.rng.near(U256::MAX - l.s(id)),
                    2 if big => m.rng.amount(),
                    _ => u(m.rng.below(1000)),
                }
            } else {
                m.rng.near(l.b(f, id))
            }
        };
        let gen_batch = |m: &mut Mon, l: &Multi, minting: bool| -> (Vec<U256>, Vec<U256>) {
            let n = if m.rng.chance(1, 12) { 5 + m.rng.idx(14) } else { m.rng.idx(5) };
            let is: Vec<U256> = (0..n).map(|_| *m.rng.pick(&ids)).collect();
            let mut vs: Vec<U256> = is.iter().map(|i| amount(m, l, *i, minting)).collect();
            if m.rng.chance(1, 2) && !minting {
                // Affordable parts, so that whole batches succeed.
                for (i, v) in is.iter().zip(vs.iter_mut()) {
                    *v = (l.b(f, *i) / u(is.len() as u64)).min(*v);
                }
            }
            if m.rng.chance(1, 14) {
                match m.rng.below(6) {
                    0 | 1 => vs.push(ONE),
                    2 | 3 => {
                        vs.pop();
                    }
                    4 => vs.clear(),
                    _ => vs.resize(2 * n + 1, U256::ZERO),
                }
            }
            (is, vs)
        };
        let payload = m.rng.payload();
        let mut c = l.clone();
        // (op, calldata, model result, delivery)
        type D = Option<(Address, Address, Vec<U256>, Vec<U256>)>;
        let k = if i < 4 { m.rng.below(4) } else { m.rng.below(20) };
        let (op, data, pre, dl): (&str, Vec<u8>, Res, D) = match k {
            0 | 1 => {
                let id = *m.rng.pick(&ids);
                let v = amount(m, &l, id, true);
                (
                    "_mint",
                    IMulti::mintCall { to, id, value: v, data: payload.clone().into() }.abi_encode(),
                    c.mint(s, to, &[id], &[v]),
                    Some((Address::ZERO, to, vec![id], vec![v])),
                )
            }
            2 | 3 => {
                let (is, vs) = gen_batch(m, &l, true);
                (
                    "_mint_batch",
                    IMulti::mintBatchCall {
                        to,
                        ids: is.clone(),
                        values: vs.clone(),
                        data: payload.clone().into(),
                    }
                    .abi_encode(),
                    c.mint(s, to, &is, &vs),
                    Some((Address::ZERO, to, is, vs)),
                )
            }
            4..=8 => {
                let id = *m.rng.pick(&ids);
                let v = amount(m, &l, id, false);
                (
                    "safeTransferFrom",
                    IMulti::safeTransferFromCall { from: f, to, id, value: v, data: payload.clone().into() }
                        .abi_encode(),
                    c.transfer(s, f, to, &[id], &[v]),
                    Some((f, to, vec![id], vec![v])),
                )
            }
            9..=13 => {
                let (is, vs) = gen_batch(m, &l, false);
                (
                    "safeBatchTransferFrom",
                    IMulti::safeBatchTransferFromCall {
                        from: f,
                        to,
                        ids: is.clone(),
                        values: vs.clone(),
                        data: payload.clone().into(),
                    }
                    .abi_encode(),
                    c.transfer(s, f, to, &is, &vs),
                    Some((f, to, is, vs)),
                )
            }
            14 | 15 => {
                let ap = m.rng.chance(2, 3);
                (
                    "setApprovalForAll",
                    IMulti::setApprovalForAllCall { operator: to, approved: ap }.abi_encode(),
                    c.set_all(s, to, ap),
                    None,
                )
            }
            16 | 17 => {
                let id = *m.rng.pick(&ids);
                let v = amount(m, &l, id, false);
                if tracked || m.rng.chance(1, 3) {
                    (
                        "_burn",
                        IMulti::burnAnyCall { account: f, id, value: v }.abi_encode(),
                        c.burn(s, f, &[id], &[v], false),
                        None,
                    )
                } else {
                    (
                        "burn",
                        IMulti::burnCall { account: f, id, value: v }.abi_encode(),
                        c.burn(s, f, &[id], &[v], true),
                        None,
                    )
                }
            }
            _ => {
                let (is, vs) = gen_batch(m, &l, false);
                if tracked || m.rng.chance(1, 3) {
                    (
                        "_burn_batch",
                        IMulti::burnBatchAnyCall { account: f, ids: is.clone(), values: vs.clone() }
                            .abi_encode(),
                        c.burn(s, f, &is, &vs, false),
                        None,
                    )
                } else {
                    (
                        "burn_batch",
                        IMulti::burnBatchCall { account: f, ids: is.clone(), values: vs.clone() }
                            .abi_encode(),
                        c.burn(s, f, &is, &vs, true),
                        None,
                    )
                }
            }
        };
        let w = world.borrow();
        let mut mo = Model { w: &w, reenter, seen: vec![] };
        let r = match (pre, dl) {
            (Ok(mut g), Some((from, to, is, vs))) => {
                mo.receive(&mut c, s, from, to, &is, &vs, &payload, 0).map(|h| {
                    g.extend(h);
                    g
                })
            }
            (x, _) => x,
        };
        let seen_want = mo.seen.clone();
        drop(w);
        let want = to_expect(c.run(|_| r, &mut l), Some(vec![]));
        let (o, logs) = send(s, t, &data);
        m.step(format!("{} {op}({}) receivers={plan:?} -> {}", nm(s), hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        if o.is_ok() {
            let seen = world.borrow().seen.borrow().clone();
            m.count(&format!("callbacks:{}", seen.len().min(5)));
            m.eq("callback/calldata", seen, seen_want);
        }
        l.check(m, &all, &ids);
        m.seen(l.digest() ^ if hostile { vcore::mon::hash_str(&format!("{plan:?}")) } else { 0 });
        if m.failed() {
            return;
        }
    }
}

pub fn p15(m: &mut Mon) {
    drive(m, false, false);
}
pub fn p16(m: &mut Mon) {
    drive(m, true, false);
}
pub fn p31(m: &mut Mon) {
    let tr = m.rng.chance(1, 2);
    drive(m, tr, true);
}
