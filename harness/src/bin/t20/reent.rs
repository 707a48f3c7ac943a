//! P30: wrapper and vault stay sound when the token calls back.
use std::cell::{Cell, RefCell};
use std::rc::Rc;

use alloy_primitives::{Address, U256};
use alloy_sol_types::SolCall;
use vcore::ledger::*;
use vcore::mocks::*;
use vcore::mon::Mon;
use vcore::util::*;
use vcore::vm;

use crate::vault::{Conv, IVault, VaultH};
use crate::wrapper::{IWrap, WrapH};

#[derive(Clone, Copy, Debug)]
enum Op {
    Deposit(U256, Address),
    Mint(U256, Address),
    Withdraw(U256, Address, Address),
    Redeem(U256, Address, Address),
    DepositFor(U256, Address),
    WithdrawTo(U256, Address),
    Transfer(Address, U256),
    Approve(Address, U256),
}

impl Op {
    fn data(&self) -> Vec<u8> {
        match *self {
            Op::Deposit(x, r) => IVault::depositCall { assets: x, receiver: r }.abi_encode(),
            Op::Mint(x, r) => IVault::mintCall { shares: x, receiver: r }.abi_encode(),
            Op::Withdraw(x, r, o) => {
                IVault::withdrawCall { assets: x, receiver: r, owner: o }.abi_encode()
            }
            Op::Redeem(x, r, o) => {
                IVault::redeemCall { shares: x, receiver: r, owner: o }.abi_encode()
            }
            Op::DepositFor(x, r) => IWrap::depositForCall { account: r, value: x }.abi_encode(),
            Op::WithdrawTo(x, r) => IWrap::withdrawToCall { account: r, value: x }.abi_encode(),
            Op::Transfer(r, x) => IToken::transferCall { to: r, value: x }.abi_encode(),
            Op::Approve(r, x) => IToken::approveCall { spender: r, value: x }.abi_encode(),
        }
    }
}

#[derive(Clone, Debug, Default)]
struct Level {
    pre_in: Option<Op>,
    post_in: Option<Op>,
    pre_out: Option<Op>,
    post_out: Option<Op>,
}

#[derive(Clone)]
struct St {
    l: Ledger,
    un: Ledger,
}

struct Model<'a> {
    t: Address,
    atk: Address,
    off: u64,
    reenter: bool,
    plan: &'a [Level],
}

impl Model<'_> {
    fn hook(&self, st: &mut St, depth: usize, op: Option<Op>) {
        if let (true, Some(op)) = (self.reenter, op) {
            let mut c = st.clone();
            if self.exec(&mut c, self.atk, op, depth + 1).is_some() {
                *st = c;
            }
        }
    }
    fn pull(&self, st: &mut St, s: Address, v: U256, d: usize) -> Option<()> {
        let lv = self.plan.get(d).cloned().unwrap_or_default();
        self.hook(st, d, lv.pre_in);
        st.un.transfer_from(self.t, s, self.t, v).ok()?;
        self.hook(st, d, lv.post_in);
        Some(())
    }
    fn push(&self, st: &mut St, to: Address, v: U256, d: usize) -> Option<()> {
        let lv = self.plan.get(d).cloned().unwrap_or_default();
        self.hook(st, d, lv.pre_out);
        st.un.transfer(self.t, to, v).ok()?;
        self.hook(st, d, lv.post_out);
        Some(())
    }
    fn exec(&self, st: &mut St, s: Address, op: Op, d: usize) -> Option<()> {
        let t = self.t;
        let c = Conv { supply: st.l.supply, assets: st.un.b(t), off: self.off };
        match op {
            Op::Deposit(x, r) => {
                let sh = c.to_shares(x, false)?;
                self.pull(st, s, x, d)?;
                st.l.mint(r, sh).ok()?;
            }
            Op::Mint(x, r) => {
                let va = c.to_assets(x, true)?;
                self.pull(st, s, va, d)?;
                st.l.mint(r, x).ok()?;
            }
            Op::Withdraw(x, r, o) => {
                if x > c.to_assets(st.l.b(o), false)? {
                    return None;
                }
                let sh = c.to_shares(x, true)?;
                if s != o {
                    st.l.spend(o, s, sh).ok()?;
                }
                st.l.burn(o, sh).ok()?;
                self.push(st, r, x, d)?;
            }
            Op::Redeem(x, r, o) => {
                if x > st.l.b(o) {
                    return None;
                }
                let va = c.to_assets(x, false)?;
                if s != o {
                    st.l.spend(o, s, x).ok()?;
                }
                st.l.burn(o, x).ok()?;
                self.push(st, r, va, d)?;
            }
            Op::DepositFor(x, r) => {
                if r == t {
                    return None;
                }
                self.pull(st, s, x, d)?;
                st.l.mint(r, x).ok()?;
            }
            Op::WithdrawTo(x, r) => {
                if r == t {
                    return None;
                }
                st.l.burn(s, x).ok()?;
                self.push(st, r, x, d)?;
            }
            Op::Transfer(r, x) => {
                st.l.transfer(s, r, x).ok()?;
            }
            Op::Approve(r, x) => {
                st.l.approve(s, r, x).ok()?;
            }
        }
        Some(())
    }
}

fn gen_op(m: &mut Mon, vault: bool, st: &St, s: Address, users: &[Address]) -> Op {
    let r = *m.rng.pick(users);
    let o = if m.rng.chance(2, 3) { s } else { *m.rng.pick(users) };
    let av = st.un.b(s);
    let sh = st.l.b(o);
    let k = m.rng.below(10);
    match (vault, k) {
        (_, 0) => Op::Transfer(r, m.rng.near(st.l.b(s))),
        (_, 1) => Op::Approve(r, m.rng.amount()),
        (true, 2..=4) => Op::Deposit(m.rng.near(av), r),
        (true, 5) => Op::Mint(m.rng.near(av), r),
        (true, 6 | 7) => Op::Withdraw(m.rng.near(sh), r, o),
        (true, _) => Op::Redeem(m.rng.near(sh), r, o),
        (false, 2..=6) => Op::DepositFor(m.rng.near(av), r),
        (false, _) => Op::WithdrawTo(m.rng.near(st.l.b(s)), r),
    }
}

pub fn p30(m: &mut Mon) {
    let vault = m.rng.chance(2, 3);
    episode(m, vault)
}

/// Also part of P04 (wrapper) and P07 (vault).
pub fn episode(m: &mut Mon, vault: bool) {
    let t = a(100);
    let tok = MockToken::install(a(50));
    let mut off = 0;
    if vault {
        off = *m.rng.pick(&[0u64, 0, 2, 6]);
        vm::install(t, vm::contract::<VaultH>());
        vm::poke(t, u(3), packed(&[(addr_u(tok.addr), 20), (u(18), 1), (u(off), 1)]));
    } else {
        vm::install(t, vm::contract::<WrapH>());
        vm::poke(t, u(3), packed(&[(addr_u(tok.addr), 20), (u(18), 1)]));
    }
    let reenter = m.rng.chance(5, 6);
    vm::with(|w| w.allow_reentrancy = reenter);
    let atk = a(7);
    vm::install(atk, Rc::new(move |d: &[u8]| vm::call(t, U256::ZERO, d)));
    let users = [a(1), a(2), atk];
    let mut all = users.to_vec();
    all.extend([t, Address::ZERO, tok.addr]);
    let mut st = St { l: Ledger::new(t), un: Ledger::new(tok.addr) };
    for x in users {
        let v = if m.rng.chance(1, 5) { m.rng.u256_width() >> 3 } else { u(m.rng.below(5000)) };
        tok.set(x, v);
        st.un.mint(x, v).unwrap();
        tok.set_allow(x, t, U256::MAX);
        st.un.allow.insert((x, t), U256::MAX);
    }
    // Hook positions: a token with receive/send hooks (ERC-777 like) or a
    // token calling back anywhere.
    let erc777 = m.rng.chance(1, 2);
    let plan: Rc<RefCell<Vec<Level>>> = Rc::new(RefCell::new(vec![]));
    let depth = Rc::new(Cell::new(0usize));
    let fired = Rc::new(Cell::new(0u64));
    let mk = |pre: bool| -> Hook {
        let plan = plan.clone();
        let depth = depth.clone();
        let fired = fired.clone();
        Rc::new(move |k: &str| {
            let lv = plan.borrow().get(depth.get()).cloned().unwrap_or_default();
            let op = match (k, pre) {
                ("transferFrom", true) => lv.pre_in,
                ("transferFrom", false) => lv.post_in,
                (_, true) => lv.pre_out,
                _ => lv.post_out,
            };
            if let Some(op) = op {
                depth.set(depth.get() + 1);
                let r = vm::call(atk, U256::ZERO, &op.data());
                if r.is_ok() {
                    fired.set(fired.get() + 1);
                }
                depth.set(depth.get() - 1);
            }
        })
    };
    {
        let mut s = tok.script.borrow_mut();
        s.before = Some(mk(true));
        s.after = Some(mk(false));
    }
    let n = 8 + m.rng.idx(14);
    for i in 0..n {
        let s = *m.rng.pick(&users);
        let op = gen_op(m, vault, &st, s, &users);
        let mut pl = vec![];
        if i >= 2 {
            for _ in 0..1 + m.rng.idx(3) {
                let mut lv = Level::default();
                let mut g = |m: &mut Mon| {
                    m.rng.chance(1, 2).then(|| gen_op(m, vault, &st, atk, &users))
                };
                lv.pre_in = g(m);
                lv.post_out = g(m);
                if !erc777 {
                    lv.post_in = g(m);
                    lv.pre_out = g(m);
                }
                pl.push(lv);
            }
        }
        *plan.borrow_mut() = pl.clone();
        let c = Conv { supply: st.l.supply, assets: st.un.b(t), off };
        let mo = Model { t, atk, off, reenter, plan: &pl };
        let mut st2 = st.clone();
        let want = mo.exec(&mut st2, s, op, 0).is_some();
        if want {
            st = st2;
        }
        let f0 = fired.get();
        let (o, _) = send(s, t, &op.data());
        m.step(format!("{} {op:?} nested={pl:?} -> {}", nm(s), show(&o)));
        m.count(&format!("{}:nested{}", o.class(), (fired.get() - f0).min(4)));
        if !m.check(o.is_ok() == want, "outcome", || {
            format!("{op:?} with callbacks {pl:?}: {} but the model says success={want}", show(&o))
        }) {
            return;
        }
        st.l.check(m, &all);
        for x in &all {
            m.eq("state/token-balance", (nm(*x), tok.bal(*x)), (nm(*x), st.un.b(*x)));
        }
        let Some(ts) = get(m, t, IToken::totalSupplyCall {}) else { return };
        if !vault {
            m.check(ts._0 <= tok.bal(t), "backing", || {
                format!("supply {} underlying {}", ts._0, tok.bal(t))
            });
        } else if erc777 {
            let v = c.virt().unwrap();
            let lhs = wide(tok.bal(t)).wrapping_add(wide(ONE)).checked_mul(wide(c.supply) + wide(v));
            let rhs = (wide(c.assets) + wide(ONE)).checked_mul(wide(ts._0) + wide(v));
            if let (Some(x), Some(y)) = (lhs, rhs) {
                m.check(x >= y, "share-price-fell", || {
                    format!("{op:?} {pl:?}: assets {}->{} supply {}->{}", c.assets, tok.bal(t), c.supply, ts._0)
                });
            }
        }
        m.seen(st.l.digest() ^ st.un.digest().rotate_left(5));
        if m.failed() {
            return;
        }
    }
}
