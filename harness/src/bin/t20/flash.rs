//! P05: flash mint.
use std::cell::RefCell;
use std::rc::Rc;

use alloy_primitives::{Address, U256};
use alloy_sol_types::{sol, SolCall};
use openzeppelin_stylus::token::erc20::{
    extensions::{flash_mint, Erc20FlashMint, IErc3156FlashLender},
    Erc20,
};
use stylus_sdk::{abi::Bytes, prelude::*};
use vcore::ledger::*;
use vcore::mon::Mon;
use vcore::util::*;
use vcore::vm;

sol! {
    error ERC3156UnsupportedToken(address token);
    error ERC3156ExceededMaxLoan(uint256 maxLoan);
    error ERC3156InvalidReceiver(address receiver);
    interface IFlash {
        function maxFlashLoan(address token) external view returns (uint256);
        function flashFee(address token, uint256 value) external view returns (uint256);
        function flashLoan(address receiver, address token, uint256 value, bytes data) external returns (bool);
        function onFlashLoan(address initiator, address token, uint256 amount, uint256 fee, bytes data) external returns (bytes32);
    }
}

#[storage]
pub struct FlashH {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    flash: Erc20FlashMint,
}
unsafe impl TopLevelStorage for FlashH {}
#[public]
#[inherit(Erc20)]
impl FlashH {
    fn max_flash_loan(&self, token: Address) -> U256 {
        self.flash.max_flash_loan(token, &self.erc20)
    }
    fn flash_fee(&self, token: Address, value: U256) -> Result<U256, flash_mint::Error> {
        self.flash.flash_fee(token, value)
    }
    fn flash_loan(
        &mut self,
        receiver: Address,
        token: Address,
        value: U256,
        data: Bytes,
    ) -> Result<bool, flash_mint::Error> {
        self.flash.flash_loan(receiver, token, value, data, &mut self.erc20)
    }
    fn mint(&mut self, to: Address, value: U256) -> Result<(), flash_mint::Error> {
        Ok(self.erc20._mint(to, value)?)
    }
}

#[derive(Clone, Debug)]
enum Act {
    Approve(U256),
    Send(Address, U256),
    /// Nested flash loan to itself, with the rest of the plan.
    Loan(U256),
    /// Read own balance and the supply while the loan is open.
    Look,
}

#[derive(Clone, Debug)]
enum End {
    Magic,
    Wrong(usize),
    /// Some other value.
    Word(Vec<u8>),
    Zero,
    Short,
    Revert,
    Trap,
}

#[derive(Default)]
struct Borrower {
    plan: Vec<(Vec<Act>, Option<End>)>,
    depth: usize,
    seen: Vec<Vec<u8>>,
    looks: Vec<(U256, U256)>,
}

fn magic() -> Vec<u8> {
    vm::keccak(b"ERC3156FlashBorrower.onFlashLoan").to_vec()
}

fn borrower(b: &Rc<RefCell<Borrower>>, t: Address, d: &[u8]) -> vm::CallResult {
    if d.len() < 4 || d[..4] != IFlash::onFlashLoanCall::SELECTOR {
        return Err(vec![]);
    }
    if vm::caller() != t {
        return Err(vec![]);
    }
    let (acts, end) = {
        let mut x = b.borrow_mut();
        x.seen.push(d.to_vec());
        let i = x.depth.min(x.plan.len() - 1);
        x.depth += 1;
        x.plan[i].clone()
    };
    for act in acts {
        let r = match act {
            Act::Approve(v) => {
                vm::call(t, U256::ZERO, &IToken::approveCall { spender: t, value: v }.abi_encode())
            }
            Act::Send(to, v) => {
                vm::call(t, U256::ZERO, &IToken::transferCall { to, value: v }.abi_encode())
            }
            Act::Loan(v) => {
                let me = vm::me();
                vm::call(
                    t,
                    U256::ZERO,
                    &IFlash::flashLoanCall {
                        receiver: me,
                        token: t,
                        value: v,
                        data: vec![7u8; 3].into(),
                    }
                    .abi_encode(),
                )
            }
            Act::Look => {
                let me = vm::me();
                let r1 =
                    vm::call(t, U256::ZERO, &IToken::balanceOfCall { account: me }.abi_encode());
                let r2 = vm::call(t, U256::ZERO, &IToken::totalSupplyCall {}.abi_encode());
                if let (Ok(x), Ok(y)) = (&r1, &r2) {
                    b.borrow_mut()
                        .looks
                        .push((U256::from_be_slice(x), U256::from_be_slice(y)));
                }
                r1
            }
        };
        if let Err(e) = r {
            return Err(e);
        }
    }
    match end.unwrap() {
        End::Magic => Ok(magic()),
        End::Wrong(i) => Ok(word_u(U256::from_be_slice(&magic()) ^ (ONE << i)).to_vec()),
        End::Word(v) => Ok(v),
        End::Zero => Ok(vec![0; 32]),
        End::Short => Ok(magic()[..31].to_vec()),
        End::Revert => Err(b"borrower".to_vec()),
        End::Trap => panic!("borrower trap"),
    }
}

struct Model<'a> {
    t: Address,
    fee: U256,
    fee_to: Address,
    reenter: bool,
    plan: &'a [(Vec<Act>, Option<End>)],
    depth: usize,
    seen: Vec<Vec<u8>>,
    looks: Vec<(U256, U256)>,
    has_code: bool,
}

impl Model<'_> {
    /// Reference flash loan on the ledger; logs or acceptable errors.
    fn loan(
        &mut self,
        l: &mut Ledger,
        initiator: Address,
        receiver: Address,
        token: Address,
        value: U256,
        data: &[u8],
    ) -> Res {
        let t = self.t;
        let max = if token == t { U256::MAX - l.supply } else { U256::ZERO };
        let inv = err(ERC3156InvalidReceiver { receiver });
        let mut e = vec![];
        if value > max {
            e.push(err(ERC3156ExceededMaxLoan { maxLoan: max }));
        }
        if token != t {
            e.push(err(ERC3156UnsupportedToken { token }));
        }
        if !self.has_code {
            e.push(inv.clone());
        }
        if receiver.is_zero() {
            e.push(err(ERC20InvalidReceiver { receiver }));
        }
        if !e.is_empty() {
            return Err(e);
        }
        if receiver == t {
            // The token itself is no borrower.
            return Err(vec![inv]);
        }
        let fee = self.fee;
        let mut logs = l.mint(receiver, value)?;
        self.seen.push(
            IFlash::onFlashLoanCall { initiator, token, amount: value, fee, data: data.to_vec().into() }
                .abi_encode(),
        );
        let i = self.depth.min(self.plan.len() - 1);
        self.depth += 1;
        let (acts, end) = self.plan[i].clone();
        for act in acts {
            if !self.reenter {
                return Err(vec![inv]);
            }
            let r = match act {
                Act::Approve(v) => l.approve(receiver, t, v),
                Act::Send(to, v) => l.transfer(receiver, to, v),
                Act::Loan(v) => self.loan(l, receiver, receiver, t, v, &[7, 7, 7]),
                Act::Look => {
                    self.looks.push((l.b(receiver), l.supply));
                    Ok(vec![])
                }
            };
            match r {
                Ok(x) => logs.extend(x),
                Err(_) => return Err(vec![inv]),
            }
        }
        if !matches!(end.unwrap(), End::Magic) {
            return Err(vec![inv]);
        }
        let Some(total) = value.checked_add(fee) else { return Err(vec![vec![]]) };
        let mut e = l.spend_errs(receiver, t, total);
        if l.b(receiver) < total {
            // Which of the two debits reports it depends on the fee receiver.
            e.extend(l.burn_errs(receiver, value));
            e.extend(l.burn_errs(receiver, total));
            if l.b(receiver) >= value {
                e.push(err(ERC20InsufficientBalance {
                    sender: receiver,
                    balance: l.b(receiver) - value,
                    needed: fee,
                }));
            }
        }
        if !e.is_empty() {
            return Err(e);
        }
        l.do_spend(receiver, t, total);
        if fee.is_zero() || self.fee_to.is_zero() {
            logs.push(l.do_burn(receiver, total));
        } else {
            logs.push(l.do_burn(receiver, value));
            logs.extend(l.transfer(receiver, self.fee_to, fee)?);
        }
        Ok(logs)
    }
}

pub fn p05(m: &mut Mon) {
    let t = a(100);
    vm::install(t, vm::contract::<FlashH>());
    let reenter = m.rng.chance(3, 4);
    vm::with(|w| w.allow_reentrancy = reenter);
    let fee = match m.rng.below(6) {
        0 | 1 => U256::ZERO,
        2 => m.rng.amount(),
        _ => u(1 + m.rng.below(50)),
    };
    let fr = a(9);
    let bw = a(5); // the borrower contract
    let eoa = a(2);
    let fee_to = match m.rng.below(8) {
        0 | 1 => Address::ZERO,
        2 => bw,
        3 => t,
        4 => eoa,
        _ => fr,
    };
    // erc20 occupies slots 0..=2; the fee and its receiver follow.
    vm::poke(t, u(3), word_u(fee));
    vm::poke(t, u(4), word_addr(fee_to));
    let b = Rc::new(RefCell::new(Borrower::default()));
    {
        let b = b.clone();
        vm::install(bw, Rc::new(move |d: &[u8]| borrower(&b, t, d)));
    }
    let users = [a(1), eoa, bw];
    let mut all = users.to_vec();
    all.extend([t, fr, Address::ZERO]);
    let mut l = Ledger::new(t);
    for x in users {
        let v = if m.rng.chance(1, 6) { m.rng.u256() >> 2 } else { u(m.rng.below(500)) };
        let (o, _) = send(a(1), t, &IToken::mintCall { to: x, value: v }.abi_encode());
        if !o.is_ok() || l.mint(x, v).is_err() {
            m.fail("setup/mint", show(&o));
            return;
        }
    }
    let n = 5 + m.rng.idx(9);
    for _ in 0..n {
        let s = if m.rng.chance(1, 20) { t } else { *m.rng.pick(&users) };
        let (op, data, want);
        match m.rng.below(8) {
            0 => {
                op = "approve";
                let v = if m.rng.chance(1, 3) { U256::MAX } else { m.rng.amount() };
                data = IToken::approveCall { spender: t, value: v }.abi_encode();
                want = to_expect(l.clone().run(|l| l.approve(s, t, v), &mut l), ok_ret(&true));
            }
            1 => {
                op = "transfer";
                let to = *m.rng.pick(&users);
                let v = gen_amount(m, &l, s, None);
                data = IToken::transferCall { to, value: v }.abi_encode();
                want = to_expect(l.clone().run(|l| l.transfer(s, to, v), &mut l), ok_ret(&true));
            }
            _ => {
                op = "flashLoan";
                let receiver = match m.rng.below(16) {
                    0 => eoa,
                    1 => Address::ZERO,
                    2 => t,
                    _ => bw,
                };
                let token =
                    if m.rng.chance(1, 12) { *m.rng.pick(&[a(66), Address::ZERO, bw]) } else { t };
                let room = U256::MAX - l.supply;
                let value = match m.rng.below(8) {
                    0 => m.rng.near(room),
                    1 => m.rng.amount(),
                    2 => U256::ZERO,
                    _ => u(m.rng.below(1000)),
                };
                let payload = m.rng.payload();
                // Script the borrower.
                let mut plan = vec![];
                for d in 0..3 {
                    let mut acts = vec![];
                    let na = if m.rng.chance(1, 3) { 0 } else { m.rng.idx(4) };
                    for _ in 0..na {
                        acts.push(match m.rng.below(7) {
                            0 | 1 | 2 => Act::Approve(match m.rng.below(5) {
                                0 => U256::MAX,
                                1 => value,
                                2 => value.wrapping_add(fee).wrapping_sub(ONE),
                                _ => value.wrapping_add(fee),
                            }),
                            3 => Act::Send(*m.rng.pick(&users), {
                                let bal = l.b(bw).wrapping_add(value);
                                m.rng.near(bal)
                            }),
                            4 if d < 2 => Act::Loan(u(m.rng.below(300))),
                            _ => Act::Look,
                        });
                    }
                    if m.rng.chance(3, 5) {
                        // Keep the loan repayable most of the time.
                        acts.push(Act::Approve(if m.rng.chance(1, 4) {
                            U256::MAX
                        } else {
                            value.wrapping_add(fee)
                        }));
                    }
                    let end = match m.rng.below(17) {
                        16 => End::Word(match m.rng.below(4) {
                            0 => vm::keccak(b"onFlashLoan(address,address,uint256,uint256,bytes)").to_vec(),
                            1 => vm::keccak(b"IERC3156FlashBorrower.onFlashLoan").to_vec(),
                            _ => odd_answer(m, &magic()),
                        }),
                        0 => End::Wrong(m.rng.idx(256)),
                        1 => End::Zero,
                        2 => End::Revert,
                        3 => End::Trap,
                        4 => End::Short,
                        _ => End::Magic,
                    };
                    plan.push((acts, Some(end)));
                }
                *b.borrow_mut() = Borrower { plan: plan.clone(), ..Default::default() };
                data = IFlash::flashLoanCall {
                    receiver,
                    token,
                    value,
                    data: payload.clone().into(),
                }
                .abi_encode();
                let mut mo = Model {
                    t,
                    fee,
                    fee_to,
                    reenter,
                    plan: &plan,
                    depth: 0,
                    seen: vec![],
                    looks: vec![],
                    has_code: receiver == bw || receiver == t,
                };
                let mut l2 = l.clone();
                let r = mo.loan(&mut l2, s, receiver, token, value, &payload);
                m.count(&format!("loan-depth:{}", mo.depth));
                let supply0 = l.supply;
                let w = match r {
                    Ok(logs) => {
                        l = l2;
                        Expect::Ok { ret: ok_ret(&true), logs }
                    }
                    Err(e) => Expect::Err(e),
                };
                let (o, logs) = send(s, t, &data);
                m.step(format!(
                    "{} flashLoan({},{value}) fee={fee}->{} plan={plan:?} -> {}",
                    nm(s), nm(receiver), nm(fee_to), show(&o)
                ));
                if !judge(m, op, &o, &logs, &w) {
                    return;
                }
                if o.is_ok() {
                    m.eq("callback/calldata", b.borrow().seen.clone(), mo.seen.clone());
                    m.eq("callback/observed-loan", b.borrow().looks.clone(), mo.looks.clone());
                    let _ = supply0;
                }
                want = w;
                l.check(m, &all);
                let Some(r) = get(m, t, IFlash::maxFlashLoanCall { token: t }) else { return };
                m.eq("maxFlashLoan", r._0, U256::MAX - l.supply);
                let Some(r) = get(m, t, IFlash::maxFlashLoanCall { token: a(66) }) else { return };
                m.eq("maxFlashLoan/other", r._0, U256::ZERO);
                let Some(r) = get(m, t, IFlash::flashFeeCall { token: t, value }) else { return };
                m.eq("flashFee", r._0, fee);
                let o = peek_call(t, IFlash::flashFeeCall { token: a(66), value });
                m.check(
                    o == vm::Outcome::Revert(err(ERC3156UnsupportedToken { token: a(66) })),
                    "flashFee/other",
                    || show(&o),
                );
                m.seen(l.digest());
                let _ = &want;
                if m.failed() {
                    return;
                }
                continue;
            }
        }
        let (o, logs) = send(s, t, &data);
        m.step(format!("{} {op}({}) -> {}", nm(s), hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        l.check(m, &all);
        if m.failed() {
            return;
        }
    }
}
