//! P02: ERC-2612 permit. P03: nonces.
use std::collections::BTreeMap;

use alloy_primitives::{Address, B256, U256};
use alloy_sol_types::{sol, SolCall, SolValue};
use openzeppelin_stylus::{
    token::erc20::{
        extensions::{permit, Erc20Permit},
        Erc20,
    },
    utils::{
        cryptography::eip712::IEip712,
        nonces::{self, Nonces},
    },
};
use stylus_sdk::prelude::*;
use vcore::ledger::*;
use vcore::mon::Mon;
use vcore::util::*;
use vcore::vm;

sol! {
    error ERC2612ExpiredSignature(uint256 deadline);
    error ERC2612InvalidSigner(address signer, address owner);
    error ECDSAInvalidSignature();
    error ECDSAInvalidSignatureS(bytes32 s);
    error InvalidAccountNonce(address account, uint256 currentNonce);
    interface IPermit {
        function permit(address owner, address spender, uint256 value, uint256 deadline, uint8 v, bytes32 r, bytes32 s) external;
        function nonces(address owner) external view returns (uint256);
        function DOMAIN_SEPARATOR() external view returns (bytes32);
        function useNonce(address owner) external returns (uint256);
        function useCheckedNonce(address owner, uint256 nonce) external;
    }
}

pub const NAME: &str = "Verif Permit Token";
pub const VERSION: &str = "7";

#[storage]
pub struct Dom;
impl IEip712 for Dom {
    const NAME: &'static str = NAME;
    const VERSION: &'static str = VERSION;
}

#[storage]
pub struct PermitH {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    nonces: Nonces,
    #[borrow]
    permit: Erc20Permit<Dom>,
}
unsafe impl TopLevelStorage for PermitH {}

#[public]
#[inherit(Erc20, Nonces, Erc20Permit<Dom>)]
impl PermitH {
    fn mint(&mut self, to: Address, value: U256) -> Result<(), permit::Error> {
        Ok(self.erc20._mint(to, value)?)
    }
    #[allow(clippy::too_many_arguments)]
    fn permit(
        &mut self,
        owner: Address,
        spender: Address,
        value: U256,
        deadline: U256,
        v: u8,
        r: B256,
        s: B256,
    ) -> Result<(), permit::Error> {
        self.permit.permit(
            owner, spender, value, deadline, v, r, s, &mut self.erc20, &mut self.nonces,
        )
    }
}

#[storage]
pub struct NonceH {
    #[borrow]
    nonces: Nonces,
}
unsafe impl TopLevelStorage for NonceH {}

#[public]
#[inherit(Nonces)]
impl NonceH {
    fn use_nonce(&mut self, owner: Address) -> U256 {
        self.nonces.use_nonce(owner)
    }
    fn use_checked_nonce(&mut self, owner: Address, nonce: U256) -> Result<(), nonces::Error> {
        self.nonces.use_checked_nonce(owner, nonce)
    }
}

pub fn separator(chain: u64, addr: Address) -> B256 {
    let mut b = vec![];
    b.extend_from_slice(
        vm::keccak(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)")
            .as_slice(),
    );
    b.extend_from_slice(vm::keccak(NAME.as_bytes()).as_slice());
    b.extend_from_slice(vm::keccak(VERSION.as_bytes()).as_slice());
    b.extend_from_slice(word_u(u(chain)).as_slice());
    b.extend_from_slice(word_addr(addr).as_slice());
    vm::keccak(&b)
}

pub fn typed(sep: B256, st: B256) -> B256 {
    let mut b = vec![0x19, 0x01];
    b.extend_from_slice(sep.as_slice());
    b.extend_from_slice(st.as_slice());
    vm::keccak(&b)
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Msg {
    owner: Address,
    spender: Address,
    value: U256,
    nonce: U256,
    deadline: U256,
}

fn digest(m: &Msg, chain: u64, addr: Address) -> B256 {
    let th = vm::keccak(
        b"Permit(address owner,address spender,uint256 value,uint256 nonce,uint256 deadline)",
    );
    let mut b = th.to_vec();
    b.extend(m.owner.abi_encode());
    b.extend(m.spender.abi_encode());
    b.extend(m.value.abi_encode());
    b.extend(m.nonce.abi_encode());
    b.extend(m.deadline.abi_encode());
    typed(separator(chain, addr), vm::keccak(&b))
}

pub fn p02(m: &mut Mon) {
    let t = a(100);
    let other = a(101);
    vm::install(t, vm::contract::<PermitH>());
    let keys: Vec<Key> = (0..3).map(|i| key(i + m.rng.below(4) * 3)).collect();
    let users = [keys[0].addr, keys[1].addr, keys[2].addr, a(4)];
    let mut all = users.to_vec();
    all.push(Address::ZERO);
    all.push(t);
    let mut l = Ledger::new(t);
    let mut non: BTreeMap<Address, U256> = BTreeMap::new();
    let mut used: Vec<(Msg, u8, B256, B256)> = vec![];
    let half = SECP_N >> 1;
    let n = 10 + m.rng.idx(12);
    for _ in 0..n {
        if m.rng.chance(1, 6) {
            // Time passes, or the chain forks.
            vm::with(|w| {
                w.timestamp += 1 + m.rng.below(1000);
                if m.rng.chance(1, 4) {
                    w.chain_id = *m.rng.pick(&[1, 42161, 421614, u64::MAX]);
                }
            });
        }
        let (now, chain) = vm::with(|w| (w.timestamp, w.chain_id));
        let s = if m.rng.chance(1, 20) { t } else { *m.rng.pick(&users) };
        let (op, data, want);
        match m.rng.below(12) {
            0 => {
                let to = *m.rng.pick(&users);
                let v = m.rng.u256_width() >> 4;
                op = "mint";
                data = IToken::mintCall { to, value: v }.abi_encode();
                want = to_expect(l.clone().run(|l| l.mint(to, v), &mut l), Some(vec![]));
            }
            1 => {
                let sp = *m.rng.pick(&users);
                let v = m.rng.amount();
                op = "approve";
                data = IToken::approveCall { spender: sp, value: v }.abi_encode();
                want = to_expect(l.clone().run(|l| l.approve(s, sp, v), &mut l), ok_ret(&true));
            }
            2 | 3 => {
                let f = *m.rng.pick(&users);
                let to = *m.rng.pick(&users);
                let v = gen_amount(m, &l, f, Some(s));
                op = "transferFrom";
                data = IToken::transferFromCall { from: f, to, value: v }.abi_encode();
                want = to_expect(
                    l.clone().run(|l| l.transfer_from(s, f, to, v), &mut l),
                    ok_ret(&true),
                );
            }
            _ => {
                op = "permit";
                let ki = m.rng.idx(3);
                let mut msg = Msg {
                    owner: keys[ki].addr,
                    spender: match m.rng.below(12) {
                        0 => Address::ZERO,
                        1 => t,
                        _ => *m.rng.pick(&users),
                    },
                    value: m.rng.amount(),
                    nonce: non.get(&keys[ki].addr).copied().unwrap_or_default(),
                    deadline: match m.rng.below(8) {
                        0 => u(now),
                        1 => u(now) - ONE,
                        2 => U256::MAX,
                        3 => U256::ZERO,
                        4 => u(now) + (ONE << (64 + m.rng.idx(190))),
                        _ => u(now) + u(1 + m.rng.below(5000)),
                    },
                };
                let mut chain_s = chain;
                let mut addr_s = t;
                let mut signer = ki;
                let kind = m.rng.below(22);
                let mut tamper = "valid";
                match kind {
                    0 => {
                        tamper = "stale-nonce";
                        msg.nonce = msg.nonce.wrapping_sub(ONE)
                    }
                    1 => {
                        tamper = "future-nonce";
                        msg.nonce += ONE
                    }
                    2 => {
                        tamper = "wrong-chain";
                        chain_s ^= 1
                    }
                    3 => {
                        tamper = "wrong-contract";
                        addr_s = other
                    }
                    4 => {
                        tamper = "wrong-signer";
                        signer = (ki + 1) % 3
                    }
                    _ => {}
                }
                let (mut v, mut r, mut sg) = sign(&keys[signer], digest(&msg, chain_s, addr_s));
                let signed = msg;
                match kind {
                    5 => {
                        tamper = "value";
                        msg.value = msg.value.wrapping_add(ONE)
                    }
                    6 => {
                        tamper = "spender";
                        msg.spender = a(77)
                    }
                    7 => {
                        tamper = "owner";
                        msg.owner = *m.rng.pick(&[keys[(ki + 1) % 3].addr, t, a(4), s, msg.spender]);
                    }
                    8 => {
                        tamper = "deadline";
                        msg.deadline = msg.deadline.wrapping_add(ONE)
                    }
                    9 => {
                        // The other valid encoding of the same signature.
                        tamper = "malleated";
                        sg = word_u(SECP_N - U256::from_be_bytes(sg.0));
                        v = 55 - v;
                    }
                    10 => {
                        tamper = "v";
                        v = *m.rng.pick(&[0, 1, 2, 26, 29, 255, 55 - v]);
                    }
                    11 => {
                        tamper = "r";
                        r = *m.rng.pick(&[
                            B256::ZERO,
                            B256::repeat_byte(0xff),
                            word_u(SECP_N),
                            word_u(U256::from_be_bytes(r.0) ^ ONE),
                        ]);
                    }
                    12 => {
                        tamper = "s";
                        sg = *m.rng.pick(&[
                            B256::ZERO,
                            B256::repeat_byte(0xff),
                            word_u(half),
                            word_u(half + ONE),
                            word_u(SECP_N),
                            word_u(U256::from_be_bytes(sg.0) ^ ONE),
                        ]);
                    }
                    13 | 14 if !used.is_empty() => {
                        tamper = "replay";
                        let x = *m.rng.pick(&used);
                        msg = x.0;
                        v = x.1;
                        r = x.2;
                        sg = x.3;
                    }
                    15 => {
                        tamper = "zero-owner";
                        msg.owner = Address::ZERO;
                        if m.rng.chance(1, 2) {
                            v = 99;
                        }
                    }
                    _ => {}
                }
                let _ = signed;
                m.count(&format!("permit-kind:{tamper}"));
                data = IPermit::permitCall {
                    owner: msg.owner,
                    spender: msg.spender,
                    value: msg.value,
                    deadline: msg.deadline,
                    v,
                    r,
                    s: sg,
                }
                .abi_encode();
                // Oracle: what the standard says for these bytes.
                let cur = non.get(&msg.owner).copied().unwrap_or_default();
                let h = digest(&Msg { nonce: cur, ..msg }, chain, t);
                let mut e = vec![];
                if u(now) > msg.deadline {
                    e.push(err(ERC2612ExpiredSignature { deadline: msg.deadline }));
                }
                if U256::from_be_bytes(sg.0) > half {
                    e.push(err(ECDSAInvalidSignatureS { s: sg }));
                } else {
                    match vm::ecrecover(
                        h.as_slice(),
                        word_u(u(v as u64)).as_slice(),
                        r.as_slice(),
                        sg.as_slice(),
                    ) {
                        None => {
                            e.push(err(ECDSAInvalidSignature {}));
                        }
                        Some(w) if w != msg.owner => {
                            e.push(err(ERC2612InvalidSigner { signer: w, owner: msg.owner }));
                        }
                        Some(_) => {}
                    }
                }
                if msg.spender.is_zero() {
                    e.push(err(ERC20InvalidSpender { spender: msg.spender }));
                }
                if msg.owner.is_zero() {
                    e.push(err(ERC20InvalidApprover { approver: msg.owner }));
                }
                if e.is_empty() {
                    non.insert(msg.owner, cur + ONE);
                    let logs = l.approve(msg.owner, msg.spender, msg.value).unwrap();
                    used.push((Msg { nonce: cur, ..msg }, v, r, sg));
                    want = Expect::Ok { ret: Some(vec![]), logs };
                    m.count("permit:authorised");
                } else {
                    want = Expect::Err(e);
                }
            }
        }
        let (o, logs) = send(s, t, &data);
        m.step(format!("t={now} {} {op}({}) -> {}", nm(s), hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        l.check(m, &all);
        for x in &all {
            let Some(r) = get(m, t, IPermit::noncesCall { owner: *x }) else { return };
            let w = non.get(x).copied().unwrap_or_default();
            m.eq("state/nonces", r._0, w);
        }
        let chain = vm::with(|w| w.chain_id);
        let Some(r) = get(m, t, IPermit::DOMAIN_SEPARATORCall {}) else { return };
        m.eq("domain-separator", r._0, separator(chain, t));
        let d = l.digest();
        m.seen(d);
        if m.failed() {
            return;
        }
    }
}

pub fn p03(m: &mut Mon) {
    let t = a(100);
    vm::install(t, vm::contract::<NonceH>());
    let users = [a(1), a(2), a(3), Address::ZERO, t];
    let mut non: BTreeMap<Address, U256> = BTreeMap::new();
    // Accounts with a long history (nonces mapping at slot 0).
    for x in users {
        if m.rng.chance(1, 3) {
            let v = match m.rng.below(4) {
                0 => U256::MAX - u(m.rng.below(3)),
                1 => (ONE << (8 * (1 + m.rng.idx(31)))) - ONE,
                _ => m.rng.u256_width(),
            };
            let mut b = word_addr(x).to_vec();
            b.extend_from_slice(&[0u8; 32]);
            vm::poke(t, vm::keccak(&b).into(), word_u(v));
            non.insert(x, v);
        }
    }
    let n = 10 + m.rng.idx(40);
    for _ in 0..n {
        let s = *m.rng.pick(&users);
        let x = *m.rng.pick(&users);
        let cur = non.get(&x).copied().unwrap_or_default();
        let (op, data, want);
        if m.rng.chance(1, 2) {
            op = "use_nonce";
            data = IPermit::useNonceCall { owner: x }.abi_encode();
            want = match cur.checked_add(ONE) {
                Some(nx) => {
                    non.insert(x, nx);
                    Expect::Ok { ret: ok_ret(&cur), logs: vec![] }
                }
                None => Expect::Err(vec![vec![]]),
            };
        } else {
            op = "use_checked_nonce";
            let given = match m.rng.below(6) {
                0 => cur.wrapping_add(ONE),
                1 => cur.wrapping_sub(ONE),
                2 => m.rng.amount(),
                3 => cur ^ (ONE << m.rng.idx(256)),
                _ => cur,
            };
            data = IPermit::useCheckedNonceCall { owner: x, nonce: given }.abi_encode();
            let mut e = vec![];
            if given != cur {
                e.push(err(InvalidAccountNonce { account: x, currentNonce: cur }));
            }
            if cur == U256::MAX {
                e.push(vec![]);
            }
            want = if e.is_empty() {
                non.insert(x, cur + ONE);
                Expect::Ok { ret: Some(vec![]), logs: vec![] }
            } else {
                Expect::Err(e)
            };
        }
        let (o, logs) = send(s, t, &data);
        m.step(format!("{} {op}({}) -> {}", nm(s), hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        for x in users {
            let Some(r) = get(m, t, IPermit::noncesCall { owner: x }) else { return };
            m.eq("state/nonces", r._0, non.get(&x).copied().unwrap_or_default());
        }
        m.seen(vcore::mon::hash_str(&format!("{non:?}")));
        if m.failed() {
            return;
        }
    }
}
