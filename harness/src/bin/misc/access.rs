//! P18 roles, P19 ownership, P20 two-step ownership, P21 pausing.
use std::collections::{BTreeMap, BTreeSet};

use alloy_primitives::{Address, B256, U256};
use alloy_sol_types::{sol, SolCall};
use openzeppelin_stylus::access::{
    control::{self, AccessControl},
    ownable::{self, Ownable},
    ownable_two_step::Ownable2Step,
};
use openzeppelin_stylus::utils::pausable::{self, Pausable};
use stylus_sdk::prelude::*;
use vcore::mon::{hash_str, Mon};
use vcore::util::*;
use vcore::vm::{self, Log};

sol! {
    event RoleAdminChanged(bytes32 indexed role, bytes32 indexed previousAdminRole, bytes32 indexed newAdminRole);
    event RoleGranted(bytes32 indexed role, address indexed account, address indexed sender);
    event RoleRevoked(bytes32 indexed role, address indexed account, address indexed sender);
    error AccessControlUnauthorizedAccount(address account, bytes32 neededRole);
    error AccessControlBadConfirmation();
    event OwnershipTransferred(address indexed previousOwner, address indexed newOwner);
    event OwnershipTransferStarted(address indexed previousOwner, address indexed newOwner);
    error OwnableUnauthorizedAccount(address account);
    error OwnableInvalidOwner(address owner);
    event Paused(address account);
    event Unpaused(address account);
    error EnforcedPause();
    error ExpectedPause();

    interface IRoles {
        function hasRole(bytes32 role, address account) external view returns (bool);
        function onlyRole(bytes32 role) external view;
        function getRoleAdmin(bytes32 role) external view returns (bytes32);
        function grantRole(bytes32 role, address account) external;
        function revokeRole(bytes32 role, address account) external;
        function renounceRole(bytes32 role, address confirmation) external;
        function setRoleAdmin(bytes32 role, bytes32 admin) external;
        function grantAny(bytes32 role, address account) external returns (bool);
        function revokeAny(bytes32 role, address account) external returns (bool);
        function checkRole(bytes32 role, address account) external view;
        function guarded(bytes32 role) external returns (uint256);
        function counter() external view returns (uint256);
    }
    interface IOwn {
        function owner() external view returns (address);
        function pendingOwner() external view returns (address);
        function transferOwnership(address newOwner) external;
        function renounceOwnership() external;
        function acceptOwnership() external;
        function force(address newOwner) external;
        function guarded() external returns (uint256);
        function counter() external view returns (uint256);
    }
    interface IPause {
        function paused() external view returns (bool);
        function pause() external;
        function unpause() external;
        function whenOn() external returns (uint256);
        function whenOff() external returns (uint256);
        function counter() external view returns (uint256);
    }
}

// ---- P18 ------------------------------------------------------------------

#[storage]
pub struct RolesH {
    #[borrow]
    access: AccessControl,
    n: stylus_sdk::storage::StorageU256,
}
unsafe impl TopLevelStorage for RolesH {}
#[public]
#[inherit(AccessControl)]
impl RolesH {
    fn set_role_admin(&mut self, role: B256, admin: B256) {
        self.access._set_role_admin(role, admin)
    }
    fn grant_any(&mut self, role: B256, account: Address) -> bool {
        self.access._grant_role(role, account)
    }
    fn revoke_any(&mut self, role: B256, account: Address) -> bool {
        self.access._revoke_role(role, account)
    }
    fn check_role(&self, role: B256, account: Address) -> Result<(), control::Error> {
        self.access._check_role(role, account)
    }
    fn guarded(&mut self, role: B256) -> Result<U256, control::Error> {
        use openzeppelin_stylus::access::control::IAccessControl;
        self.access.only_role(role)?;
        let v = self.n.get() + ONE;
        self.n.set(v);
        Ok(v)
    }
    fn counter(&self) -> U256 {
        self.n.get()
    }
}

#[derive(Default)]
struct Roles {
    addr: Address,
    has: BTreeSet<(B256, Address)>,
    admin: BTreeMap<B256, B256>,
    n: U256,
}
impl Roles {
    fn adm(&self, r: B256) -> B256 {
        self.admin.get(&r).copied().unwrap_or_default()
    }
    fn need(&self, r: B256, x: Address) -> Option<Expect> {
        (!self.has.contains(&(r, x))).then(|| {
            Expect::Err(vec![err(AccessControlUnauthorizedAccount { account: x, neededRole: r })])
        })
    }
    fn grant(&mut self, r: B256, x: Address, s: Address) -> (bool, Vec<Log>) {
        if self.has.insert((r, x)) {
            (true, vec![ev(self.addr, &RoleGranted { role: r, account: x, sender: s })])
        } else {
            (false, vec![])
        }
    }
    fn revoke(&mut self, r: B256, x: Address, s: Address) -> (bool, Vec<Log>) {
        if self.has.remove(&(r, x)) {
            (true, vec![ev(self.addr, &RoleRevoked { role: r, account: x, sender: s })])
        } else {
            (false, vec![])
        }
    }
}

pub fn p18(m: &mut Mon) {
    let t = a(9000);
    vm::install(t, vm::contract::<RolesH>());
    let n = 3 + m.rng.idx(3);
    let mut users: Vec<Address> = (0..n as u64).map(a).collect();
    let mut all = users.clone();
    all.push(Address::ZERO);
    all.push(t);
    if m.rng.chance(1, 4) {
        users.push(Address::ZERO);
    }
    if m.rng.chance(1, 4) {
        users.push(t);
    }
    let mut roles: Vec<B256> = vec![B256::ZERO];
    for i in 0..2 + m.rng.idx(4) {
        roles.push(match m.rng.below(4) {
            0 => word_u(u(i as u64 + 1)),
            1 => word_addr(users[0]),
            2 => B256::repeat_byte(0xff),
            _ => B256::from(m.rng.u256()),
        });
    }
    {
        let mut v: Vec<U256> = roles.iter().map(|r| U256::from_be_bytes(r.0)).collect();
        m.rng.twins(&mut v);
        roles = v.into_iter().map(word_u).collect();
    }
    roles.sort();
    roles.dedup();
    let mut r = Roles { addr: t, ..Default::default() };
    // Events alone must rebuild the state.
    let mut rebuilt: BTreeSet<(B256, Address)> = Default::default();
    let mut first = true;
    for _ in 0..25 + m.rng.idx(40) {
        let s = *m.rng.pick(&users);
        let x = *m.rng.pick(&all);
        // Half of the time the acting account holds the role it needs.
        let role = *m.rng.pick(&roles);
        let good: Vec<Address> =
            users.iter().copied().filter(|y| r.has.contains(&(r.adm(role), *y))).collect();
        let sa = if !good.is_empty() && m.rng.chance(3, 5) { *m.rng.pick(&good) } else { s };
        let k = if first { 9 } else { m.rng.below(16) };
        first = false;
        let (op, who, data, want) = match k {
            0..=3 => {
                let w = match r.need(r.adm(role), sa) {
                    Some(e) => e,
                    None => {
                        let (_, logs) = r.grant(role, x, sa);
                        Expect::Ok { ret: Some(vec![]), logs }
                    }
                };
                ("grantRole", sa, IRoles::grantRoleCall { role, account: x }.abi_encode(), w)
            }
            4..=6 => {
                let held: Vec<Address> =
                    all.iter().copied().filter(|y| r.has.contains(&(role, *y))).collect();
                let x = if !held.is_empty() && m.rng.chance(2, 3) { *m.rng.pick(&held) } else { x };
                let w = match r.need(r.adm(role), sa) {
                    Some(e) => e,
                    None => {
                        let (_, logs) = r.revoke(role, x, sa);
                        Expect::Ok { ret: Some(vec![]), logs }
                    }
                };
                ("revokeRole", sa, IRoles::revokeRoleCall { role, account: x }.abi_encode(), w)
            }
            7 | 8 => {
                let c = if m.rng.chance(2, 3) { s } else { x };
                let w = if c != s {
                    Expect::Err(vec![err(AccessControlBadConfirmation {})])
                } else {
                    let (_, logs) = r.revoke(role, c, s);
                    Expect::Ok { ret: Some(vec![]), logs }
                };
                ("renounceRole", s, IRoles::renounceRoleCall { role, confirmation: c }.abi_encode(), w)
            }
            9 => {
                let role = if m.rng.chance(1, 2) { B256::ZERO } else { role };
                let (b, logs) = r.grant(role, x, s);
                (
                    "_grant_role",
                    s,
                    IRoles::grantAnyCall { role, account: x }.abi_encode(),
                    Expect::Ok { ret: ok_ret(&b), logs },
                )
            }
            10 => {
                let (b, logs) = r.revoke(role, x, s);
                (
                    "_revoke_role",
                    s,
                    IRoles::revokeAnyCall { role, account: x }.abi_encode(),
                    Expect::Ok { ret: ok_ret(&b), logs },
                )
            }
            11 => {
                let na = *m.rng.pick(&roles);
                let logs = vec![ev(
                    t,
                    &RoleAdminChanged { role, previousAdminRole: r.adm(role), newAdminRole: na },
                )];
                r.admin.insert(role, na);
                (
                    "_set_role_admin",
                    s,
                    IRoles::setRoleAdminCall { role, admin: na }.abi_encode(),
                    Expect::Ok { ret: Some(vec![]), logs },
                )
            }
            12 => {
                let w = r.need(role, x).unwrap_or(Expect::Ok { ret: Some(vec![]), logs: vec![] });
                ("_check_role", s, IRoles::checkRoleCall { role, account: x }.abi_encode(), w)
            }
            13 => {
                let w = r.need(role, s).unwrap_or(Expect::Ok { ret: Some(vec![]), logs: vec![] });
                ("onlyRole", s, IRoles::onlyRoleCall { role }.abi_encode(), w)
            }
            _ => {
                let w = match r.need(role, s) {
                    Some(e) => e,
                    None => {
                        r.n += ONE;
                        Expect::Ok { ret: ok_ret(&r.n), logs: vec![] }
                    }
                };
                ("guarded", s, IRoles::guardedCall { role }.abi_encode(), w)
            }
        };
        let (o, logs) = send(who, t, &data);
        m.step(format!("{} {op}({}) -> {}", nm(who), hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        for g in &logs {
            if g.topics.len() == 4 {
                let k = (g.topics[1], Address::from_slice(&g.topics[2][12..]));
                if g.topics[0] == vm::keccak(b"RoleGranted(bytes32,address,address)") {
                    rebuilt.insert(k);
                } else if g.topics[0] == vm::keccak(b"RoleRevoked(bytes32,address,address)") {
                    rebuilt.remove(&k);
                }
            }
        }
        for &role in &roles {
            let Some(g) = get(m, t, IRoles::getRoleAdminCall { role }) else { return };
            m.eq("state/getRoleAdmin", g._0, r.adm(role));
            for &x in &all {
                let Some(g) = get(m, t, IRoles::hasRoleCall { role, account: x }) else { return };
                m.eq("state/hasRole", g._0, r.has.contains(&(role, x)));
                m.eq("events/rebuilt-roles", rebuilt.contains(&(role, x)), g._0);
            }
        }
        let Some(g) = get(m, t, IRoles::counterCall {}) else { return };
        m.eq("state/guarded-counter", g._0, r.n);
        m.seen(hash_str(&format!("{:?}{:?}", r.has, r.admin)));
        if m.failed() {
            return;
        }
    }
}

// ---- P19, P20 -------------------------------------------------------------

#[storage]
pub struct OwnH {
    #[borrow]
    ownable: Ownable,
    n: stylus_sdk::storage::StorageU256,
}
unsafe impl TopLevelStorage for OwnH {}
#[public]
#[inherit(Ownable)]
impl OwnH {
    fn force(&mut self, new_owner: Address) {
        self.ownable._transfer_ownership(new_owner)
    }
    fn guarded(&mut self) -> Result<U256, ownable::Error> {
        self.ownable.only_owner()?;
        let v = self.n.get() + ONE;
        self.n.set(v);
        Ok(v)
    }
    fn counter(&self) -> U256 {
        self.n.get()
    }
}

#[storage]
pub struct Own2H {
    #[borrow]
    ownable: Ownable2Step,
    n: stylus_sdk::storage::StorageU256,
}
unsafe impl TopLevelStorage for Own2H {}
#[public]
#[inherit(Ownable2Step)]
impl Own2H {
    fn guarded(&mut self) -> Result<U256, ownable::Error> {
        self.ownable.only_owner()?;
        let v = self.n.get() + ONE;
        self.n.set(v);
        Ok(v)
    }
    fn counter(&self) -> U256 {
        self.n.get()
    }
}

fn own(m: &mut Mon, two: bool) {
    let t = a(9100);
    vm::install(t, if two { vm::contract::<Own2H>() } else { vm::contract::<OwnH>() });
    let n = 3 + m.rng.idx(3);
    let mut users: Vec<Address> = (0..n as u64).map(a).collect();
    // A near miss of another account.
    let mut near = users[0].into_array();
    let b = m.rng.idx(20);
    near[b] ^= 1 << m.rng.idx(8);
    users.push(Address::from(near));
    let mut all = users.clone();
    all.push(Address::ZERO);
    all.push(t);
    let mut owner = *m.rng.pick(&users);
    let mut pend = Address::ZERO;
    let mut cnt = U256::ZERO;
    vm::poke(t, U256::ZERO, word_addr(owner));
    let mut last = owner;
    for _ in 0..20 + m.rng.idx(30) {
        let r = *m.rng.pick(&users);
        let s = match m.rng.below(4) {
            0 | 1 if !owner.is_zero() => owner,
            2 if !pend.is_zero() => pend,
            3 if m.rng.chance(1, 6) => t,
            _ => r,
        };
        let x = *m.rng.pick(&all);
        let deny = |s: Address| Expect::Err(vec![err(OwnableUnauthorizedAccount { account: s })]);
        let (op, data, want) = match m.rng.below(12) {
            0..=3 => {
                let w = if two {
                    if s != owner {
                        deny(s)
                    } else {
                        pend = x;
                        Expect::Ok {
                            ret: Some(vec![]),
                            logs: vec![ev(
                                t,
                                &OwnershipTransferStarted { previousOwner: owner, newOwner: x },
                            )],
                        }
                    }
                } else if s != owner {
                    let mut e = vec![err(OwnableUnauthorizedAccount { account: s })];
                    if x.is_zero() {
                        e.push(err(OwnableInvalidOwner { owner: x }));
                    }
                    Expect::Err(e)
                } else if x.is_zero() {
                    Expect::Err(vec![err(OwnableInvalidOwner { owner: x })])
                } else {
                    let e = ev(t, &OwnershipTransferred { previousOwner: owner, newOwner: x });
                    owner = x;
                    Expect::Ok { ret: Some(vec![]), logs: vec![e] }
                };
                ("transferOwnership", IOwn::transferOwnershipCall { newOwner: x }.abi_encode(), w)
            }
            4 if m.rng.chance(1, 4) => {
                let w = if s != owner {
                    deny(s)
                } else {
                    let e = ev(
                        t,
                        &OwnershipTransferred { previousOwner: owner, newOwner: Address::ZERO },
                    );
                    owner = Address::ZERO;
                    pend = Address::ZERO;
                    Expect::Ok { ret: Some(vec![]), logs: vec![e] }
                };
                ("renounceOwnership", IOwn::renounceOwnershipCall {}.abi_encode(), w)
            }
            5 if !two => {
                let e = ev(t, &OwnershipTransferred { previousOwner: owner, newOwner: x });
                owner = x;
                (
                    "_transfer_ownership",
                    IOwn::forceCall { newOwner: x }.abi_encode(),
                    Expect::Ok { ret: Some(vec![]), logs: vec![e] },
                )
            }
            6..=8 if two => {
                let w = if s != pend {
                    deny(s)
                } else {
                    let e = ev(t, &OwnershipTransferred { previousOwner: owner, newOwner: s });
                    owner = s;
                    pend = Address::ZERO;
                    Expect::Ok { ret: Some(vec![]), logs: vec![e] }
                };
                ("acceptOwnership", IOwn::acceptOwnershipCall {}.abi_encode(), w)
            }
            _ => {
                let w = if s != owner {
                    deny(s)
                } else {
                    cnt += ONE;
                    Expect::Ok { ret: ok_ret(&cnt), logs: vec![] }
                };
                ("guarded", IOwn::guardedCall {}.abi_encode(), w)
            }
        };
        let (o, logs) = send(s, t, &data);
        m.step(format!("{} {op}({}) -> {}", nm(s), hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        for g in &logs {
            if g.topics[0] == vm::keccak(b"OwnershipTransferred(address,address)") {
                m.eq("events/chained-owner", Address::from_slice(&g.topics[1][12..]), last);
                last = Address::from_slice(&g.topics[2][12..]);
            }
        }
        let Some(g) = get(m, t, IOwn::ownerCall {}) else { return };
        m.eq("state/owner", g._0, owner);
        m.eq("events/last-owner", last, g._0);
        if two {
            let Some(g) = get(m, t, IOwn::pendingOwnerCall {}) else { return };
            m.eq("state/pendingOwner", g._0, pend);
        }
        let Some(g) = get(m, t, IOwn::counterCall {}) else { return };
        m.eq("state/guarded-counter", g._0, cnt);
        m.seen(hash_str(&format!("{owner}{pend}{s}{op}{x}{}", o.class())));
        if m.failed() {
            return;
        }
    }
}

pub fn p19(m: &mut Mon) {
    own(m, false)
}
pub fn p20(m: &mut Mon) {
    own(m, true)
}

// ---- P21 ------------------------------------------------------------------

#[storage]
pub struct PauseH {
    #[borrow]
    pausable: Pausable,
    n: stylus_sdk::storage::StorageU256,
}
unsafe impl TopLevelStorage for PauseH {}
#[public]
#[inherit(Pausable)]
impl PauseH {
    fn pause(&mut self) -> Result<(), pausable::Error> {
        self.pausable.pause()
    }
    fn unpause(&mut self) -> Result<(), pausable::Error> {
        self.pausable.unpause()
    }
    fn when_on(&mut self) -> Result<U256, pausable::Error> {
        self.pausable.when_not_paused()?;
        let v = self.n.get() + ONE;
        self.n.set(v);
        Ok(v)
    }
    fn when_off(&mut self) -> Result<U256, pausable::Error> {
        self.pausable.when_paused()?;
        let v = self.n.get() + ONE;
        self.n.set(v);
        Ok(v)
    }
    fn counter(&self) -> U256 {
        self.n.get()
    }
}

pub fn p21(m: &mut Mon) {
    let t = a(9200);
    vm::install(t, vm::contract::<PauseH>());
    let mut paused = m.rng.chance(1, 2);
    // The word around the flag belongs to other fields.
    let junk = if m.rng.chance(1, 2) { m.rng.u256() << 8 } else { U256::ZERO };
    vm::poke(t, U256::ZERO, word_u(junk | U256::from(paused as u8)));
    let mut cnt = U256::ZERO;
    let mut h = 0u64;
    for _ in 0..12 + m.rng.idx(30) {
        let s = match m.rng.below(14) {
            0 => t,
            1 => Address::ZERO,
            2 => m.rng.address(),
            k => a(k),
        };
        let on = || Expect::Err(vec![err(EnforcedPause {})]);
        let off = || Expect::Err(vec![err(ExpectedPause {})]);
        let (op, data, want) = match m.rng.below(4) {
            0 => {
                let w = if paused {
                    on()
                } else {
                    paused = true;
                    Expect::Ok { ret: Some(vec![]), logs: vec![ev(t, &Paused { account: s })] }
                };
                ("pause", IPause::pauseCall {}.abi_encode(), w)
            }
            1 => {
                let w = if !paused {
                    off()
                } else {
                    paused = false;
                    Expect::Ok { ret: Some(vec![]), logs: vec![ev(t, &Unpaused { account: s })] }
                };
                ("unpause", IPause::unpauseCall {}.abi_encode(), w)
            }
            2 => {
                let w = if paused {
                    on()
                } else {
                    cnt += ONE;
                    Expect::Ok { ret: ok_ret(&cnt), logs: vec![] }
                };
                ("when_not_paused", IPause::whenOnCall {}.abi_encode(), w)
            }
            _ => {
                let w = if !paused {
                    off()
                } else {
                    cnt += ONE;
                    Expect::Ok { ret: ok_ret(&cnt), logs: vec![] }
                };
                ("when_paused", IPause::whenOffCall {}.abi_encode(), w)
            }
        };
        let (o, logs) = send(s, t, &data);
        m.step(format!("{} {op} -> {}", nm(s), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        let Some(g) = get(m, t, IPause::pausedCall {}) else { return };
        m.eq("state/paused", g._0, paused);
        let Some(g) = get(m, t, IPause::counterCall {}) else { return };
        m.eq("state/guarded-counter", g._0, cnt);
        let w: U256 = vm::peek(t, U256::ZERO).into();
        m.eq("state/neighbouring-bytes", w >> 8, junk >> 8);
        h = h.wrapping_mul(31).wrapping_add(hash_str(op)) ^ paused as u64;
        m.seen(h);
        if m.failed() {
            return;
        }
    }
}
