//! P06: ERC-4626 conversions. P07: ERC-4626 flows.
use alloy_primitives::{Address, U256, U8};
use alloy_sol_types::{sol, SolCall};
use openzeppelin_stylus::token::erc20::{
    extensions::{erc4626, Erc4626, IErc4626},
    Erc20,
};
use stylus_sdk::prelude::*;
use vcore::ledger::*;
use vcore::mocks::*;
use vcore::mon::Mon;
use vcore::util::*;
use vcore::vm::{self, Outcome};

use crate::safe::{gen_ret, SafeErc20FailedOperation};
use crate::wrapper::tlog;

sol! {
    event Deposit(address indexed sender, address indexed owner, uint256 assets, uint256 shares);
    event Withdraw(address indexed sender, address indexed receiver, address indexed owner, uint256 assets, uint256 shares);
    error ERC4626ExceededMaxDeposit(address receiver, uint256 assets, uint256 max);
    error ERC4626ExceededMaxMint(address receiver, uint256 shares, uint256 max);
    error ERC4626ExceededMaxWithdraw(address owner, uint256 assets, uint256 max);
    error ERC4626ExceededMaxRedeem(address owner, uint256 shares, uint256 max);
    error InvalidAsset(address asset);
    interface IVault {
        function decimals() external view returns (uint8);
        function asset() external view returns (address);
        function totalAssets() external view returns (uint256);
        function convertToShares(uint256 x) external view returns (uint256);
        function convertToAssets(uint256 x) external view returns (uint256);
        function maxDeposit(address x) external view returns (uint256);
        function previewDeposit(uint256 x) external view returns (uint256);
        function deposit(uint256 assets, address receiver) external returns (uint256);
        function maxMint(address x) external view returns (uint256);
        function previewMint(uint256 x) external view returns (uint256);
        function mint(uint256 shares, address receiver) external returns (uint256);
        function maxWithdraw(address x) external view returns (uint256);
        function previewWithdraw(uint256 x) external view returns (uint256);
        function withdraw(uint256 assets, address receiver, address owner) external returns (uint256);
        function maxRedeem(address x) external view returns (uint256);
        function previewRedeem(uint256 x) external view returns (uint256);
        function redeem(uint256 shares, address receiver, address owner) external returns (uint256);
    }
}

#[storage]
pub struct VaultH {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    erc4626: Erc4626,
}
unsafe impl TopLevelStorage for VaultH {}
type E = erc4626::Error;
#[public]
#[inherit(Erc20)]
impl VaultH {
    fn decimals(&self) -> U8 {
        self.erc4626.decimals()
    }
    fn asset(&self) -> Address {
        self.erc4626.asset()
    }
    fn total_assets(&mut self) -> Result<U256, E> {
        self.erc4626.total_assets()
    }
    fn convert_to_shares(&mut self, x: U256) -> Result<U256, E> {
        self.erc4626.convert_to_shares(x, &self.erc20)
    }
    fn convert_to_assets(&mut self, x: U256) -> Result<U256, E> {
        self.erc4626.convert_to_assets(x, &self.erc20)
    }
    fn max_deposit(&self, x: Address) -> U256 {
        self.erc4626.max_deposit(x)
    }
    fn preview_deposit(&mut self, x: U256) -> Result<U256, E> {
        self.erc4626.preview_deposit(x, &self.erc20)
    }
    fn deposit(&mut self, assets: U256, receiver: Address) -> Result<U256, E> {
        self.erc4626.deposit(assets, receiver, &mut self.erc20)
    }
    fn max_mint(&self, x: Address) -> U256 {
        self.erc4626.max_mint(x)
    }
    fn preview_mint(&mut self, x: U256) -> Result<U256, E> {
        self.erc4626.preview_mint(x, &self.erc20)
    }
    fn mint(&mut self, shares: U256, receiver: Address) -> Result<U256, E> {
        self.erc4626.mint(shares, receiver, &mut self.erc20)
    }
    fn max_withdraw(&mut self, x: Address) -> Result<U256, E> {
        self.erc4626.max_withdraw(x, &self.erc20)
    }
    fn preview_withdraw(&mut self, x: U256) -> Result<U256, E> {
        self.erc4626.preview_withdraw(x, &self.erc20)
    }
    fn withdraw(&mut self, assets: U256, receiver: Address, owner: Address) -> Result<U256, E> {
        self.erc4626.withdraw(assets, receiver, owner, &mut self.erc20)
    }
    fn max_redeem(&self, x: Address) -> U256 {
        self.erc4626.max_redeem(x, &self.erc20)
    }
    fn preview_redeem(&mut self, x: U256) -> Result<U256, E> {
        self.erc4626.preview_redeem(x, &self.erc20)
    }
    fn redeem(&mut self, shares: U256, receiver: Address, owner: Address) -> Result<U256, E> {
        self.erc4626.redeem(shares, receiver, owner, &mut self.erc20)
    }
}

/// Virtual-offset conversion arithmetic, in 512 bits.
#[derive(Clone, Copy)]
pub struct Conv {
    pub supply: U256,
    pub assets: U256,
    pub off: u64,
}
impl Conv {
    pub fn virt(&self) -> Option<U256> {
        if self.off > 77 {
            return None;
        }
        Some((0..self.off).fold(ONE, |x, _| x * u(10)))
    }
    pub fn to_shares(&self, x: U256, ceil: bool) -> Option<U256> {
        let s = self.supply.checked_add(self.virt()?)?;
        let t = self.assets.checked_add(ONE)?;
        mul_div(x, s, t, ceil)
    }
    pub fn to_assets(&self, x: U256, ceil: bool) -> Option<U256> {
        let s = self.supply.checked_add(self.virt()?)?;
        let t = self.assets.checked_add(ONE)?;
        mul_div(x, t, s, ceil)
    }
}

fn balance_slot(x: Address) -> U256 {
    let mut b = word_addr(x).to_vec();
    b.extend_from_slice(&[0u8; 32]);
    vm::keccak(&b).into()
}

fn cmp(m: &mut Mon, op: &str, o: Outcome, want: Option<U256>) -> bool {
    m.count(&format!("{op}:{}", o.class()));
    let ok = match (&o, want) {
        (Outcome::Ok(d), Some(w)) => *d == w.to_be_bytes::<32>().to_vec(),
        (Outcome::Panic(_), None) | (Outcome::Revert(_), None) => true,
        _ => false,
    };
    m.check(ok, op, || format!("{op} observed {} expected {want:?}", show(&o)))
}

pub fn p06(m: &mut Mon) {
    let t = a(100);
    vm::install(t, vm::contract::<VaultH>());
    let tok = MockToken::install(a(50));
    for _ in 0..6 {
        let off = match m.rng.below(10) {
            0 => 77,
            1 => 78,
            2 => *m.rng.pick(&[76, 79, 255, 128]),
            3 | 4 => m.rng.below(24),
            _ => *m.rng.pick(&[0, 0, 1, 2, 3, 6, 8, 18]),
        };
        let ud = if m.rng.chance(1, 4) { m.rng.below(256) } else { *m.rng.pick(&[0, 6, 18]) };
        vm::poke(t, u(3), packed(&[(addr_u(tok.addr), 20), (u(ud), 1), (u(off), 1)]));
        let gen = |m: &mut Mon| match m.rng.below(4) {
            0 => u(m.rng.below(2000)),
            1 => m.rng.amount(),
            _ => m.rng.u256_width(),
        };
        let supply = gen(m);
        let assets = if m.rng.chance(1, 4) { m.rng.near(supply) } else { gen(m) };
        let c = Conv { supply, assets, off };
        let holder = *m.rng.pick(&[a(1), a(1), a(1), t, tok.addr]);
        let bal = if supply.is_zero() { U256::ZERO } else { m.rng.near(supply).min(supply) };
        vm::poke(t, u(2), word_u(supply));
        vm::poke(t, balance_slot(holder), word_u(bal));
        tok.set(t, assets);
        let o = peek_call(t, IVault::assetCall {});
        cmp(m, "asset", o, Some(addr_u(tok.addr)));
        let o = peek_call(t, IVault::totalAssetsCall {});
        cmp(m, "totalAssets", o, Some(assets));
        let o = peek_call(t, IVault::decimalsCall {});
        cmp(m, "decimals", o, (ud + off < 256).then(|| u(ud + off)));
        for _ in 0..6 {
            let x = match m.rng.below(6) {
                0 => m.rng.near(supply),
                1 => m.rng.near(assets),
                2 => u(m.rng.below(50)),
                3 => m.rng.near(c.virt().unwrap_or(ONE)),
                _ => gen(m),
            };
            m.step(format!("supply={supply} assets={assets} offset={off} x={x}"));
            let o = peek_call(t, IVault::convertToSharesCall { x });
            cmp(m, "convertToShares", o, c.to_shares(x, false));
            let o = peek_call(t, IVault::convertToAssetsCall { x });
            cmp(m, "convertToAssets", o, c.to_assets(x, false));
            let o = peek_call(t, IVault::previewDepositCall { x });
            cmp(m, "previewDeposit", o, c.to_shares(x, false));
            let o = peek_call(t, IVault::previewMintCall { x });
            cmp(m, "previewMint", o, c.to_assets(x, true));
            let o = peek_call(t, IVault::previewWithdrawCall { x });
            cmp(m, "previewWithdraw", o, c.to_shares(x, true));
            let o = peek_call(t, IVault::previewRedeemCall { x });
            cmp(m, "previewRedeem", o, c.to_assets(x, false));
            m.seen(vcore::mon::hash_str(&format!("{supply}{assets}{off}{x}")));
            if m.failed() {
                return;
            }
        }
        let o = peek_call(t, IVault::maxDepositCall { x: holder });
        cmp(m, "maxDeposit", o, Some(U256::MAX));
        let o = peek_call(t, IVault::maxMintCall { x: holder });
        cmp(m, "maxMint", o, Some(U256::MAX));
        let o = peek_call(t, IVault::maxWithdrawCall { x: holder });
        cmp(m, "maxWithdraw", o, c.to_assets(bal, false));
        let o = peek_call(t, IVault::maxRedeemCall { x: holder });
        cmp(m, "maxRedeem", o, Some(bal));
        let o = peek_call(t, IVault::maxRedeemCall { x: a(2) });
        cmp(m, "maxRedeem", o, Some(U256::ZERO));
        // Nobody is limited: neither the vault, the asset nor the zero address.
        for x in [t, tok.addr, Address::ZERO, a(2)] {
            let o = peek_call(t, IVault::maxDepositCall { x });
            cmp(m, "maxDeposit", o, Some(U256::MAX));
            let o = peek_call(t, IVault::maxMintCall { x });
            cmp(m, "maxMint", o, Some(U256::MAX));
            let b = if x == holder { bal } else { U256::ZERO };
            let o = peek_call(t, IVault::maxRedeemCall { x });
            cmp(m, "maxRedeem", o, Some(b));
            let o = peek_call(t, IVault::maxWithdrawCall { x });
            cmp(m, "maxWithdraw", o, c.to_assets(b, false));
        }
        vm::poke(t, balance_slot(holder), word_u(U256::ZERO));
        // A broken asset is reported, never silently valued.
        tok.script.borrow_mut().balance_reverts = true;
        let want = Outcome::Revert(err(InvalidAsset { asset: tok.addr }));
        let o = peek_call(t, IVault::totalAssetsCall {});
        m.check(o == want, "totalAssets/broken-asset", || show(&o));
        let x = gen(m);
        let o = peek_call(t, IVault::previewDepositCall { x });
        m.check(!o.is_ok(), "previewDeposit/broken-asset", || show(&o));
        tok.script.borrow_mut().balance_reverts = false;
        if m.failed() {
            return;
        }
    }
}

pub fn p07(m: &mut Mon) {
    if m.rng.chance(1, 5) {
        return crate::reent::episode(m, true);
    }
    let t = a(100);
    vm::install(t, vm::contract::<VaultH>());
    let tok = MockToken::install(a(50));
    let off = *m.rng.pick(&[0u64, 0, 0, 1, 2, 6, 18]);
    vm::poke(t, u(3), packed(&[(addr_u(tok.addr), 20), (u(18), 1), (u(off), 1)]));
    vm::with(|w| w.allow_reentrancy = m.rng.chance(1, 2));
    let users = [a(1), a(2), a(3)];
    let mut all = users.to_vec();
    all.extend([t, tok.addr, Address::ZERO]);
    let mut un = Ledger::new(tok.addr);
    let mag = m.rng.below(4);
    for x in users {
        let v = match mag {
            0 => U256::MAX / u(3),
            1 => u(m.rng.below(200)),
            2 => u(m.rng.below(2_000_000)),
            _ => m.rng.u256_width() >> 3,
        };
        tok.set(x, v);
        un.mint(x, v).unwrap();
        tok.set_allow(x, t, U256::MAX);
        un.allow.insert((x, t), U256::MAX);
    }
    let mut l = Ledger::new(t);
    let n = 12 + m.rng.idx(24);
    for _ in 0..n {
        {
            let r1 = gen_ret(m);
            let r2 = gen_ret(m);
            let mut s = tok.script.borrow_mut();
            *s = TokenScript::default();
            if m.rng.chance(1, 6) {
                s.transfer = r1;
                s.transfer_from = r2;
            }
            s.balance_reverts = m.rng.chance(1, 40);
        }
        let sc = tok.script.borrow().clone();
        let s = match m.rng.below(24) {
            0 => t,
            1 => tok.addr,
            _ => *m.rng.pick(&users),
        };
        let own = match m.rng.below(24) {
            0..=11 => s,
            12 => t,
            13 => tok.addr,
            14 => Address::ZERO,
            _ => *m.rng.pick(&users),
        };
        let rc = match m.rng.below(14) {
            0 => Address::ZERO,
            1 => t,
            2 if m.rng.chance(1, 2) => tok.addr,
            _ => *m.rng.pick(&users),
        };
        if m.rng.chance(1, 6) && s != t {
            let v = m.rng.near(un.b(s));
            tok.set_allow(s, t, v);
            un.allow.insert((s, t), v);
        }
        let c = Conv { supply: l.supply, assets: un.b(t), off };
        let price0 = (wide(c.assets) + U512::from(1u64), wide(c.supply) + wide(c.virt().unwrap()));
        let fo = err(SafeErc20FailedOperation { token: tok.addr });
        let ia = err(InvalidAsset { asset: tok.addr });
        let (op, data, want);
        let mut vault_op = true;
        match m.rng.below(16) {
            k @ 0..=6 => {
                let is_dep = k < 4;
                let x = if is_dep {
                    m.rng.near(un.b(s))
                } else {
                    let lim = c.to_shares(un.b(s), false).unwrap_or(U256::MAX);
                    m.rng.near(lim)
                };
                let (assets, shares);
                if is_dep {
                    op = "deposit";
                    data = IVault::depositCall { assets: x, receiver: rc }.abi_encode();
                    assets = Some(x);
                    shares = c.to_shares(x, false);
                } else {
                    op = "mint";
                    data = IVault::mintCall { shares: x, receiver: rc }.abi_encode();
                    assets = c.to_assets(x, true);
                    shares = Some(x);
                }
                let mut e = vec![];
                if sc.balance_reverts {
                    e.push(ia);
                }
                let mut un2 = un.clone();
                match (assets, shares) {
                    (Some(va), Some(vs)) => {
                        if un2.transfer_from(t, s, t, va).is_err() || !sc.transfer_from.safe_ok() {
                            e.push(fo);
                        }
                        if rc.is_zero() {
                            e.push(err(ERC20InvalidReceiver { receiver: rc }));
                        }
                        if l.supply.checked_add(vs).is_none() {
                            e.push(vec![]);
                        }
                    }
                    _ => e.push(vec![]),
                }
                want = if e.is_empty() {
                    let (va, vs) = (assets.unwrap(), shares.unwrap());
                    un = un2;
                    let mut logs = vec![tlog(tok.addr, s, t, va)];
                    logs.extend(l.mint(rc, vs).unwrap());
                    logs.push(ev(t, &Deposit { sender: s, owner: rc, assets: va, shares: vs }));
                    Expect::Ok { ret: ok_ret(if is_dep { &vs } else { &va }), logs }
                } else {
                    Expect::Err(e)
                };
            }
            k @ 7..=12 => {
                let is_wd = k < 10;
                let bal = l.b(own);
                let mut e = vec![];
                if sc.balance_reverts {
                    e.push(ia);
                }
                let (assets, shares);
                if is_wd {
                    op = "withdraw";
                    let maxw = c.to_assets(bal, false);
                    let x = m.rng.near(maxw.unwrap_or(bal));
                    data = IVault::withdrawCall { assets: x, receiver: rc, owner: own }.abi_encode();
                    match maxw {
                        None => e.push(vec![]),
                        Some(mx) if x > mx => e.push(err(ERC4626ExceededMaxWithdraw {
                            owner: own,
                            assets: x,
                            max: mx,
                        })),
                        _ => {}
                    }
                    assets = Some(x);
                    shares = c.to_shares(x, true);
                } else {
                    op = "redeem";
                    let x = m.rng.near(bal);
                    data = IVault::redeemCall { shares: x, receiver: rc, owner: own }.abi_encode();
                    if x > bal {
                        e.push(err(ERC4626ExceededMaxRedeem { owner: own, shares: x, max: bal }));
                    }
                    assets = c.to_assets(x, false);
                    shares = Some(x);
                }
                let mut un2 = un.clone();
                match (assets, shares) {
                    (Some(va), Some(vs)) => {
                        if s != own {
                            e.extend(l.spend_errs(own, s, vs));
                        }
                        e.extend(l.burn_errs(own, vs));
                        if un2.transfer(t, rc, va).is_err() || !sc.transfer.safe_ok() {
                            e.push(fo);
                        }
                    }
                    _ => e.push(vec![]),
                }
                want = if e.is_empty() {
                    let (va, vs) = (assets.unwrap(), shares.unwrap());
                    un = un2;
                    if s != own {
                        l.do_spend(own, s, vs);
                    }
                    let mut logs = vec![l.do_burn(own, vs)];
                    logs.push(tlog(tok.addr, t, rc, va));
                    logs.push(ev(
                        t,
                        &Withdraw { sender: s, receiver: rc, owner: own, assets: va, shares: vs },
                    ));
                    Expect::Ok { ret: ok_ret(if is_wd { &vs } else { &va }), logs }
                } else {
                    Expect::Err(e)
                };
            }
            13 => {
                // Donation (inflation attack) or loss is the only way the price moves.
                let v = m.rng.near(un.b(s));
                tok.script.borrow_mut().transfer = Ret::True;
                let (o, _) =
                    send(s, tok.addr, &IToken::transferCall { to: t, value: v }.abi_encode());
                let w = un.clone().run(|l| l.transfer(s, t, v), &mut un);
                m.step(format!("{} donates {v} -> {}", nm(s), show(&o)));
                m.eq("mock/donate", o.is_ok(), w.is_ok());
                continue;
            }
            14 => {
                op = "transfer";
                vault_op = false;
                let v = gen_amount(m, &l, s, None);
                data = IToken::transferCall { to: rc, value: v }.abi_encode();
                want = to_expect(l.clone().run(|l| l.transfer(s, rc, v), &mut l), ok_ret(&true));
            }
            _ => {
                op = "approve";
                vault_op = false;
                let v = if m.rng.chance(1, 2) { m.rng.near(l.b(s)) } else { m.rng.amount() };
                data = IToken::approveCall { spender: own, value: v }.abi_encode();
                want = to_expect(l.clone().run(|l| l.approve(s, own, v), &mut l), ok_ret(&true));
            }
        }
        let preview = if vault_op && !sc.balance_reverts { preview_of(op, &data, t) } else { None };
        let (o, logs) = send(s, t, &data);
        m.step(format!("{} {op}({}) -> {}", nm(s), hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        l.check(m, &all);
        for x in &all {
            m.eq("state/asset-balance", (nm(*x), tok.bal(*x)), (nm(*x), un.b(*x)));
        }
        // Independent monitors: the share price never falls through a vault
        // operation, and a preview is what the operation then does.
        tok.script.borrow_mut().balance_reverts = false;
        let Some(ts) = get(m, t, IToken::totalSupplyCall {}) else { return };
        let Some(ta) = get(m, t, IVault::totalAssetsCall {}) else { return };
        // What the limits promise, for every party.
        let now = Conv { supply: ts._0, assets: ta._0, off };
        for &x in &all {
            let o = peek_call(t, IVault::maxRedeemCall { x });
            cmp(m, "limits/maxRedeem", o, Some(l.b(x)));
            let o = peek_call(t, IVault::maxWithdrawCall { x });
            cmp(m, "limits/maxWithdraw", o, now.to_assets(l.b(x), false));
        }
        let p1 = (wide(ta._0) + U512::from(1u64), wide(ts._0) + wide(c.virt().unwrap()));
        // p1.0/p1.1 >= price0.0/price0.1 ; both factors are below 2^257.
        let lhs = W1024::from(p1.0) * W1024::from(price0.1);
        let rhs = W1024::from(price0.0) * W1024::from(p1.1);
        m.check(lhs >= rhs, "share-price-fell", || {
            format!("{op}: price {:?} -> {:?}", price0, p1)
        });
        if let (Some(p), vm::Outcome::Ok(d)) = (&preview, &o) {
            m.eq("preview-equals-operation", hex(p), hex(d));
        }
        m.seen(l.digest() ^ un.digest().rotate_left(9));
        if m.failed() {
            return;
        }
    }
}

type W1024 = alloy_primitives::Uint<1024, 16>;

fn preview_of(op: &str, data: &[u8], t: Address) -> Option<Vec<u8>> {
    let x = U256::from_be_slice(&data[4..36]);
    let o = match op {
        "deposit" => peek_call(t, IVault::previewDepositCall { x }),
        "mint" => peek_call(t, IVault::previewMintCall { x }),
        "withdraw" => peek_call(t, IVault::previewWithdrawCall { x }),
        _ => peek_call(t, IVault::previewRedeemCall { x }),
    };
    o.ok().cloned()
}
