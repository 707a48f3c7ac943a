//! P28: interface detection and interface ids.
use alloy_primitives::{Address, FixedBytes, U256};
use openzeppelin_stylus::access::{
    control::{AccessControl, IAccessControl},
    ownable::{IOwnable, Ownable},
    ownable_two_step::{IOwnable2Step, Ownable2Step},
};
use openzeppelin_stylus::finance::vesting_wallet::{IVestingWallet, VestingWallet};
use openzeppelin_stylus::token::common::erc2981::{Erc2981, IErc2981};
use openzeppelin_stylus::token::erc1155::extensions::{
    Erc1155MetadataUri, Erc1155Supply, IErc1155MetadataUri, IErc1155Supply,
};
use openzeppelin_stylus::token::erc1155::{Erc1155, IErc1155};
use openzeppelin_stylus::token::erc20::extensions::{
    Erc20FlashMint, Erc20Metadata, Erc20Wrapper, Erc4626, IErc20Metadata, IErc20Wrapper,
    IErc3156FlashLender, IErc4626,
};
use openzeppelin_stylus::token::erc20::utils::safe_erc20::{ISafeErc20, SafeErc20};
use openzeppelin_stylus::token::erc20::{Erc20, IErc20};
use openzeppelin_stylus::token::erc721::extensions::{
    Erc721Consecutive, Erc721Enumerable, Erc721Metadata, IErc721Enumerable, IErc721Metadata,
};
use openzeppelin_stylus::token::erc721::{Erc721, IErc721};
use openzeppelin_stylus::utils::introspection::erc165::{Erc165, IErc165};
use openzeppelin_stylus_proc::interface_id;
use stylus_sdk::abi::Bytes;
use vcore::mon::Mon;
use vcore::vm;

/// XOR of the selectors of canonical signatures.
fn id(sigs: &[&str]) -> u32 {
    sigs.iter().fold(0, |x, s| {
        let h = vm::keccak(s.as_bytes());
        x ^ u32::from_be_bytes([h[0], h[1], h[2], h[3]])
    })
}

const OWN: &[&str] = &["owner()", "transferOwnership(address)", "renounceOwnership()"];
const OWN2: &[&str] = &[
    "owner()",
    "pendingOwner()",
    "transferOwnership(address)",
    "acceptOwnership()",
    "renounceOwnership()",
];
const ROLES: &[&str] = &[
    "hasRole(bytes32,address)",
    "onlyRole(bytes32)",
    "getRoleAdmin(bytes32)",
    "grantRole(bytes32,address)",
    "revokeRole(bytes32,address)",
    "renounceRole(bytes32,address)",
];
const VEST: &[&str] = &[
    "owner()",
    "transferOwnership(address)",
    "renounceOwnership()",
    "start()",
    "duration()",
    "end()",
    "released()",
    "released(address)",
    "releasable()",
    "releasable(address)",
    "release()",
    "release(address)",
    "vestedAmount(uint64)",
    "vestedAmount(address,uint64)",
];
const E20: &[&str] = &[
    "totalSupply()",
    "balanceOf(address)",
    "transfer(address,uint256)",
    "allowance(address,address)",
    "approve(address,uint256)",
    "transferFrom(address,address,uint256)",
];
const E20META: &[&str] = &["name()", "symbol()", "decimals()"];
const WRAP: &[&str] =
    &["decimals()", "underlying()", "depositFor(address,uint256)", "withdrawTo(address,uint256)"];
const VAULT: &[&str] = &[
    "asset()",
    "totalAssets()",
    "convertToShares(uint256)",
    "convertToAssets(uint256)",
    "maxDeposit(address)",
    "previewDeposit(uint256)",
    "deposit(uint256,address)",
    "maxMint(address)",
    "previewMint(uint256)",
    "mint(uint256,address)",
    "maxWithdraw(address)",
    "previewWithdraw(uint256)",
    "withdraw(uint256,address,address)",
    "maxRedeem(address)",
    "previewRedeem(uint256)",
    "redeem(uint256,address,address)",
];
const FLASH: &[&str] = &[
    "maxFlashLoan(address)",
    "flashFee(address,uint256)",
    "flashLoan(address,address,uint256,bytes)",
];
const SAFE: &[&str] = &[
    "safeTransfer(address,address,uint256)",
    "safeTransferFrom(address,address,address,uint256)",
    "safeIncreaseAllowance(address,address,uint256)",
    "safeDecreaseAllowance(address,address,uint256)",
    "forceApprove(address,address,uint256)",
];
const ROYAL: &[&str] = &["royaltyInfo(uint256,uint256)"];
const E721: &[&str] = &[
    "balanceOf(address)",
    "ownerOf(uint256)",
    "safeTransferFrom(address,address,uint256)",
    "safeTransferFrom(address,address,uint256,bytes)",
    "transferFrom(address,address,uint256)",
    "approve(address,uint256)",
    "setApprovalForAll(address,bool)",
    "getApproved(uint256)",
    "isApprovedForAll(address,address)",
];
const E721META: &[&str] = &["name()", "symbol()", "tokenURI(uint256)"];
const E721ENUM: &[&str] =
    &["tokenOfOwnerByIndex(address,uint256)", "totalSupply()", "tokenByIndex(uint256)"];
const E1155: &[&str] = &[
    "balanceOf(address,uint256)",
    "balanceOfBatch(address[],uint256[])",
    "setApprovalForAll(address,bool)",
    "isApprovedForAll(address,address)",
    "safeTransferFrom(address,address,uint256,uint256,bytes)",
    "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)",
];
const E1155URI: &[&str] = &["uri(uint256)"];
const E1155SUP: &[&str] = &["totalSupply(uint256)", "totalSupply()", "exists(uint256)"];
const E165: &[&str] = &["supportsInterface(bytes4)"];

struct Comp {
    name: &'static str,
    f: fn(FixedBytes<4>) -> bool,
    constant: u32,
    own: &'static [&'static str],
    also: &'static [&'static [&'static str]],
}

macro_rules! comp {
    ($t:ty, $tr:ident, $own:expr, $also:expr) => {
        Comp {
            name: stringify!($t),
            f: <$t as IErc165>::supports_interface,
            constant: <$t as $tr>::INTERFACE_ID,
            own: $own,
            also: $also,
        }
    };
}

fn comps() -> Vec<Comp> {
    vec![
        comp!(Ownable, IOwnable, OWN, &[]),
        comp!(Ownable2Step, IOwnable2Step, OWN2, &[OWN]),
        comp!(AccessControl, IAccessControl, ROLES, &[]),
        comp!(VestingWallet, IVestingWallet, VEST, &[]),
        comp!(Erc20, IErc20, E20, &[]),
        comp!(Erc20Metadata, IErc20Metadata, E20META, &[]),
        comp!(Erc20Wrapper, IErc20Wrapper, WRAP, &[]),
        comp!(Erc4626, IErc4626, VAULT, &[]),
        comp!(Erc20FlashMint, IErc3156FlashLender, FLASH, &[]),
        comp!(SafeErc20, ISafeErc20, SAFE, &[]),
        comp!(Erc2981, IErc2981, ROYAL, &[]),
        comp!(Erc721, IErc721, E721, &[]),
        comp!(Erc721Consecutive, IErc721, E721, &[]),
        comp!(Erc721Metadata, IErc721Metadata, E721META, &[]),
        comp!(Erc721Enumerable, IErc721Enumerable, E721ENUM, &[]),
        comp!(Erc1155, IErc1155, E1155, &[]),
        comp!(Erc1155Supply, IErc1155Supply, E1155SUP, &[E1155]),
        comp!(Erc1155MetadataUri, IErc1155MetadataUri, E1155URI, &[]),
        comp!(Erc165, IErc165, E165, &[]),
    ]
}

// Traits of a user of the macro.
#[interface_id]
#[allow(dead_code)]
trait T1 {
    type Error;
    fn no_args(&self);
    fn one_two(&mut self, a: Address, b: U256) -> Result<(), Self::Error>;
    #[selector(name = "renamed")]
    fn some_name(&self, a: Vec<U256>, b: String, c: Bytes, d: bool) -> U256;
    fn x2_y3z(&self, a: u8, b: FixedBytes<32>, c: (U256, Address), d: [u64; 3]);
}
#[interface_id]
#[allow(dead_code)]
trait T2 {
    #[selector(name = "same")]
    fn a1(&self) -> U256;
    #[selector(name = "same")]
    fn a2(&self, x: Address) -> U256;
    #[must_use]
    fn b_static(x: u128) -> bool;
}
struct U;
impl T1 for U {
    type Error = Vec<u8>;
    fn no_args(&self) {}
    fn one_two(&mut self, _: Address, _: U256) -> Result<(), Vec<u8>> {
        Ok(())
    }
    fn some_name(&self, _: Vec<U256>, _: String, _: Bytes, _: bool) -> U256 {
        U256::ZERO
    }
    fn x2_y3z(&self, _: u8, _: FixedBytes<32>, _: (U256, Address), _: [u64; 3]) {}
}
impl T2 for U {
    fn a1(&self) -> U256 {
        U256::ZERO
    }
    fn a2(&self, _: Address) -> U256 {
        U256::ZERO
    }
    fn b_static(_: u128) -> bool {
        true
    }
}

/// Episode e covers one 2^26 slice of one component's id space: 64 slices each.
pub const EPISODES: u64 = 19 * 64;

pub fn p28(m: &mut Mon) {
    let cs = comps();
    let c = &cs[(m.episode / 64) as usize % cs.len()];
    let slice = (m.episode % 64) as u32;
    let own = id(c.own);
    let mut yes = vec![own, id(E165)];
    for s in c.also {
        yes.push(id(s));
    }
    m.step(format!("{} slice {slice}/64: expects {yes:08x?}", c.name));
    if slice == 0 {
        m.eq(&format!("{}/INTERFACE_ID", c.name), c.constant, own);
        for x in &yes {
            m.check((c.f)(FixedBytes(x.to_be_bytes())), &format!("{}/denied", c.name), || {
                format!("{} denies {x:08x}", c.name)
            });
        }
        // ERC-165: 0xffffffff is never supported.
        m.check(!(c.f)(FixedBytes([0xff; 4])), &format!("{}/ffffffff", c.name), String::new);
        m.eq(
            "macro/T1",
            <U as T1>::INTERFACE_ID,
            id(&[
                "noArgs()",
                "oneTwo(address,uint256)",
                "renamed(uint256[],string,bytes,bool)",
                "x2Y3Z(uint8,bytes32,(uint256,address),uint64[3])",
            ]),
        );
        m.eq(
            "macro/T2",
            <U as T2>::INTERFACE_ID,
            id(&["same()", "same(address)", "bStatic(uint128)"]),
        );
    }
    let base = slice << 26;
    let mut bad = None;
    // Quick: every 16th id from a random phase, and everything near a known id.
    let (step, phase) = if m.thorough { (1, 0) } else { (16, m.rng.below(16) as u32) };
    let mut n = 0u64;
    let mut k = phase;
    while k < (1u32 << 26) {
        let x = base | k;
        k += step;
        n += 1;
        if (c.f)(FixedBytes(x.to_be_bytes())) != yes.contains(&x) {
            bad = Some(x);
            break;
        }
    }
    if slice == 0 {
        let mut all: Vec<u32> = vec![0, u32::MAX, 0x12345678];
        for c in &cs {
            all.push(id(c.own));
            all.extend(c.own.iter().map(|s| id(&[s])));
        }
        for x in all {
            for y in (0..33).map(|b| if b == 32 { x } else { x ^ (1 << b) }) {
                n += 1;
                if (c.f)(FixedBytes(y.to_be_bytes())) != yes.contains(&y) {
                    bad = Some(y);
                }
            }
        }
    }
    m.cases += n - 1;
    m.evals += n;
    m.count(&format!("slices:{}", c.name));
    m.seen(m.episode);
    if let Some(x) = bad {
        m.fail(
            &format!("{}/supportsInterface", c.name),
            format!("{}: supports_interface({x:08x}) answered wrongly", c.name),
        );
    }
}
