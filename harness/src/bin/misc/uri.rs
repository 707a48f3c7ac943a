//! P14 names, symbols and URIs. P17 royalties.
use std::collections::BTreeMap;

use alloy_primitives::{Address, U256};
use alloy_sol_types::{sol, SolCall};
use openzeppelin_stylus::token::common::erc2981::{self, Erc2981};
use openzeppelin_stylus::token::erc1155::extensions::{
    Erc1155MetadataUri, Erc1155UriStorage, IErc1155MetadataUri,
};
use openzeppelin_stylus::token::erc20::extensions::Erc20Metadata;
use openzeppelin_stylus::token::erc721::extensions::{Erc721Metadata, Erc721UriStorage};
use openzeppelin_stylus::token::erc721::{self, Erc721};
use stylus_sdk::prelude::*;
use vcore::mon::{hash_str, Mon};
use vcore::util::*;
use vcore::vm::{self, Outcome};

sol! {
    event MetadataUpdate(uint256 tokenId);
    event URI(string value, uint256 indexed id);
    event Transfer(address indexed from, address indexed to, uint256 indexed tokenId);
    error ERC721NonexistentToken(uint256 tokenId);
    error ERC721InvalidSender(address sender);
    error ERC2981InvalidDefaultRoyalty(uint256 numerator, uint256 denominator);
    error ERC2981InvalidDefaultRoyaltyReceiver(address receiver);
    error ERC2981InvalidTokenRoyalty(uint256 tokenId, uint256 numerator, uint256 denominator);
    error ERC2981InvalidTokenRoyaltyReceiver(uint256 tokenId, address receiver);
    interface IUri {
        function name() external view returns (string memory);
        function symbol() external view returns (string memory);
        function decimals() external view returns (uint8);
        function plainUri(uint256 tokenId) external view returns (string memory);
        function tokenUri(uint256 tokenId) external view returns (string memory);
        function baseUri() external view returns (string memory);
        function setTokenUri(uint256 tokenId, string uri) external;
        function setBaseUri(string uri) external;
        function uri(uint256 id) external view returns (string memory);
        function storedUri(uint256 id) external view returns (string memory);
        function mint(address to, uint256 tokenId) external;
        function burn(uint256 tokenId) external;
    }
    interface IRoyal {
        function royaltyInfo(uint256 tokenId, uint256 salePrice) external view returns (address, uint256);
        function setDefault(address receiver, uint96 n) external;
        function deleteDefault() external;
        function setToken(uint256 id, address receiver, uint96 n) external;
        function resetToken(uint256 id) external;
        function feeDenominator() external view returns (uint96);
    }
}

#[storage]
pub struct Nft721H {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    metadata: Erc721Metadata,
    uris: Erc721UriStorage,
}
unsafe impl TopLevelStorage for Nft721H {}
#[public]
#[inherit(Erc721, Erc721Metadata)]
impl Nft721H {
    fn mint(&mut self, to: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._mint(to, id)
    }
    fn burn(&mut self, id: U256) -> Result<(), erc721::Error> {
        self.erc721._burn(id)
    }
    fn base_uri(&self) -> String {
        self.metadata.base_uri()
    }
    fn plain_uri(&self, id: U256) -> Result<String, erc721::Error> {
        self.metadata.token_uri(id, &self.erc721)
    }
    fn token_uri(&self, id: U256) -> Result<String, erc721::Error> {
        self.uris.token_uri(id, &self.erc721, &self.metadata)
    }
    fn set_token_uri(&mut self, id: U256, uri: String) {
        self.uris._set_token_uri(id, uri)
    }
}

#[storage]
pub struct Uri1155H {
    #[borrow]
    metadata: Erc1155MetadataUri,
    uris: Erc1155UriStorage,
}
unsafe impl TopLevelStorage for Uri1155H {}
#[public]
impl Uri1155H {
    fn uri(&self, id: U256) -> String {
        self.metadata.uri(id)
    }
    fn stored_uri(&self, id: U256) -> String {
        self.uris.uri(id, &self.metadata)
    }
    fn set_token_uri(&mut self, id: U256, uri: String) {
        self.uris.set_token_uri(id, uri, &self.metadata)
    }
    fn set_base_uri(&mut self, uri: String) {
        self.uris.set_base_uri(uri)
    }
}

#[storage]
pub struct Meta20H {
    #[borrow]
    metadata: Erc20Metadata,
}
unsafe impl TopLevelStorage for Meta20H {}
#[public]
#[inherit(Erc20Metadata)]
impl Meta20H {}

/// Strings around Solidity's short/long storage boundary, all kinds of text.
fn text(m: &mut Mon) -> String {
    let n = match m.rng.below(10) {
        0 | 1 => 0,
        2 => 31,
        3 => 32,
        4 => 33,
        5 => 63 + m.rng.idx(4),
        6 => 95 + m.rng.idx(4),
        7 if m.rng.chance(1, 4) => 100 + m.rng.idx(500),
        8 if m.rng.chance(1, 20) => 1000 + m.rng.idx(4000),
        _ => m.rng.idx(80),
    };
    let kind = m.rng.below(6);
    let mut s = String::new();
    while s.len() < n {
        let c = match kind {
            0 => *m.rng.pick(&['é', '字', '🦀', 'a']),
            1 => '\0',
            2 => *m.rng.pick(&['0', '1', '9']),
            4 => *m.rng.pick(&[' ', '/', '\n', '\t', 'A', 'a', '{', '}', '%', '.', '"', '\\', '\u{7f}', '\u{a0}']),
            _ => (b'!' + m.rng.below(90) as u8) as char,
        };
        if s.len() + c.len_utf8() > n {
            s.push('z');
        } else {
            s.push(c);
        }
    }
    if kind == 3 && n > 12 {
        let p = *m.rng.pick(&["ipfs://", "https://", "data:", "{id}", "HTTP://a", " /", "%7B"]);
        s.replace_range(..p.len(), p);
    }
    if kind == 5 && n > 12 && s.is_ascii() {
        let p = *m.rng.pick(&["/", " ", "//", "{id}", ".json", "{id}.json", "\n", "\0", "%", "0"]);
        s.replace_range(n - p.len().., p);
    }
    s
}

/// Mostly fresh text, at times one related to a text already in use.
fn text_like(m: &mut Mon, used: &[&str]) -> String {
    if !m.rng.chance(1, 5) || used.is_empty() {
        return text(m);
    }
    let x = *m.rng.pick(used);
    match m.rng.below(4) {
        0 => x.to_string(),
        1 => format!("{x}{}", text(m)),
        2 => x.chars().skip(1).collect(),
        _ => x.to_uppercase(),
    }
}

fn str_ret(s: &str) -> Outcome {
    Outcome::Ok(ok_ret(&s.to_string()).unwrap())
}

fn gen_id(m: &mut Mon) -> U256 {
    match m.rng.below(6) {
        0 => U256::ZERO,
        1 => U256::MAX,
        2 => {
            // Decimal boundaries.
            let k = m.rng.idx(77);
            let p = U256::from(10u64).pow(u(k as u64));
            if m.rng.chance(1, 2) { p } else { p - ONE }
        }
        3 => m.rng.u256(),
        _ => u(m.rng.below(30)),
    }
}

/// Decimal digits computed by long division.
fn dec(mut x: U256) -> String {
    let mut d = vec![];
    let ten = u(10);
    loop {
        let r: u64 = (x % ten).to::<u64>();
        d.push(b'0' + r as u8);
        x /= ten;
        if x.is_zero() {
            break;
        }
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}

pub fn p14(m: &mut Mon) {
    match m.rng.below(5) {
        0 => meta20(m),
        1 | 2 => uri1155(m),
        _ => uri721(m),
    }
}

fn meta20(m: &mut Mon) {
    let t = a(9300);
    vm::install(t, vm::contract::<Meta20H>());
    let (n, s) = (text(m), text(m));
    poke_string(t, 0, &n);
    poke_string(t, 1, &s);
    let g = peek_call(t, IUri::nameCall {});
    m.step(format!("erc20 name -> {}", show(&g)));
    m.eq("erc20/name", g, str_ret(&n));
    m.eq("erc20/symbol", peek_call(t, IUri::symbolCall {}), str_ret(&s));
    m.eq("erc20/decimals", peek_call(t, IUri::decimalsCall {}), Outcome::Ok(word_u(u(18)).to_vec()));
    m.count("erc20-metadata");
    m.seen(hash_str(&format!("{n}|{s}")));
}

fn uri721(m: &mut Mon) {
    let t = a(9301);
    vm::install(t, vm::contract::<Nft721H>());
    let (n, s, b) = (text(m), text(m), text(m));
    poke_string(t, 4, &n);
    poke_string(t, 5, &s);
    poke_string(t, 6, &b);
    let mut ids: Vec<U256> = (0..3 + m.rng.idx(4)).map(|_| gen_id(m)).collect();
    m.rng.twins(&mut ids);
    ids.sort();
    ids.dedup();
    let mut owned: BTreeMap<U256, Address> = Default::default();
    let mut stored: BTreeMap<U256, String> = Default::default();
    for _ in 0..10 + m.rng.idx(20) {
        let id = *m.rng.pick(&ids);
        let s_ = a(m.rng.below(3));
        let (op, data, want) = match m.rng.below(5) {
            0 | 1 => {
                let to = a(10 + m.rng.below(3));
                let w = if owned.contains_key(&id) {
                    Expect::Err(vec![err(ERC721InvalidSender { sender: Address::ZERO })])
                } else {
                    owned.insert(id, to);
                    Expect::Ok {
                        ret: Some(vec![]),
                        logs: vec![ev(t, &Transfer { from: Address::ZERO, to, tokenId: id })],
                    }
                };
                ("mint", IUri::mintCall { to, tokenId: id }.abi_encode(), w)
            }
            2 => {
                let w = match owned.remove(&id) {
                    None => Expect::Err(vec![err(ERC721NonexistentToken { tokenId: id })]),
                    Some(f) => Expect::Ok {
                        ret: Some(vec![]),
                        logs: vec![ev(t, &Transfer { from: f, to: Address::ZERO, tokenId: id })],
                    },
                };
                ("burn", IUri::burnCall { tokenId: id }.abi_encode(), w)
            }
            _ => {
                let x = text_like(m, &[&b, &n, stored.get(&id).map_or("", |x| x.as_str())]);
                stored.insert(id, x.clone());
                (
                    "_set_token_uri",
                    IUri::setTokenUriCall { tokenId: id, uri: x }.abi_encode(),
                    Expect::Ok {
                        ret: Some(vec![]),
                        logs: vec![ev(t, &MetadataUpdate { tokenId: id })],
                    },
                )
            }
        };
        let (o, logs) = send(s_, t, &data);
        m.step(format!("721 base={b:?} {op}({}) -> {}", hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        m.eq("erc721/name", peek_call(t, IUri::nameCall {}), str_ret(&n));
        m.eq("erc721/symbol", peek_call(t, IUri::symbolCall {}), str_ret(&s));
        m.eq("erc721/base_uri", peek_call(t, IUri::baseUriCall {}), str_ret(&b));
        for id in &ids {
            let st = stored.get(id).cloned().unwrap_or_default();
            let plain = if b.is_empty() { String::new() } else { format!("{b}{}", dec(*id)) };
            let full = if b.is_empty() {
                st.clone()
            } else if st.is_empty() {
                plain.clone()
            } else {
                format!("{b}{st}")
            };
            let (p, f) = if owned.contains_key(id) {
                (str_ret(&plain), str_ret(&full))
            } else {
                let e = Outcome::Revert(err(ERC721NonexistentToken { tokenId: *id }));
                (e.clone(), e)
            };
            let g = peek_call(t, IUri::plainUriCall { tokenId: *id });
            m.count(&format!("erc721-tokenURI:{}", g.class()));
            m.eq("erc721/metadata-token_uri", (id, g), (id, p));
            let g = peek_call(t, IUri::tokenUriCall { tokenId: *id });
            m.eq("erc721/uri_storage-token_uri", (id, g), (id, f));
        }
        m.seen(hash_str(&format!("{b}{owned:?}{stored:?}")));
        if m.failed() {
            return;
        }
    }
}

fn uri1155(m: &mut Mon) {
    let t = a(9302);
    vm::install(t, vm::contract::<Uri1155H>());
    let b = text(m);
    poke_string(t, 0, &b);
    let mut base = String::new();
    let mut stored: BTreeMap<U256, String> = Default::default();
    let mut ids: Vec<U256> = (0..3 + m.rng.idx(3)).map(|_| gen_id(m)).collect();
    m.rng.twins(&mut ids);
    ids.sort();
    ids.dedup();
    for _ in 0..10 + m.rng.idx(15) {
        let id = *m.rng.pick(&ids);
        let x = text_like(m, &[&b, &base, stored.get(&id).map_or("", |x| x.as_str())]);
        let full = |st: &str, base: &str| {
            if st.is_empty() { b.clone() } else { format!("{base}{st}") }
        };
        let (op, data, want) = if m.rng.chance(1, 4) {
            base = x.clone();
            (
                "set_base_uri",
                IUri::setBaseUriCall { uri: x }.abi_encode(),
                Expect::Ok { ret: Some(vec![]), logs: vec![] },
            )
        } else {
            stored.insert(id, x.clone());
            (
                "set_token_uri",
                IUri::setTokenUriCall { tokenId: id, uri: x.clone() }.abi_encode(),
                Expect::Ok {
                    ret: Some(vec![]),
                    logs: vec![ev(t, &URI { value: full(&x, &base), id })],
                },
            )
        };
        let (o, logs) = send(a(1), t, &data);
        m.step(format!("1155 uri={b:?} {op}({}) -> {}", hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        for id in &ids {
            let st = stored.get(id).cloned().unwrap_or_default();
            m.eq("erc1155/uri", peek_call(t, IUri::uriCall { id: *id }), str_ret(&b));
            m.eq(
                "erc1155/uri_storage-uri",
                (id, peek_call(t, IUri::storedUriCall { id: *id })),
                (id, str_ret(&full(&st, &base))),
            );
            m.count("erc1155-uri");
        }
        m.seen(hash_str(&format!("{b}|{base}|{stored:?}")));
        if m.failed() {
            return;
        }
    }
}

// ---- P17 ------------------------------------------------------------------

type U96 = alloy_primitives::Uint<96, 2>;

#[storage]
pub struct RoyalH {
    #[borrow]
    royalty: Erc2981,
}
unsafe impl TopLevelStorage for RoyalH {}
#[public]
#[inherit(Erc2981)]
impl RoyalH {
    fn set_default(&mut self, receiver: Address, n: U96) -> Result<(), erc2981::Error> {
        self.royalty._set_default_royalty(receiver, n)
    }
    fn delete_default(&mut self) {
        self.royalty._delete_default_royalty()
    }
    fn set_token(&mut self, id: U256, receiver: Address, n: U96) -> Result<(), erc2981::Error> {
        self.royalty._set_token_royalty(id, receiver, n)
    }
    fn reset_token(&mut self, id: U256) {
        self.royalty._reset_token_royalty(id)
    }
    fn fee_denominator(&self) -> U96 {
        self.royalty._fee_denominator()
    }
}

pub fn p17(m: &mut Mon) {
    let t = a(9400);
    vm::install(t, vm::contract::<RoyalH>());
    let max96 = (ONE << 96) - ONE;
    let den = match m.rng.below(6) {
        0 => u(1),
        1 => max96,
        2 => (m.rng.u256() & max96).max(ONE),
        3 => u(1 + m.rng.below(1000)),
        _ => u(10_000),
    };
    vm::poke(t, u(2), word_u(den));
    let mut def: (Address, U256) = (Address::ZERO, U256::ZERO);
    let mut tok: BTreeMap<U256, (Address, U256)> = Default::default();
    let ids: Vec<U256> = {
        let mut v = vec![U256::ZERO, U256::MAX];
        for _ in 0..2 + m.rng.idx(3) {
            v.push(gen_id(m));
        }
        m.rng.twins(&mut v);
        v.sort();
        v.dedup();
        v
    };
    for _ in 0..10 + m.rng.idx(25) {
        let id = *m.rng.pick(&ids);
        let r = match m.rng.below(6) {
            0 => Address::ZERO,
            1 => m.rng.address(),
            2 => t,
            k => a(k),
        };
        let n = m.rng.near(den).min(max96);
        let n96 = U96::from(n);
        let (op, data, want) = match m.rng.below(8) {
            0..=2 => {
                let mut e = vec![];
                if n > den {
                    e.push(err(ERC2981InvalidDefaultRoyalty { numerator: n, denominator: den }));
                }
                if r.is_zero() {
                    e.push(err(ERC2981InvalidDefaultRoyaltyReceiver { receiver: r }));
                }
                let w = if e.is_empty() {
                    def = (r, n);
                    Expect::Ok { ret: Some(vec![]), logs: vec![] }
                } else {
                    Expect::Err(e)
                };
                ("_set_default_royalty", IRoyal::setDefaultCall { receiver: r, n: n96 }.abi_encode(), w)
            }
            3 => {
                def = (Address::ZERO, U256::ZERO);
                (
                    "_delete_default_royalty",
                    IRoyal::deleteDefaultCall {}.abi_encode(),
                    Expect::Ok { ret: Some(vec![]), logs: vec![] },
                )
            }
            4..=6 => {
                let mut e = vec![];
                if n > den {
                    e.push(err(ERC2981InvalidTokenRoyalty {
                        tokenId: id,
                        numerator: n,
                        denominator: den,
                    }));
                }
                if r.is_zero() {
                    e.push(err(ERC2981InvalidTokenRoyaltyReceiver { tokenId: id, receiver: r }));
                }
                let w = if e.is_empty() {
                    tok.insert(id, (r, n));
                    Expect::Ok { ret: Some(vec![]), logs: vec![] }
                } else {
                    Expect::Err(e)
                };
                (
                    "_set_token_royalty",
                    IRoyal::setTokenCall { id, receiver: r, n: n96 }.abi_encode(),
                    w,
                )
            }
            _ => {
                tok.remove(&id);
                (
                    "_reset_token_royalty",
                    IRoyal::resetTokenCall { id }.abi_encode(),
                    Expect::Ok { ret: Some(vec![]), logs: vec![] },
                )
            }
        };
        let (o, logs) = send(*m.rng.pick(&[a(1), t, r]), t, &data);
        m.step(format!("den={den} {op}({}) -> {}", hex(&data[4..]), show(&o)));
        if !judge(m, op, &o, &logs, &want) {
            return;
        }
        m.eq(
            "state/fee-denominator",
            peek_call(t, IRoyal::feeDenominatorCall {}),
            Outcome::Ok(word_u(den).to_vec()),
        );
        for &id in &ids {
            let (rc, fr) = tok.get(&id).copied().unwrap_or(def);
            let price = match m.rng.below(4) {
                0 if !fr.is_zero() => m.rng.near(U256::MAX / fr),
                1 => m.rng.near(den),
                _ => m.rng.amount(),
            };
            let o = peek_call(t, IRoyal::royaltyInfoCall { tokenId: id, salePrice: price });
            m.count(&format!("royaltyInfo:{}", o.class()));
            let prod = wide(price) * wide(fr);
            match narrow(prod) {
                Some(p) => {
                    let want = Outcome::Ok(ok_ret(&(rc, p / den)).unwrap());
                    m.eq("royaltyInfo", (id, price, o.clone()), (id, price, want));
                    m.check(p / den <= price, "royaltyInfo/exceeds-price", String::new);
                }
                // The product does not fit: refuse (or be exact).
                None => {
                    let exact = mul_div(price, fr, den, false)
                        .map(|x| Outcome::Ok(ok_ret(&(rc, x)).unwrap()));
                    m.check(!o.is_ok() || Some(&o) == exact.as_ref(), "royaltyInfo/overflow", || {
                        format!("royaltyInfo({id}, {price}) with {fr}/{den} -> {}", show(&o))
                    });
                }
            }
        }
        m.seen(hash_str(&format!("{den}{def:?}{tok:?}")));
        if m.failed() {
            return;
        }
    }
}
