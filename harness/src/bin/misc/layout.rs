//! P29: storage layout, as Solidity constructors and upgrades see it.
use std::collections::BTreeMap;

use alloy_primitives::{Address, Uint, B256, U256};
use openzeppelin_stylus::access::control::{AccessControl, IAccessControl};
use openzeppelin_stylus::access::ownable::Ownable;
use openzeppelin_stylus::access::ownable_two_step::{IOwnable2Step, Ownable2Step};
use openzeppelin_stylus::finance::vesting_wallet::{IVestingWallet, VestingWallet};
use openzeppelin_stylus::token::common::erc2981::{Erc2981, IErc2981};
use openzeppelin_stylus::token::erc1155::extensions::{Erc1155Supply, Erc1155UriStorage};
use openzeppelin_stylus::token::erc1155::{Erc1155, IErc1155};
use openzeppelin_stylus::token::erc20::extensions::{Capped, Erc20Metadata, IErc20Metadata};
use openzeppelin_stylus::token::erc20::{Erc20, IErc20};
use openzeppelin_stylus::token::erc721::extensions::{
    Erc721Consecutive, Erc721Enumerable, Erc721UriStorage,
};
use openzeppelin_stylus::token::erc721::{Erc721, IErc721};
use openzeppelin_stylus::utils::nonces::Nonces;
use openzeppelin_stylus::utils::pausable::Pausable;
use openzeppelin_stylus::utils::structs::{
    bitmap::BitMap,
    checkpoints::{Trace, S160, S208, S224},
};
use stylus_sdk::storage::StorageType;
use vcore::mon::{hash_str, Mon};
use vcore::util::*;
use vcore::vm;

fn mapu(key: B256, slot: U256) -> U256 {
    let mut b = key.to_vec();
    b.extend_from_slice(&slot.to_be_bytes::<32>());
    vm::keccak(&b).into()
}
fn ma(x: Address, slot: U256) -> U256 {
    mapu(word_addr(x), slot)
}
fn mu(x: U256, slot: U256) -> U256 {
    mapu(word_u(x), slot)
}
fn arr(slot: U256) -> U256 {
    vm::keccak(&slot.to_be_bytes::<32>()).into()
}

type Slots = BTreeMap<U256, U256>;

/// A string at a slot, Solidity's encoding.
fn put_str(m: &mut Slots, slot: U256, s: &str) {
    let b = s.as_bytes();
    if b.len() < 32 {
        let mut w = [0u8; 32];
        w[..b.len()].copy_from_slice(b);
        w[31] = (b.len() * 2) as u8;
        m.insert(slot, U256::from_be_bytes(w));
    } else {
        m.insert(slot, u((b.len() * 2 + 1) as u64));
        for (i, c) in b.chunks(32).enumerate() {
            let mut w = [0u8; 32];
            w[..c.len()].copy_from_slice(c);
            m.insert(arr(slot) + u(i as u64), U256::from_be_bytes(w));
        }
    }
}

fn run<C: StorageType + 'static, R: std::fmt::Debug + 'static>(
    m: &mut Mon,
    t: Address,
    s: Address,
    what: &str,
    f: impl FnOnce(&mut C) -> R + 'static,
) -> Option<R> {
    let r = vm::run_as::<C, R>(t, s, f);
    m.step(format!("{what} by {} -> {r:?}", nm(s)));
    match r {
        Ok(x) => Some(x),
        Err(o) => {
            m.fail(&format!("{what}/failed"), show(&o));
            None
        }
    }
}

fn compare(m: &mut Mon, comp: &str, t: Address, want: &Slots) {
    for (k, v) in want {
        let got: U256 = vm::peek(t, *k).into();
        m.check(got == *v, &format!("{comp}/slot"), || {
            format!("{comp}: slot {k:#x} holds {got:#x}, Solidity's layout holds {v:#x}")
        });
    }
    m.count(&format!("layout:{comp}"));
    m.seen(hash_str(&format!("{comp}{want:?}")));
}

fn word(m: &mut Mon) -> U256 {
    m.rng.u256() >> m.rng.idx(200)
}

pub fn p29(m: &mut Mon) {
    let t = a(9900);
    let mut w = Slots::new();
    let (x, y) = (m.rng.address(), m.rng.address());
    let s = a(1);
    let z = U256::ZERO;
    match m.episode % 18 {
        0 => {
            let (v, q) = (word(m) >> 2, word(m));
            run::<Erc20, _>(m, t, s, "mint", move |c| c._mint(x, v).is_ok());
            run::<Erc20, _>(m, t, x, "approve", move |c| c.approve(y, q).is_ok());
            let h = v >> 1;
            run::<Erc20, _>(m, t, x, "transfer", move |c| c.transfer(y, h).is_ok());
            w.insert(ma(x, z), v - h);
            w.insert(ma(y, z), h);
            w.insert(ma(y, ma(x, ONE)), q);
            w.insert(u(2), v);
            compare(m, "Erc20", t, &w);
            // Written from outside, read back.
            let n = word(m);
            vm::poke(t, ma(y, z), word_u(n));
            let g = run::<Erc20, _>(m, t, s, "balanceOf", move |c| c.balance_of(y));
            m.eq("Erc20/read", g, Some(n));
        }
        1 => {
            let id = word(m);
            run::<Erc721, _>(m, t, s, "mint", move |c| c._mint(x, id).is_ok());
            run::<Erc721, _>(m, t, x, "approve", move |c| c.approve(y, id).is_ok());
            run::<Erc721, _>(m, t, x, "setApprovalForAll", move |c| {
                c.set_approval_for_all(y, true).is_ok()
            });
            w.insert(mu(id, z), addr_u(x));
            w.insert(ma(x, ONE), ONE);
            w.insert(mu(id, u(2)), addr_u(y));
            w.insert(ma(y, ma(x, u(3))), ONE);
            compare(m, "Erc721", t, &w);
        }
        2 => {
            let (id, v) = (word(m), word(m));
            run::<Erc1155, _>(m, t, s, "mint", move |c| c._mint(x, id, v, &vec![].into()).is_ok());
            run::<Erc1155, _>(m, t, x, "setApprovalForAll", move |c| {
                c.set_approval_for_all(y, true).is_ok()
            });
            w.insert(ma(x, mu(id, z)), v);
            w.insert(ma(y, ma(x, ONE)), ONE);
            compare(m, "Erc1155", t, &w);
        }
        3 => {
            let (id, v) = (word(m), word(m));
            run::<Erc1155Supply, _>(m, t, s, "mint", move |c| {
                c._mint(x, id, v, &vec![].into()).is_ok()
            });
            w.insert(ma(x, mu(id, z)), v);
            w.insert(mu(id, u(2)), v);
            w.insert(u(3), v);
            compare(m, "Erc1155Supply", t, &w);
        }
        4 => {
            let (r, ad) = (B256::from(m.rng.u256()), B256::from(m.rng.u256()));
            run::<AccessControl, _>(m, t, s, "grant", move |c| c._grant_role(r, x));
            run::<AccessControl, _>(m, t, s, "admin", move |c| c._set_role_admin(r, ad));
            let base = mapu(r, z);
            w.insert(ma(x, base), ONE);
            w.insert(base + ONE, ad.into());
            compare(m, "AccessControl", t, &w);
            vm::poke(t, ma(y, base), word_u(ONE));
            let g = run::<AccessControl, _>(m, t, s, "hasRole", move |c| c.has_role(r, y));
            m.eq("AccessControl/read", g, Some(true));
        }
        5 => {
            vm::poke(t, z, word_addr(x));
            run::<Ownable2Step, _>(m, t, x, "transferOwnership", move |c| {
                IOwnable2Step::transfer_ownership(c, y).is_ok()
            });
            w.insert(z, addr_u(x));
            w.insert(ONE, addr_u(y));
            compare(m, "Ownable2Step", t, &w);
            let t2 = a(9901);
            run::<Ownable, _>(m, t2, s, "_transfer_ownership", move |c| c._transfer_ownership(y));
            w.clear();
            w.insert(z, addr_u(y));
            compare(m, "Ownable", t2, &w);
        }
        6 => {
            run::<Pausable, _>(m, t, s, "pause", |c| c.pause().is_ok());
            w.insert(z, ONE);
            compare(m, "Pausable", t, &w);
            m.seen(hash_str(&format!("{x}")));
        }
        7 => {
            let n = word(m).min(U256::MAX - ONE);
            vm::poke(t, ma(x, z), word_u(n));
            let g = run::<Nonces, _>(m, t, s, "use_nonce", move |c| c.use_nonce(x));
            m.eq("Nonces/read", g, Some(n));
            w.insert(ma(x, z), n + ONE);
            compare(m, "Nonces", t, &w);
        }
        8 => {
            let (f, g, id) = (u(m.rng.below(10_001)), u(m.rng.below(10_001)), word(m));
            vm::poke(t, u(2), word_u(u(10_000)));
            let (f9, g9) = (Uint::<96, 2>::from(f), Uint::<96, 2>::from(g));
            run::<Erc2981, _>(m, t, s, "default", move |c| c._set_default_royalty(x, f9).is_ok());
            run::<Erc2981, _>(m, t, s, "token", move |c| c._set_token_royalty(id, y, g9).is_ok());
            w.insert(z, addr_u(x) | f << 160);
            w.insert(mu(id, ONE), addr_u(y) | g << 160);
            w.insert(u(2), u(10_000));
            compare(m, "Erc2981", t, &w);
            let r = run::<Erc2981, _>(m, t, s, "info", move |c| c.royalty_info(id, u(10_000)));
            m.eq("Erc2981/read", r, Some((y, g)));
        }
        9 | 10 | 11 => {
            let k = m.episode % 18;
            let kb: usize = [96, 48, 32][(k - 9) as usize];
            let mut key = z;
            let n = 1 + m.rng.below(5);
            for i in 0..n {
                key += ONE + (m.rng.u256() >> (256 - kb + 4));
                let v = m.rng.u256() >> kb;
                let (ky, vl) = (key, v);
                match k {
                    9 => run::<Trace<S160>, _>(m, t, s, "push", move |c| {
                        c.push(Uint::from(ky), Uint::from(vl)).is_ok()
                    }),
                    10 => run::<Trace<S208>, _>(m, t, s, "push", move |c| {
                        c.push(Uint::from(ky), Uint::from(vl)).is_ok()
                    }),
                    _ => run::<Trace<S224>, _>(m, t, s, "push", move |c| {
                        c.push(Uint::from(ky), Uint::from(vl)).is_ok()
                    }),
                };
                w.insert(arr(z) + u(i), key | v << kb);
            }
            w.insert(z, u(n));
            compare(m, ["Trace160", "Trace208", "Trace224"][(k - 9) as usize], t, &w);
        }
        12 => {
            let i = word(m);
            run::<BitMap, _>(m, t, s, "set", move |c| c.set(i));
            w.insert(mu(i >> 8, z), ONE << (i & u(255)).to::<usize>());
            compare(m, "BitMap", t, &w);
        }
        13 => {
            let n = m.rng.idx(70);
            let st: String = (0..n).map(|_| (b'a' + m.rng.below(26) as u8) as char).collect();
            let id = word(m);
            let s2 = st.clone();
            run::<Erc721UriStorage, _>(m, t, s, "_set_token_uri", move |c| c._set_token_uri(id, s2));
            put_str(&mut w, mu(id, z), &st);
            compare(m, "Erc721UriStorage", t, &w);
            let t2 = a(9902);
            let s2 = st.clone();
            run::<Erc1155UriStorage, _>(m, t2, s, "set_base_uri", move |c| c.set_base_uri(s2));
            w.clear();
            put_str(&mut w, z, &st);
            compare(m, "Erc1155UriStorage", t2, &w);
        }
        14 => {
            // Token ids through the enumeration.
            let (i, j) = (word(m), word(m));
            run::<Erc721Enumerable, _>(m, t, s, "add", move |c| {
                c._add_token_to_all_tokens_enumeration(i);
                c._add_token_to_all_tokens_enumeration(j);
            });
            w.insert(u(2), u(2));
            w.insert(arr(u(2)), i);
            w.insert(arr(u(2)) + ONE, j);
            if i != j {
                w.insert(mu(i, u(3)), z);
                w.insert(mu(j, u(3)), ONE);
            }
            compare(m, "Erc721Enumerable", t, &w);
        }
        15 => {
            let (st, d) = (m.rng.next(), m.rng.next());
            vm::poke(t, z, word_addr(x));
            vm::poke(t, ONE, word_u(u(77)));
            vm::poke(t, ma(y, u(2)), word_u(u(88)));
            vm::poke(t, u(3), packed(&[(u(st), 8), (u(d), 8)]));
            let g = run::<VestingWallet, _>(m, t, s, "read", move |c| {
                (c.owner(), c.start(), c.duration(), c.released_eth(), c.released_erc20(y))
            });
            m.eq("VestingWallet/read", g, Some((x, u(st), u(d), u(77), u(88))));
            m.count("layout:VestingWallet");
            m.seen(hash_str(&format!("{st}{d}{x}")));
        }
        16 => {
            // Consecutive: trace of batch owners, packed limits.
            let first = m.rng.below(1000);
            let max = 2 + m.rng.below(5000);
            vm::poke(t, u(6), packed(&[(u(first), 12), (u(max), 12)]));
            let n = 1 + m.rng.below(max);
            let n9 = Uint::<96, 2>::from(n);
            run::<Erc721Consecutive, _>(m, t, s, "_mint_consecutive", move |c| {
                c._mint_consecutive(x, n9).is_ok()
            });
            w.insert(u(4), ONE);
            w.insert(arr(u(4)), u(first + n - 1) | addr_u(x) << 96);
            w.insert(ma(x, ONE), u(n));
            w.insert(u(6), packed(&[(u(first), 12), (u(max), 12)]).into());
            compare(m, "Erc721Consecutive", t, &w);
        }
        _ => {
            let cap = word(m);
            vm::poke(t, z, word_u(cap));
            let g = run::<Capped, _>(m, t, s, "cap", |c| c.cap());
            m.eq("Capped/read", g, Some(cap));
            let t2 = a(9903);
            poke_string(t2, 0, "Name");
            poke_string(t2, 1, "A symbol longer than thirty-one bytes!");
            let g = run::<Erc20Metadata, _>(m, t2, s, "names", |c| (c.name(), c.symbol()));
            m.eq(
                "Erc20Metadata/read",
                g,
                Some(("Name".to_string(), "A symbol longer than thirty-one bytes!".to_string())),
            );
            m.count("layout:Capped,Erc20Metadata");
            m.seen(hash_str(&format!("{cap}")));
        }
    }
}
