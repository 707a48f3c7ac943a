use alloy_primitives::{Address, B256, U256};
use alloy_sol_types::{SolCall, SolError, SolEvent};

use crate::mon::Mon;
use crate::vm::{self, Log, Outcome};

pub fn a(n: u64) -> Address {
    // Spread bytes so truncation bugs are visible; a few accounts differ from
    // another one in a single byte.
    let (base, byte) = match n {
        2 => (1, Some(0)),
        4 => (3, Some(19)),
        6 => (5, Some(11)),
        51 => (50, Some(7)),
        _ => (n, None),
    };
    let h = vm::keccak(&base.to_be_bytes());
    let mut x = Address::from_slice(&h[12..]);
    if let Some(i) = byte {
        x.0[i] ^= 0x5a;
    }
    x
}

pub fn u(n: u64) -> U256 {
    U256::from(n)
}

pub const ONE: U256 = U256::from_limbs([1, 0, 0, 0]);

/// What the reference model says about an operation.
pub enum Expect {
    /// Must succeed, returning exactly these bytes and logging these events.
    Ok { ret: Option<Vec<u8>>, logs: Vec<Log> },
    /// Must fail. A revert payload must be one of these (empty list: any).
    Err(Vec<Vec<u8>>),
}

pub fn err<E: SolError>(e: E) -> Vec<u8> {
    e.abi_encode()
}

pub fn ev<E: SolEvent>(addr: Address, e: &E) -> Log {
    let d = e.encode_log_data();
    Log { addr, topics: d.topics().to_vec(), data: d.data.to_vec() }
}

pub fn ok_ret<T: alloy_sol_types::SolValue>(v: &T) -> Option<Vec<u8>> {
    Some(v.abi_encode())
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

/// Compact name for an address (indices of the small test universe).
pub fn nm(x: Address) -> String {
    if x == Address::ZERO {
        return "0x0".into();
    }
    format!("0x{}..", &hex(x.as_slice())[..6])
}

/// Send a transaction; returns the outcome and the logs it left.
pub fn send(from: Address, to: Address, data: &[u8]) -> (Outcome, Vec<Log>) {
    send_value(from, to, U256::ZERO, data)
}

pub fn send_value(
    from: Address,
    to: Address,
    value: U256,
    data: &[u8],
) -> (Outcome, Vec<Log>) {
    let n = vm::with(|w| w.logs.len());
    let o = vm::tx(from, to, value, data);
    let logs = vm::with(|w| w.logs[n..].to_vec());
    (o, logs)
}

pub fn show(o: &Outcome) -> String {
    match o {
        Outcome::Ok(v) => format!("ok({})", hex(v)),
        Outcome::Revert(v) => format!("revert({})", hex(v)),
        Outcome::Panic(s) => format!("trap({s})"),
    }
}

/// Compare an observed outcome with the model's verdict.
pub fn judge(m: &mut Mon, op: &str, o: &Outcome, logs: &[Log], want: &Expect) -> bool {
    m.count(&format!("{op}:{}", o.class()));
    m.evals += 1;
    match want {
        Expect::Ok { ret, logs: wl } => {
            let Outcome::Ok(got) = o else {
                m.fail(
                    &format!("{op}/rejected"),
                    format!("{op} must succeed but {}", show(o)),
                );
                return false;
            };
            if let Some(r) = ret {
                if got != r {
                    m.fail(
                        &format!("{op}/return"),
                        format!("{op} returned {} expected {}", hex(got), hex(r)),
                    );
                    return false;
                }
            }
            m.evals += 1;
            // Order is judged per emitting contract.
            let mut got_l = logs.to_vec();
            let mut want_l = wl.clone();
            got_l.sort_by_key(|l| l.addr);
            want_l.sort_by_key(|l| l.addr);
            if got_l != want_l {
                m.fail(
                    &format!("{op}/events"),
                    format!("{op} events differ: observed {logs:?} expected {wl:?}"),
                );
                return false;
            }
            true
        }
        Expect::Err(list) => match o {
            Outcome::Ok(v) => {
                m.fail(
                    &format!("{op}/accepted"),
                    format!("{op} must fail but succeeded returning {}", hex(v)),
                );
                false
            }
            Outcome::Panic(_) | Outcome::Revert(_) => {
                // A trap is a revert without data.
                let d: &[u8] = match o {
                    Outcome::Revert(d) => d,
                    _ => &[],
                };
                if list.is_empty() || list.iter().any(|e| e.as_slice() == d) {
                    true
                } else {
                    m.fail(
                        &format!("{op}/error"),
                        format!(
                            "{op} failed with {} expected one of {:?}",
                            show(o),
                            list.iter().map(|e| hex(e)).collect::<Vec<_>>()
                        ),
                    );
                    false
                }
            }
        },
    }
}

/// Read-only call that must succeed; decoded.
pub fn get<C: SolCall>(m: &mut Mon, to: Address, c: C) -> Option<C::Return> {
    let o = vm::view(Address::repeat_byte(0x99), to, &c.abi_encode());
    match &o {
        Outcome::Ok(d) => match C::abi_decode_returns(d, true) {
            Ok(r) => Some(r),
            Err(e) => {
                m.fail(
                    &format!("{}/encoding", C::SIGNATURE),
                    format!("undecodable return {}: {e}", hex(d)),
                );
                None
            }
        },
        _ => {
            m.fail(
                &format!("{}/view-failed", C::SIGNATURE),
                format!("view failed: {}", show(&o)),
            );
            None
        }
    }
}

/// Read-only call returning the raw outcome.
pub fn peek_call<C: SolCall>(to: Address, c: C) -> Outcome {
    vm::view(Address::repeat_byte(0x99), to, &c.abi_encode())
}

pub fn word_addr(x: Address) -> B256 {
    let mut b = [0u8; 32];
    b[12..].copy_from_slice(x.as_slice());
    B256::from(b)
}

pub fn word_u(x: U256) -> B256 {
    B256::from(x)
}

/// Store a short or long string at a slot with Solidity's layout.
pub fn poke_string(addr: Address, slot: u64, s: &str) {
    let b = s.as_bytes();
    let slot_u = u(slot);
    if b.len() < 32 {
        let mut w = [0u8; 32];
        w[..b.len()].copy_from_slice(b);
        w[31] = (b.len() * 2) as u8;
        vm::poke(addr, slot_u, B256::from(w));
    } else {
        vm::poke(addr, slot_u, word_u(u((b.len() * 2 + 1) as u64)));
        let base: U256 = vm::keccak(&slot_u.to_be_bytes::<32>()).into();
        for (i, c) in b.chunks(32).enumerate() {
            let mut w = [0u8; 32];
            w[..c.len()].copy_from_slice(c);
            vm::poke(addr, base + u(i as u64), B256::from(w));
        }
    }
}

/// Deployment-like storage word with packed fields, Solidity order
/// (lowest-order bytes first): (value, bytes).
pub fn packed(fields: &[(U256, usize)]) -> B256 {
    let mut acc = U256::ZERO;
    let mut off = 0usize;
    for (v, n) in fields {
        acc |= *v << (off * 8);
        off += n;
    }
    word_u(acc)
}

pub fn addr_u(x: Address) -> U256 {
    word_addr(x).into()
}

/// Widening arithmetic for oracles.
pub type U512 = alloy_primitives::Uint<512, 8>;
pub fn wide(x: U256) -> U512 {
    U512::from(x)
}
pub fn narrow(x: U512) -> Option<U256> {
    let l = x.as_limbs();
    if l[4..].iter().any(|v| *v != 0) {
        None
    } else {
        Some(U256::from_limbs([l[0], l[1], l[2], l[3]]))
    }
}
/// floor or ceil of x*y/d, exactly.
pub fn mul_div(x: U256, y: U256, d: U256, ceil: bool) -> Option<U256> {
    if d.is_zero() {
        return None;
    }
    let p = wide(x) * wide(y);
    let q = p / wide(d);
    let r = p % wide(d);
    narrow(if ceil && !r.is_zero() { q + U512::from(1u64) } else { q })
}

/// Deterministic signing keys.
pub struct Key {
    pub sk: k256::ecdsa::SigningKey,
    pub addr: Address,
}
pub fn key(n: u64) -> Key {
    let d = vm::keccak(&(n ^ 0xabcdef).to_be_bytes());
    let sk = k256::ecdsa::SigningKey::from_slice(d.as_slice()).unwrap();
    let addr = vm::address_of(sk.verifying_key());
    Key { sk, addr }
}
/// Low-s signature over a digest: (v, r, s).
pub fn sign(k: &Key, digest: B256) -> (u8, B256, B256) {
    let (sig, rid) = k.sk.sign_prehash_recoverable(digest.as_slice()).unwrap();
    let (sig, rid) = match sig.normalize_s() {
        Some(n) => (n, k256::ecdsa::RecoveryId::from_byte(rid.to_byte() ^ 1).unwrap()),
        None => (sig, rid),
    };
    let b = sig.to_bytes();
    (27 + rid.to_byte(), B256::from_slice(&b[..32]), B256::from_slice(&b[32..]))
}
pub const SECP_N: U256 = alloy_primitives::uint!(
    0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141_U256
);

/// Answers that look meaningful but are not the acceptance value `magic`.
pub fn odd_answer(m: &mut crate::mon::Mon, magic: &[u8]) -> Vec<u8> {
    let head = |v: &[u8]| {
        let mut w = vec![0u8; 32];
        w[..v.len()].copy_from_slice(v);
        w
    };
    let sel = |v: [u8; 4]| head(&v);
    let w = match m.rng.below(12) {
        0 => sel([0xff; 4]),
        1 => vec![0xff; 32],
        2 => word_u(U256::from(1)).to_vec(),
        3 => sel([0x01, 0xff, 0xc9, 0xa7]),
        4 => sel([0x15, 0x0b, 0x7a, 0x02]),
        5 => sel([0xf2, 0x3a, 0x6e, 0x61]),
        6 => sel([0xbc, 0x19, 0x7c, 0x81]),
        7 => sel([0x4e, 0x23, 0x12, 0xe0]),
        8 => {
            let mut v = magic.to_vec();
            v.reverse();
            head(&v)
        }
        9 => {
            // Right-aligned.
            let mut w = vec![0u8; 32];
            let n = magic.len().min(4);
            w[32 - n..].copy_from_slice(&magic[..n]);
            w
        }
        10 => head(&magic[..magic.len() / 2]),
        _ => m.rng.bytes(32),
    };
    if w[..magic.len()] == *magic {
        return vec![0; 32];
    }
    w
}
