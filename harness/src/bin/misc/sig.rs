//! P26 signature recovery, P27 typed-data domains.
use alloy_primitives::{Address, B256, U256};
use alloy_sol_types::{sol, SolCall};
use openzeppelin_stylus::utils::cryptography::ecdsa;
use openzeppelin_stylus::utils::cryptography::eip712::{to_typed_data_hash, IEip712};
use stylus_sdk::prelude::*;
use vcore::mon::{hash_str, Mon};
use vcore::util::*;
use vcore::vm::{self, Outcome};

sol! {
    error ECDSAInvalidSignature();
    error ECDSAInvalidSignatureS(bytes32 s);
    interface IRec {
        function rec(bytes32 hash, uint8 v, bytes32 r, bytes32 s) external view returns (address);
    }
}

#[storage]
pub struct RecH;
unsafe impl TopLevelStorage for RecH {}
#[public]
impl RecH {
    fn rec(&mut self, hash: B256, v: u8, r: B256, s: B256) -> Result<Address, Vec<u8>> {
        ecdsa::recover(self, hash, v, r, s).map_err(Vec::from)
    }
}

fn half() -> U256 {
    SECP_N >> 1
}

pub fn p26(m: &mut Mon) {
    let t = a(9800);
    vm::install(t, vm::contract::<RecH>());
    for _ in 0..12 {
        let k = key(m.rng.below(40));
        let hash = match m.rng.below(6) {
            0 => B256::ZERO,
            1 => B256::repeat_byte(0xff),
            _ => B256::from(m.rng.u256()),
        };
        let (v, r, s) = sign(&k, hash);
        let su: U256 = s.into();
        let flip = |x: B256, m: &mut Mon| {
            let mut b = x;
            b.0[m.rng.idx(32)] ^= 1 << m.rng.idx(8);
            b
        };
        // (class, hash, v, r, s, must recover to the signer)
        let (cl, h2, v2, r2, s2) = match m.rng.below(16) {
            0..=3 => ("honest", hash, v, r, s),
            4 => ("malleated", hash, v ^ 7, r, word_u(SECP_N - su)),
            5 => ("malleated-v", hash, v, r, word_u(SECP_N - su)),
            6 => ("v-flipped", hash, if v == 27 { 28 } else { 27 }, r, s),
            7 => {
                let bad = *m.rng.pick(&[0u8, 1, 2, 26, 29, 30, 255, 35, 36, 54, 55]);
                ("v-invalid", hash, bad, r, s)
            }
            8 => ("v-raw", hash, v - 27, r, s),
            9 => ("hash-changed", flip(hash, m), v, r, s),
            10 => ("r-changed", hash, v, flip(r, m), s),
            11 => ("s-changed", hash, v, r, flip(s, m)),
            12 => {
                let rr = *m.rng.pick(&[U256::ZERO, SECP_N, SECP_N + ONE, U256::MAX, SECP_N - ONE, ONE]);
                ("r-boundary", hash, v, word_u(rr), s)
            }
            13 => {
                let ss = *m.rng.pick(&[
                    U256::ZERO,
                    ONE,
                    half(),
                    half() + ONE,
                    half() - ONE,
                    SECP_N - ONE,
                    SECP_N,
                    U256::MAX,
                    ONE << 255,
                ]);
                ("s-boundary", hash, v, r, word_u(ss))
            }
            14 => ("r-s-swapped", hash, v, s, r),
            _ => {
                let x = 27 + m.rng.below(2) as u8;
                ("random", hash, x, B256::from(m.rng.u256()), B256::from(m.rng.u256() >> 1))
            }
        };
        let s2u: U256 = s2.into();
        let want: Result<Address, Vec<Vec<u8>>> = if s2u > half() {
            Err(vec![err(ECDSAInvalidSignatureS { s: s2 })])
        } else {
            let mut vw = [0u8; 32];
            vw[31] = v2;
            match vm::ecrecover(h2.as_slice(), &vw, r2.as_slice(), s2.as_slice()) {
                Some(x) if v2 == 27 || v2 == 28 => Ok(x),
                _ => Err(vec![err(ECDSAInvalidSignature {})]),
            }
        };
        let (o, logs) =
            send(a(1), t, &IRec::recCall { hash: h2, v: v2, r: r2, s: s2 }.abi_encode());
        m.step(format!("{cl} v={v2} -> {}", show(&o)));
        m.count(&format!("{cl}:{}", o.class()));
        let w = match &want {
            Ok(x) => Expect::Ok { ret: ok_ret(x), logs: vec![] },
            Err(e) => Expect::Err(e.clone()),
        };
        judge(m, "recover", &o, &logs, &w);
        let sg = Outcome::Ok(word_addr(k.addr).to_vec());
        if cl == "honest" {
            m.eq("honest-signer", o.clone(), sg);
        } else if (h2, v2, r2, s2) != (hash, v, r, s) {
            // No second signature for the same signer and message.
            m.check(h2 != hash || o != sg, "second-signature", || {
                format!("{cl} (v={v2} r={r2} s={s2}) also recovers the signer")
            });
            if h2 != hash {
                m.check(o != sg, "other-message", || format!("{cl} authorises another message"));
            }
        }
        if let Outcome::Ok(d) = &o {
            m.check(d.iter().any(|b| *b != 0), "zero-signer", String::new);
        }
        m.seen(hash_str(&format!("{cl}{h2}{v2}{r2}{s2}")));
        if m.failed() {
            return;
        }
    }
}

macro_rules! dom {
    ($n:ident, $name:expr, $ver:expr) => {
        #[storage]
        pub struct $n;
        impl IEip712 for $n {
            const NAME: &'static str = $name;
            const VERSION: &'static str = $ver;
        }
    };
}
dom!(D0, "", "");
dom!(D1, "My Token", "1");
dom!(D2, "My Token", "2");
dom!(D3, "My Token1", "");
dom!(D4, "a much longer name of a contract, well beyond one word, with ünïcode", "1.0.0-beta+longer-version-string-than-32-bytes");
dom!(D5, "", "My Token");

type Domain = ([u8; 1], String, String, U256, Address, [u8; 32], Vec<U256>);

fn observe<D: IEip712 + stylus_sdk::storage::StorageType + 'static>(
    t: Address,
    st: B256,
) -> Result<(Domain, B256, B256), Outcome> {
    vm::run_as::<D, _>(t, a(1), move |d| {
        (d.eip712_domain(), d.domain_separator_v4(), d.hash_typed_data_v4(st))
    })
}

pub fn p27(m: &mut Mon) {
    let mut seen: Vec<(usize, u64, Address, B256)> = vec![];
    for _ in 0..24 {
        let chain = match m.rng.below(5) {
            0 => 1,
            1 => u64::MAX,
            2 => m.rng.next(),
            3 => 0,
            _ => 42161 + m.rng.below(3),
        };
        vm::with(|w| w.chain_id = chain);
        let t = match m.rng.below(4) {
            0 => Address::with_last_byte(0x42),
            1 => Address::repeat_byte(0xff),
            2 => m.rng.address(),
            _ => a(m.rng.below(6)),
        };
        let st = match m.rng.below(4) {
            0 => B256::ZERO,
            _ => B256::from(m.rng.u256()),
        };
        let i = m.rng.idx(6);
        let (name, ver) = match i {
            0 => (D0::NAME, D0::VERSION),
            1 => (D1::NAME, D1::VERSION),
            2 => (D2::NAME, D2::VERSION),
            3 => (D3::NAME, D3::VERSION),
            4 => (D4::NAME, D4::VERSION),
            _ => (D5::NAME, D5::VERSION),
        };
        let r = match i {
            0 => observe::<D0>(t, st),
            1 => observe::<D1>(t, st),
            2 => observe::<D2>(t, st),
            3 => observe::<D3>(t, st),
            4 => observe::<D4>(t, st),
            _ => observe::<D5>(t, st),
        };
        m.step(format!("domain {name:?} {ver:?} chain {chain} at {t} -> {r:?}"));
        m.count("domain");
        let Ok((dom, sep, typed)) = r else {
            m.fail("trapped", format!("{r:?}"));
            return;
        };
        m.eq("eip712Domain/fields", dom.0, [0x0f]);
        m.eq("eip712Domain/name", dom.1.as_str(), name);
        m.eq("eip712Domain/version", dom.2.as_str(), ver);
        m.eq("eip712Domain/chainId", dom.3, u(chain));
        m.eq("eip712Domain/verifyingContract", dom.4, t);
        m.eq("eip712Domain/salt", dom.5, [0u8; 32]);
        m.eq("eip712Domain/extensions", dom.6.len(), 0);
        let mut b = vec![];
        b.extend_from_slice(
            vm::keccak(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)")
                .as_slice(),
        );
        b.extend_from_slice(vm::keccak(name.as_bytes()).as_slice());
        b.extend_from_slice(vm::keccak(ver.as_bytes()).as_slice());
        b.extend_from_slice(word_u(u(chain)).as_slice());
        b.extend_from_slice(word_addr(t).as_slice());
        let want = vm::keccak(&b);
        m.eq("domain_separator_v4", sep, want);
        let mut p = vec![0x19, 0x01];
        p.extend_from_slice(want.as_slice());
        p.extend_from_slice(st.as_slice());
        let wt = vm::keccak(&p);
        m.eq("hash_typed_data_v4", typed, wt);
        m.eq("to_typed_data_hash", to_typed_data_hash(&want.0, &st.0), wt);
        for (j, c, x, s) in &seen {
            let same = (*j, *c, *x) == (i, chain, t);
            m.check((*s == sep) == same, "separation", || {
                format!("domains {j}/{c}/{x} and {i}/{chain}/{t}: separators {s} {sep}")
            });
        }
        seen.push((i, chain, t, sep));
        m.seen(hash_str(&format!("{sep}{st}")));
        if m.failed() {
            return;
        }
    }
}
