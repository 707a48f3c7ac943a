//! C03: the keccak hasher and the pair helpers against an independent Keccak.
use openzeppelin_crypto::hash::{commutative_hash_pair, hash_pair, BuildHasher, Hash, Hasher};
use openzeppelin_crypto::KeccakBuilder;
use sha3::{Digest, Keccak256};

use crate::mon::{hash_words, Mon, Prop};

pub fn keccak(b: &[u8]) -> [u8; 32] {
    let mut h = Keccak256::new();
    h.update(b);
    h.finalize().into()
}

/// A user type fed to the hasher in several pieces.
#[derive(PartialEq, PartialOrd, Clone, Debug)]
pub struct Blob(pub Vec<u8>, pub Vec<usize>);
impl Hash for Blob {
    fn hash<H: Hasher>(&self, state: &mut H) {
        let mut at = 0;
        for c in &self.1 {
            state.update(&self.0[at..*c]);
            at = *c;
        }
        state.update(&self.0[at..]);
    }
}

/// A toy hasher with visible structure: records what it is fed, in order.
pub struct Tape(pub Vec<u8>);
impl Hasher for Tape {
    type Output = Vec<u8>;
    fn update(&mut self, input: impl AsRef<[u8]>) {
        self.0.extend_from_slice(input.as_ref());
    }
    fn finalize(self) -> Vec<u8> {
        self.0
    }
}
pub struct TapeBuilder;
impl BuildHasher for TapeBuilder {
    type Hasher = Tape;
    fn build_hasher(&self) -> Tape {
        Tape(vec![])
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C03",
        run,
        quick: 300_000,
        thorough: 2_000_000,
        wquick: 50_000,
        wthorough: 200_000,
        rule: "distinct messages (contents and chunking); lengths cluster around the 136-byte sponge rate",
        assumptions: &["the sha3 crate is the reference for Keccak-256"],
    }]
}

fn len(m: &mut Mon) -> usize {
    match m.rng.below(8) {
        0 => 0,
        1 => 32,
        2 => 64,
        3 => 135 + m.rng.idx(3),
        4 => 271 + m.rng.idx(3),
        5 => m.rng.idx(1200),
        _ => m.rng.idx(140),
    }
}

fn blob(m: &mut Mon) -> Blob {
    let n = len(m);
    let data = if m.rng.chance(1, 6) { vec![*m.rng.pick(&[0u8, 0xff, 0x80, 1]); n] } else { m.rng.bytes(n) };
    let mut cuts: Vec<usize> = (0..m.rng.idx(5)).map(|_| m.rng.idx(n + 1)).collect();
    if m.rng.chance(1, 4) {
        cuts.push(136.min(n));
    }
    cuts.sort();
    Blob(data, cuts)
}

fn word(m: &mut Mon) -> [u8; 32] {
    let mut w = [0u8; 32];
    match m.rng.below(4) {
        0 => w = [*m.rng.pick(&[0u8, 0xff, 0x80, 0x7f]); 32],
        _ => w.copy_from_slice(&m.rng.bytes(32)),
    }
    w
}

fn run(m: &mut Mon) {
    for _ in 0..6 {
        m.case();
        let a = blob(m);
        let b = match m.rng.below(5) {
            0 => a.clone(),
            1 => {
                let mut b = a.clone();
                if !b.0.is_empty() {
                    let i = m.rng.idx(b.0.len());
                    b.0[i] ^= 1 << m.rng.below(8);
                }
                b
            }
            _ => blob(m),
        };
        m.step(format!("a={} bytes cut at {:?}, b={} bytes cut at {:?}", a.0.len(), a.1, b.0.len(), b.1));
        let ha = keccak(&a.0);
        m.seen(hash_words(&[ha[0] as u64 | (ha[9] as u64) << 8 | (ha[17] as u64) << 16 | (ha[30] as u64) << 24, a.0.len() as u64, a.1.len() as u64]));
        let kb = KeccakBuilder;
        m.eq("hash_one", kb.hash_one(a.clone()), ha);
        let mut h = kb.build_hasher();
        let mut at = 0;
        for c in &a.1 {
            h.update(&a.0[at..*c]);
            at = *c;
        }
        h.update(a.0[at..].to_vec());
        m.eq("chunked update", h.finalize(), ha);
        let cat: Vec<u8> = a.0.iter().chain(&b.0).copied().collect();
        let rev: Vec<u8> = b.0.iter().chain(&a.0).copied().collect();
        m.eq("hash_pair", hash_pair(&a, &b, kb.build_hasher()), keccak(&cat));
        m.eq("hash_pair is the given order", hash_pair(&a, &b, TapeBuilder.build_hasher()), cat.clone());
        // commutative: sorted by the order of the values
        let want = if a.0 <= b.0 { &cat } else { &rev };
        let (ka, kb2) = (Key(a.0.clone()), Key(b.0.clone()));
        m.eq("commutative_hash_pair", commutative_hash_pair(&ka, &kb2, kb.build_hasher()), keccak(want));
        m.eq("commutative_hash_pair swapped", commutative_hash_pair(&kb2, &ka, kb.build_hasher()), keccak(want));
        m.eq("commutative_hash_pair order", commutative_hash_pair(&ka, &kb2, TapeBuilder.build_hasher()), want.clone());
        // 32-byte words
        let (x, mut y) = (word(m), word(m));
        match m.rng.below(4) {
            0 => y = x,
            1 => {
                y = x;
                let i = m.rng.idx(32);
                y[i] ^= 1 << m.rng.below(8);
            }
            _ => {}
        }
        let two = |p: &[u8; 32], q: &[u8; 32]| [&p[..], &q[..]].concat();
        let sorted = if x <= y { two(&x, &y) } else { two(&y, &x) };
        m.eq("word hash_one", kb.hash_one(x), keccak(&x));
        m.eq("word hash_pair", hash_pair(&x, &y, kb.build_hasher()), keccak(&two(&x, &y)));
        m.eq("word commutative", commutative_hash_pair(&x, &y, kb.build_hasher()), keccak(&sorted));
        m.eq("word commutative swapped", commutative_hash_pair(&y, &x, kb.build_hasher()), keccak(&sorted));
        m.eq("tape hash_one", TapeBuilder.hash_one(x), x.to_vec());
        if x == y {
            m.count("equal words");
        }
        if a.0.len() % 136 == 0 {
            m.count("messages at a rate boundary");
        }
    }
    m.count("batches");
}

#[derive(PartialEq, PartialOrd)]
struct Key(Vec<u8>);
impl Hash for Key {
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.update(&self.0);
    }
}
