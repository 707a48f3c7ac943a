//! C01, C02: Merkle proofs against trees built independently.
use openzeppelin_crypto::hash::{BuildHasher, Hasher};
use openzeppelin_crypto::merkle::{MultiProofError, Verifier};
use openzeppelin_crypto::KeccakBuilder;

use crate::hashes::keccak;
use crate::mon::{hash_words, Mon, Prop};

type W = [u8; 32];

/// A second hash function: keccak of the input with a prefix.
pub struct Alt(Vec<u8>);
impl Hasher for Alt {
    type Output = W;
    fn update(&mut self, input: impl AsRef<[u8]>) {
        self.0.extend_from_slice(input.as_ref());
    }
    fn finalize(self) -> W {
        keccak(&self.0)
    }
}
pub struct AltBuilder;
impl BuildHasher for AltBuilder {
    type Hasher = Alt;
    fn build_hasher(&self) -> Alt {
        Alt(b"alt".to_vec())
    }
}

fn node(alt: bool, a: &W, b: &W) -> W {
    let (x, y) = if a <= b { (a, b) } else { (b, a) };
    let mut v = if alt { b"alt".to_vec() } else { vec![] };
    v.extend_from_slice(x);
    v.extend_from_slice(y);
    keccak(&v)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            run: single,
            quick: 80_000,
            thorough: 1_500_000,
            wquick: 12_000,
            wthorough: 150_000,
            rule: "distinct (tree size, leaf position, mutation, proof digest) observations; trees of 1 to 400 leaves, complete or skewed",
            assumptions: &["the sha3 crate is the reference for Keccak-256", "no collision of Keccak-256 occurs"],
        },
        Prop {
            id: "C02",
            run: multi,
            quick: 240_000,
            thorough: 2_500_000,
            wquick: 32_000,
            wthorough: 200_000,
            rule: "distinct (leaf count, proof length, flags, mutation, outcome) observations",
            assumptions: &["the sha3 crate is the reference for Keccak-256", "no collision of Keccak-256 occurs"],
        },
    ]
}

fn w(m: &mut Mon) -> W {
    let mut o = [0; 32];
    if m.rng.chance(1, 12) {
        o = [*m.rng.pick(&[0u8, 0xff, 0x80]); 32];
    } else {
        o.copy_from_slice(&m.rng.bytes(32));
    }
    o
}

/// Words that share a prefix or differ in one bit, besides unrelated ones.
fn words(m: &mut Mon, n: usize) -> Vec<W> {
    let mut v: Vec<W> = (0..n).map(|_| w(m)).collect();
    if m.rng.chance(1, 4) {
        let k = 1 + m.rng.idx(31);
        let base = w(m);
        for x in v.iter_mut() {
            x[..k].copy_from_slice(&base[..k]);
        }
    } else if m.rng.chance(1, 6) {
        let base = w(m);
        for x in v.iter_mut() {
            *x = base;
            x[m.rng.idx(32)] ^= 1 << m.rng.below(8);
        }
    }
    if n > 1 && m.rng.chance(1, 6) {
        // twins, often siblings
        let i = m.rng.idx(n - 1);
        v[i + 1] = v[i];
    }
    v
}

/// Complete binary tree in an array, as the OpenZeppelin JavaScript library
/// lays it out: root at 0, leaves in reverse order at the end.
struct Tree {
    t: Vec<W>,
    n: usize,
}
impl Tree {
    fn new(alt: bool, leaves: &[W]) -> Tree {
        let n = leaves.len();
        let mut t = vec![[0; 32]; 2 * n - 1];
        for (i, l) in leaves.iter().enumerate() {
            t[2 * n - 2 - i] = *l;
        }
        for i in (0..n - 1).rev() {
            t[i] = node(alt, &t[2 * i + 1], &t[2 * i + 2]);
        }
        Tree { t, n }
    }
    fn proof(&self, mut i: usize) -> Vec<W> {
        let mut p = vec![];
        while i > 0 {
            let sib = if i % 2 == 1 { i + 1 } else { i - 1 };
            p.push(self.t[sib]);
            i = (i - 1) / 2;
        }
        p
    }
    /// Multiproof for tree indices (descending): (leaves, proof, flags).
    fn multi(&self, idx: &[usize]) -> (Vec<W>, Vec<W>, Vec<bool>) {
        let mut q: std::collections::VecDeque<usize> = idx.iter().copied().collect();
        let leaves = idx.iter().map(|i| self.t[*i]).collect();
        let (mut proof, mut flags) = (vec![], vec![]);
        while let Some(&j) = q.front() {
            if j == 0 {
                break;
            }
            q.pop_front();
            let s = if j % 2 == 1 { j + 1 } else { j - 1 };
            if q.front() == Some(&s) {
                flags.push(true);
                q.pop_front();
            } else {
                flags.push(false);
                proof.push(self.t[s]);
            }
            q.push_back((j - 1) / 2);
        }
        if idx.is_empty() {
            proof.push(self.t[0]);
        }
        (leaves, proof, flags)
    }
}

fn verify(alt: bool, p: &[W], root: W, leaf: W) -> bool {
    if alt {
        Verifier::verify_with_builder(p, root, leaf, &AltBuilder)
    } else {
        let a = Verifier::verify(p, root, leaf);
        let b = Verifier::verify_with_builder(p, root, leaf, &KeccakBuilder);
        if a != b {
            return !fold(alt, p, root, leaf);
        }
        a
    }
}

fn fold(alt: bool, p: &[W], root: W, leaf: W) -> bool {
    let mut x = leaf;
    for h in p {
        x = node(alt, &x, h);
    }
    x == root
}

fn single(m: &mut Mon) {
    let alt = m.rng.chance(1, 4);
    let n = match m.rng.below(5) {
        0 => 1 + m.rng.idx(3),
        1 => 1 << m.rng.idx(7),
        2 if m.rng.chance(1, 12) => 1 + m.rng.idx(400),
        _ => 1 + m.rng.idx(70),
    };
    let mut leaves: Vec<W> = words(m, n);
    if n > 1 && m.rng.chance(1, 8) {
        let (i, j) = (m.rng.idx(n), m.rng.idx(n));
        leaves[i] = leaves[j];
    }
    let (root, proofs): (W, Vec<Vec<W>>) = if m.rng.chance(1, 4) {
        // skewed: a chain
        let mut acc = leaves[0];
        let mut prefix = vec![acc];
        for l in &leaves[1..] {
            acc = node(alt, &acc, l);
            prefix.push(acc);
        }
        let pr = (0..n)
            .map(|i| {
                let mut p = vec![];
                if i > 0 {
                    p.push(prefix[i - 1]);
                }
                p.extend(leaves[i.max(1).min(n - 1) + if i == 0 { 0 } else { 1 }..].iter().copied());
                if n == 1 {
                    p.clear();
                }
                p
            })
            .collect();
        m.count("chains");
        (acc, pr)
    } else {
        let t = Tree::new(alt, &leaves);
        let pr = (0..n).map(|i| t.proof(2 * t.n - 2 - i)).collect();
        m.count("complete trees");
        (t.t[0], pr)
    };
    for _ in 0..5 {
        m.case();
        let i = m.rng.idx(n);
        let (mut p, mut r, mut leaf) = (proofs[i].clone(), root, leaves[i]);
        m.step(format!("{n} leaves, leaf {i}, proof of {} hashes, alternative hash {alt}", p.len()));
        m.check(verify(alt, &p, r, leaf), "a member is accepted", || format!("tree of {n} leaves, leaf {i} rejected"));
        // mutate
        let kind = m.rng.below(14);
        match kind {
            0 if !p.is_empty() => {
                let k = m.rng.idx(p.len());
                p[k][m.rng.idx(32)] ^= 1 << m.rng.below(8);
            }
            1 => r[m.rng.idx(32)] ^= 1 << m.rng.below(8),
            2 => leaf[m.rng.idx(32)] ^= 1 << m.rng.below(8),
            3 => {
                p.pop();
            }
            4 => p.push(w(m)),
            5 if !p.is_empty() => {
                p.remove(0);
            }
            6 if p.len() > 1 => {
                let (a, b) = (m.rng.idx(p.len()), m.rng.idx(p.len()));
                p.swap(a, b);
            }
            7 => leaf = leaves[m.rng.idx(n)],
            8 if !p.is_empty() => {
                // an inner node presented as a leaf
                leaf = node(alt, &leaf, &p[0]);
                if m.rng.chance(1, 2) {
                    p.remove(0);
                }
            }
            9 => {
                p.clear();
                if m.rng.chance(1, 2) {
                    leaf = r;
                }
            }
            10 if !p.is_empty() => {
                let k = m.rng.idx(p.len() + 1);
                let x = if m.rng.chance(1, 2) { [0; 32] } else { p[m.rng.idx(p.len())] };
                p.insert(k, x);
            }
            11 => {
                // a node paired with itself somewhere on the way
                let k = m.rng.idx(p.len() + 1);
                let at = p[..k].iter().fold(leaf, |x, h| node(alt, &x, h));
                p.insert(k, at);
                if m.rng.chance(1, 2) {
                    r = p.iter().fold(leaf, |x, h| node(alt, &x, h));
                }
            }
            12 => {
                // a forged path of its own, with its own root
                let k = if m.rng.chance(1, 10) { m.rng.idx(300) } else { m.rng.idx(40) };
                p = words(m, k);
                r = p.iter().fold(leaf, |x, h| node(alt, &x, h));
                if m.rng.chance(1, 4) && !p.is_empty() {
                    p.pop();
                }
            }
            _ => std::mem::swap(&mut leaf, &mut r),
        }
        let want = fold(alt, &p, r, leaf);
        let got = verify(alt, &p, r, leaf);
        m.check(got == want, "accepts exactly what folds to the root", || format!("{n} leaves, leaf {i}, mutation {kind}: observed {got}, expected {want}"));
        m.count(if want { "mutated proofs that still fold to the root" } else { "mutated proofs that do not" });
        m.seen(hash_words(&[n as u64, i as u64, kind, root[0] as u64, p.len() as u64]));
    }
}

/// Reference multiproof: a queue, as specified.
#[derive(Debug, PartialEq, Clone, Copy)]
enum Out {
    Ok(bool),
    Total,
    NoLeaves,
    RootChild,
    ProofLength,
}

fn reference(alt: bool, proof: &[W], flags: &[bool], root: W, leaves: &[W]) -> Out {
    if leaves.len() + proof.len() != flags.len() + 1 {
        return Out::Total;
    }
    if flags.is_empty() {
        return Out::Ok(if leaves.is_empty() { proof[0] == root } else { leaves[0] == root });
    }
    if leaves.is_empty() {
        return Out::NoLeaves;
    }
    let mut q: std::collections::VecDeque<W> = leaves.iter().copied().collect();
    let mut p = proof.iter();
    let mut last = [0; 32];
    for f in flags {
        let Some(a) = q.pop_front() else { return Out::RootChild };
        let b = if *f {
            let Some(b) = q.pop_front() else { return Out::RootChild };
            b
        } else {
            let Some(b) = p.next() else { return Out::ProofLength };
            *b
        };
        last = node(alt, &a, &b);
        q.push_back(last);
    }
    Out::Ok(last == root)
}

fn observe(r: Result<bool, MultiProofError>) -> Out {
    match r {
        Ok(b) => Out::Ok(b),
        Err(MultiProofError::InvalidTotalHashes) => Out::Total,
        Err(MultiProofError::NoLeaves) => Out::NoLeaves,
        Err(MultiProofError::InvalidRootChild) => Out::RootChild,
        Err(MultiProofError::InvalidProofLength) => Out::ProofLength,
    }
}

fn vmulti(m: &mut Mon, alt: bool, proof: &[W], flags: &[bool], root: W, leaves: &[W]) -> Out {
    if alt {
        return observe(Verifier::verify_multi_proof_with_builder(proof, flags, root, leaves, &AltBuilder));
    }
    let a = observe(Verifier::verify_multi_proof(proof, flags, root, leaves));
    let b = observe(Verifier::verify_multi_proof_with_builder(proof, flags, root, leaves, &KeccakBuilder));
    m.eq("default and explicit keccak agree", a, b);
    a
}

fn multi(m: &mut Mon) {
    let alt = m.rng.chance(1, 5);
    let n = match m.rng.below(4) {
        0 => 1 + m.rng.idx(4),
        1 => 1 << m.rng.idx(6),
        2 if m.rng.chance(1, 12) => 1 + m.rng.idx(300),
        _ => 1 + m.rng.idx(40),
    };
    let leaves: Vec<W> = words(m, n);
    let tree = Tree::new(alt, &leaves);
    let root = tree.t[0];
    for _ in 0..5 {
        m.case();
        // choose leaves, right to left from the deepest layer
        let dens = 1 + m.rng.below(6);
        let mut idx: Vec<usize> = (n - 1..2 * n - 1).filter(|_| m.rng.chance(dens, 6)).collect();
        if m.rng.chance(1, 20) {
            idx.clear();
        }
        idx.sort_by(|a, b| b.cmp(a));
        let (mut lv, mut pr, mut fl) = tree.multi(&idx);
        let mut rt = root;
        m.step(format!("{n} leaves, tree indices {idx:?}, alternative hash {alt}"));
        let got = vmulti(m, alt, &pr, &fl, rt, &lv);
        m.eq("a multiproof of members is accepted", got, Out::Ok(true));
        m.count("honest multiproofs");
        let kind = m.rng.below(14);
        match kind {
            0 if !pr.is_empty() => {
                let k = m.rng.idx(pr.len());
                pr[k][m.rng.idx(32)] ^= 1 << m.rng.below(8);
            }
            1 => rt[m.rng.idx(32)] ^= 1 << m.rng.below(8),
            2 if !lv.is_empty() => {
                let k = m.rng.idx(lv.len());
                lv[k][m.rng.idx(32)] ^= 1 << m.rng.below(8);
            }
            3 if !fl.is_empty() => {
                let k = m.rng.idx(fl.len());
                fl[k] = !fl[k];
            }
            4 if !fl.is_empty() => {
                // keep the totals right: move between flags
                let (a, b) = (m.rng.idx(fl.len()), m.rng.idx(fl.len()));
                fl.swap(a, b);
            }
            5 => {
                // forge: extra leaf and an unused proof element / flag
                let x = w(m);
                lv.push(x);
                fl.push(m.rng.chance(1, 2));
            }
            6 => {
                // GHSA-wprv-93r4-jj2p: root as the last proof element, flags
                // that never consume it
                let k = 1 + m.rng.idx(4);
                lv = (0..k).map(|_| w(m)).collect();
                pr = vec![w(m), root];
                fl = vec![true; k + 1];
                for f in fl.iter_mut() {
                    if m.rng.chance(1, 4) {
                        *f = false;
                    }
                }
            }
            7 => {
                pr.pop();
            }
            8 => pr.push(root),
            9 => {
                fl.pop();
            }
            10 => {
                // arbitrary shape with consistent totals
                let l = m.rng.idx(6);
                let p = m.rng.idx(6);
                lv = (0..l).map(|_| w(m)).collect();
                pr = (0..p).map(|_| if m.rng.chance(1, 4) { root } else { w(m) }).collect();
                let t = (l + p).saturating_sub(1);
                let d = m.rng.below(5);
                fl = (0..t).map(|_| m.rng.chance(d, 4)).collect();
                if m.rng.chance(1, 8) {
                    fl.push(true);
                }
            }
            11 => {
                lv.clear();
                if m.rng.chance(1, 2) {
                    pr = (0..fl.len() + 1).map(|_| root).collect();
                }
            }
            12 if lv.len() > 1 => {
                let (a, b) = (m.rng.idx(lv.len()), m.rng.idx(lv.len()));
                lv.swap(a, b);
            }
            _ => {
                // a self-consistent forged tree with its own root
                let l = 1 + m.rng.idx(6);
                let p = m.rng.idx(5);
                lv = words(m, l);
                pr = words(m, p);
                fl = vec![true; l - 1];
                fl.extend(vec![false; p]);
                m.rng.shuffle(&mut fl);
                let mut q: std::collections::VecDeque<W> = lv.iter().copied().collect();
                let mut it = pr.iter();
                let mut ok = true;
                for f in &fl {
                    let (a, b) = if *f { (q.pop_front(), q.pop_front()) } else { (q.pop_front(), it.next().copied()) };
                    match (a, b) {
                        (Some(a), Some(b)) => {
                            rt = node(alt, &a, &b);
                            q.push_back(rt);
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if fl.is_empty() {
                    rt = lv[0];
                }
                if ok {
                    m.count("forged trees with a consistent root");
                }
            }
        }
        let want = reference(alt, &pr, &fl, rt, &lv);
        let got = vmulti(m, alt, &pr, &fl, rt, &lv);
        m.check(got == want, "multiproof outcome", || format!("mutation {kind}: {} leaves, {} proof hashes, flags {fl:?}: observed {got:?}, expected {want:?}", lv.len(), pr.len()));
        m.count(&format!("outcome {want:?}"));
        let f = fl.iter().fold(1u64, |a, b| a.wrapping_mul(2).wrapping_add(*b as u64));
        m.seen(hash_words(&[lv.len() as u64, pr.len() as u64, f, kind, want.eq(&Out::Ok(true)) as u64]));
    }
}
