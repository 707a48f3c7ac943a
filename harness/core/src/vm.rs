//! A native Stylus host: implements the `vm_hooks` imports the contracts are
//! linked against, with the semantics of the production VM that matter to the
//! monitored properties:
//!
//! * per-contract storage, per-frame write-back storage cache (reads are cached,
//!   writes stay in the frame until a flush, `flush(clear)` drops the cache);
//! * message calls with value, caller, static context, return data and depth;
//! * revert of storage, balances and logs of a failed frame (journalled);
//! * a trapping (panicking) frame is a revert without data;
//! * the `ecrecover` precompile (real behaviour: empty output on bad input);
//! * optional denial of reentrancy (what the default entrypoint does).
//!
//! Every observable event is recorded, so monitors judge real executions.

use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use alloy_primitives::{Address, B256, U256};

pub type CallResult = Result<Vec<u8>, Vec<u8>>;
pub type Code = Rc<dyn Fn(&[u8]) -> CallResult>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Log {
    pub addr: Address,
    pub topics: Vec<B256>,
    pub data: Vec<u8>,
}

/// One message call observed by the VM.
#[derive(Clone, Debug)]
pub struct CallRec {
    pub depth: usize,
    pub from: Address,
    pub to: Address,
    pub value: U256,
    pub data: Vec<u8>,
    pub is_static: bool,
    pub ok: bool,
    pub ret: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Ok(Vec<u8>),
    Revert(Vec<u8>),
    Panic(String),
}

impl Outcome {
    pub fn is_ok(&self) -> bool {
        matches!(self, Outcome::Ok(_))
    }
    pub fn ok(&self) -> Option<&Vec<u8>> {
        match self {
            Outcome::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            Outcome::Ok(_) => "ok",
            Outcome::Revert(_) => "revert",
            Outcome::Panic(_) => "trap",
        }
    }
}

#[derive(Default)]
struct Frame {
    addr: Address,
    caller: Address,
    value: U256,
    is_static: bool,
    reentrant: bool,
    cache: HashMap<U256, (B256, bool)>,
    ret: Vec<u8>,
    poisoned: bool,
}

enum Undo {
    Storage(Address, U256, Option<B256>),
    Balance(Address, U256),
    Logs(usize),
}

pub struct World {
    pub storage: HashMap<Address, HashMap<U256, B256>>,
    pub balances: HashMap<Address, U256>,
    pub code: HashMap<Address, Code>,
    pub logs: Vec<Log>,
    pub calls: Vec<CallRec>,
    pub record_calls: bool,
    pub timestamp: u64,
    pub block_number: u64,
    pub chain_id: u64,
    pub allow_reentrancy: bool,
    pub last_panic: Option<String>,
    origin: Address,
    senders: Vec<Address>,
    frames: Vec<Frame>,
    journal: Vec<Undo>,
    pub stats: Stats,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub txs: u64,
    pub calls: u64,
    pub sloads: u64,
    pub sstores: u64,
    pub logs: u64,
    pub reverts: u64,
    pub traps: u64,
    pub reentries: u64,
    pub max_depth: u64,
}

impl Default for World {
    fn default() -> Self {
        Self {
            storage: HashMap::new(),
            balances: HashMap::new(),
            code: HashMap::new(),
            logs: Vec::new(),
            calls: Vec::new(),
            record_calls: false,
            timestamp: 1_735_689_600,
            block_number: 100,
            chain_id: 42161,
            allow_reentrancy: false,
            last_panic: None,
            origin: Address::ZERO,
            senders: Vec::new(),
            frames: Vec::new(),
            journal: Vec::new(),
            stats: Stats::default(),
        }
    }
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
    pub static IN_CONTRACT: RefCell<u32> = const { RefCell::new(0) };
    pub static HOST_ERROR: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

/// Start an episode from an empty world. Statistics survive.
pub fn reset() {
    with(|w| {
        let stats = std::mem::take(&mut w.stats);
        *w = World::default();
        w.stats = stats;
    });
    IN_CONTRACT.with(|c| *c.borrow_mut() = 0);
}

pub fn take_stats() -> Stats {
    with(|w| std::mem::take(&mut w.stats))
}

/// A host-level error: the harness itself is at fault; never a verdict.
pub fn host_error(msg: &str) {
    HOST_ERROR.with(|h| {
        let mut h = h.borrow_mut();
        if h.is_none() {
            *h = Some(msg.to_string());
        }
    });
}

pub fn install(addr: Address, code: Code) {
    with(|w| {
        w.code.insert(addr, code);
    });
}

/// Write a raw storage slot, as a constructor does at deployment.
pub fn poke(addr: Address, slot: U256, value: B256) {
    with(|w| {
        w.storage.entry(addr).or_default().insert(slot, value);
    });
}

pub fn peek(addr: Address, slot: U256) -> B256 {
    with(|w| w.sload_backend(addr, slot))
}

pub fn balance_of(addr: Address) -> U256 {
    with(|w| w.balance(addr))
}

pub fn fund(addr: Address, v: U256) {
    with(|w| {
        w.balances.insert(addr, v);
    });
}

pub fn keccak(data: &[u8]) -> B256 {
    use tiny_keccak::Hasher;
    let mut k = tiny_keccak::Keccak::v256();
    k.update(data);
    let mut out = [0u8; 32];
    k.finalize(&mut out);
    B256::from(out)
}

impl World {
    fn balance(&self, a: Address) -> U256 {
        self.balances.get(&a).copied().unwrap_or_default()
    }
    fn sload_backend(&self, a: Address, k: U256) -> B256 {
        self.storage
            .get(&a)
            .and_then(|m| m.get(&k))
            .copied()
            .unwrap_or_default()
    }
    fn sstore_backend(&mut self, a: Address, k: U256, v: B256) {
        let m = self.storage.entry(a).or_default();
        let prev = m.insert(k, v);
        self.journal.push(Undo::Storage(a, k, prev));
    }
    fn set_balance(&mut self, a: Address, v: U256) {
        let prev = self.balance(a);
        self.journal.push(Undo::Balance(a, prev));
        self.balances.insert(a, v);
    }
    fn rollback(&mut self, mark: usize) {
        while self.journal.len() > mark {
            match self.journal.pop().unwrap() {
                Undo::Storage(a, k, prev) => {
                    let m = self.storage.entry(a).or_default();
                    match prev {
                        Some(v) => m.insert(k, v),
                        None => m.remove(&k),
                    };
                }
                Undo::Balance(a, v) => {
                    self.balances.insert(a, v);
                }
                Undo::Logs(n) => self.logs.truncate(n),
            }
        }
    }
    fn flush_top(&mut self, clear: bool) {
        let Some(f) = self.frames.last_mut() else { return };
        let addr = f.addr;
        let mut dirty: Vec<(U256, B256)> = Vec::new();
        for (k, (v, d)) in f.cache.iter_mut() {
            if *d {
                dirty.push((*k, *v));
                *d = false;
            }
        }
        if clear {
            f.cache.clear();
        }
        if !dirty.is_empty() && f.is_static {
            f.poisoned = true;
            return;
        }
        dirty.sort();
        for (k, v) in dirty {
            self.sstore_backend(addr, k, v);
        }
    }
    /// Digest of storage+balances, independent of map order; zero slots are
    /// the same as absent ones.
    pub fn digest(&self) -> u64 {
        let mut acc = 0u64;
        for (a, m) in &self.storage {
            for (k, v) in m {
                if v.is_zero() {
                    continue;
                }
                let mut h = 0xcbf29ce484222325u64;
                for b in a
                    .as_slice()
                    .iter()
                    .chain(k.to_be_bytes::<32>().iter())
                    .chain(v.as_slice().iter())
                {
                    h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
                }
                acc = acc.wrapping_add(h ^ (h >> 29));
            }
        }
        for (a, v) in &self.balances {
            if v.is_zero() {
                continue;
            }
            let mut h = 0x9e3779b97f4a7c15u64;
            for b in a.as_slice().iter().chain(v.to_be_bytes::<32>().iter()) {
                h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
            }
            acc = acc.wrapping_add(h ^ (h >> 31));
        }
        acc
    }
}

fn message(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Perform a message call. Used for top-level transactions, for the contracts'
/// `call_contract` imports and by mocks.
fn message_call(
    from: Address,
    to: Address,
    value: U256,
    data: &[u8],
    is_static: bool,
) -> Outcome {
    let (mark, code, depth) = match with(|w| {
        let depth = w.frames.len();
        w.stats.calls += 1;
        w.stats.max_depth = w.stats.max_depth.max(depth as u64);
        if depth > 48 {
            return Err(());
        }
        let mark = w.journal.len();
        if !value.is_zero() {
            let fb = w.balance(from);
            if fb < value {
                return Err(());
            }
            w.set_balance(from, fb - value);
            let tb = w.balance(to);
            w.set_balance(to, tb.wrapping_add(value));
        }
        let code = w.code.get(&to).cloned();
        let reentrant = w.frames.iter().any(|f| f.addr == to);
        if reentrant {
            w.stats.reentries += 1;
        }
        w.journal.push(Undo::Logs(w.logs.len()));
        w.frames.push(Frame {
            addr: to,
            caller: from,
            value,
            is_static,
            reentrant,
            ..Default::default()
        });
        Ok((mark, code, depth))
    }) {
        Ok(x) => x,
        Err(()) => return Outcome::Revert(vec![]),
    };

    let result = match code {
        None if is_precompile(to) => Outcome::Ok(precompile(to, data)),
        None => Outcome::Ok(vec![]),
        Some(code) => {
            IN_CONTRACT.with(|c| *c.borrow_mut() += 1);
            let r = catch_unwind(AssertUnwindSafe(|| code(data)));
            IN_CONTRACT.with(|c| *c.borrow_mut() -= 1);
            match r {
                Ok(Ok(v)) => Outcome::Ok(v),
                Ok(Err(v)) => Outcome::Revert(v),
                Err(p) => Outcome::Panic(message(p)),
            }
        }
    };

    with(|w| {
        // A trap while nested frames were open leaves them behind.
        while w.frames.len() > depth + 1 {
            w.frames.pop();
        }
        let mut result = result;
        if result.is_ok() {
            w.flush_top(false);
            if w.frames.last().map(|f| f.poisoned).unwrap_or(false) {
                result = Outcome::Revert(vec![]);
            }
        }
        w.frames.pop();
        if !result.is_ok() {
            w.rollback(mark);
            w.stats.reverts += 1;
            if let Outcome::Panic(m) = &result {
                w.stats.traps += 1;
                w.last_panic = Some(m.clone());
            }
        }
        if w.record_calls {
            let (ok, ret) = match &result {
                Outcome::Ok(v) => (true, v.clone()),
                Outcome::Revert(v) => (false, v.clone()),
                Outcome::Panic(_) => (false, vec![]),
            };
            w.calls.push(CallRec {
                depth,
                from,
                to,
                value,
                data: data.to_vec(),
                is_static,
                ok,
                ret,
            });
        }
        result
    })
}

impl World {
    /// The sender is not always the account that signed the transaction: now
    /// and then it acts as a smart account on behalf of another one.
    fn pick_origin(&mut self, from: Address) {
        if !self.senders.contains(&from) && self.senders.len() < 16 {
            self.senders.push(from);
        }
        let n = self.stats.txs.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33;
        self.origin = match n % 3 {
            0 => from,
            1 => Address::repeat_byte(0xe0),
            _ => self.senders[(n / 3) as usize % self.senders.len()],
        };
    }
}

/// Execute a top-level transaction.
pub fn tx(from: Address, to: Address, value: U256, data: &[u8]) -> Outcome {
    with(|w| {
        w.stats.txs += 1;
        w.calls.clear();
        if !w.frames.is_empty() {
            w.frames.clear();
        }
        w.journal.clear();
        w.last_panic = None;
        w.pick_origin(from);
    });
    let r = message_call(from, to, value, data, false);
    with(|w| w.journal.clear());
    r
}

/// A read-only call (`eth_call`): effects are dropped whatever the outcome.
pub fn view(from: Address, to: Address, data: &[u8]) -> Outcome {
    with(|w| {
        w.frames.clear();
        w.journal.clear();
        w.pick_origin(from);
    });
    let rec = with(|w| std::mem::replace(&mut w.record_calls, false));
    let r = message_call(from, to, U256::ZERO, data, false);
    with(|w| {
        w.rollback(0);
        w.record_calls = rec;
    });
    r
}

// ---- API for mocks ---------------------------------------------------------

pub fn me() -> Address {
    with(|w| w.frames.last().map(|f| f.addr).unwrap_or_default())
}
pub fn caller() -> Address {
    with(|w| w.frames.last().map(|f| f.caller).unwrap_or_default())
}
pub fn callvalue() -> U256 {
    with(|w| w.frames.last().map(|f| f.value).unwrap_or_default())
}
pub fn depth() -> usize {
    with(|w| w.frames.len())
}
/// Message call made by a mock.
pub fn call(to: Address, value: U256, data: &[u8]) -> CallResult {
    let (from, is_static) = with(|w| {
        w.flush_top(true);
        let f = w.frames.last().unwrap();
        (f.addr, f.is_static)
    });
    match message_call(from, to, value, data, is_static) {
        Outcome::Ok(v) => Ok(v),
        Outcome::Revert(v) => Err(v),
        Outcome::Panic(_) => Err(vec![]),
    }
}
/// Mock storage access (same journalled storage as real contracts).
pub fn sload(k: U256) -> U256 {
    let k = B256::from(k);
    let mut out = B256::ZERO;
    unsafe { storage_load_bytes32(k.as_ptr(), out.as_mut_ptr()) };
    out.into()
}
pub fn sstore(k: U256, v: U256) {
    let k = B256::from(k);
    let v = B256::from(v);
    unsafe { storage_cache_bytes32(k.as_ptr(), v.as_ptr()) };
}
pub fn emit(topics: &[B256], data: &[u8]) {
    with(|w| w.push_log(topics.to_vec(), data.to_vec()));
}

impl World {
    fn push_log(&mut self, topics: Vec<B256>, data: Vec<u8>) {
        self.stats.logs += 1;
        let Some(f) = self.frames.last_mut() else { return };
        if f.is_static {
            f.poisoned = true;
            return;
        }
        let addr = f.addr;
        self.logs.push(Log { addr, topics, data });
    }
}

/// Wrap a routed contract as VM code, as the entrypoint macro does.
pub fn contract<C>() -> Code
where
    C: stylus_sdk::abi::Router<C, Storage = C>
        + stylus_sdk::storage::StorageType
        + stylus_sdk::stylus_core::storage::TopLevelStorage
        + stylus_sdk::stylus_core::ValueDenier
        + 'static,
{
    Rc::new(|data: &[u8]| {
        let deny = with(|w| {
            !w.allow_reentrancy
                && w.frames.last().map(|f| f.reentrant).unwrap_or(false)
        });
        if deny {
            return Err(vec![]);
        }
        let host = stylus_sdk::host::VM(stylus_sdk::host::WasmVM {});
        stylus_sdk::abi::router_entrypoint::<C, C>(data.to_vec(), host)
    })
}

/// Code from a closure running with access to the contract's storage root,
/// for components that are exercised through their Rust API.
pub fn run_as<C, R>(
    addr: Address,
    from: Address,
    f: impl FnOnce(&mut C) -> R + 'static,
) -> Result<R, Outcome>
where
    C: stylus_sdk::storage::StorageType + 'static,
    R: 'static,
{
    run_frame(addr, from, move || {
        let host = stylus_sdk::host::VM(stylus_sdk::host::WasmVM {});
        let mut c = unsafe { C::new(U256::ZERO, 0, host) };
        Ok(f(&mut c))
    })
}

/// Run a closure inside a fresh frame at `addr`. `Err(bytes)` from the closure
/// (or a trap) rolls the frame back.
pub fn run_frame<R: 'static>(
    addr: Address,
    from: Address,
    f: impl FnOnce() -> Result<R, Vec<u8>> + 'static,
) -> Result<R, Outcome> {
    let slot: Rc<RefCell<Option<R>>> = Rc::new(RefCell::new(None));
    let out = slot.clone();
    let cell = RefCell::new(Some(f));
    let saved = with(|w| w.code.get(&addr).cloned());
    let saved2 = saved.clone();
    let first = RefCell::new(true);
    install(
        addr,
        Rc::new(move |d: &[u8]| {
            if *first.borrow() {
                *first.borrow_mut() = false;
                // Nested calls see the regular code again.
                match &saved2 {
                    Some(c) => install(me(), c.clone()),
                    None => {}
                }
                let f = cell.borrow_mut().take().unwrap();
                let r = f()?;
                *out.borrow_mut() = Some(r);
                return Ok(vec![]);
            }
            match &saved2 {
                Some(c) => c(d),
                None => Ok(vec![]),
            }
        }),
    );
    let r = tx(from, addr, U256::ZERO, &[]);
    with(|w| {
        match saved {
            Some(c) => w.code.insert(addr, c),
            None => w.code.remove(&addr),
        };
    });
    let v = slot.borrow_mut().take();
    match (r, v) {
        (Outcome::Ok(_), Some(v)) => Ok(v),
        (r, _) => Err(r),
    }
}

fn is_precompile(a: Address) -> bool {
    a == Address::with_last_byte(1)
}

/// `ecrecover`.
fn precompile(_a: Address, data: &[u8]) -> Vec<u8> {
    let mut buf = [0u8; 128];
    let n = data.len().min(128);
    buf[..n].copy_from_slice(&data[..n]);
    match ecrecover(&buf[..32], &buf[32..64], &buf[64..96], &buf[96..128]) {
        Some(a) => {
            let mut out = vec![0u8; 32];
            out[12..].copy_from_slice(a.as_slice());
            out
        }
        None => vec![],
    }
}

pub fn ecrecover(hash: &[u8], v: &[u8], r: &[u8], s: &[u8]) -> Option<Address> {
    use k256::ecdsa::{RecoveryId, Signature, VerifyingKey};
    if v[..31].iter().any(|b| *b != 0) || (v[31] != 27 && v[31] != 28) {
        return None;
    }
    let mut rs = [0u8; 64];
    rs[..32].copy_from_slice(r);
    rs[32..].copy_from_slice(s);
    let mut sig = Signature::from_slice(&rs).ok()?;
    let mut rid = v[31] - 27;
    if let Some(norm) = sig.normalize_s() {
        sig = norm;
        rid ^= 1;
    }
    let rid = RecoveryId::from_byte(rid)?;
    let key = VerifyingKey::recover_from_prehash(hash, &sig, rid).ok()?;
    Some(address_of(&key))
}

pub fn address_of(key: &k256::ecdsa::VerifyingKey) -> Address {
    let p = key.to_encoded_point(false);
    Address::from_slice(&keccak(&p.as_bytes()[1..])[12..])
}

// ---- vm_hooks --------------------------------------------------------------

unsafe fn rd32(p: *const u8) -> B256 {
    B256::from_slice(std::slice::from_raw_parts(p, 32))
}
unsafe fn rd_addr(p: *const u8) -> Address {
    Address::from_slice(std::slice::from_raw_parts(p, 20))
}
unsafe fn rd(p: *const u8, n: usize) -> &'static [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}
unsafe fn wr(p: *mut u8, b: &[u8]) {
    std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
}

#[no_mangle]
unsafe extern "C" fn native_keccak256(b: *const u8, n: usize, out: *mut u8) {
    wr(out, keccak(rd(b, n)).as_slice());
}

#[no_mangle]
unsafe extern "C" fn storage_load_bytes32(key: *const u8, out: *mut u8) {
    let k: U256 = rd32(key).into();
    let v = with(|w| {
        w.stats.sloads += 1;
        let Some(f) = w.frames.last() else {
            host_error("storage access outside a frame");
            return B256::ZERO;
        };
        if let Some((v, _)) = f.cache.get(&k) {
            return *v;
        }
        let v = w.sload_backend(f.addr, k);
        w.frames.last_mut().unwrap().cache.insert(k, (v, false));
        v
    });
    wr(out, v.as_slice());
}

#[no_mangle]
unsafe extern "C" fn storage_cache_bytes32(key: *const u8, value: *const u8) {
    let k: U256 = rd32(key).into();
    let v = rd32(value);
    with(|w| {
        w.stats.sstores += 1;
        match w.frames.last_mut() {
            Some(f) => {
                f.cache.insert(k, (v, true));
            }
            None => host_error("storage access outside a frame"),
        }
    });
}

#[no_mangle]
unsafe extern "C" fn storage_flush_cache(clear: bool) {
    with(|w| w.flush_top(clear));
}

#[no_mangle]
unsafe extern "C" fn msg_sender(out: *mut u8) {
    wr(out, caller().as_slice());
}
#[no_mangle]
unsafe extern "C" fn msg_value(out: *mut u8) {
    wr(out, &callvalue().to_be_bytes::<32>());
}
#[no_mangle]
unsafe extern "C" fn msg_reentrant() -> bool {
    with(|w| w.frames.last().map(|f| f.reentrant).unwrap_or(false))
}
#[no_mangle]
unsafe extern "C" fn contract_address(out: *mut u8) {
    wr(out, me().as_slice());
}
#[no_mangle]
unsafe extern "C" fn chainid() -> u64 {
    with(|w| w.chain_id)
}
#[no_mangle]
unsafe extern "C" fn block_timestamp() -> u64 {
    with(|w| w.timestamp)
}
#[no_mangle]
unsafe extern "C" fn block_number() -> u64 {
    with(|w| w.block_number)
}
#[no_mangle]
unsafe extern "C" fn emit_log(data: *const u8, len: usize, topics: usize) {
    let d = rd(data, len);
    if len < topics * 32 || topics > 4 {
        host_error("malformed log");
        return;
    }
    let t = (0..topics)
        .map(|i| B256::from_slice(&d[i * 32..i * 32 + 32]))
        .collect();
    let body = d[topics * 32..].to_vec();
    with(|w| w.push_log(t, body));
}
#[no_mangle]
unsafe extern "C" fn account_codehash(a: *const u8, out: *mut u8) {
    let a = rd_addr(a);
    let h = with(|w| {
        if w.code.contains_key(&a) {
            B256::repeat_byte(0x11)
        } else if !w.balance(a).is_zero() {
            keccak(&[])
        } else {
            B256::ZERO
        }
    });
    wr(out, h.as_slice());
}
#[no_mangle]
unsafe extern "C" fn account_balance(a: *const u8, out: *mut u8) {
    let b = balance_of(rd_addr(a));
    wr(out, &b.to_be_bytes::<32>());
}
#[no_mangle]
unsafe extern "C" fn account_code_size(a: *const u8) -> usize {
    let a = rd_addr(a);
    with(|w| usize::from(w.code.contains_key(&a)))
}
#[no_mangle]
unsafe extern "C" fn account_code(
    a: *const u8,
    _off: usize,
    size: usize,
    dest: *mut u8,
) -> usize {
    let n = account_code_size(a).min(size);
    for i in 0..n {
        *dest.add(i) = 0xfe;
    }
    n
}
#[no_mangle]
unsafe extern "C" fn return_data_size() -> usize {
    with(|w| w.frames.last().map(|f| f.ret.len()).unwrap_or(0))
}
#[no_mangle]
unsafe extern "C" fn read_return_data(
    dest: *mut u8,
    offset: usize,
    size: usize,
) -> usize {
    let d = with(|w| w.frames.last().map(|f| f.ret.clone()).unwrap_or_default());
    if offset >= d.len() {
        return 0;
    }
    let n = size.min(d.len() - offset);
    wr(dest, &d[offset..offset + n]);
    n
}

fn hook_call(
    to: Address,
    data: &[u8],
    value: U256,
    is_static: bool,
    len: *mut usize,
) -> u8 {
    let (from, st) = with(|w| {
        let f = w.frames.last().unwrap();
        (f.addr, f.is_static)
    });
    let out = if st && !value.is_zero() {
        Outcome::Revert(vec![])
    } else {
        message_call(from, to, value, data, is_static || st)
    };
    let (status, ret) = match out {
        Outcome::Ok(v) => (0, v),
        Outcome::Revert(v) => (1, v),
        Outcome::Panic(_) => (1, vec![]),
    };
    unsafe { *len = ret.len() };
    with(|w| {
        if let Some(f) = w.frames.last_mut() {
            f.ret = ret;
        }
    });
    status
}

#[no_mangle]
unsafe extern "C" fn call_contract(
    to: *const u8,
    data: *const u8,
    len: usize,
    value: *const u8,
    _gas: u64,
    ret_len: *mut usize,
) -> u8 {
    hook_call(rd_addr(to), rd(data, len), rd32(value).into(), false, ret_len)
}
#[no_mangle]
unsafe extern "C" fn static_call_contract(
    to: *const u8,
    data: *const u8,
    len: usize,
    _gas: u64,
    ret_len: *mut usize,
) -> u8 {
    hook_call(rd_addr(to), rd(data, len), U256::ZERO, true, ret_len)
}
#[no_mangle]
unsafe extern "C" fn delegate_call_contract(
    _to: *const u8,
    _data: *const u8,
    _len: usize,
    _gas: u64,
    ret_len: *mut usize,
) -> u8 {
    host_error("delegate call is not modelled");
    *ret_len = 0;
    1
}
#[no_mangle]
unsafe extern "C" fn block_basefee(out: *mut u8) {
    wr(out, &[0u8; 32]);
}
#[no_mangle]
unsafe extern "C" fn block_coinbase(out: *mut u8) {
    wr(out, &[0u8; 20]);
}
#[no_mangle]
unsafe extern "C" fn block_gas_limit() -> u64 {
    32_000_000
}
#[no_mangle]
unsafe extern "C" fn create1(
    _c: *const u8,
    _n: usize,
    _e: *const u8,
    out: *mut u8,
    l: *mut usize,
) {
    wr(out, &[0u8; 20]);
    *l = 0;
}
#[no_mangle]
unsafe extern "C" fn create2(
    _c: *const u8,
    _n: usize,
    _e: *const u8,
    _s: *const u8,
    out: *mut u8,
    l: *mut usize,
) {
    wr(out, &[0u8; 20]);
    *l = 0;
}
#[no_mangle]
unsafe extern "C" fn evm_gas_left() -> u64 {
    1_000_000_000
}
#[no_mangle]
unsafe extern "C" fn evm_ink_left() -> u64 {
    10_000_000_000_000
}
#[no_mangle]
unsafe extern "C" fn pay_for_memory_grow(_p: u16) {}
#[no_mangle]
unsafe extern "C" fn read_args(_d: *mut u8) {}
#[no_mangle]
unsafe extern "C" fn write_result(_d: *const u8, _n: usize) {}
#[no_mangle]
unsafe extern "C" fn tx_gas_price(out: *mut u8) {
    wr(out, &[0u8; 32]);
}
#[no_mangle]
unsafe extern "C" fn tx_ink_price() -> u32 {
    10_000
}
#[no_mangle]
unsafe extern "C" fn tx_origin(out: *mut u8) {
    let a = with(|w| w.origin);
    wr(out, a.as_slice());
}
