//! Monitor framework: episodes, trace, verdicts, evidence.

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use crate::rng::Rng;
use crate::vm;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable signature of the failing site/history (known-findings key).
    pub sig: String,
    pub msg: String,
    pub episode: u64,
    pub trace: Vec<String>,
}

pub struct Mon {
    pub rng: Rng,
    pub episode: u64,
    pub thorough: bool,
    pub evals: u64,
    pub cases: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub trace: Vec<String>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub ep_failed: bool,
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Mon {
    pub fn new() -> Self {
        Self {
            rng: Rng::new(0),
            episode: 0,
            thorough: false,
            evals: 0,
            cases: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            trace: vec![],
            samples: vec![],
            violations: vec![],
            ep_failed: false,
        }
    }
    /// Count an observed event class.
    pub fn count(&mut self, key: &str) {
        if let Some(c) = self.counters.get_mut(key) {
            *c += 1;
        } else {
            self.counters.insert(key.to_string(), 1);
        }
    }
    /// A distinct non-trivial observation (state, input class, ...).
    pub fn seen(&mut self, h: u64) {
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn step(&mut self, s: String) {
        self.cases += 1;
        if self.trace.len() < 4000 {
            self.trace.push(s);
        }
    }
    /// One evaluation of a monitor.
    pub fn check(&mut self, ok: bool, sig: &str, msg: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        if !ok {
            self.fail(sig, msg());
        }
        ok
    }
    pub fn fail(&mut self, sig: &str, msg: String) {
        self.ep_failed = true;
        if self.violations.iter().any(|v| v.sig == sig) {
            return;
        }
        self.violations.push(Violation {
            sig: sig.to_string(),
            msg,
            episode: self.episode,
            trace: self.trace.clone(),
        });
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, sig: &str, got: T, want: T) -> bool {
        self.evals += 1;
        if got != want {
            let m = format!("observed {got:?}, expected {want:?}");
            self.fail(sig, m);
            return false;
        }
        true
    }
    /// True when the current episode already failed (stop driving it).
    pub fn failed(&self) -> bool {
        self.ep_failed
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Mon),
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

/// Collapse long runs of one hex digit, for readable samples.
pub fn compact(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        let mut j = i;
        while j < c.len() && c[j] == c[i] {
            j += 1;
        }
        if j - i >= 8 {
            o.push_str(&format!("{}~{}~", c[i], j - i));
        } else {
            o.extend(&c[i..j]);
        }
        i = j;
    }
    if o.len() > 300 {
        o = o.chars().take(300).collect();
        o.push_str("...");
    }
    o
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known(prop: &str) -> Vec<String> {
    // Lines: "known: property=<id> sig=<sig> <text>"; "fixed:" lines suppress
    // nothing.
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let path = format!("{root}/known_findings.txt");
    let Ok(t) = std::fs::read_to_string(path) else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("known: ")?;
            let mut it = rest.split_whitespace();
            let p = it.next()?.strip_prefix("property=")?;
            let s = it.next()?.strip_prefix("sig=")?;
            (p == prop).then(|| s.to_string())
        })
        .collect()
}

pub fn episode_seed(seed: u64, prop: &str, ep: u64) -> u64 {
    let mut r = Rng::new(
        seed.wrapping_mul(0x9E3779B97F4A7C15)
            ^ hash_str(prop)
            ^ ep.wrapping_mul(0xD1B54A32D192ED03),
    );
    r.next()
}

const HANG_S: u64 = 150;

fn hung(p: &Prop, seed: u64, ep: u64, now: u64) -> ! {
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let _ = std::fs::create_dir_all(format!("{root}/evidence/replay"));
    let path = format!("{root}/evidence/replay/{}-{seed}-hang.txt", p.id);
    let _ = std::fs::write(
        &path,
        format!(
            "property={}\nseed={seed}\nepisode={ep}\nsignature=hang\nmessage=no answer within {HANG_S} s\nreplay: VERIF_SEED={seed} {root}/check.sh {} replay {ep}\n",
            p.id, p.id
        ),
    );
    let _ = std::fs::write(
        format!("{root}/evidence/{}.json", p.id),
        format!(
            "{{\"property\": {}, \"tier\": \"quick\", \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {ep}, \"distinct_nontrivial\": 0, \"rule\": \"stopped: an episode did not terminate\", \"samples\": [\"episode {ep}\"]}}, \"wall_s\": {now}, \"violations\": 1}}\n",
            esc(p.id)
        ),
    );
    println!("VIOLATION property={} replay={path}\n  signature: hang\n  episode {ep} did not terminate within {HANG_S} s", p.id);
    std::process::exit(1);
}

pub fn run_prop(p: &Prop, seed: u64, thorough: bool, only: Option<u64>) -> i32 {
    let start = Instant::now();
    let total = match std::env::var("VERIF_EPISODES").ok().and_then(|s| s.parse().ok()) {
        Some(n) => n,
        None if thorough => p.thorough,
        None => p.quick,
    };
    let cap_s: u64 = std::env::var("VERIF_TIME_CAP")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3000 } else { 420 });
    let next = AtomicU64::new(only.unwrap_or(0));
    let end = only.map(|e| e + 1).unwrap_or(total);
    let stop = AtomicBool::new(false);
    let results: Mutex<Vec<(Mon, vm::Stats)>> = Mutex::new(vec![]);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let done = AtomicU64::new(0);
    let threads = if only.is_some() {
        1
    } else {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
    };
    // Watchdog: an episode takes milliseconds; one that takes minutes does not
    // terminate (a contract that loops forever denies its service).
    let clocks: Vec<(AtomicU64, AtomicU64)> =
        (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let finished = AtomicU64::new(0);
    std::thread::scope(|s| {
        let clocks = &clocks;
        let finished = &finished;
        s.spawn(move || {
            while finished.load(Ordering::Relaxed) < threads as u64 {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let now = start.elapsed().as_secs();
                for (since, ep) in clocks {
                    let since = since.load(Ordering::Relaxed);
                    if since > 0 && now > since + HANG_S {
                        hung(p, seed, ep.load(Ordering::Relaxed), now);
                    }
                }
            }
        });
        for w in 0..threads {
            let (stop, next, done, errors, results) = (&stop, &next, &done, &errors, &results);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut m = Mon::new();
                    m.thorough = thorough;
                    loop {
                        if stop.load(Ordering::Relaxed) || start.elapsed().as_secs() > cap_s {
                            break;
                        }
                        let ep = next.fetch_add(1, Ordering::Relaxed);
                        if ep >= end {
                            break;
                        }
                        m.episode = ep;
                        m.ep_failed = false;
                        m.rng = Rng::new(episode_seed(seed, p.id, ep));
                        m.trace.clear();
                        vm::reset();
                        clocks[w].1.store(ep, Ordering::Relaxed);
                        clocks[w].0.store(start.elapsed().as_secs() + 1, Ordering::Relaxed);
                        let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut m)));
                        done.fetch_add(1, Ordering::Relaxed);
                        if let Err(e) = r {
                            let msg = if let Some(s) = e.downcast_ref::<&str>() {
                                s.to_string()
                            } else if let Some(s) = e.downcast_ref::<String>() {
                                s.clone()
                            } else {
                                "?".into()
                            };
                            errors.lock().unwrap().push(format!("episode {ep}: {msg}"));
                            if errors.lock().unwrap().len() > 20 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        if let Some(e) = vm::HOST_ERROR.with(|h| h.borrow_mut().take()) {
                            errors.lock().unwrap().push(format!("episode {ep}: host: {e}"));
                        }
                        if m.samples.len() < 2 && !m.trace.is_empty() {
                            let t: Vec<_> = m.trace.iter().take(6).map(|s| compact(s)).collect();
                            m.samples.push(format!("episode {ep}: {}", t.join(" ; ")));
                        }
                        if m.violations.len() >= 6 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    clocks[w].0.store(0, Ordering::Relaxed);
                    finished.fetch_add(1, Ordering::Relaxed);
                    let st = vm::take_stats();
                    results.lock().unwrap().push((m, st));
                })
                .unwrap();
        }
    });

    let mut evals = 0;
    let mut cases = 0;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut vs: Vec<Violation> = vec![];
    let mut st = vm::Stats::default();
    for (m, s) in results.into_inner().unwrap() {
        evals += m.evals;
        cases += m.cases;
        for (k, v) in m.counters {
            *counters.entry(k).or_default() += v;
        }
        distinct.extend(m.distinct);
        samples.extend(m.samples);
        vs.extend(m.violations);
        st.txs += s.txs;
        st.calls += s.calls;
        st.sloads += s.sloads;
        st.sstores += s.sstores;
        st.logs += s.logs;
        st.reverts += s.reverts;
        st.traps += s.traps;
        st.reentries += s.reentries;
        st.max_depth = st.max_depth.max(s.max_depth);
    }
    vs.sort_by_key(|v| v.episode);
    let mut uniq: Vec<Violation> = vec![];
    for v in vs {
        if !uniq.iter().any(|u| u.sig == v.sig) {
            uniq.push(v);
        }
    }
    samples.truncate(4);
    let wall = start.elapsed().as_secs_f64();
    let known = known(p.id);
    let (kn, new): (Vec<_>, Vec<_>) = uniq.into_iter().partition(|v| known.contains(&v.sig));

    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let evdir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(format!("{evdir}/replay"));
    let mut replays = vec![];
    for v in &new {
        let path = format!("{evdir}/replay/{}-{}-{}.txt", p.id, seed, hash_str(&v.sig));
        let mut t = format!(
            "property={}\nseed={}\nepisode={}\nsignature={}\nmessage={}\nreplay: VERIF_SEED={} {}/check.sh {} replay {}\n--- trace ---\n",
            p.id, seed, v.episode, v.sig, v.msg, seed, root, p.id, v.episode
        );
        for s in &v.trace {
            t.push_str(s);
            t.push('\n');
        }
        let _ = std::fs::write(&path, t);
        replays.push(path);
    }

    let tier = if thorough { "thorough" } else { "quick" };
    let counts: Vec<String> =
        counters.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    let ev = format!(
        "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {cases},\n  \"monitor_checks\": {evals},\n  \"distinct_nontrivial\": {dist},\n  \"rule\": {rule},\n  \"samples\": [{samples}],\n  \"episodes\": {eps},\n  \"observed\": {{{counts}}},\n  \"vm\": {{\"transactions\": {txs}, \"message_calls\": {calls}, \"storage_reads\": {sl}, \"storage_writes\": {ss}, \"events_logged\": {lg}, \"reverted_frames\": {rv}, \"trapped_frames\": {tr}, \"reentrant_frames\": {re}, \"max_depth\": {md}}}\n }},\n \"assumptions\": [{asm}],\n \"wall_s\": {wall:.2},\n \"violations\": {nv},\n \"known_findings_seen\": {kn},\n \"harness_errors\": {he}\n}}\n",
        id = esc(p.id),
        tier = esc(tier),
        dist = distinct.len(),
        rule = esc(p.rule),
        samples = samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        eps = done.load(Ordering::Relaxed),
        counts = counts.join(", "),
        txs = st.txs, calls = st.calls, sl = st.sloads, ss = st.sstores, lg = st.logs,
        rv = st.reverts, tr = st.traps, re = st.reentries, md = st.max_depth,
        asm = p.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        nv = new.len(),
        kn = kn.len(),
        he = errors.lock().unwrap().len(),
    );
    let _ = std::fs::write(format!("{evdir}/{}.json", p.id), &ev);

    println!(
        "{} {tier} seed={seed}: episodes={} operations={} monitor checks={} distinct={} txs={} calls={} reverts={} traps={} reentries={} wall={:.1}s",
        p.id, done.load(Ordering::Relaxed), cases, evals, distinct.len(), st.txs, st.calls, st.reverts, st.traps, st.reentries, wall
    );
    for (k, v) in &counters {
        println!("  {k} = {v}");
    }
    for v in &kn {
        println!("KNOWN-FINDING: property={} {} ({})", p.id, v.sig, v.msg);
    }
    let errs = errors.into_inner().unwrap();
    for e in errs.iter().take(5) {
        eprintln!("HARNESS-ERROR {e}");
    }
    if !new.is_empty() {
        for (v, r) in new.iter().zip(&replays) {
            println!("VIOLATION property={} replay={}", p.id, r);
            println!("  signature: {}\n  {}", v.sig, v.msg);
            for s in v.trace.iter().rev().take(6).rev() {
                println!("    {s}");
            }
        }
        return 1;
    }
    if !errs.is_empty() {
        eprintln!("inconclusive: harness errors");
        return 2;
    }
    if evals == 0 || distinct.len() < 2 {
        eprintln!("inconclusive: nothing observed");
        return 2;
    }
    0
}
