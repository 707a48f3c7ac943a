//! Native driver: runs the episodes on 8 threads, adds what the wasm run
//! observed, writes the evidence, prints the verdict.
#![allow(clippy::all)]
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use cmon::mon::*;

const HANG_S: u64 = 150;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or("/verif".into())
}

fn known(prop: &str) -> Vec<String> {
    let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", root())) else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let mut it = l.strip_prefix("known: ")?.split_whitespace();
            let p = it.next()?.strip_prefix("property=")?;
            let s = it.next()?.strip_prefix("sig=")?;
            (p == prop).then(|| s.to_string())
        })
        .collect()
}

fn hung(p: &Prop, seed: u64, ep: u64, now: u64) -> ! {
    let root = root();
    let _ = std::fs::create_dir_all(format!("{root}/evidence/replay"));
    let path = format!("{root}/evidence/replay/{}-{seed}-hang.txt", p.id);
    let _ = std::fs::write(&path, format!("property={}\nseed={seed}\nepisode={ep}\nsignature=hang\nmessage=no answer within {HANG_S} s\nreplay: VERIF_SEED={seed} {root}/check.sh {} replay {ep}\n", p.id, p.id));
    let _ = std::fs::write(
        format!("{root}/evidence/{}.json", p.id),
        format!("{{\"property\": {}, \"tier\": \"quick\", \"seed\": {seed}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": 0, \"rule\": \"stopped: an episode did not terminate\", \"samples\": [\"episode {ep}\"]}}, \"wall_s\": {now}, \"violations\": 1}}\n", esc(p.id), ep.max(1)),
    );
    println!("VIOLATION property={} replay={path}\n  signature: hang\n  episode {ep} did not terminate within {HANG_S} s", p.id);
    std::process::exit(1);
}

fn main() {
    let last: &'static Mutex<std::collections::HashMap<std::thread::ThreadId, String>> = Box::leak(Box::default());
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            last.lock().unwrap().insert(std::thread::current().id(), i.to_string());
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let mode = args.get(2).cloned().unwrap_or("quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let all = cmon::props();
    if id == "list" {
        // prop index quick thorough (wasm episodes)
        for (i, p) in all.iter().enumerate() {
            println!("{} {i} {} {}", p.id, p.wquick, p.wthorough);
        }
        return;
    }
    let Some(p) = all.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let (thorough, only) = match mode.as_str() {
        "quick" => (false, None),
        "thorough" => (true, None),
        "replay" => (false, args.get(3).and_then(|s| s.parse::<u64>().ok())),
        _ => {
            eprintln!("unknown mode");
            std::process::exit(2);
        }
    };
    let start = Instant::now();
    let total = match std::env::var("VERIF_EPISODES").ok().and_then(|s| s.parse().ok()) {
        Some(n) => n,
        None if thorough => p.thorough,
        None => p.quick,
    };
    let cap_s: u64 = std::env::var("VERIF_TIME_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 360 });
    let next = AtomicU64::new(only.unwrap_or(0));
    let end_ep = only.map(|e| e + 1).unwrap_or(total);
    let stop = AtomicBool::new(false);
    let results: Mutex<Vec<Mon>> = Mutex::new(vec![]);
    let done = AtomicU64::new(0);
    let threads = if only.is_some() { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) };
    let clocks: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let finished = AtomicU64::new(0);
    std::thread::scope(|s| {
        let (clocks, finished) = (&clocks, &finished);
        s.spawn(move || {
            while finished.load(Ordering::Relaxed) < threads as u64 {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let now = start.elapsed().as_secs();
                for (since, ep) in clocks {
                    let since = since.load(Ordering::Relaxed);
                    if since > 0 && now > since + HANG_S {
                        hung(p, seed, ep.load(Ordering::Relaxed), now);
                    }
                }
            }
        });
        for w in 0..threads {
            let (stop, next, done, results) = (&stop, &next, &done, &results);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut m = Mon::new();
                    m.thorough = thorough;
                    loop {
                        if stop.load(Ordering::Relaxed) || start.elapsed().as_secs() > cap_s {
                            break;
                        }
                        let ep = next.fetch_add(1, Ordering::Relaxed);
                        if ep >= end_ep {
                            break;
                        }
                        begin(&mut m, p, seed, ep);
                        clocks[w].1.store(ep, Ordering::Relaxed);
                        clocks[w].0.store(start.elapsed().as_secs() + 1, Ordering::Relaxed);
                        let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut m)));
                        done.fetch_add(1, Ordering::Relaxed);
                        if r.is_err() {
                            QUIET.with(|q| q.set(false));
                            let msg = last.lock().unwrap().remove(&std::thread::current().id()).unwrap_or("?".into());
                            // An operation with a defined result panicked.
                            m.evals += 1;
                            let sig = format!("panic:{:x}", hash_str(msg.lines().next().unwrap_or("")));
                            m.fail(&sig, msg);
                        }
                        cmon::mon::end(&mut m);
                        if m.violations.len() >= 6 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    clocks[w].0.store(0, Ordering::Relaxed);
                    finished.fetch_add(1, Ordering::Relaxed);
                    results.lock().unwrap().push(m);
                })
                .unwrap();
        }
    });

    let (mut evals, mut cases) = (0, 0);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut vs: Vec<Violation> = vec![];
    for m in results.into_inner().unwrap() {
        evals += m.evals;
        cases += m.cases;
        for (k, v) in m.counters {
            *counters.entry(k).or_default() += v;
        }
        distinct.extend(m.distinct);
        samples.extend(m.samples);
        vs.extend(m.violations);
    }
    vs.sort_by_key(|v| v.episode);
    // What the same monitors saw on wasm32.
    let (mut wevals, mut wcases, mut weps) = (0u64, 0u64, 0u64);
    let mut werr = vec![];
    let wfile = std::env::var("VERIF_WASM").unwrap_or_default();
    if !wfile.is_empty() {
        match std::fs::read_to_string(&wfile) {
            Ok(t) => {
                for l in t.lines() {
                    let f: Vec<&str> = l.split('\t').collect();
                    let num = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
                    match f[0] {
                        "evals" => wevals += num(1),
                        "cases" => wcases += num(1),
                        "episodes" => weps += num(1),
                        "viol" => vs.push(Violation {
                            sig: format!("wasm32:{}", f.get(2).unwrap_or(&"?")),
                            msg: f.get(3).unwrap_or(&"").to_string(),
                            episode: num(1),
                            trace: f.get(4).unwrap_or(&"").split(" | ").map(|s| s.to_string()).collect(),
                        }),
                        "error" => werr.push(l.to_string()),
                        _ => {}
                    }
                }
                if weps == 0 {
                    werr.push("the wasm run reported no episodes".into());
                }
            }
            Err(e) => werr.push(format!("{wfile}: {e}")),
        }
    }
    let mut uniq: Vec<Violation> = vec![];
    for v in vs {
        if !uniq.iter().any(|u| u.sig == v.sig) {
            uniq.push(v);
        }
    }
    samples.truncate(4);
    let wall = start.elapsed().as_secs_f64();
    let known = known(p.id);
    let (kn, new): (Vec<_>, Vec<_>) = uniq.into_iter().partition(|v| known.contains(&v.sig));
    let root = root();
    let evdir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(format!("{evdir}/replay"));
    let mut replays = vec![];
    for v in &new {
        let path = format!("{evdir}/replay/{}-{}-{:x}.txt", p.id, seed, hash_str(&v.sig));
        let t = format!(
            "property={}\nseed={}\nepisode={}\nsignature={}\nmessage={}\nreplay: VERIF_SEED={} {}/check.sh {} replay {}\n--- last inputs ---\n{}\n",
            p.id, seed, v.episode, v.sig, v.msg, seed, root, p.id, v.episode, v.trace.join("\n")
        );
        let _ = std::fs::write(&path, t);
        replays.push(path);
    }
    let tier = if thorough { "thorough" } else { "quick" };
    let counts: Vec<String> = counters.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    let ev = format!(
        "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {all},\n  \"monitor_checks\": {evs},\n  \"distinct_nontrivial\": {dist},\n  \"rule\": {rule},\n  \"samples\": [{samples}],\n  \"episodes\": {eps},\n  \"wasm32\": {{\"episodes\": {weps}, \"operations\": {wcases}, \"monitor_checks\": {wevals}}},\n  \"observed\": {{{counts}}}\n }},\n \"assumptions\": [{asm}],\n \"wall_s\": {wall:.2},\n \"violations\": {nv},\n \"known_findings_seen\": {kn}\n}}\n",
        id = esc(p.id),
        tier = esc(tier),
        all = cases + wcases,
        evs = evals + wevals,
        dist = distinct.len(),
        rule = esc(p.rule),
        samples = samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        eps = done.load(Ordering::Relaxed),
        counts = counts.join(", "),
        asm = p.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        nv = new.len(),
        kn = kn.len(),
    );
    let _ = std::fs::write(format!("{evdir}/{}.json", p.id), &ev);
    println!(
        "{} {tier} seed={seed}: episodes={} operations={} monitor checks={} distinct={} wasm32(episodes={weps} operations={wcases} checks={wevals}) wall={:.1}s",
        p.id, done.load(Ordering::Relaxed), cases, evals, distinct.len(), wall
    );
    for (k, v) in &counters {
        println!("  {k} = {v}");
    }
    for v in &kn {
        println!("KNOWN-FINDING: property={} {} ({})", p.id, v.sig, v.msg);
    }
    for e in werr.iter().take(5) {
        eprintln!("HARNESS-ERROR {e}");
    }
    if !new.is_empty() {
        for (v, r) in new.iter().zip(&replays) {
            println!("VIOLATION property={} replay={}", p.id, r);
            println!("  signature: {}\n  {}", v.sig, v.msg);
            for s in v.trace.iter().rev().take(3).rev() {
                println!("    {s}");
            }
        }
        std::process::exit(1);
    }
    if !werr.is_empty() || evals == 0 || distinct.len() < 2 {
        eprintln!("inconclusive: nothing observed, or the wasm run failed");
        std::process::exit(2);
    }
}
