//! Deterministic simulation of dash7. See /verif/DESIGN.md.

#[macro_use]
pub mod rt;
pub mod bridge;
pub mod codec;
pub mod gen;
pub mod io;
pub mod kinds;
pub mod meter;
pub mod model;
pub mod net;
pub mod props;
pub mod src;
pub mod sys;

use rt::{Res, Violation, World};
use src::{hash_bytes, mix, Src};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;

#[global_allocator]
static METER: meter::Meter = meter::Meter;

pub struct Outcome {
    pub result: Res,
    pub hash: u64,
    pub events: u64,
    pub now: u64,
    pub rec: Vec<u64>,
    pub stats: BTreeMap<&'static str, u64>,
    pub findings: BTreeMap<&'static str, String>,
    pub log: Vec<String>,
}

fn execute(run: fn(&World) -> Res, src: Src, log: bool) -> Outcome {
    let w = World::new(src, log);
    let system = sys::simulate(w.draw(1 << 40));
    let result = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&w))) {
        Ok(r) => r,
        Err(_) => rt::violation("harness", format!("the harness panicked: {}", rt::last_panic())),
    };
    drop(system);
    let mut c = w.core();
    if sys::asked() > 0 {
        c.stats.insert("runs in which the library asked the system", 1);
    }
    Outcome {
        result,
        hash: c.hash,
        events: c.events,
        now: c.now,
        rec: std::mem::take(&mut c.src.rec),
        stats: std::mem::take(&mut c.stats),
        findings: std::mem::take(&mut c.findings),
        log: c.log.take().unwrap_or_default(),
    }
}

fn seed_of(prop: &str, base: u64, index: u64) -> u64 {
    mix(hash_bytes(mix(base), prop.as_bytes()) ^ mix(index).rotate_left(17))
}

/// A shorter sequence of smaller choices with the same kind of violation
fn shrink(run: fn(&World) -> Res, first: &Outcome, budget: &mut u64) -> Outcome {
    let class = first.result.as_ref().err().unwrap().class.clone();
    let mut best_rec = first.rec.clone();
    let mut best = execute(run, Src::replay(best_rec.clone()), false);
    // only bounds the effort: what is found is replayed from its choices
    let until = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let attempt = |cand: Vec<u64>, best_rec: &mut Vec<u64>, best: &mut Outcome, budget: &mut u64| -> bool {
        if std::time::Instant::now() > until {
            *budget = 0;
        }
        if *budget == 0 || cand == *best_rec {
            return false;
        }
        *budget -= 1;
        let out = execute(run, Src::replay(cand), false);
        match &out.result {
            Err(v) if v.class == class => {
                let mut rec = out.rec.clone();
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                // simpler: fewer choices, or the same number of smaller ones
                if (rec.len(), &rec) < (best_rec.len(), best_rec) {
                    *best_rec = rec;
                    *best = out;
                    return true;
                }
                false
            }
            _ => false,
        }
    };
    loop {
        let before = best_rec.clone();
        let mut size = (best_rec.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best_rec.len() {
                let end = (at + size).min(best_rec.len());
                let mut cand = best_rec[..at].to_vec();
                cand.extend_from_slice(&best_rec[end..]);
                if !attempt(cand, &mut best_rec, &mut best, budget) {
                    let mut cand = best_rec.clone();
                    cand[at..end].iter_mut().for_each(|c| *c = 0);
                    if !attempt(cand, &mut best_rec, &mut best, budget) {
                        at += size;
                    }
                }
            }
            if size == 1 || *budget == 0 {
                break;
            }
            size /= 2;
        }
        for i in 0..best_rec.len() {
            let mut lo = 0u64;
            while i < best_rec.len() && best_rec[i] > lo && *budget > 0 {
                let mid = lo + (best_rec[i] - lo) / 2;
                let mut cand = best_rec.clone();
                cand[i] = mid;
                if !attempt(cand, &mut best_rec, &mut best, budget) {
                    lo = mid + 1;
                }
            }
        }
        if before == best_rec || *budget == 0 {
            break;
        }
    }
    best.rec = best_rec;
    best
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{u:04x}");
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn js_violation(v: &Violation, out: &Outcome, seed: u64, index: u64, rec: &[u64], raw: usize, shrinks: u64) -> String {
    let rec: Vec<String> = rec.iter().map(|c| c.to_string()).collect();
    let log: Vec<String> = out.log.iter().take(400).map(|l| js(l)).collect();
    let faults: Vec<String> = out
        .stats
        .iter()
        .filter(|(k, _)| k.starts_with("fault."))
        .map(|(k, n)| format!("{}:{n}", js(k)))
        .collect();
    format!(
        "{{\"class\":{},\"message\":{},\"seed\":{},\"index\":{},\"trace_hash\":{},\"choices\":[{}],\"choices_before\":{},\"shrink_executions\":{},\"faults\":{{{}}},\"trace\":[{}]}}",
        js(&v.class),
        js(&v.msg),
        js(&format!("{seed:016x}")),
        index,
        js(&format!("{:016x}", out.hash)),
        rec.join(","),
        raw,
        shrinks,
        faults.join(","),
        log.join(",")
    )
}

fn main() {
    rt::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("run PROP BASE START COUNT OUT | replay PROP CHOICES OUT | list");
        std::process::exit(2)
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.0);
            }
        }
        Some("run") if args.len() == 7 => {
            let prop = &args[2];
            let base: u64 = args[3].parse().unwrap();
            let start: u64 = args[4].parse().unwrap();
            let count: u64 = args[5].parse().unwrap();
            let out = &args[6];
            let Some((_, run)) = props::ALL.iter().find(|p| p.0 == prop) else { usage() };
            // big stack: a stack overflow of the library is not one of the main thread's making
            let progress = std::fs::File::create(format!("{out}.progress")).unwrap();
            let mut hashes: Vec<u64> = vec![];
            let mut distinct: HashSet<u64> = HashSet::new();
            let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut findings: BTreeMap<&'static str, (u64, String, u64)> = BTreeMap::new();
            let (mut events, mut time, mut choices, mut digest) = (0u64, 0u64, 0u64, 0u64);
            let mut violations: Vec<String> = vec![];
            let mut samples: Vec<String> = vec![];
            let mut done = 0;
            for index in start..start + count {
                let seed = seed_of(prop, base, index);
                let _ = progress.write_all_at(format!("{index:020} {seed:016x}\n").as_bytes(), 0);
                let want_log = samples.len() < 3 && index < start + 40;
                let o = execute(*run, Src::random(seed), want_log);
                done += 1;
                events += o.events;
                time += o.now;
                choices += o.rec.len() as u64;
                digest = digest.wrapping_add(mix(o.hash ^ seed ^ (o.result.is_err() as u64)));
                for (k, n) in &o.stats {
                    *stats.entry(k).or_insert(0) += n;
                }
                for (k, m) in &o.findings {
                    let e = findings.entry(k).or_insert((0, m.clone(), seed));
                    e.0 += 1;
                }
                if want_log && o.log.len() >= 4 {
                    let lines: Vec<String> = o.log.iter().take(14).map(|l| js(&l.chars().take(300).collect::<String>())).collect();
                    samples.push(format!(
                        "{{\"seed\":{},\"choices\":{},\"events\":{},\"trace_start\":[{}]}}",
                        js(&format!("{seed:016x}")),
                        o.rec.len(),
                        o.events,
                        lines.join(",")
                    ));
                }
                if o.events > 0 && distinct.insert(o.hash) {
                    hashes.push(o.hash);
                }
                if let Err(v) = &o.result {
                    let raw = o.rec.len();
                    if v.class == "hang" {
                        // threads are stuck: no replay inside this process
                        violations.push(js_violation(v, &o, seed, index, &o.rec, raw, 0));
                        break;
                    }
                    let total = 4000;
                    let mut budget = total;
                    let small = shrink(*run, &o, &mut budget);
                    let shown = execute(*run, Src::replay(small.rec.clone()), true);
                    match &shown.result {
                        Err(v2) if v2.class == v.class => violations.push(js_violation(
                            v2,
                            &shown,
                            seed,
                            index,
                            &small.rec,
                            raw,
                            total - budget,
                        )),
                        _ => violations.push(js_violation(v, &o, seed, index, &o.rec, raw, total - budget)),
                    }
                    break;
                }
            }
            let mut s = String::new();
            let _ = write!(
                s,
                "{{\"variant\":{},\"runs\":{done},\"events\":{events},\"sim_us\":{time},\"choices\":{choices},\"digest\":{},\"stats\":{{{}}},\"findings\":{{{}}},\"violations\":[{}],\"samples\":[{}]}}",
                js(model::variant_name()),
                js(&format!("{digest:016x}")),
                stats.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","),
                findings
                    .iter()
                    .map(|(k, (n, m, seed))| {
                        format!("{}:{{\"count\":{n},\"seed\":\"{seed:016x}\",\"example\":{}}}", js(k), js(m))
                    })
                    .collect::<Vec<_>>()
                    .join(","),
                violations.join(","),
                samples.join(",")
            );
            let mut bin = std::fs::File::create(format!("{out}.hashes")).unwrap();
            let bytes: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
            bin.write_all(&bytes).unwrap();
            std::fs::write(out, s).unwrap();
            // stuck threads must not keep the process
            std::process::exit(0);
        }
        Some("replay") if args.len() == 5 => {
            let prop = &args[2];
            let Some((_, run)) = props::ALL.iter().find(|p| p.0 == prop) else { usage() };
            // either a list of choices, or "seed <hex>" for a run that never came back
            let text = std::fs::read_to_string(&args[3]).unwrap();
            let mut src = match text.trim().strip_prefix("seed ") {
                Some(s) => Src::random(u64::from_str_radix(s.trim(), 16).unwrap()),
                None => Src::replay(text.split_whitespace().map(|c| c.parse().unwrap()).collect()),
            };
            src.tee = std::env::var_os("DASH7_SIM_TEE").and_then(|p| std::fs::File::create(p).ok());
            let o = execute(*run, src, true);
            let found: Vec<String> = o.findings.iter().map(|(k, m)| format!("{}:{}", js(k), js(m))).collect();
            let v = match &o.result {
                Err(v) => js_violation(v, &o, 0, 0, &o.rec, 0, 0),
                Ok(()) => "null".into(),
            };
            let s = format!(
                "{{\"violation\":{v},\"trace_hash\":\"{:016x}\",\"findings\":{{{}}}}}",
                o.hash,
                found.join(",")
            );
            std::fs::write(&args[4], s).unwrap();
            std::process::exit(0);
        }
        _ => usage(),
    }
}
