//! Explorer and check runner.
pub mod engine;
use engine::*;
use std::path::PathBuf;
use std::time::{Duration, Instant};

/// what a binary supplies: the harnesses of a property (for the quick or the thorough tier)
pub type Harnesses = fn(&str, bool) -> Vec<Harness>;
/// what the evidence of a property counts
fn level(id: &str) -> &'static str {
    match id {
        "C10" => "fault_enumeration",
        "C22" => "exploration",
        _ => "model_checking",
    }
}
/// lines a harness wants printed with the result
pub static NOTES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
/// scratch directory of this run (created on demand, removed at the end)
pub fn scratch() -> PathBuf {
    let p = std::env::temp_dir().join(format!("mc-scratch-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&p);
    p
}
fn clean() {
    let p = std::env::temp_dir().join(format!("mc-scratch-{}", std::process::id()));
    if p.exists() {
        let _ = std::fs::remove_dir_all(&p);
    }
}

/// known-findings.txt: lines "known: property=<id> key=<key> :: <what fails>"
fn known_findings(id: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("property={id} key="))?;
            let (k, w) = rest.split_once(" :: ")?;
            Some((k.to_string(), w.to_string()))
        })
        .collect()
}

fn write_replay(id: &str, tier: &str, h: &str, choices: &[u16], key: &str, msg: &str, log: &[String]) -> PathBuf {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut hh = H::new();
    hh.b(h.as_bytes());
    for c in choices {
        hh.u(*c as u64);
    }
    let p = dir.join(format!("{id}-{:016x}.json", hh.done()));
    let v = serde_json::json!({"property": id, "tier": tier, "harness": h, "choices": choices, "key": key, "msg": msg, "case": log});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

fn check(id: &str, harnesses: Harnesses) -> i32 {
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let th = tier == "thorough";
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known = known_findings(id);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let t0 = Instant::now();
    let total_cap = Duration::from_secs(if th { 6 * 3600 } else { 600 });
    let (mut stats, mut viol, mut hit): (Vec<Stats>, Vec<(String, Vec<u16>, Fail)>, Vec<(String, String)>) = (vec![], vec![], vec![]);
    for h in harnesses(id, th) {
        let cap = total_cap.saturating_sub(t0.elapsed());
        let hang = |c: &[u16]| {
            let msg = format!("no return within {HANG_S} s");
            let p = write_replay(id, &tier, &h.name, c, "", &msg, &[]);
            println!("violating case [{}] choices {:?}: {}", h.name, c, msg);
            println!("VIOLATION property={id} replay={}", p.display());
            evidence(id, &tier, seed, &[], 1, t0.elapsed().as_secs_f64());
            clean();
            std::process::exit(1);
        };
        let o = explore(id, &h, threads, cap, &known, &hang);
        println!(
            "{id} [{}] executions {} (skipped {}), transitions {}, states {}, distinct outcomes {}, deepest {} choices, re-executed {}, {}{:.1}s",
            o.stats.name, o.stats.executions, o.stats.skipped, o.stats.transitions, o.stats.states, o.stats.outcomes, o.stats.max_choices, o.stats.replays_checked,
            if o.stats.capped { "NOT EXHAUSTIVE (time), " } else { "" }, o.stats.wall
        );
        for k in &o.known {
            if !hit.contains(k) {
                hit.push(k.clone());
            }
        }
        for (c, f) in o.violations {
            viol.push((h.name.clone(), c, f));
        }
        stats.push(o.stats);
    }
    for (k, w) in &hit {
        println!("KNOWN-FINDING: property={id} {w} [{k}]");
    }
    for f in NOTES.lock().unwrap().iter() {
        println!("{id} {f}");
    }
    evidence(id, &tier, seed, &stats, viol.len(), t0.elapsed().as_secs_f64());
    let hs = harnesses(id, th);
    for (i, (hn, c, f)) in viol.iter().enumerate() {
        if i >= 3 {
            println!("... {} more violating cases", viol.len() - i);
            break;
        }
        let h = hs.iter().find(|h| h.name == *hn).unwrap();
        let log = if f.msg.contains("no return") { vec![] } else { run_one(h, c.clone(), true, None).0.log };
        let p = write_replay(id, &tier, hn, c, &f.key, &f.msg, &log);
        println!("violating case [{hn}] {}: {} {}", log.join(", "), f.key, f.msg);
        println!("VIOLATION property={id} replay={}", p.display());
    }
    clean();
    (!viol.is_empty()) as i32
}

fn evidence(id: &str, tier: &str, seed: i64, stats: &[Stats], nviol: usize, wall: f64) {
    let sum = |f: fn(&Stats) -> u64| stats.iter().map(f).sum::<u64>();
    let samples: Vec<_> = stats
        .iter()
        .flat_map(|s| s.samples.iter().map(move |(c, l)| serde_json::json!({"harness": s.name, "choices": c, "case": l})))
        .collect();
    let per: Vec<_> = stats
        .iter()
        .map(|s| serde_json::json!({"harness": s.name, "executions": s.executions, "outside_space": s.skipped, "transitions": s.transitions, "states": s.states, "distinct_outcomes": s.outcomes, "deepest_choices": s.max_choices, "executions_repeated_for_determinism": s.replays_checked, "exhaustive": !s.capped, "wall_s": s.wall}))
        .collect();
    let exhaustive = !stats.is_empty() && stats.iter().all(|s| !s.capped);
    let cov = if level(id) != "model_checking" {
        serde_json::json!({
            "evaluations": sum(|s| s.executions), "distinct_nontrivial": sum(|s| s.outcomes),
            "rule": if id == "C22" { "every combination of the harness's choices (macro, list of items in its arguments, structure shape) is one program, compiled by itself; programs are counted once per distinct source text" } else { "every combination of the harness's choices (value, format, fault kind, fault position, previous content) is one case; a case is counted once per distinct observation (bytes on disk, result, loaded value)" },
            "transitions": sum(|s| s.transitions), "states": sum(|s| s.states),
            "exhaustive": exhaustive, "harnesses": per, "samples": samples})
    } else {
        serde_json::json!({
            "states": sum(|s| s.states), "transitions": sum(|s| s.transitions), "traces_validated_against_impl": sum(|s| s.executions),
            "distinct_outcomes": sum(|s| s.outcomes), "exhaustive": exhaustive, "harnesses": per, "samples": samples})
    };
    let e = serde_json::json!({
        "property": id, "tier": tier, "seed": seed, "level": level(id), "coverage": cov,
        "assumptions": ["the space explored is the one the harness's choices span (see DESIGN.md); every execution runs the code of /repo directly, so no separate model has to be kept in step", "one compiler, target and floating-point environment"],
        "wall_s": wall, "violations": nviol});
    let d = verif().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(&e).unwrap()).expect("evidence");
}

fn replay(file: &str, harnesses: Harnesses) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
    let id = v["property"].as_str().unwrap();
    let th = v["tier"].as_str() == Some("thorough");
    let hs = harnesses(id, th);
    let h = hs.iter().find(|h| Some(h.name.as_str()) == v["harness"].as_str()).expect("harness");
    let c: Vec<u16> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
    let (ctx, r) = run_one(h, c, true, None);
    for l in &ctx.log {
        println!("  {l}");
    }
    clean();
    match r {
        Ok(()) => {
            println!("held");
            0
        }
        Err(f) => {
            println!("violated: {} {}", f.key, f.msg);
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}


pub fn main(harnesses: Harnesses) {
    if std::env::var("MC_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], harnesses),
        Some("replay") => replay(&a[2], harnesses),
        _ => {
            eprintln!("usage: check <ID> | replay <file>");
            3
        }
    };
    std::process::exit(rc);
}
