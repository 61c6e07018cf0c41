//! `mc` - bounded exhaustive exploration of bellframe, one property at a time.
//!
//! mc check <ID> --tier quick|thorough --verif DIR     run a check (parent process)
//! mc child ...                                        internal: explore in a crash-isolated child
//! mc replay <replay.json>                             re-run the unit of a recorded violation
//! mc list

#[macro_use]
mod fw;
mod model;
mod props;

use fw::*;
use serde_json::{json, Value};
use std::{
    os::unix::process::ExitStatusExt,
    path::{Path, PathBuf},
    process::{Command, ExitCode},
    time::Instant,
};

const MEMORY_LIMIT: u64 = 8 << 30;

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(String::as_str) {
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.level);
            }
            ExitCode::SUCCESS
        }
        Some("check") => check(&args[1..]),
        Some("child") => child(&args[1..]),
        Some("replay") => replay(&args[1..]),
        _ => {
            eprintln!("usage: mc check|replay|list");
            ExitCode::from(2)
        }
    }
}

fn find(id: &str) -> Option<Prop> {
    props::all().into_iter().find(|p| p.id == id)
}

fn flag<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(String::as_str)
}

fn tier_of(args: &[String]) -> Tier {
    match flag(args, "--tier") {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn child(args: &[String]) -> ExitCode {
    let prop = find(&args[0]).expect("unknown property");
    limit_memory(MEMORY_LIMIT);
    install_panic_hook();
    let opts = RunOpts {
        only_unit: flag(args, "--unit").map(str::to_owned),
        trace: flag(args, "--trace").map(PathBuf::from),
        only_case: flag(args, "--case").map(str::to_owned),
        status_dir: flag(args, "--status").map(PathBuf::from),
    };
    let t = run_units(&prop, tier_of(args), &opts);
    let out = flag(args, "--out").expect("--out");
    std::fs::write(out, totals_to_json(&t).to_string()).expect("can't write result");
    ExitCode::SUCCESS
}

enum ChildEnd {
    Done(Value),
    Died(String),
    Error(String),
}

fn run_child(id: &str, tier: Tier, scratch: &Path, extra: &[&str]) -> ChildEnd {
    let out = scratch.join("result.json");
    let _ = std::fs::remove_file(&out);
    let exe = std::env::current_exe().expect("current_exe");
    let mut cmd = Command::new(exe);
    cmd.arg("child").arg(id);
    cmd.args(["--tier", if tier.thorough() { "thorough" } else { "quick" }]);
    cmd.arg("--out").arg(&out).args(extra);
    cmd.env("MC_SCRATCH", scratch);
    // No code under test may find the user's real cache
    cmd.env("XDG_CACHE_HOME", scratch.join("cache")).env("HOME", scratch.join("home"));
    let status = match cmd.status() {
        Ok(s) => s,
        Err(e) => return ChildEnd::Error(format!("can't start explorer: {e}")),
    };
    if let Some(sig) = status.signal() {
        return match sig {
            libc::SIGKILL | libc::SIGTERM | libc::SIGINT | libc::SIGHUP => {
                ChildEnd::Error(format!("explorer was killed from outside by signal {sig}"))
            }
            _ => ChildEnd::Died(format!("the process died with signal {sig}")),
        };
    }
    match status.code() {
        Some(0) => match std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok()) {
            Some(v) => ChildEnd::Done(v),
            None => ChildEnd::Error("explorer left no result".into()),
        },
        Some(EXIT_HANG) => ChildEnd::Died("a call did not return (no progress for a long time)".into()),
        c => ChildEnd::Error(format!("explorer exited with {c:?}")),
    }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn make_scratch() -> Scratch {
    let p = std::env::temp_dir().join(format!("mc-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    for d in ["status", "cache", "home"] {
        std::fs::create_dir_all(p.join(d)).expect("can't create scratch directory");
    }
    Scratch(p)
}

fn check(args: &[String]) -> ExitCode {
    let Some(prop) = args.first().and_then(|id| find(id)) else {
        eprintln!("unknown property");
        return ExitCode::from(2);
    };
    let verif = PathBuf::from(flag(args, "--verif").unwrap_or("/verif"));
    let tier = tier_of(args);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let start = Instant::now();
    let scratch = make_scratch();
    let status = scratch.0.join("status");

    let result = match run_child(prop.id, tier, &scratch.0, &["--status", status.to_str().unwrap()]) {
        ChildEnd::Done(v) => v,
        ChildEnd::Error(e) => {
            eprintln!("ERROR: {e}");
            return ExitCode::from(3);
        }
        ChildEnd::Died(why) => {
            // Find out which case did it: re-run the units that were active, one by one, tracing each case
            let active: Vec<String> = (0..64)
                .filter_map(|w| std::fs::read_to_string(status.join(format!("worker{w}"))).ok())
                .collect();
            let mut found = Vec::new();
            let hang: Option<String> = std::fs::read_to_string(status.join("hang"))
                .ok()
                .and_then(|w| std::fs::read_to_string(status.join(format!("worker{}", w.trim()))).ok());
            let candidates: Vec<String> = match hang {
                Some(u) => vec![u],
                None => active.clone(),
            };
            for unit in &candidates {
                let tr = scratch.0.join("trace");
                match run_child(prop.id, tier, &scratch.0, &["--unit", unit, "--trace", tr.to_str().unwrap()]) {
                    ChildEnd::Died(why) => {
                        found.push(json!({"unit": unit,
                            "case": read_trace(&tr).unwrap_or_else(|| "(no case started)".into()), "detail": why}));
                        break;
                    }
                    ChildEnd::Done(v) => {
                        // Ordinary violations of this unit are as good
                        for v in v["violations"].as_array().cloned().unwrap_or_default() {
                            found.push(v);
                        }
                    }
                    ChildEnd::Error(e) => {
                        eprintln!("ERROR: {e}");
                        return ExitCode::from(3);
                    }
                }
            }
            if found.is_empty() {
                eprintln!("ERROR: {why}, but it could not be reproduced in {candidates:?}");
                return ExitCode::from(3);
            }
            json!({"evaluations": 0, "calls": 0, "states": 0, "transitions": 0, "traces": 0, "distinct": 0,
                   "distinct_capped": false, "violations": found, "samples": [], "capped": [format!("aborted: {why}")],
                   "units": []})
        }
    };

    // Known findings: `finding: property=<ID> unit=<unit prefix> case=<exact case>`
    let known = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let known: Vec<(String, String)> = known
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={} ", prop.id)))
        .filter_map(|l| {
            let (case, what) = l.strip_prefix("case=<<")?.split_once(">>")?;
            Some((case.to_owned(), what.trim().to_owned()))
        })
        .collect();
    let mut violations = Vec::new();
    let mut known_hit = vec![false; known.len()];
    for v in result["violations"].as_array().cloned().unwrap_or_default() {
        match known.iter().position(|(c, _)| v["case"].as_str() == Some(c)) {
            Some(i) => known_hit[i] = true,
            None => violations.push(v),
        }
    }
    for (i, (case, what)) in known.iter().enumerate() {
        if known_hit[i] {
            println!("KNOWN-FINDING: property={} {case}: {what}", prop.id);
        }
    }

    let mut replay_paths = Vec::new();
    if !violations.is_empty() {
        let dir = verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        for (i, v) in violations.iter().take(5).enumerate() {
            let path = dir.join(format!("{}-{}.json", prop.id, i));
            let text = json!({"property": prop.id, "tier": format!("{tier:?}").to_lowercase(), "unit": v["unit"],
                "case": v["case"], "detail": v["detail"],
                "how": "run `/verif/check.sh replay <this file>`; the case line is the complete input or operation sequence"});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&text).unwrap());
            replay_paths.push((path, v.clone()));
        }
    }

    let wall = start.elapsed().as_secs_f64();
    let n = |k: &str| result[k].as_u64().unwrap_or(0);
    let samples: Vec<Value> = {
        let s = result["samples"].as_array().cloned().unwrap_or_default();
        let step = (s.len() / 12).max(1);
        s.into_iter().step_by(step).take(12).collect()
    };
    let capped = result["capped"].as_array().map_or(0, |c| c.len());
    let mut coverage = json!({
        "evaluations": n("evaluations"),
        "distinct_nontrivial": n("distinct"),
        "distinct_is_lower_bound": result["distinct_capped"],
        "rule": prop.rule,
        "bounds": (prop.bounds)(tier),
        "implementation_calls_compared": n("calls"),
        "exhaustive": capped == 0,
        "caps_hit": result["capped"],
        "samples": samples,
        "units": result["units"],
    });
    if prop.level == "model_checking" || n("states") > 0 {
        coverage["states"] = json!(n("states"));
        coverage["transitions"] = json!(n("transitions"));
        coverage["traces_validated_against_impl"] = json!(n("traces"));
        coverage["conformance"] = json!("the model is advanced in lock-step with the real object on every transition, so every explored trace is replayed on the implementation");
    }
    let evidence = json!({
        "property": prop.id, "tier": format!("{tier:?}").to_lowercase(), "seed": seed, "level": prop.level,
        "coverage": coverage, "assumptions": prop.assumptions, "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations.len(),
    });
    let edir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if let Err(e) = std::fs::write(
        edir.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    ) {
        eprintln!("ERROR: can't write evidence: {e}");
        return ExitCode::from(3);
    }
    println!(
        "{}: {} cases, {} calls compared, {} states, {} transitions, {} distinct outcomes, {} caps, {:.1} s",
        prop.id, n("evaluations"), n("calls"), n("states"), n("transitions"), n("distinct"), capped, wall
    );
    if violations.is_empty() {
        return ExitCode::SUCCESS;
    }
    for (path, v) in &replay_paths {
        // The replay file has the whole text
        let short = |key: &str| -> String { v[key].as_str().unwrap_or("").chars().take(1500).collect() };
        println!("  [{}] {}", short("unit"), short("case"));
        println!("      {}", short("detail"));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
    }
    ExitCode::from(1)
}

fn replay(args: &[String]) -> ExitCode {
    let Some(v) = args.first().and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str::<Value>(&s).ok()) else {
        eprintln!("usage: mc replay <replay.json>");
        return ExitCode::from(2);
    };
    let s = |k: &str| v[k].as_str().unwrap_or("").to_owned();
    let tier = if s("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let scratch = make_scratch();
    let tr = scratch.0.join("trace");
    match run_child(&s("property"), tier, &scratch.0, &["--unit", &s("unit"), "--case", &s("case"), "--trace", tr.to_str().unwrap()]) {
        ChildEnd::Done(r) => {
            let hit = r["violations"].as_array().map_or(false, |a| a.iter().any(|x| x["case"] == v["case"]));
            println!("{}", if hit { "still violated" } else { "holds now" });
            ExitCode::from(hit as u8)
        }
        ChildEnd::Died(why) => {
            println!("still violated: {why} in case {}", read_trace(&tr).unwrap_or_default());
            ExitCode::from(1)
        }
        ChildEnd::Error(e) => {
            eprintln!("ERROR: {e}");
            ExitCode::from(3)
        }
    }
}
