mod abi;
mod bank;
mod build;
mod exec;
mod gen;
mod model;
mod programs;
mod rng;
mod run;
mod tree;
mod world;

use exec::*;
use run::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Default)]
struct Out {
    runs: u64,
    stats: Stats,
    states: Vec<u64>,
    /// xor of the event-log hashes of all runs
    log: u64,
    schedules: Vec<u64>,
    found: Option<(u64, Trace)>,
    foreign: BTreeMap<String, (u64, u64)>,
    sample: Vec<String>,
    capped: bool,
    per_run: Vec<(u64, u64)>,
    panics: Vec<(u64, String)>,
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    arg(a, k).map(|x| x.parse().unwrap_or_else(|_| die(&format!("bad {k}")))).unwrap_or(d)
}
fn die(m: &str) -> ! {
    eprintln!("psim: {m}");
    std::process::exit(3)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("check") => check(&a),
        Some("worker") => worker(&a),
        Some("shrink") => shrink_cmd(&a),
        Some("replay") => replay_cmd(&a),
        Some("one") => one(&a),
        _ => die("usage: psim check|worker|shrink|replay|one"),
    }
}

fn short(s: &Step) -> String {
    let x = serde_json::to_string(s).unwrap_or_default();
    if x.len() > 160 {
        format!("{}...", &x[..157])
    } else {
        x
    }
}

fn worker(a: &[String]) {
    bank::install();
    let prop = arg(a, "--prop").unwrap();
    let seed = num(a, "--seed", 1);
    let (k, of) = (num(a, "--k", 0), num(a, "--of", 1));
    let runs = num(a, "--runs", 100);
    let from = num(a, "--from", 0);
    let secs = num(a, "--secs", 600);
    let per = a.iter().any(|x| x == "--per-run");
    let out = arg(a, "--out").unwrap();
    let stop = format!("{}.stop", out.rsplit_once('.').map(|x| x.0).unwrap_or(&out));
    let t0 = Instant::now();
    let mut o = Out::default();
    let mut states = BTreeSet::new();
    let mut i = from + k;
    while i < from + runs {
        if t0.elapsed().as_secs() >= secs {
            o.capped = true;
            break;
        }
        if o.runs % 16 == 0 && Path::new(&stop).exists() {
            break;
        }
        let s = run_seed(seed, &prop, i);
        let d = match std::panic::catch_unwind(|| simulate(&prop, s, false)) {
            Ok(d) => d,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                o.panics.push((i, m));
                i += of;
                continue;
            }
        };
        o.runs += 1;
        o.log ^= rng::mix(d.log ^ i);
        if per {
            o.per_run.push((i, d.log));
        }
        o.schedules.push(d.log);
        states.extend(d.stats.states.iter());
        o.stats.merge(&d.stats);
        for f in &d.foreign {
            let e = o.foreign.entry(format!("{:?} {}", model::tag_list(f.tags), f.class)).or_insert((0, i));
            e.0 += 1;
        }
        if o.sample.is_empty() && d.trace.steps.len() > 8 {
            o.sample = d.trace.steps.iter().take(12).map(short).collect();
        }
        if o.sample.is_empty() {
            if let Some(t) = &d.trace.tree {
                o.sample = vec![serde_json::to_string(t).unwrap_or_default().chars().take(900).collect()];
            }
        }
        if d.viol.is_some() {
            o.found = Some((i, d.trace));
            break;
        }
        i += of;
    }
    o.states = states.into_iter().collect();
    o.stats.states.clear();
    let tmp = format!("{out}.tmp");
    std::fs::write(&tmp, serde_json::to_string(&o).unwrap()).unwrap();
    std::fs::rename(&tmp, &out).unwrap();
}

fn load_trace(p: &str) -> Trace {
    let s = std::fs::read_to_string(p).unwrap_or_else(|e| die(&format!("{p}: {e}")));
    serde_json::from_str(&s).unwrap_or_else(|e| die(&format!("{p}: {e}")))
}

fn shrink_cmd(a: &[String]) {
    bank::install();
    let t = load_trace(&arg(a, "--in").unwrap());
    let r = shrink(&t, Duration::from_secs(num(a, "--secs", 40)));
    std::fs::write(arg(a, "--out").unwrap(), serde_json::to_string_pretty(&r).unwrap()).unwrap();
}

/// exit 1: the violation recorded in the file happens again; 0: it does not
fn replay_cmd(a: &[String]) {
    bank::install();
    let t = load_trace(&a[2]);
    let (v, log) = replay(&t, a.iter().any(|x| x == "-v"));
    match v {
        Some(v) => {
            eprintln!("REPRODUCED property={} class={} log={log:016x}\n  {}", t.property, v.class, v.msg);
            std::process::exit(if v.class == t.class { 1 } else { 4 });
        }
        None => {
            eprintln!("NOT-REPRODUCED property={} log={log:016x}", t.property);
            std::process::exit(0);
        }
    }
}

fn one(a: &[String]) {
    bank::install();
    let prop = arg(a, "--prop").unwrap();
    let i = num(a, "--index", 0);
    let s = run_seed(num(a, "--seed", 1), &prop, i);
    let d = simulate(&prop, s, a.iter().any(|x| x == "-v"));
    eprintln!("log={:016x} steps={} viol={:?}", d.log, d.trace.steps.len(), d.viol);
    for f in d.foreign.iter().take(20) {
        eprintln!("foreign {:?} {} {}", model::tag_list(f.tags), f.class, f.msg);
    }
}

fn budget(prop: &str, tier: &str) -> (u64, u64) {
    // (runs, wall-clock cap in seconds)
    let q = match prop {
        "C25" => 16000,
        "C24" => 13000,
        "C20" => 45000,
        _ => 34000,
    };
    if tier == "thorough" {
        (q * 80, 5400)
    } else {
        (q, 300)
    }
}

fn check(a: &[String]) {
    let t0 = Instant::now();
    let prop = arg(a, "--prop").unwrap();
    let tier = arg(a, "--tier").unwrap_or("quick".into());
    let seed = num(a, "--seed", 1);
    let (br, bs) = budget(&prop, &tier);
    let runs = num(a, "--runs", br);
    let secs = num(a, "--secs", bs);
    let from = num(a, "--from", 0);
    let nw = num(a, "--workers", 8);
    let root = PathBuf::from(arg(a, "--root").unwrap_or("/verif".into()));
    let dir = root.join("scratch").join(format!("{prop}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&e.to_string()));
    let me = std::env::current_exe().unwrap();
    let mut ch = vec![];
    let outs: Vec<PathBuf> = (0..nw).map(|k| dir.join(format!("w.{k}"))).collect();
    for k in 0..nw {
        let c = Command::new(&me)
            .args(["worker", "--prop", &prop, "--seed", &seed.to_string(), "--k", &k.to_string(), "--of", &nw.to_string()])
            .args(["--runs", &runs.to_string(), "--from", &from.to_string(), "--secs", &secs.to_string(), "--out"])
            .arg(&outs[k as usize])
            .env("PSIM_SCRATCH", &dir)
            .stdout(Stdio::null())
            .stderr(Stdio::inherit())
            .spawn()
            .unwrap_or_else(|e| die(&e.to_string()));
        ch.push(Some(c));
    }
    let mut res: Vec<Option<Out>> = (0..nw).map(|_| None).collect();
    let mut left = nw;
    let mut broken = false;
    while left > 0 {
        std::thread::sleep(Duration::from_millis(20));
        for k in 0..nw as usize {
            let Some(c) = ch[k].as_mut() else { continue };
            if let Ok(Some(st)) = c.try_wait() {
                ch[k] = None;
                left -= 1;
                let r = std::fs::read_to_string(&outs[k]).ok().and_then(|s| serde_json::from_str::<Out>(&s).ok());
                if r.is_none() || !st.success() {
                    eprintln!("psim: worker {k} ended with {st}");
                    broken = true;
                }
                if r.as_ref().map(|r| r.found.is_some()).unwrap_or(false) {
                    let _ = std::fs::write(dir.join("w.stop"), "");
                }
                res[k] = r;
            }
        }
        if t0.elapsed().as_secs() > secs + 120 {
            for c in ch.iter_mut().flatten() {
                let _ = c.kill();
            }
            broken = true;
            break;
        }
    }
    let mut all = Out::default();
    let mut states = BTreeSet::new();
    let mut scheds = BTreeSet::new();
    for r in res.into_iter().flatten() {
        all.runs += r.runs;
        all.log ^= r.log;
        all.stats.merge(&r.stats);
        all.capped |= r.capped;
        all.panics.extend(r.panics);
        states.extend(r.states);
        scheds.extend(r.schedules);
        for (k, v) in r.foreign {
            let e = all.foreign.entry(k).or_insert((0, v.1));
            e.0 += v.0;
            e.1 = e.1.min(v.1);
        }
        if all.sample.is_empty() {
            all.sample = r.sample;
        }
        if let Some(f) = r.found {
            if all.found.as_ref().map(|x| f.0 < x.0).unwrap_or(true) {
                all.found = Some(f);
            }
        }
    }
    let sim_wall = t0.elapsed().as_secs_f64();
    // report
    let mut violations = 0;
    let mut line = None;
    if let Some((i, t)) = &all.found {
        violations = 1;
        let raw = dir.join("raw.json");
        std::fs::write(&raw, serde_json::to_string(t).unwrap()).unwrap();
        let rdir = root.join("scratch").join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let rp = rdir.join(format!("{prop}-seed{seed}-run{i}.json"));
        let run_child = |args: &[&std::ffi::OsStr]| {
            Command::new(&me).args(args).env("PSIM_SCRATCH", &dir).stdout(Stdio::null()).stderr(Stdio::inherit()).status()
        };
        let ok = |p: &Path| matches!(run_child(&["replay".as_ref(), p.as_os_str()]).map(|s| s.code()), Ok(Some(1)));
        let _ = run_child(&["shrink".as_ref(), "--in".as_ref(), raw.as_os_str(), "--out".as_ref(), rp.as_os_str(), "--secs".as_ref(), "40".as_ref()]);
        if !ok(&rp) {
            // the minimised file must fail the same way in a fresh process; otherwise keep the full trace
            let _ = std::fs::copy(&raw, &rp);
            if !ok(&rp) {
                eprintln!("psim: violation did not replay: {} {}", t.class, t.msg);
                let _ = std::fs::remove_dir_all(&dir);
                std::process::exit(5);
            }
        }
        let m = load_trace(rp.to_str().unwrap());
        println!("run {i} (seed {seed}, run seed {}) breaks {prop}: {} — {}", m.seed, m.class, m.msg);
        println!("minimised from {} to {} steps", t.steps.len(), m.steps.len());
        line = Some(format!("VIOLATION property={prop} replay={}", rp.display()));
    }
    let c = &all.stats.counts;
    let pick = |p: &str| -> BTreeMap<String, u64> { c.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k[p.len()..].to_string(), *v)).collect() };
    let rph = all.runs as f64 / sim_wall.max(0.001) * 3600.0;
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": scheds.len(),
            "rule": if prop == "C25" {
                "one evaluation is one simulated run: an entry list, a sequence of writes, faults and restarts on the stored tree, and transactions with the tool's proofs; distinct by the hash of its full event log"
            } else {
                "one evaluation is one simulated run: a seeded schedule of transactions, clock and epoch advances, faults and outsider actions against the real program, judged after every step; distinct by the hash of its full event log (every step with its outcome)"
            },
            "samples": all.sample,
            "transactions": all.stats.tx,
            "accepted": all.stats.accepted,
            "rejected": all.stats.rejected,
            "outside_the_model": all.stats.unspec,
            "distinct_abstract_states": states.len(),
            "abstract_state_measure": if prop == "C25" { "distinct tree roots" } else { "hash of mode, whitelist, phase, flags, schedule position, cap positions and per-escrow status of a presale" },
            "simulated_seconds": all.stats.sim_seconds,
            "runs_per_hour": rph as u64,
            "runs_discarded_harness_error": all.panics.len(),
            "wall_clock_capped": all.capped,
            "event_log_digest": format!("{:016x}", all.log),
            "faults_injected": pick("fault."),
            "adversary_actions": pick("adversary."),
            "environment_changes": pick("env."),
            "storage": pick("io."),
            "reached": pick("reach."),
            "operations": pick("op."),
            "rejection_reasons_predicted": pick("cond."),
            "probes": pick("probe."),
            "other": c.iter().filter(|(k, _)| ["meta.", "drain.", "clock.", "tree."].iter().any(|p| k.starts_with(p))).map(|(k, v)| (k.clone(), *v)).collect::<BTreeMap<_, _>>(),
            "components_real": ["presale program (instruction dispatch, account validation, all handlers)", "spl-token", "spl-token-2022", "spl-memo", "merkle-tree tool"],
            "components_stub": ["runtime: ledger, CPI, sysvars, PDA signing, rent and lamport rules", "system program", "associated token accounts (created directly)", "transfer-hook program"],
            "violations_of_other_properties_seen": all.foreign.iter().map(|(k, v)| format!("{k} x{} first run {}", v.0, v.1)).collect::<Vec<_>>(),
        },
        "assumptions": [
            "the simulated runtime follows the Solana rules for accounts, signatures, cross-program calls and rollback",
            "the reference model states what the property asks for; transactions it leaves open are counted in outside_the_model",
            "sampling: a clean batch is evidence, not proof"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let ed = root.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap_or_else(|e| die(&e.to_string()));
    if arg(a, "--keep").is_none() {
        let _ = std::fs::remove_dir_all(&dir);
    }
    if let Some(l) = line {
        println!("{l}");
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }
    if let Some((i, m)) = all.panics.first() {
        eprintln!("psim: {} run(s) ended in a harness error, first run {i}: {m}", all.panics.len());
        // such runs decide nothing; a handful are left out (and counted in the
        // evidence), more mean the machinery itself is broken
        broken |= all.panics.len() as u64 > 1 + all.runs / 1000;
    }
    if broken {
        eprintln!("psim: a worker did not finish");
        std::process::exit(3);
    }
    println!(
        "{prop}: held on {} runs, {} transactions ({} accepted), {} distinct schedules, {} abstract states, {:.1} s, log digest {:016x}",
        all.runs,
        all.stats.tx,
        all.stats.accepted,
        scheds.len(),
        states.len(),
        t0.elapsed().as_secs_f64(),
        all.log
    );
    for (k, v) in &all.foreign {
        eprintln!("note: {k} x{} (first run {})", v.0, v.1);
    }
}
