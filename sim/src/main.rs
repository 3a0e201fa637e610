//! Driver: seeded search, minimisation, replay, evidence.
mod check;
mod exec;
mod gen;
mod min;

use check::Ctx;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::prng::mix;
use simrt::spec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::time::Instant;

#[global_allocator]
static ALLOC: simrt::arena::SimAlloc = simrt::arena::SimAlloc;

/// (property, cases in the quick tier, cases in the thorough tier)
const BUDGET: [(&str, u64, u64); 12] = [
    ("C01", 13_000, 400_000),
    ("C02", 18_000, 600_000),
    ("C03", 15_000, 500_000),
    ("C04", 13_000, 300_000),
    ("C05", 16_000, 400_000),
    ("C06", 80_000, 3_000_000),
    ("C07", 28_000, 900_000),
    ("C08", 900, 40_000),
    ("C10", 4_500, 150_000),
    ("C13", 12_000, 400_000),
    ("C14", 8_000, 250_000),
    ("C16", 12_000, 400_000),
];
const WALL_QUICK: u64 = 180;
const WALL_THOROUGH: u64 = 720;
const WORKERS: u64 = 8;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    pub seed: u64,
    pub index: u64,
    pub plan: Plan,
    /// hash and length of the event log of the minimised run
    pub log: u64,
    pub events: u64,
    pub trace: Vec<String>,
    pub minimiser: String,
}

#[derive(Serialize, Deserialize, Default)]
struct Summary {
    cases: u64,
    nontrivial: u64,
    runs: u64,
    stats: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    distinct: Vec<u64>,
    samples: Vec<Value>,
    twice: u64,
    twice_bad: u64,
    wall_cut: bool,
}

fn arg(n: usize) -> String {
    std::env::args().nth(n).unwrap_or_default()
}
fn num(n: usize) -> u64 {
    arg(n).parse().unwrap_or(0)
}

fn main() {
    exec::fix_addresses();
    let code = match arg(1).as_str() {
        "check" => check_cmd(&arg(2)),
        "worker" => worker(&arg(2), num(3), num(4), num(5), num(6), num(7)),
        "minimise" => minimise_cmd(),
        "replay" => replay_cmd(&arg(2)),
        "case" => case_cmd(&arg(2), num(3), num(4)),
        "logs" => logs_cmd(&arg(2), num(3), num(4), num(5)),
        _ => {
            eprintln!("usage: sim check PROPERTY | replay FILE | case PROPERTY SEED INDEX | logs PROPERTY SEED FROM TO");
            2
        }
    };
    std::process::exit(code);
}

fn distinct_key(p: &Plan, e: &check::Eval) -> u64 {
    let mut h = mix(e.res.log ^ mix(e.res.sched_hash) ^ e.res.stats.mem_steps);
    for o in &e.res.ops {
        for b in &o.bits {
            h = mix(h ^ b);
        }
        h = mix(h ^ o.kind.len() as u64 ^ o.counts.mem << 8);
    }
    mix(h ^ p.tasks.len() as u64)
}

/// What must be equal when the same plan is run again.
fn fingerprint(r: &RunRes) -> (u64, u64, u64, u64, Option<String>, Option<String>, Vec<(String, Vec<u64>)>) {
    (
        r.log,
        r.nlog,
        r.sched_hash,
        r.stats.mem_steps,
        r.abort.clone(),
        r.died.clone(),
        r.ops.iter().map(|o| (o.kind.clone(), o.bits.clone())).collect(),
    )
}

fn worker(prop: &str, seed: u64, k: u64, n: u64, count: u64, wall: u64) -> i32 {
    let t0 = Instant::now();
    let mut c = Ctx::default();
    let mut s = Summary::default();
    let mut seen = BTreeSet::new();
    let mut i = k;
    let out = std::io::stdout();
    while i < count {
        if t0.elapsed().as_secs() >= wall {
            s.wall_cut = true;
            break;
        }
        let (p, mut e) = check::case(prop, seed, i, &mut c);
        s.cases += 1;
        if (i / n) % 25 == 3 && e.viol.is_none() {
            // the same plan again: the simulation must repeat itself exactly
            let again = exec::run(&p, false, false);
            s.twice += 1;
            if fingerprint(&again) != fingerprint(&e.res) {
                s.twice_bad += 1;
                let outcome = |r: &RunRes| r.ops.iter().map(|o| (o.kind.clone(), o.bits.clone())).collect::<Vec<_>>();
                if prop == "C08" && outcome(&again) != outcome(&e.res) {
                    e.viol = Some(check::Viol { class: "unrepeatable".into(), msg: "the same simulated run gave other coefficients".into() });
                } else {
                    eprintln!("note: case {} of {} did not repeat exactly", i, prop);
                }
            }
        }
        if e.nontrivial {
            s.nontrivial += 1;
            if seen.insert(distinct_key(&p, &e)) && s.samples.len() < 2 && e.viol.is_none() && i / n % 7 == 1 {
                s.samples.push(sample(&p, &e.res));
            }
        }
        if let Some(v) = e.viol {
            let r = Replay {
                property: prop.into(),
                class: v.class,
                message: v.msg,
                seed,
                index: i,
                plan: p,
                log: e.res.log,
                events: e.res.nlog,
                trace: vec![],
                minimiser: String::new(),
            };
            let mut o = out.lock();
            writeln!(o, "{}", json!({ "viol": r })).unwrap();
            o.flush().unwrap();
        }
        i += n;
    }
    s.runs = unsafe { exec::RUNS };
    s.stats = c.stats;
    s.counters = c.counters;
    s.distinct = seen.into_iter().collect();
    let mut o = out.lock();
    writeln!(o, "{}", json!({ "summary": s })).unwrap();
    o.flush().unwrap();
    0
}

fn sample(p: &Plan, r: &RunRes) -> Value {
    let mut q = p.clone();
    let pre = q.preempts.len();
    q.preempts.truncate(6);
    for t in q.tasks.iter_mut() {
        t.truncate(4);
    }
    json!({
        "seed": p.seed, "index": p.index, "mode": p.mode,
        "plan (shortened)": q,
        "planned preemptions": pre,
        "operations": r.ops.iter().take(8).map(|o| format!("task {} op {}: {} {}x{}, {} steps, {} component calls {}", o.task, o.op, o.kind, o.rows, o.cols, o.counts.mem, o.counts.seam, o.msg)).collect::<Vec<_>>(),
        "context switches": r.stats.switches,
        "log hash": format!("{:016x}", r.log),
    })
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Findings recorded in /verif/known-findings.txt: "known: property=ID class=CLASS contains=TEXT"
fn known(prop: &str) -> Vec<(String, String)> {
    let f = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    f.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} class=", prop)))
        .filter_map(|l| l.split_once(" contains=").map(|(a, b)| (a.to_string(), b.to_string())))
        .collect()
}

fn check_cmd(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let b = BUDGET.iter().find(|b| b.0 == prop).expect("unknown property");
    let mut count = if tier == "quick" { b.1 } else { b.2 };
    if let Ok(x) = std::env::var("SIM_CASES") {
        count = x.parse().unwrap();
    }
    let mut wall = if tier == "quick" { WALL_QUICK } else { WALL_THOROUGH };
    if let Ok(x) = std::env::var("SIM_WALL") {
        wall = x.parse().unwrap();
    }
    let keep_going = std::env::var_os("SIM_ALL").is_some();
    println!("{}: seed {} tier {} cases {}", prop, seed, tier, count);
    let exe = std::env::current_exe().unwrap();
    let workers = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(WORKERS);
    let (tx, rx) = std::sync::mpsc::channel::<(u64, Option<Value>)>();
    let mut children = vec![];
    for k in 0..workers {
        let mut ch = Command::new(&exe)
            .args(["worker", prop, &seed.to_string(), &k.to_string(), &workers.to_string(), &count.to_string(), &wall.to_string()])
            .stdout(Stdio::piped())
            .spawn()
            .expect("cannot start a worker");
        let o = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines() {
                match l.ok().and_then(|l| serde_json::from_str::<Value>(&l).ok()) {
                    Some(v) => {
                        if tx.send((k, Some(v))).is_err() {
                            return;
                        }
                    }
                    None => return,
                }
            }
            let _ = tx.send((k, None));
        });
        children.push(ch);
    }
    let known = known(prop);
    let mut tot = Summary::default();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut viols: Vec<Replay> = vec![];
    let mut known_hits: BTreeMap<String, String> = BTreeMap::new();
    let mut done = 0;
    let mut summaries = 0;
    let mut stopping: Option<Instant> = None;
    while done < workers {
        let m = rx.recv_timeout(std::time::Duration::from_millis(500));
        if let Some(t) = stopping {
            // give workers on smaller indices a moment, then stop
            if t.elapsed().as_secs() >= 2 {
                break;
            }
        }
        let (_, v) = match m {
            Ok(x) => x,
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => continue,
            Err(_) => break,
        };
        let v = match v {
            Some(v) => v,
            None => {
                done += 1;
                continue;
            }
        };
        if let Some(s) = v.get("summary") {
            let s: Summary = serde_json::from_value(s.clone()).unwrap();
            summaries += 1;
            tot.cases += s.cases;
            tot.nontrivial += s.nontrivial;
            tot.runs += s.runs;
            tot.twice += s.twice;
            tot.twice_bad += s.twice_bad;
            tot.wall_cut |= s.wall_cut;
            for (k, n) in s.stats {
                *tot.stats.entry(k).or_insert(0) += n;
            }
            for (k, n) in s.counters {
                *tot.counters.entry(k).or_insert(0) += n;
            }
            distinct.extend(s.distinct);
            if tot.samples.len() < 4 {
                tot.samples.extend(s.samples.into_iter().take(1));
            }
        } else if let Some(r) = v.get("viol") {
            let r: Replay = serde_json::from_value(r.clone()).unwrap();
            if let Some((c, t)) = known.iter().find(|(c, t)| *c == r.class && r.message.contains(t.as_str())) {
                known_hits.entry(format!("{} {}", c, t)).or_insert(r.message.clone());
                continue;
            }
            if keep_going {
                println!("case {}: {} {}", r.index, r.class, r.message);
            }
            viols.push(r);
            if stopping.is_none() && !keep_going {
                stopping = Some(Instant::now());
            }
        }
    }
    for c in children.iter_mut() {
        if stopping.is_some() {
            let _ = c.kill();
        }
        match c.wait() {
            Ok(s) if s.success() => {}
            _ if stopping.is_some() => {}
            Ok(s) => {
                eprintln!("worker ended with {}", s);
                return 70;
            }
            Err(_) => return 70,
        }
    }
    if stopping.is_none() && summaries != workers {
        eprintln!("a worker gave no summary");
        return 70;
    }
    for (k, m) in &known_hits {
        println!("KNOWN-FINDING: property={} {}: {}", prop, k, m);
    }
    let mut code = 0;
    viols.sort_by_key(|r| r.index);
    if let Some(first) = viols.first() {
        let mut r = minimise_child(first).unwrap_or_else(|| first.clone());
        r.property = prop.into();
        let dir = format!("{}/replays", verif_dir());
        std::fs::create_dir_all(&dir).unwrap();
        let path = format!("{}/{}-{}-{}.json", dir, prop, seed, r.index);
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        println!("{}: {}", r.class, r.message);
        println!("minimised: {}", r.minimiser);
        println!("replay with: bash {}/tools/replay.sh {}", verif_dir(), path);
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
    }
    let wall_s = t0.elapsed().as_secs_f64();
    evidence(prop, tier, seed, &tot, distinct.len() as u64, viols.len() as u64, wall_s);
    println!(
        "{}: {} cases, {} simulated runs, {} distinct non-trivial, {:.1} s{}",
        prop,
        tot.cases,
        tot.runs,
        distinct.len(),
        wall_s,
        if tot.wall_cut { " (stopped by the clock)" } else { "" }
    );
    if tot.twice_bad > 0 {
        println!("{}: {} of {} repeated runs differed", prop, tot.twice_bad, tot.twice);
    }
    code
}

fn minimise_child(r: &Replay) -> Option<Replay> {
    let mut ch = Command::new(std::env::current_exe().ok()?)
        .arg("minimise")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .ok()?;
    ch.stdin.take()?.write_all(serde_json::to_string(r).ok()?.as_bytes()).ok()?;
    // a run that hangs costs the watchdog's time with every evaluation: give up after a while
    let pid = ch.id() as i32;
    let (done, over) = std::sync::mpsc::channel::<()>();
    let guard = std::thread::spawn(move || {
        if over.recv_timeout(std::time::Duration::from_secs(240)).is_err() {
            exec::end(pid);
        }
    });
    let out = ch.wait_with_output();
    let _ = done.send(());
    let _ = guard.join();
    let out = out.ok()?;
    if !out.status.success() {
        return None;
    }
    serde_json::from_slice(&out.stdout).ok()
}

fn minimise_cmd() -> i32 {
    let r: Replay = serde_json::from_reader(std::io::stdin()).unwrap();
    let m = min::minimise(r);
    println!("{}", serde_json::to_string(&m).unwrap());
    0
}

fn replay_cmd(path: &str) -> i32 {
    let r: Replay = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let mut c = Ctx::default();
    let e = check::evaluate(&r.plan, &mut c);
    let full = exec::run(&r.plan, true, true);
    for l in &full.trace {
        println!("  {}", l);
    }
    println!("log {:016x} ({} events); recorded {:016x} ({} events)", e.res.log, e.res.nlog, r.log, r.events);
    match e.viol {
        Some(v) if v.class == r.class => {
            println!("{}: {}", v.class, v.msg);
            println!("VIOLATION property={} replay={}", r.property, path);
            1
        }
        Some(v) => {
            println!("another violation, {}: {}", v.class, v.msg);
            println!("VIOLATION property={} replay={}", r.property, path);
            1
        }
        None => {
            println!("no violation: the recorded one was {}: {}", r.class, r.message);
            0
        }
    }
}

fn case_cmd(prop: &str, seed: u64, index: u64) -> i32 {
    let mut c = Ctx::default();
    let (p, e) = check::case(prop, seed, index, &mut c);
    println!("{}", serde_json::to_string(&p).unwrap());
    for o in &e.res.ops {
        println!(
            "task {} op {}: {} {} {}x{} mem {} seam {} arith {} shared {} allocs {} writes {}",
            o.task, o.op, o.kind, o.msg, o.rows, o.cols, o.counts.mem, o.counts.seam, o.counts.arith, o.counts.shared_n, o.counts.alloc_n, o.counts.writes
        );
    }
    println!("{:?}", e.res.stats);
    println!("died {:?} abort {:?} violations {:?}", e.res.died, e.res.abort, e.res.violations);
    println!("nontrivial {} {:?}", e.nontrivial, e.viol);
    e.viol.is_some() as i32
}

/// Event-log hashes of a range of cases, to compare between processes and worker counts.
fn logs_cmd(prop: &str, seed: u64, from: u64, to: u64) -> i32 {
    let mut c = Ctx::default();
    let step = arg(6).parse::<u64>().unwrap_or(1).max(1);
    let mut i = from;
    while i < to {
        let (_, e) = check::case(prop, seed, i, &mut c);
        let f = fingerprint(&e.res);
        let mut h = 0;
        for (k, b) in &f.6 {
            for x in b {
                h = mix(h ^ x);
            }
            h = mix(h ^ k.len() as u64);
        }
        println!("{} {:016x} {} {:016x} {} {:016x} {:?} {:?}", i, f.0, f.1, f.2, f.3, h, f.4, f.5);
        i += step;
    }
    0
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "A case is 2-4 tasks of 1-3 fits on a pool of shared datasets and objects, with a seeded schedule (uniform, at shared accesses, at allocations, quantum, burst, few-switch), clock, entropy and allocator behaviour. Non-trivial: more context switches happened than there are tasks, and the run's event log, schedule and results are distinct.",
        "C02" => "A case is 1-3 tasks of 2-5 fits re-using the same objects, most abandoned by an injected panic at a seeded arithmetic operation or component call, or failing by themselves. Non-trivial: at least one fit was abandoned or failed, and the run is distinct.",
        "C03" => "A case is 1-3 tasks of verbose fits whose writes to standard output meet a seeded sequence of faults (errors, short and empty writes, interruptions, stalls). Non-trivial: at least one fault hit a write, and the run is distinct.",
        "C13" => "A case is 1-4 tasks of verbose fits, some abandoned by panics, whose scheduling concentrates on calls of the output machinery and whose writes may be short, interrupted or stalled. The output stream is parsed as an interleaving of the lines of each fit alone. Non-trivial: lines of different tasks alternate or a fault or panic hit, and the run is distinct.",
        "C14" => "A case is 2-4 tasks; one (now and then two) runs its fits in processes forked at that moment, each fit twice, while the others' fits are interleaved with it by a seeded schedule. Threads of the parent do not exist in the forked process: a wait for one of them is a deadlock. Every fit is compared with the same fit alone in a fresh process. Non-trivial: a fork happened while another task was inside a fit, and the run is distinct.",
        "C16" => "A case is one or two tasks whose fits mostly run with components of the caller (targets, design matrix, datafit, penalty). At seeded component calls a fit is put aside on its thread and the component runs another fit - the same one, nearly the same, or any other; alone, panicking, abandoned, or itself starting a third - before it answers. Inner and outer fits are compared bit for bit with the same fits alone in fresh processes. Non-trivial: at least one inner fit ran, and the run is distinct.",
        "C04" => "A case is one problem fitted again and again with its budget cut after each iteration or epoch. Non-trivial: the objective strictly decreased at two or more cuts, and the run is distinct.",
        "C05" => "A case is one fit, with or without a window of wrong but finite answers by its components. Non-trivial: it was judged by the independent optimality conditions (and, with faults planned, at least one fired), and the run is distinct.",
        "C06" => "A case is one fit whose data, sparse structure, settings or component answers are corrupted. Non-trivial: the stored data was corrupted or a component fault fired, and the run is distinct.",
        "C07" => "A case is 1-2 tasks of fits whose components record and check every call, half of them with wrong answers injected. Non-trivial: more than one optimality check and at least one proximal step were observed, and the run is distinct.",
        "C08" => "A case is a history of fits, in-place modifications, releases and re-creations of datasets under a seeded clock, entropy, environment and allocator, each fit compared with the same fit alone in a fresh process. Non-trivial: every case whose run is distinct.",
        _ => "A case repeats a program of completed, failed and abandoned fits for many rounds, in one thread or in new threads each round. Non-trivial: four or more rounds were measured, and the run is distinct.",
    }
}

fn evidence(prop: &str, tier: &str, seed: u64, t: &Summary, distinct: u64, viols: u64, wall_s: f64) {
    let g = |k: &str| *t.stats.get(k).unwrap_or(&0);
    let per_hour = |n: u64| (n as f64 / wall_s.max(1e-9) * 3600.0).round() as u64;
    let e = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.cases,
            "distinct_nontrivial": distinct,
            "rule": rule(prop),
            "samples": t.samples,
            "simulated runs (one process each)": t.runs,
            "simulated runs per hour": per_hour(t.runs),
            "seeds (cases) per hour": per_hour(t.cases),
            "simulated time": {
                "scheduler steps (instrumented accesses and basic blocks)": g("mem_steps"),
                "simulated seconds": g("sim_ns") as f64 / 1e9,
            },
            "schedule": {
                "context switches": g("switches"),
                "planned preemptions that happened": g("planned_hit"),
                "fits started from component calls of other fits": g("nested_fits"),
                "of these, started from a fit so started": g("nested_in_nested"),
                "forks": g("forks"),
                "forks while another task was inside a fit": g("forks_mid_fit"),
                "futex waits": g("futex_waits"),
                "futex wakes": g("futex_wakes"),
                "accesses to memory shared between operations": g("shared_touches"),
                "allocations and releases": g("allocs"),
                "component calls": g("seam_calls"),
                "scalar operations of the crashing element type": g("arith_ops"),
            },
            "faults injected": {
                "panics at arithmetic or component calls": g("crashes"),
                "wrong component answers": g("component_faults"),
                "output errors": g("wf_err"),
                "short writes": g("wf_short"),
                "empty writes": g("wf_zero"),
                "stalled writes": g("wf_stall"),
                "clock jumps": g("clock_jumps"),
            },
            "nondeterminism answered by the plan": {
                "clock reads": g("clock_reads"),
                "entropy reads": g("entropy_reads"),
                "environment reads": g("env_reads"),
                "processor count reads": g("cpu_reads"),
                "threads created by the code under test": g("spawned_threads"),
                "file opens (on a simulated disk)": g("opens"),
                "file writes": g("file_writes"),
                "writes": g("writes"),
            },
            "counters": t.counters,
            "runs repeated to check determinism": t.twice,
            "repeated runs that differed": t.twice_bad,
            "real code": "sparseglm (all of it), ndarray, num-traits, std; compiled from /repo's working tree with load/store/basic-block instrumentation",
            "stubs": "allocator, futex, thread creation, clock, entropy, environment, processor count, file opening and output below libc; element type SimF (f64 with a crash point per operation); targets, design matrix, datafit and penalty wrappers around the library's own",
            "stopped by the clock": t.wall_cut,
        },
        "assumptions": [
            "interleavings are explored at the granularity of instrumented loads, stores and basic blocks under sequential consistency: no weak-memory effects",
            "a clean batch is evidence over the sampled schedules and faults, not a proof",
        ],
        "wall_s": wall_s,
        "violations": viols,
    });
    let dir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&e).unwrap()).unwrap();
}
