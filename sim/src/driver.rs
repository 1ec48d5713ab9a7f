//! Hands out runs to workers, collects reports, minimises and records violations, writes evidence.
use crate::alloc::{BUDGET_EXIT, MEMORY_EXIT};
use crate::props::{self, Prop};
use crate::report::{Report, Violation};
use crate::util::clip;
use crate::worker::{HEAD, MSG_MAX, seed_of};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Instant;

struct Worker {
    child: Child,
    tx: ChildStdin,
    rx: ChildStdout,
}
impl Worker {
    fn new(id: &str) -> Worker {
        let exe = std::env::current_exe().unwrap();
        let mut c = Command::new(exe);
        c.args(["worker", id]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit());
        // the same environment for every worker, wherever it runs
        c.env_clear().env("TZ", "UTC").env("LC_ALL", "C");
        if let Ok(d) = std::env::var("RNGSIM_TMP") {
            c.env("RNGSIM_TMP", d);
        }
        unsafe {
            c.pre_exec(|| {
                // not permitted everywhere; heap addresses then vary from run to run
                libc::personality(0x0040000);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("worker");
        Worker { tx: child.stdin.take().unwrap(), rx: child.stdout.take().unwrap(), child }
    }
    fn call(&mut self, kind: u8, thorough: bool, seed: u64, index: u64, payload: &[u8]) -> std::io::Result<(i32, Vec<u8>)> {
        assert!(payload.len() <= MSG_MAX);
        let mut h = Vec::with_capacity(HEAD + payload.len());
        h.push(kind);
        h.push(thorough as u8);
        h.extend(seed.to_le_bytes());
        h.extend(index.to_le_bytes());
        h.extend((payload.len() as u64).to_le_bytes());
        h.extend(payload);
        self.tx.write_all(&h)?;
        let mut b = [0u8; 12];
        self.rx.read_exact(&mut b)?;
        let st = i32::from_le_bytes(b[..4].try_into().unwrap());
        let n = u64::from_le_bytes(b[4..].try_into().unwrap()) as usize;
        let mut v = vec![0; n];
        self.rx.read_exact(&mut v)?;
        Ok((st, v))
    }
    fn report(&mut self, kind: u8, thorough: bool, seed: u64, index: u64, payload: &[u8]) -> Result<Report, String> {
        let (st, v) = self.call(kind, thorough, seed, index, payload).map_err(|e| format!("worker: {e}"))?;
        let crash = |class: &str, detail: String| {
            Ok(Report { violation: Some(Violation { class: class.into(), detail }), nontrivial: true, ..Default::default() })
        };
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGALRM || s == libc::SIGXCPU {
                return crash("hang", "the run did not end".into());
            }
            if s == libc::SIGKILL {
                return Err("a run was killed (out of memory?)".into());
            }
            return crash("crash", format!("killed by signal {s}"));
        }
        match libc::WEXITSTATUS(st) {
            0 => serde_json::from_slice(&v).map_err(|e| format!("report: {e}")),
            BUDGET_EXIT => crash("hang", "the run used up its budget of steps (allocations)".into()),
            MEMORY_EXIT => crash("memory", "the run used up its budget of memory".into()),
            85 => Err(format!("the harness panicked in run {index}: {}", String::from_utf8_lossy(&v))),
            n => Err(format!("run {index} ended with status {n}")),
        }
    }
    fn scenario(&mut self, thorough: bool, seed: u64, index: u64) -> Result<Value, String> {
        let (st, v) = self.call(2, thorough, seed, index, &[]).map_err(|e| format!("worker: {e}"))?;
        if st != 0 {
            return Err(format!("cannot generate scenario {index}: status {st}"));
        }
        serde_json::from_slice(&v).map_err(|e| e.to_string())
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn home() -> PathBuf {
    PathBuf::from(std::env::var("RNGSIM_HOME").unwrap_or_else(|_| "/verif".into()))
}
fn opt<'a>(a: &[&'a str], k: &str) -> Option<&'a str> {
    a.iter().position(|x| *x == k).and_then(|i| a.get(i + 1)).copied()
}

pub fn main(a: &[&str]) -> i32 {
    // scratch space for the runs that need real files (the plans of the real program)
    let tmp = std::env::temp_dir().join(format!("rngsim-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&tmp);
    unsafe { std::env::set_var("RNGSIM_TMP", &tmp) };
    let r = match a.first().copied() {
        Some("check") if a.len() >= 2 => check(a[1], a),
        Some("replay") if a.len() >= 2 => replay(a[1]),
        Some("show") if a.len() >= 3 => show(a[1], a),
        Some("run") if a.len() >= 3 => run_one(a[1], a),
        Some("selftest") => selftest(a),
        _ => {
            eprintln!("usage: rngsim check ID [--tier quick|thorough] [--seed N] [--runs N] [--jobs N] | replay FILE | show ID INDEX [--seed N] | run ID INDEX [--seed N] | selftest");
            Ok(4)
        }
    };
    let _ = std::fs::remove_dir_all(&tmp);
    match r {
        Ok(n) => n,
        Err(e) => {
            eprintln!("error of the check: {e}");
            3
        }
    }
}

fn seed_arg(a: &[&str]) -> u64 {
    opt(a, "--seed")
        .map(|s| s.to_string())
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1)
}
fn tier_arg(a: &[&str]) -> bool {
    let t = opt(a, "--tier").map(|s| s.to_string()).or_else(|| std::env::var("VERIF_TIER").ok());
    t.as_deref() == Some("thorough")
}
fn prop(id: &str) -> Result<Prop, String> {
    props::all().into_iter().find(|p| p.id == id).ok_or_else(|| format!("no check for {id}"))
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    skipped: BTreeMap<String, u64>,
    steps: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    states: HashSet<u64>,
    nontrivial_states: HashSet<u64>,
    digest: u64,
    bad: Vec<(u64, Violation)>,
    known: BTreeMap<String, u64>,
    error: Option<String>,
}

struct Known {
    class: String,
    needle: String,
    text: String,
}
/// lines "known: property=<id> class=<class> detail~<text of the detail> -- <what fails>"
fn known(id: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(home().join("known-findings.txt")) else {
        return vec![];
    };
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let (head, text) = l.split_once(" -- ")?;
            let rest = head.strip_prefix(&format!("property={id} class="))?;
            let (class, needle) = rest.split_once(" detail~")?;
            Some(Known { class: class.into(), needle: needle.into(), text: text.into() })
        })
        .collect()
}

fn explore(p: &Prop, thorough: bool, seed: u64, runs: u64, jobs: usize, known: &[Known], max_secs: u64) -> Totals {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let totals = Mutex::new(Totals::default());
    let start = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| {
                let mut w = Worker::new(p.id);
                loop {
                    if stop.load(Ordering::SeqCst) || start.elapsed().as_secs() >= max_secs {
                        return;
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= runs {
                        return;
                    }
                    let r = w.report(0, thorough, seed, i, &[]);
                    let mut t = totals.lock().unwrap();
                    match r {
                        Err(e) => {
                            t.error.get_or_insert(format!("run {i}: {e}"));
                            stop.store(true, Ordering::SeqCst);
                            return;
                        }
                        Ok(r) => {
                            t.runs += 1;
                            t.steps += r.steps;
                            for (k, v) in &r.faults {
                                *t.faults.entry(k.clone()).or_default() += v;
                            }
                            for (k, v) in &r.probes {
                                *t.probes.entry(k.clone()).or_default() += v;
                            }
                            t.states.insert(r.state);
                            t.digest ^= crate::util::mix(r.state ^ crate::util::mix(i));
                            if let Some(s) = &r.skip {
                                *t.skipped.entry(s.clone()).or_default() += 1;
                            } else if r.nontrivial {
                                t.nontrivial += 1;
                                t.nontrivial_states.insert(r.state);
                            }
                            if let Some(v) = r.violation {
                                if let Some(k) = known.iter().find(|k| k.class == v.class && v.detail.contains(&k.needle)) {
                                    *t.known.entry(k.text.clone()).or_default() += 1;
                                } else {
                                    t.bad.push((i, v));
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    totals.into_inner().unwrap()
}

fn jobs_arg(a: &[&str]) -> usize {
    opt(a, "--jobs")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16))
}

fn check(id: &str, a: &[&str]) -> Result<i32, String> {
    let p = prop(id)?;
    let thorough = tier_arg(a);
    let seed = seed_arg(a);
    let runs = opt(a, "--runs")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { p.thorough } else { p.quick });
    let jobs = jobs_arg(a);
    let start = Instant::now();
    let known = known(id);
    // the number of runs decides; the time limit only guards against a machine that is far too slow
    let max = if thorough { 14_400 } else { 600 };
    let t = explore(&p, thorough, seed, runs, jobs, &known, max);
    if let Some(e) = &t.error {
        return Err(e.clone());
    }
    for k in &known {
        println!("KNOWN-FINDING: property={id} {}", k.text);
    }
    let mut code = 0;
    let mut found = None;
    if let Some((i, v)) = t.bad.iter().min_by_key(|b| b.0) {
        let file = minimise(&p, thorough, seed, *i, v)?;
        println!("run {i} of seed {seed}: {}", v.class);
        println!("VIOLATION property={id} replay={}", file.display());
        found = Some(file);
        code = 1;
    }
    evidence(&p, &t, thorough, seed, jobs, start.elapsed().as_secs_f64(), found.as_deref(), a)?;
    if code == 0 {
        println!(
            "{id}: held on {} runs ({} non-trivial, {} distinct), {} faults took effect, {:.1} s",
            t.runs,
            t.nontrivial,
            t.nontrivial_states.len(),
            t.faults.values().sum::<u64>(),
            start.elapsed().as_secs_f64()
        );
        if opt(a, "--verbose").is_some() || a.contains(&"-v") {
            println!("  faults {:?}\n  probes {:?}\n  skipped {:?}", t.faults, t.probes, t.skipped);
        }
    }
    Ok(code)
}

fn evidence(p: &Prop, t: &Totals, thorough: bool, seed: u64, jobs: usize, wall: f64, found: Option<&Path>, a: &[&str]) -> Result<(), String> {
    if opt(a, "--runs").is_some() {
        return Ok(());
    }
    let mut w = Worker::new(p.id);
    let mut samples = vec![];
    let mut i = 0;
    while samples.len() < 2 && i < 50 && i < t.runs {
        let s = w.scenario(thorough, seed, i)?;
        let r = w.report(1, thorough, seed, i, s.to_string().as_bytes())?;
        if r.nontrivial && r.skip.is_none() {
            let mut s = s;
            shorten(&mut s);
            samples.push(json!({"run": i, "seed": seed_of(p.id, seed, i), "scenario": s, "faults_fired": r.faults, "probes": r.probes, "steps": r.steps}));
        }
        i += 1;
    }
    let per_hour = |n: u64| if wall > 0.0 { (n as f64 / wall * 3600.0) as u64 } else { 0 };
    let e = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial_states.len(),
            "rule": format!("{} Distinct: by the hash of the run's trace (order of I/O operations, faults and results).", p.rule),
            "samples": samples,
            "simulated_runs_per_hour": per_hour(t.runs),
            "seeds_per_hour": per_hour(t.runs),
            "simulated_time": {"unit": "logical steps (simulated I/O calls, session steps, compiles); the code under test reads no clock", "steps": t.steps},
            "faults_injected": t.faults,
            "distinct_traces": t.states.len(),
            "probes": t.probes,
            "skipped": t.skipped,
            "runs_nontrivial": t.nontrivial,
            "real_components": p.real,
            "stub_components": p.stub,
            "workers": jobs,
            "known_findings_seen": t.known,
            "replay": found.map(|f| f.display().to_string()),
        },
        "assumptions": [
            "one seed is one exactly repeatable run: every random choice of the simulator comes from the seed, and the hash seeds and I/O of the code under test come from the simulator",
            "runs are sampled, not enumerated"
        ],
        "wall_s": wall,
        "violations": t.bad.len(),
    });
    let dir = home().join("evidence");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&e).unwrap()).map_err(|e| e.to_string())
}

fn shorten(v: &mut Value) {
    match v {
        Value::String(s) if s.len() > 1500 => *s = clip(s, 1500),
        Value::Array(a) => {
            a.truncate(40);
            a.iter_mut().for_each(shorten)
        }
        Value::Object(o) => o.values_mut().for_each(shorten),
        _ => {}
    }
}

/// reduce the lists of the scenario as long as the same kind of violation remains
fn minimise(p: &Prop, thorough: bool, seed: u64, index: u64, v: &Violation) -> Result<PathBuf, String> {
    let mut w = Worker::new(p.id);
    let mut sc = w.scenario(thorough, seed, index)?;
    let start = Instant::now();
    let mut tries = 0;
    let fails = |w: &mut Worker, s: &Value, tries: &mut u32| -> Option<Report> {
        if *tries > 1500 || start.elapsed().as_secs() > 90 {
            return None;
        }
        *tries += 1;
        match w.report(1, thorough, seed, index, s.to_string().as_bytes()) {
            Ok(r) if r.skip.is_none() && r.violation.as_ref().is_some_and(|x| x.class == v.class) => Some(r),
            Ok(_) => None,
            Err(_) => {
                *w = Worker::new(p.id);
                None
            }
        }
    };
    let mut last = fails(&mut w, &sc, &mut tries);
    let hang = v.class == "hang";
    if last.is_some() && !hang {
        loop {
            let before = sc.to_string().len();
            for ptr in p.shrink {
                let Some(n) = sc.pointer(ptr).and_then(|x| x.as_array()).map(|x| x.len()) else { continue };
                let mut size = n.div_ceil(2);
                while size >= 1 {
                    let mut at = 0;
                    while at < sc.pointer(ptr).unwrap().as_array().unwrap().len() {
                        let mut t = sc.clone();
                        let arr = t.pointer_mut(ptr).unwrap().as_array_mut().unwrap();
                        let end = (at + size).min(arr.len());
                        arr.drain(at..end);
                        if let Some(r) = fails(&mut w, &t, &mut tries) {
                            sc = t;
                            last = Some(r);
                        } else {
                            at += size;
                        }
                    }
                    if size == 1 {
                        break;
                    }
                    size = size.div_ceil(2);
                }
            }
            if sc.to_string().len() >= before {
                break;
            }
        }
    }
    // confirm, in a fresh process, twice
    let mut confirmed = 0;
    let times = if hang { 1 } else { 2 };
    for _ in 0..times {
        let mut w = Worker::new(p.id);
        if let Ok(r) = w.report(1, thorough, seed, index, sc.to_string().as_bytes()) {
            if r.violation.as_ref().is_some_and(|x| x.class == v.class) {
                confirmed += 1;
            }
        }
    }
    let shown = last.as_ref().and_then(|r| r.violation.clone()).unwrap_or_else(|| v.clone());
    let dir = home().join("replays");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let file = dir.join(format!("{}-{:016x}.json", p.id, crate::util::hash_str(&sc.to_string())));
    let out = json!({
        "property": p.id,
        "verif_seed": seed,
        "run": index,
        "run_seed": seed_of(p.id, seed, index),
        "class": shown.class,
        "detail": shown.detail,
        "trace_hash": last.as_ref().map(|r| format!("{:016x}", r.state)),
        "reproduced": format!("{confirmed} of {times} times in a fresh process"),
        "thorough": thorough,
        "scenario": sc,
    });
    std::fs::write(&file, serde_json::to_string_pretty(&out).unwrap()).map_err(|e| e.to_string())?;
    println!("{}", clip(&shown.detail, 3000));
    Ok(file)
}

fn replay(f: &str) -> Result<i32, String> {
    let t = std::fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?;
    let v: Value = serde_json::from_str(&t).map_err(|e| format!("{f}: {e}"))?;
    let id = v["property"].as_str().unwrap_or_default();
    let p = prop(id)?;
    let mut w = Worker::new(p.id);
    let r = w.report(1, v["thorough"].as_bool().unwrap_or(false), v["verif_seed"].as_u64().unwrap_or(1), v["run"].as_u64().unwrap_or(0), v["scenario"].to_string().as_bytes())?;
    match r.violation {
        Some(x) => {
            println!("{}: {}", x.class, x.detail);
            if let Some(h) = v["trace_hash"].as_str() {
                println!("trace hash {:016x}, recorded {h}: {}", r.state, if h == format!("{:016x}", r.state) { "the same execution" } else { "another execution (the code has changed)" });
            }
            println!("VIOLATION property={id} replay={f}");
            Ok(1)
        }
        None => {
            println!("{id}: the recorded scenario does not violate the property{}", r.skip.map(|s| format!(" ({s})")).unwrap_or_default());
            Ok(0)
        }
    }
}

fn show(id: &str, a: &[&str]) -> Result<i32, String> {
    let p = prop(id)?;
    let i = a[2].parse().map_err(|_| "index")?;
    let s = Worker::new(p.id).scenario(tier_arg(a), seed_arg(a), i)?;
    if a.contains(&"--text") {
        pretty(&s, "");
    } else {
        println!("{}", serde_json::to_string_pretty(&s).unwrap());
    }
    Ok(0)
}
fn pretty(v: &Value, path: &str) {
    match v {
        Value::String(s) if s.contains('\n') => println!("---- {path}\n{s}"),
        Value::Array(x) => x.iter().enumerate().for_each(|(i, y)| pretty(y, &format!("{path}/{i}"))),
        Value::Object(x) => x.iter().for_each(|(k, y)| pretty(y, &format!("{path}/{k}"))),
        x => println!("{path}: {x}"),
    }
}

fn run_one(id: &str, a: &[&str]) -> Result<i32, String> {
    let p = prop(id)?;
    let i = a[2].parse().map_err(|_| "index")?;
    let r = Worker::new(p.id).report(0, tier_arg(a), seed_arg(a), i, &[])?;
    println!("{}", serde_json::to_string_pretty(&r).unwrap());
    if let Some(v) = &r.violation {
        println!("{}: {}", v.class, v.detail);
    }
    Ok(r.violation.is_some() as i32)
}

/// the same seeds must give the same executions, however many workers there are
fn selftest(a: &[&str]) -> Result<i32, String> {
    let n = opt(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(300);
    for p in props::all() {
        if a.get(1).is_some_and(|x| x.starts_with('C') && *x != p.id) {
            continue;
        }
        let n = n.min(p.quick);
        let x = explore(&p, false, 77, n, 8, &[], 600);
        let y = explore(&p, false, 77, n, 3, &[], 600);
        let z = explore(&p, false, 77, n, 8, &[], 600);
        for t in [&x, &y, &z] {
            if let Some(e) = &t.error {
                return Err(e.clone());
            }
        }
        if x.digest != y.digest || x.digest != z.digest || x.steps != y.steps {
            println!("{}: NOT deterministic", p.id);
            return Ok(1);
        }
        println!("{}: {} runs, three times the same executions ({:016x})", p.id, x.runs, x.digest);
    }
    Ok(0)
}
