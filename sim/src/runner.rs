//! Runs many simulated executions, each in its own freshly forked process, minimises the
//! first failure of each class, and writes the evidence file.
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};

use crate::ctx::*;

/// What the per-property code provides.
pub trait Scenario {
    /// What all runs share, made before they are forked.
    fn prepare(&self, _seed: u64, _thorough: bool) {}
    fn run(&self, ctx: &mut Ctx) -> Res;
}

pub struct Spec {
    pub id: &'static str,
    pub scenario: Box<dyn Scenario>,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub verif_seed: u64,
    pub tier: String,
    pub run: u64,
    pub seed: u64,
    pub class: String,
    pub message: String,
    pub hash: u64,
    pub overrides: BTreeMap<String, u64>,
    pub minimised_trace: BTreeMap<String, u64>,
    pub original_trace_len: usize,
    pub minimised_trace_len: usize,
    pub log: Vec<String>,
}

pub fn run_seed(verif_seed: u64, prop: &str, run: u64) -> u64 {
    let b = keyed(verif_seed, &format!("{prop}/run/{run}"), 8);
    u64::from_le_bytes(b.try_into().unwrap())
}

thread_local!(static PANIC: std::cell::RefCell<Option<(String, String)>> = std::cell::RefCell::new(None));

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
pub fn take_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

/// Calls into the system under test where a panic is itself the observation.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(take_panic().unwrap_or_default()),
    }
}

fn execute(spec: &Spec, run: u64, seed: u64, overrides: BTreeMap<String, u64>, keep_log: bool, thorough: bool) -> Outcome {
    crate::ambient::enter(mix(seed ^ 0xC10C));
    getrandom::sim::seed(mix(seed ^ 0xA3B1E47));
    maybe_rayon::sim::sequential();
    let mut ctx = Ctx::new(seed, overrides, thorough);
    ctx.keep_log = keep_log;
    let r = catch_unwind(AssertUnwindSafe(|| spec.scenario.run(&mut ctx)));
    let v = match r {
        Ok(Ok(())) => None,
        Ok(Err(Stop::Violation(v))) => Some(v),
        Err(_) => {
            let (loc, msg) = take_panic().unwrap_or_default();
            // The location's line number is noise for classification.
            let file = loc.rsplit_once(':').map(|x| x.0.to_string()).unwrap_or(loc.clone());
            let file = file.rsplit('/').next().unwrap_or("").to_string();
            ctx.log(format!("PANIC {msg} at {file}"));
            Some(Violation { class: format!("panic@{file}"), message: format!("panicked at {loc}: {msg}") })
        }
    };
    ctx.into_outcome(run, v)
}

struct Child {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    run: u64,
    seed: u64,
    started: Instant,
}

/// A run that takes this long is not going to finish: the longest take a few seconds.
const CHILD_TIMEOUT: Duration = Duration::from_secs(100);

fn spawn(spec: &Spec, run: u64, seed: u64, overrides: &BTreeMap<String, u64>, keep_log: bool, thorough: bool) -> Child {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            let out = execute(spec, run, seed, overrides.clone(), keep_log, thorough);
            let s = serde_json::to_vec(&out).unwrap_or_default();
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&s);
            let _ = f.flush();
            libc::_exit(0);
        }
        libc::close(fds[1]);
        libc::fcntl(fds[0], libc::F_SETFL, libc::O_NONBLOCK);
        Child { pid, fd: fds[0], buf: vec![], run, seed, started: Instant::now() }
    }
}

fn finish(c: Child, timed_out: bool) -> Outcome {
    unsafe {
        if timed_out {
            libc::kill(c.pid, libc::SIGKILL);
        }
        libc::close(c.fd);
        let mut status = 0;
        libc::waitpid(c.pid, &mut status, 0);
        match serde_json::from_slice::<Outcome>(&c.buf) {
            Ok(o) => o,
            Err(_) => {
                let (class, message) = if timed_out {
                    ("no-progress".to_string(), format!("run did not finish within {}s", CHILD_TIMEOUT.as_secs()))
                } else if libc::WIFSIGNALED(status) {
                    let s = libc::WTERMSIG(status);
                    if s == libc::SIGKILL {
                        // Not the code under test: somebody outside ended it (memory guard).
                        ("harness-killed".to_string(), "run was killed from outside".to_string())
                    } else {
                        (format!("died-signal-{s}"), format!("simulated process died with signal {s}"))
                    }
                } else {
                    ("harness-exit".to_string(), format!("run ended without a report (status {status})"))
                };
                Outcome { run: c.run, seed: c.seed, violation: Some(Violation { class, message }), ..Default::default() }
            }
        }
    }
}

pub fn run_one(spec: &Spec, run: u64, seed: u64, overrides: &BTreeMap<String, u64>, keep_log: bool, thorough: bool) -> Outcome {
    let mut out = None;
    pool(spec, vec![(run, seed, overrides.clone())], 1, keep_log, thorough, None, |o| {
        out = Some(o);
        true
    });
    out.unwrap()
}

/// Runs the given jobs with at most `jobs` processes; `sink` gets outcomes in completion
/// order and returns false to stop starting new runs.
fn pool(
    spec: &Spec,
    work: Vec<(u64, u64, BTreeMap<String, u64>)>,
    jobs: usize,
    keep_log: bool,
    thorough: bool,
    deadline: Option<Instant>,
    mut sink: impl FnMut(Outcome) -> bool,
) {
    let mut work = work.into_iter();
    let mut live: Vec<Child> = vec![];
    let mut stop = false;
    loop {
        while !stop && live.len() < jobs && deadline.map_or(true, |d| Instant::now() < d) {
            match work.next() {
                Some((run, seed, ov)) => live.push(spawn(spec, run, seed, &ov, keep_log, thorough)),
                None => break,
            }
        }
        if live.is_empty() {
            return;
        }
        let mut pfds: Vec<libc::pollfd> = live.iter().map(|c| libc::pollfd { fd: c.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pfds.as_mut_ptr(), pfds.len() as u64, 1000) };
        let mut done = vec![];
        for (i, p) in pfds.iter().enumerate() {
            if p.revents != 0 {
                let mut tmp = [0u8; 65536];
                loop {
                    let n = unsafe { libc::read(live[i].fd, tmp.as_mut_ptr() as *mut _, tmp.len()) };
                    if n > 0 {
                        live[i].buf.extend_from_slice(&tmp[..n as usize]);
                    } else if n == 0 {
                        done.push((i, false));
                        break;
                    } else {
                        break;
                    }
                }
            } else if live[i].started.elapsed() > CHILD_TIMEOUT {
                done.push((i, true));
            }
        }
        for (i, to) in done.into_iter().rev() {
            let o = finish(live.remove(i), to);
            if !sink(o) {
                stop = true;
            }
        }
    }
}

pub fn jobs() -> usize {
    std::env::var("SIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    })
}

pub fn read_replay(path: &Path) -> Replay {
    let mut s = String::new();
    std::fs::File::open(path).expect("replay file").read_to_string(&mut s).unwrap();
    serde_json::from_str(&s).expect("replay file format")
}

/// Re-executes a replay file. Returns true when it reproduces the recorded violation.
pub fn replay(spec: &Spec, r: &Replay) -> bool {
    let o = run_one(spec, r.run, r.seed, &r.overrides, true, r.tier == "thorough");
    for l in &o.log {
        println!("{l}");
    }
    match &o.violation {
        Some(v) => {
            println!("reproduced: {} — {}", v.class, v.message);
            println!("event log hash {:016x} (recorded {:016x})", o.hash, r.hash);
            v.class == r.class && o.hash == r.hash
        }
        None => {
            println!("not reproduced");
            false
        }
    }
}

fn minimise(spec: &Spec, first: &Outcome, thorough: bool, budget: Duration) -> (BTreeMap<String, u64>, Outcome) {
    let class = first.violation.as_ref().unwrap().class.clone();
    if class == "no-progress" && first.trace.is_empty() {
        // Killed from here: there is no trace to minimise, and every attempt takes as long.
        return (BTreeMap::new(), first.clone());
    }
    let start = Instant::now();
    let mut overrides: BTreeMap<String, u64> = BTreeMap::new();
    let mut best = first.clone();
    let jobs = jobs();
    // Try a set of candidate override maps at once; take the first (by index) that still fails.
    let try_all = |cands: Vec<BTreeMap<String, u64>>| -> Option<(usize, Outcome)> {
        let work: Vec<_> = cands.iter().enumerate().map(|(i, ov)| (i as u64, first.seed, ov.clone())).collect();
        let mut hits: BTreeMap<u64, Outcome> = BTreeMap::new();
        pool(spec, work, jobs, false, thorough, None, |o| {
            if o.violation.as_ref().map(|v| v.class == class).unwrap_or(false) {
                hits.insert(o.run, o);
            }
            true
        });
        hits.into_iter().next().map(|(i, o)| (i as usize, o))
    };
    let mut chunk = (best.trace.len() / 2).max(1);
    while start.elapsed() < budget {
        let keys: Vec<String> = best.trace.keys().cloned().collect();
        if keys.is_empty() {
            break;
        }
        let groups: Vec<Vec<String>> = keys.chunks(chunk).map(|c| c.to_vec()).collect();
        let mut progressed = false;
        let mut gi = 0;
        while gi < groups.len() && start.elapsed() < budget {
            let batch: Vec<BTreeMap<String, u64>> = groups[gi..(gi + jobs).min(groups.len())]
                .iter()
                .map(|g| {
                    let mut ov = overrides.clone();
                    for k in g {
                        ov.insert(k.clone(), 0);
                    }
                    ov
                })
                .collect();
            let n = batch.len();
            match try_all(batch.clone()) {
                Some((i, o)) => {
                    overrides = batch[i].clone();
                    best = o;
                    progressed = true;
                    gi += i + 1;
                }
                None => gi += n,
            }
        }
        if !progressed {
            if chunk == 1 {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
    }
    // Shrink remaining values towards 1.
    let keys: Vec<String> = best.trace.keys().cloned().collect();
    for k in keys {
        if start.elapsed() > budget {
            break;
        }
        let Some(&v) = best.trace.get(&k) else { continue };
        if v > 1 {
            let cands: Vec<_> = [1, v / 2]
                .iter()
                .filter(|x| **x < v && **x > 0)
                .map(|x| {
                    let mut ov = overrides.clone();
                    ov.insert(k.clone(), *x);
                    ov
                })
                .collect();
            if let Some((i, o)) = try_all(cands.clone()) {
                overrides = cands[i].clone();
                best = o;
            }
        }
    }
    // Pin what is left, so the file does not depend on the seed for the decisions it shows.
    for (k, v) in &best.trace {
        overrides.insert(k.clone(), *v);
    }
    let o = run_one(spec, first.run, first.seed, &overrides, true, thorough);
    if o.violation.as_ref().map(|v| v.class == class).unwrap_or(false) {
        (overrides, o)
    } else {
        let o = run_one(spec, first.run, first.seed, &BTreeMap::new(), true, thorough);
        (BTreeMap::new(), o)
    }
}

pub const SETUP: &str = "panic-in-setup";
/// The code under test panicked while making what all runs share (keys, proven bundles).
pub fn setup_failed(spec: &Spec, verif_dir: &Path, tier: &str, verif_seed: u64, setup_s: f64, at: &str, msg: &str) -> i32 {
    let message = format!("panicked at {at}: {msg}");
    let r = Replay {
        property: spec.id.into(),
        verif_seed,
        tier: tier.into(),
        run: 0,
        seed: verif_seed,
        class: SETUP.into(),
        message: message.clone(),
        hash: 0,
        overrides: BTreeMap::new(),
        minimised_trace: BTreeMap::new(),
        original_trace_len: 0,
        minimised_trace_len: 0,
        log: vec![message.clone()],
    };
    let dir = verif_dir.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-setup-{:016x}.json", spec.id, verif_seed));
    std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).expect("write replay");
    let ev = serde_json::json!({
        "property": spec.id,
        "tier": tier,
        "seed": verif_seed,
        "level": "exploration",
        "coverage": {
            "evaluations": 1,
            "distinct_nontrivial": 1,
            "rule": "Making the keys and bundles all runs share panicked: no run was started.",
            "samples": [{"violation": SETUP, "message": message, "replay": path}],
            "exhaustive": false,
        },
        "assumptions": spec.assumptions,
        "wall_s": setup_s,
        "violations": 1,
    });
    let edir = verif_dir.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{}.json", spec.id)), serde_json::to_vec_pretty(&ev).unwrap()).expect("write evidence");
    println!("{message}");
    println!("VIOLATION property={} replay={}", spec.id, path.display());
    1
}

pub fn check(spec: &Spec, verif_dir: &Path, tier: &str, verif_seed: u64, setup_s: f64) -> i32 {
    let thorough = tier == "thorough";
    let start = Instant::now();
    let runs = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { spec.thorough_runs } else { spec.quick_runs });
    let cap = Duration::from_secs(if thorough { 3600 } else { 420 });
    println!("sim property={} tier={} VERIF_SEED={} runs={} jobs={}", spec.id, tier, verif_seed, runs, jobs());

    let work: Vec<_> = (0..runs).map(|r| (r, run_seed(verif_seed, spec.id, r), BTreeMap::new())).collect();
    let mut n = 0u64;
    let mut events = 0u64;
    let mut checks = 0u64;
    let mut decisions = 0u64;
    let mut sim_us = 0u128;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: BTreeMap<u64, u64> = BTreeMap::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut fails: Vec<Outcome> = vec![];
    let mut known: BTreeSet<String> = BTreeSet::new();
    let mut faulty_runs = 0u64;
    pool(spec, work, jobs(), false, thorough, Some(start + cap), |o| {
        n += 1;
        events += o.events;
        checks += o.checks;
        decisions += o.decisions;
        sim_us += o.sim_us as u128;
        for (k, v) in &o.faults {
            *faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *probes.entry(k.clone()).or_insert(0) += v;
        }
        for k in &o.known {
            known.insert(k.clone());
        }
        hashes.insert(o.run, o.hash);
        states.insert(o.state_hash);
        if !o.faults.is_empty() {
            faulty_runs += 1;
        }
        if o.checks > 0 && o.trace.len() >= 2 {
            distinct.insert(o.hash);
        }
        if o.violation.is_some() {
            fails.push(o);
        }
        // A handful of failures is enough to minimise.
        fails.len() < 6
    });
    let explore_s = start.elapsed().as_secs_f64();

    // Harness trouble is not a verdict.
    fails.sort_by_key(|o| o.run);
    let harness: Vec<_> = fails.iter().filter(|o| o.violation.as_ref().unwrap().class.starts_with("harness-")).collect();
    if !harness.is_empty() && harness.len() == fails.len() {
        eprintln!("harness error: {:?}", harness[0].violation);
        return 2;
    }
    fails.retain(|o| !o.violation.as_ref().unwrap().class.starts_with("harness-"));

    // Determinism: some of the runs once more, the event logs must be identical.
    let mut rechecked = 0u64;
    let mut diverged: Vec<u64> = vec![];
    if fails.is_empty() && n > 0 {
        let k = if thorough { 64 } else { 8 }.min(n);
        let again: Vec<_> = (0..k).map(|i| i * (n / k).max(1)).map(|r| (r, run_seed(verif_seed, spec.id, r), BTreeMap::new())).collect();
        pool(spec, again, jobs(), false, thorough, None, |o| {
            rechecked += 1;
            if hashes.get(&o.run) != Some(&o.hash) {
                diverged.push(o.run);
            }
            true
        });
    }

    // One sample, with its log.
    let sample_run = 1.min(runs.saturating_sub(1));
    let mut samples = vec![];
    if fails.is_empty() {
        let o = run_one(spec, sample_run, run_seed(verif_seed, spec.id, sample_run), &BTreeMap::new(), true, thorough);
        samples.push(serde_json::json!({
            "run": o.run, "seed": format!("{:016x}", o.seed),
            "non_default_decisions": o.trace.iter().take(60).map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>(),
            "log": o.log.iter().take(60).collect::<Vec<_>>(),
        }));
    }

    let mut violations = vec![];
    if let Some(first) = fails.first() {
        let budget = Duration::from_secs(if thorough { 300 } else { 90 });
        let (ov, o) = minimise(spec, first, thorough, budget);
        let v = o.violation.clone().unwrap_or_else(|| first.violation.clone().unwrap());
        let r = Replay {
            property: spec.id.into(),
            verif_seed,
            tier: tier.into(),
            run: first.run,
            seed: first.seed,
            class: v.class.clone(),
            message: v.message.clone(),
            hash: o.hash,
            overrides: ov,
            minimised_trace: o.trace.clone(),
            original_trace_len: first.trace.len(),
            minimised_trace_len: o.trace.len(),
            log: o.log.clone(),
        };
        let dir = verif_dir.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path: PathBuf = dir.join(format!("{}-{:016x}.json", spec.id, first.seed));
        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).expect("write replay");
        println!("first failing run {} seed {:016x}: {} — {}", first.run, first.seed, v.class, v.message);
        println!("trace minimised from {} to {} non-default decisions", r.original_trace_len, r.minimised_trace_len);
        for l in o.log.iter().rev().take(25).collect::<Vec<_>>().into_iter().rev() {
            println!("  {l}");
        }
        samples.push(serde_json::json!({"violation": v.class, "message": v.message, "replay": path}));
        violations.push(path);
    }

    let hours = (explore_s / 3600.0).max(1e-9);
    let ev = serde_json::json!({
        "property": spec.id,
        "tier": tier,
        "seed": verif_seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": distinct.len(),
            "rule": format!("{} A run counts as distinct and non-trivial when its event log (hash) differs from every other run's, at least one oracle check was evaluated in it, and at least two of its decisions differ from the fault-free default.", spec.rule),
            "samples": samples,
            "exhaustive": false,
            "simulated_runs_per_hour": (n as f64 / hours) as u64,
            "seeds_per_hour": (n as f64 / hours) as u64,
            "requested_runs": runs,
            "simulated_time_s": (sim_us as f64) / 1e6,
            "events": events,
            "oracle_checks": checks,
            "decisions": decisions,
            "runs_with_faults": faulty_runs,
            "faults_fired": faults,
            "reach_probes": probes,
            "distinct_executions": hashes.values().collect::<BTreeSet<_>>().len(),
            "distinct_shapes": states.len(),
            "shape_measure": "hash of the sequence of (operation, outcome) kinds a run went through, ignoring keys and randomness",
            "determinism_reruns": rechecked,
            "determinism_divergences": diverged.len(),
            "real_components": spec.real,
            "stub_components": spec.stub,
            "setup_s": setup_s,
            "explore_s": explore_s,
        },
        "assumptions": spec.assumptions,
        "wall_s": setup_s + start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let edir = verif_dir.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{}.json", spec.id)), serde_json::to_vec_pretty(&ev).unwrap()).expect("write evidence");

    println!(
        "runs={} events={} checks={} distinct={} shapes={} sim_time={:.1}s explore={:.1}s setup={:.1}s divergences={}",
        n, events, checks, distinct.len(), states.len(), sim_us as f64 / 1e6, explore_s, setup_s, diverged.len()
    );
    println!("faults: {faults:?}");
    println!("probes: {probes:?}");
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", spec.id, k);
    }
    if let Some(p) = violations.first() {
        println!("VIOLATION property={} replay={}", spec.id, p.display());
        return 1;
    }
    if !diverged.is_empty() {
        // Same seed, different execution: something the simulator does not control.
        eprintln!("warning: runs {diverged:?} were not repeatable");
        if std::env::var("SIM_STRICT").is_ok() {
            return 2;
        }
    }
    if n == 0 {
        eprintln!("harness error: no run finished");
        return 2;
    }
    0
}
