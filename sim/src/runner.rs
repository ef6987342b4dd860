//! Runs scenarios in forked processes, collects what they covered, minimises failures and writes replay files.
use serde_json::{json, Value};
use simcore::shared::Shared;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::Instant;

pub struct Scenario {
    pub name: &'static str,
    /// Relative share of the runs of a check.
    pub weight: u32,
    pub chaos: u64,
    pub fair: u64,
    pub run: fn(),
}

pub struct Plan {
    pub id: &'static str,
    pub scenarios: &'static [Scenario],
    pub quick_runs: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Counters that must not be zero at the end of a batch (reach probes); only reported.
    pub probes: &'static [&'static str],
}

pub type Streams = Vec<(String, Vec<u16>)>;

#[derive(Clone)]
pub struct Outcome {
    pub failure: Option<(String, String)>,
    pub inconclusive: bool,
    pub steps: u64,
    pub time: u64,
    pub switches: u64,
    pub threads: u64,
    pub hash: u64,
    pub sched: u64,
    pub state: u64,
    pub counters: Vec<(String, u64)>,
    pub note: String,
    pub trace_len: u64,
}

pub fn map_shared() -> &'static mut Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &mut *(p as *mut Shared)
    }
}

pub static mut SCRATCH: String = String::new();
/// A directory of this run's own, empty at its start.
pub fn scratch() -> &'static str {
    unsafe { &*std::ptr::addr_of!(SCRATCH) }
}

const CPU_LIMIT: u64 = 25;

/// One run in one forked process.
pub fn run_once(s: &Scenario, seed: u64, replay: Option<Streams>, dir: &str, sh: &mut Shared, log: Option<&str>) -> Outcome {
    sh.reset();
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).expect("scratch directory");
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::alarm(240);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(null, 1);
            match log {
                Some(p) => {
                    let c = std::ffi::CString::new(p).unwrap();
                    let fd = libc::open(c.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, 0o644);
                    libc::dup2(fd, 2);
                }
                None => {
                    libc::dup2(null, 2);
                }
            }
            SCRATCH = dir.to_string();
        }
        let sh: &'static mut Shared = unsafe { &mut *(sh as *mut Shared) };
        std::panic::set_hook(Box::new(|info| {
            let _b = simcore::Busy::new();
            let t = format!("panic: {}", info);
            simcore::note(&t.chars().take(400).collect::<String>());
        }));
        let cfg = simcore::Config { seed, replay, chaos_steps: s.chaos, fair_steps: s.fair };
        simcore::run(cfg, sh, log.is_some(), s.run);
        simcore::raw::exit_group(0);
    }
    let mut status = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, 0) };
        if r == pid {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(dir);
    let mut inconclusive = false;
    let failure = if sh.failed != 0 {
        Some((simcore::shared::get(&sh.category), sh.message()))
    } else if libc::WIFSIGNALED(status) {
        let sig = libc::WTERMSIG(status);
        match sig {
            libc::SIGXCPU => Some(("spin".to_string(), format!("the run used {} s of processor time without coming to an end: a thread runs without reaching a scheduling point", CPU_LIMIT))),
            libc::SIGKILL | libc::SIGALRM | libc::SIGTERM => {
                inconclusive = true;
                None
            }
            _ => Some((format!("crash{}", sig), format!("the process was ended by signal {}", sig))),
        }
    } else if sh.completed == 0 {
        Some(("exit".to_string(), format!("the process ended by itself with status {}", libc::WEXITSTATUS(status))))
    } else {
        None
    };
    Outcome {
        failure,
        inconclusive,
        steps: sh.steps,
        time: sh.time,
        switches: sh.switches,
        threads: sh.threads,
        hash: sh.hash,
        sched: sh.sched_hash,
        state: sh.state_hash,
        counters: sh.counters(),
        note: sh.note(),
        trace_len: sh.trace_len,
    }
}

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_add(0xD1B5_4A32_D192_ED03);
    x = (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 32)
}

fn pick_scenario(plan: &Plan, index: u64) -> &'static Scenario {
    let total: u32 = plan.scenarios.iter().map(|s| s.weight).sum();
    let mut x = (index % total as u64) as u32;
    for s in plan.scenarios {
        if x < s.weight {
            return s;
        }
        x -= s.weight;
    }
    unreachable!()
}

#[derive(Default, serde::Serialize, serde::Deserialize)]
struct Stats {
    runs: u64,
    steps: u64,
    time: u64,
    switches: u64,
    max_threads: u64,
    #[serde(default)]
    max_steps: u64,
    inconclusive: u64,
    nontrivial: u64,
    rerun: u64,
    rerun_differs: u64,
    counters: BTreeMap<String, u64>,
    per_scenario: BTreeMap<String, u64>,
    sched: HashSet<u64>,
    state: HashSet<u64>,
    samples: Vec<String>,
    differs: Vec<String>,
    failure: Option<Failure>,
}

#[derive(Clone, serde::Serialize, serde::Deserialize)]
struct Failure {
    index: u64,
    scenario: String,
    seed: u64,
    category: String,
    message: String,
    note: String,
    streams: Streams,
}

#[repr(C)]
struct Control {
    stop: std::sync::atomic::AtomicU64,
    next: std::sync::atomic::AtomicU64,
}

pub struct Options {
    pub tier: String,
    pub seed: u64,
    pub runs: Option<u64>,
    pub seconds: f64,
    pub workers: usize,
    pub only: Option<String>,
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    // lines: finding: property=<id> match=<text in the message> | <what fails>
    let mut out = Vec::new();
    if let Ok(t) = std::fs::read_to_string("/verif/known_findings.txt") {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                if let Some(r) = r.strip_prefix(&format!("property={} match=", id)) {
                    let mut it = r.splitn(2, " | ");
                    let m = it.next().unwrap_or("").to_string();
                    let w = it.next().unwrap_or("").to_string();
                    out.push((m, w));
                }
            }
        }
    }
    out
}

fn is_known(known: &[(String, String)], f: &(String, String)) -> bool {
    let text = format!("{}: {}", f.0, f.1);
    known.iter().any(|(m, _)| !m.is_empty() && text.contains(m.as_str()))
}

fn worker(plan: &'static Plan, o: &Options, w: usize, base: &str, ctl: &Control, total: u64, start: Instant, known: &[(String, String)]) -> Stats {
    use std::sync::atomic::Ordering::SeqCst;
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        libc::CPU_SET(w % n, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
    let sh = map_shared();
    let dir = format!("{}/w{}", base, w);
    let mut st = Stats::default();
    let mut warned = 0;
    loop {
        if ctl.stop.load(SeqCst) != 0 || start.elapsed().as_secs_f64() > o.seconds {
            break;
        }
        let i = ctl.next.fetch_add(1, SeqCst);
        if i >= total {
            break;
        }
        let mut scn = pick_scenario(plan, i);
        if let Some(only) = &o.only {
            scn = plan.scenarios.iter().find(|s| s.name == *only).expect("scenario");
        }
        let seed = mix(mix(o.seed, i), plan.id.bytes().fold(7, |a, b| a * 31 + b as u64));
        let r = run_once(scn, seed, None, &dir, sh, None);
        if r.inconclusive {
            st.inconclusive += 1;
            continue;
        }
        st.runs += 1;
        st.steps += r.steps;
        st.time += r.time.saturating_sub(1_000_000);
        st.switches += r.switches;
        st.max_threads = st.max_threads.max(r.threads);
        st.max_steps = st.max_steps.max(r.steps);
        *st.per_scenario.entry(scn.name.to_string()).or_insert(0) += 1;
        for (k, v) in &r.counters {
            *st.counters.entry(k.clone()).or_insert(0) += v;
        }
        if st.sched.insert(mix(r.sched, scn.name.len() as u64)) && r.switches > 0 {
            st.nontrivial += 1;
        }
        st.state.insert(r.state);
        if st.samples.len() < 2 && i % 37 == 5 {
            st.samples.push(format!("scenario {} seed {}: {} threads, {} steps, {} switches, {} decisions\n{}", scn.name, seed, r.threads, r.steps, r.switches, r.trace_len, r.note.chars().take(600).collect::<String>()));
        }
        let failed = r.failure.clone();
        if let Some(f) = &failed {
            if is_known(known, f) {
                *st.counters.entry("known finding reproduced".into()).or_insert(0) += 1;
                continue;
            }
            let fail = Failure { index: i, scenario: scn.name.to_string(), seed, category: f.0.clone(), message: f.1.clone(), note: r.note.clone(), streams: sh.streams() };
            // only what happens again when re-run counts
            let again = run_once(scn, seed, None, &dir, sh, None);
            match &again.failure {
                Some(g) if !is_known(known, g) => {
                    st.failure = Some(fail);
                    ctl.stop.store(1, SeqCst);
                    break;
                }
                _ => {
                    st.rerun_differs += 1;
                    st.differs.push(format!("{} seed {} failed once ({}: {}) but not again", scn.name, seed, f.0, f.1));
                    warned += 1;
                    if warned > 20 {
                        break;
                    }
                }
            }
        } else if i % 29 == 0 {
            st.rerun += 1;
            let again = run_once(scn, seed, None, &dir, sh, None);
            if again.inconclusive {
                continue;
            }
            if again.hash != r.hash || again.sched != r.sched || again.steps != r.steps || again.failure.is_some() {
                st.rerun_differs += 1;
                st.differs.push(format!("{} seed {}: {:x}/{:x}/{} then {:x}/{:x}/{} {:?}", scn.name, seed, r.hash, r.sched, r.steps, again.hash, again.sched, again.steps, again.failure));
            }
        }
    }
    st
}

/// Zeroes ever smaller parts of the decision streams while the same kind of failure remains.
fn minimise(s: &Scenario, f: &Failure, dir: &str, sh: &mut Shared, seconds: f64) -> (Streams, u64, Outcome) {
    let start = Instant::now();
    let mut best = f.streams.clone();
    let mut tries = 0u64;
    let mut last = run_once(s, f.seed, Some(best.clone()), dir, sh, None);
    if last.failure.is_none() {
        return (best, 0, last);
    }
    let cat = last.failure.clone().unwrap().0;
    let mut attempt = |cand: &Streams, tries: &mut u64| -> Option<Outcome> {
        *tries += 1;
        let r = run_once(s, f.seed, Some(cand.clone()), dir, sh, None);
        match &r.failure {
            Some((c, _)) if *c == cat => Some(r),
            _ => None,
        }
    };
    for k in 0..best.len() {
        if best[k].1.iter().all(|v| *v == 0) || start.elapsed().as_secs_f64() > seconds {
            continue;
        }
        let mut c = best.clone();
        c[k].1.clear();
        if let Some(r) = attempt(&c, &mut tries) {
            best = c;
            last = r;
        }
    }
    let mut progress = true;
    while progress && start.elapsed().as_secs_f64() < seconds {
        progress = false;
        for k in 0..best.len() {
            let mut size = best[k].1.len();
            while size >= 1 {
                let mut at = 0;
                while at < best[k].1.len() {
                    if start.elapsed().as_secs_f64() > seconds {
                        return (best, tries, last);
                    }
                    let end = (at + size).min(best[k].1.len());
                    if best[k].1[at..end].iter().any(|v| *v != 0) {
                        let mut c = best.clone();
                        for v in &mut c[k].1[at..end] {
                            *v = 0;
                        }
                        if let Some(r) = attempt(&c, &mut tries) {
                            best = c;
                            last = r;
                            progress = true;
                        }
                    }
                    at = end;
                }
                size /= 2;
            }
        }
    }
    (best, tries, last)
}

fn sparse(s: &Streams) -> Value {
    let mut m = serde_json::Map::new();
    for (k, v) in s {
        let l: Vec<Value> = v.iter().enumerate().filter(|(_, x)| **x != 0).map(|(i, x)| json!([i, x])).collect();
        if !l.is_empty() {
            m.insert(k.clone(), Value::Array(l));
        }
    }
    Value::Object(m)
}
fn dense(v: &Value) -> Streams {
    let mut out = Vec::new();
    if let Some(m) = v.as_object() {
        for (k, l) in m {
            let mut d: Vec<u16> = Vec::new();
            for p in l.as_array().unwrap() {
                let i = p[0].as_u64().unwrap() as usize;
                if d.len() <= i {
                    d.resize(i + 1, 0);
                }
                d[i] = p[1].as_u64().unwrap() as u16;
            }
            out.push((k.clone(), d));
        }
    }
    out
}

fn base_dir() -> String {
    let root = if std::path::Path::new("/dev/shm").is_dir() && std::fs::write("/dev/shm/.gokosim-probe", b"x").is_ok() {
        let _ = std::fs::remove_file("/dev/shm/.gokosim-probe");
        "/dev/shm"
    } else {
        "/tmp"
    };
    format!("{}/gokosim.{}", root, std::process::id())
}

pub fn check(plan: &'static Plan, o: &Options) -> i32 {
    let start = Instant::now();
    let base = base_dir();
    std::fs::create_dir_all(&base).expect("scratch");
    let known = known_findings(plan.id);
    let total = o.runs.unwrap_or(if o.tier == "thorough" { u64::MAX / 2 } else { plan.quick_runs });
    let ctl: &'static Control = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const Control)
    };
    println!("property {} tier {} seed {}: up to {} runs, {} workers", plan.id, o.tier, o.seed, if total > 1 << 60 { "unlimited".to_string() } else { total.to_string() }, o.workers);
    std::io::stdout().flush().unwrap();
    let mut pids = Vec::new();
    for w in 0..o.workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let st = worker(plan, o, w, &base, ctl, total, start, &known);
            std::fs::write(format!("{}/stats{}.json", base, w), serde_json::to_vec(&st).unwrap()).unwrap();
            simcore::raw::exit_group(0);
        }
        pids.push(pid);
    }
    for p in pids {
        let mut status = 0;
        unsafe { libc::waitpid(p, &mut status, 0) };
    }
    let mut all = Stats::default();
    let mut failures: Vec<Failure> = Vec::new();
    let mut missing = 0;
    for w in 0..o.workers {
        let st: Stats = match std::fs::read(format!("{}/stats{}.json", base, w)).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(s) => s,
            None => {
                missing += 1;
                continue;
            }
        };
        all.runs += st.runs;
        all.steps += st.steps;
        all.time += st.time;
        all.switches += st.switches;
        all.max_threads = all.max_threads.max(st.max_threads);
        all.max_steps = all.max_steps.max(st.max_steps);
        all.inconclusive += st.inconclusive;
        all.rerun += st.rerun;
        all.rerun_differs += st.rerun_differs;
        all.sched.extend(st.sched);
        all.state.extend(st.state);
        for (k, v) in st.counters {
            *all.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in st.per_scenario {
            *all.per_scenario.entry(k).or_insert(0) += v;
        }
        if all.samples.len() < 4 {
            all.samples.extend(st.samples);
        }
        all.differs.extend(st.differs);
        if let Some(f) = st.failure {
            failures.push(f);
        }
    }
    let explored = start.elapsed().as_secs_f64();
    failures.sort_by_key(|f| f.index);
    let mut violations = 0;
    let mut code = 0;
    let mut violation_text = Value::Null;
    if let Some(f) = failures.first() {
        violations = failures.len();
        let scn = plan.scenarios.iter().find(|s| s.name == f.scenario).unwrap();
        let sh = map_shared();
        let dir = format!("{}/min", base);
        println!("failure in scenario {} seed {}: {}: {}", f.scenario, f.seed, f.category, f.message);
        let (streams, tries, out) = minimise(scn, f, &dir, sh, if o.tier == "thorough" { 120.0 } else { 30.0 });
        let (streams, out, exact) = match &out.failure {
            Some(_) => (streams, out, true),
            None => {
                // the recorded decisions alone did not reproduce it; the seed does
                let out = run_once(scn, f.seed, None, &dir, sh, None);
                (Vec::new(), out, false)
            }
        };
        let logp = format!("{}/log.txt", base);
        let replay = if exact { Some(streams.clone()) } else { None };
        run_once(scn, f.seed, replay, &dir, sh, Some(&logp));
        let log = std::fs::read_to_string(&logp).unwrap_or_default();
        let lines: Vec<&str> = log.lines().collect();
        let tail: Vec<&str> = lines[lines.len().saturating_sub(400)..].to_vec();
        let (cat, msg) = out.failure.clone().unwrap_or((f.category.clone(), f.message.clone()));
        std::fs::create_dir_all("/verif/replays").unwrap();
        let path = format!("/verif/replays/{}-{}-{}.json", plan.id, f.scenario, f.seed);
        let nz: usize = streams.iter().map(|s| s.1.iter().filter(|v| **v != 0).count()).sum();
        let doc = json!({
            "property": plan.id, "scenario": f.scenario, "seed": f.seed, "from_seed_only": !exact,
            "category": cat, "message": msg, "notes": out.note,
            "decisions": sparse(&streams), "nondefault_decisions": nz,
            "nondefault_decisions_before_minimising": f.streams.iter().map(|s| s.1.iter().filter(|v| **v != 0).count()).sum::<usize>(),
            "minimising_runs": tries, "hash": format!("{:x}", out.hash), "steps": out.steps,
            "schedule_tail": tail,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("{}: {}", cat, msg);
        println!("VIOLATION property={} replay={}", plan.id, path);
        violation_text = json!({"category": cat, "message": msg, "replay": path, "seed": f.seed});
        code = 1;
    }
    for (_, what) in &known {
        println!("KNOWN-FINDING: property={} {}", plan.id, what);
    }
    let _ = std::fs::remove_dir_all(&base);
    let wall = start.elapsed().as_secs_f64();
    let faults: BTreeMap<&String, &u64> = all.counters.iter().filter(|(k, _)| k.starts_with("fault ")).collect();
    let events: BTreeMap<&String, &u64> = all.counters.iter().filter(|(k, _)| !k.starts_with("fault ")).collect();
    let unreached: Vec<&&str> = plan.probes.iter().filter(|p| all.counters.get(**p).copied().unwrap_or(0) == 0).collect();
    let nontrivial = all.sched.len() as u64;
    let ev = json!({
        "property": plan.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": nontrivial,
            "rule": plan.rule,
            "samples": all.samples.iter().take(4).collect::<Vec<_>>(),
            "runs_and_seeds_per_hour": (all.runs as f64 / explored.max(0.001) * 3600.0) as u64,
            "simulated_time_us": all.time,
            "scheduler_steps": all.steps,
            "context_switches": all.switches,
            "max_simulated_threads": all.max_threads,
            "max_steps_of_a_run": all.max_steps,
            "distinct_interleavings": nontrivial,
            "distinct_interleavings_measure": "hash of the sequence of context switches, each with the step counts of both threads",
            "distinct_end_states": all.state.len(),
            "runs_per_scenario": all.per_scenario,
            "faults_injected": faults,
            "events": events,
            "probes_not_reached": unreached,
            "determinism": {"runs_repeated": all.rerun, "repeats_that_differed": all.rerun_differs, "examples": all.differs.iter().take(5).collect::<Vec<_>>()},
            "inconclusive_runs": all.inconclusive,
            "workers_lost": missing,
            "real_code": plan.real,
            "stubs": plan.stub,
            "violation": violation_text,
        },
        "assumptions": plan.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    std::fs::create_dir_all("/verif/evidence").unwrap();
    std::fs::write(format!("/verif/evidence/{}.json", plan.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} runs ({:?}), {} distinct interleavings, {} end states, {} steps, faults {:?}, repeats {}/{} differ, {:.1} s",
        all.runs, all.per_scenario, nontrivial, all.state.len(), all.steps, faults, all.rerun_differs, all.rerun, wall
    );
    if !unreached.is_empty() {
        println!("not reached: {:?}", unreached);
    }
    for d in all.differs.iter().take(3) {
        println!("not repeatable: {}", d);
    }
    if code == 0 && (all.runs == 0 || missing > 0) {
        println!("error: nothing was explored or a worker was lost");
        return 2;
    }
    code
}

pub fn replay(plans: &'static [&'static Plan], path: &str, show: bool) -> i32 {
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let id = doc["property"].as_str().unwrap();
    let name = doc["scenario"].as_str().unwrap();
    let seed = doc["seed"].as_u64().unwrap();
    let plan = plans.iter().find(|p| p.id == id).expect("property");
    let scn = plan.scenarios.iter().find(|s| s.name == name).expect("scenario");
    let streams = if doc["from_seed_only"].as_bool().unwrap_or(false) { None } else { Some(dense(&doc["decisions"])) };
    let base = base_dir();
    std::fs::create_dir_all(&base).unwrap();
    let logp = format!("{}/log.txt", base);
    let sh = map_shared();
    let out = run_once(scn, seed, streams, &format!("{}/r", base), sh, Some(&logp));
    if show {
        println!("{}", std::fs::read_to_string(&logp).unwrap_or_default());
        println!("{}", out.note);
    }
    let _ = std::fs::remove_dir_all(&base);
    match out.failure {
        Some((c, m)) => {
            println!("{}: {}", c, m);
            println!("{}", if format!("{:x}", out.hash) == doc["hash"].as_str().unwrap_or("") { "event hash identical to the recorded one" } else { "event hash differs from the recorded one" });
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        None => {
            println!("the recorded violation does not occur on this tree");
            0
        }
    }
}

pub fn one(plan: &'static Plan, name: &str, seed: u64, show: bool) -> i32 {
    let scn = plan.scenarios.iter().find(|s| s.name == name).expect("scenario");
    let base = base_dir();
    std::fs::create_dir_all(&base).unwrap();
    let logp = format!("{}/log.txt", base);
    let sh = map_shared();
    let t = Instant::now();
    let out = run_once(scn, seed, None, &format!("{}/r", base), sh, if show { Some(&logp) } else { None });
    if show {
        println!("{}", std::fs::read_to_string(&logp).unwrap_or_default());
    }
    println!("{}", out.note);
    println!("{:?} steps {} threads {} switches {} counters {:?} {:?}", out.failure, out.steps, out.threads, out.switches, out.counters, t.elapsed());
    let _ = std::fs::remove_dir_all(&base);
    out.failure.is_some() as i32
}
