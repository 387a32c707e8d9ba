//! Driver: runs the monitored cases of one property in child processes, watches for crashes and
//! hangs, collects verdicts, replays, and writes the evidence file.
use crate::rng::{Rng, hash_str, mix};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    /// Random cases per tier.
    pub quick: u64,
    pub thorough: u64,
    pub case: fn(&mut Cx),
    /// Fixed scenarios, run once per run before the random ones.
    pub directed: &'static [(&'static str, fn(&mut Cx))],
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// CPU seconds one case may use before it counts as not terminating.
    pub case_cpu: u64,
    pub shards: u64,
    /// Cases run external programs: do not limit address space of the child.
    pub external: bool,
}

pub const DEFAULT: Prop = Prop {
    id: "",
    quick: 1000,
    thorough: 10000,
    case: |_| {},
    directed: &[],
    rule: "",
    assumptions: &[],
    case_cpu: 30,
    shards: 8,
    external: false,
};

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub detail: String,
    pub input: String,
    pub case: String,
}

pub struct Cx {
    pub rng: Rng,
    pub seed: u64,
    pub size: usize,
    pub thorough: bool,
    pub verbose: bool,
    pub scratch: PathBuf,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    input: String,
    sig: Option<u64>,
    nontrivial: bool,
    violations: Vec<(String, String)>,
    inconclusive: u64,
    pub observed_findings: BTreeSet<String>,
}

#[allow(dead_code)]
impl Cx {
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_owned()).or_default() += n;
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.maxima.entry(name.to_owned()).or_default();
        *e = (*e).max(n);
    }
    /// The case written out: used for replays, samples and (by default) for distinctness.
    pub fn input(&mut self, s: impl Into<String>) {
        self.input = s.into();
    }
    pub fn sig<T: Hash>(&mut self, t: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.sig = Some(h.finish());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn violate(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        self.violations.push((key.into(), detail.into()));
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn inconclusive(&mut self, why: &str) {
        self.inconclusive += 1;
        self.count(&format!("inconclusive: {why}"), 1);
    }
    /// A scratch directory, emptied for this use.
    pub fn dir(&self, name: &str) -> PathBuf {
        let d = self.scratch.join(name);
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch");
        d
    }
}

#[macro_export]
macro_rules! ensure {
    ($cx:expr, $cond:expr, $key:expr, $($fmt:tt)+) => {
        if !$cond { $cx.violate($key, format!($($fmt)+)); return; }
    };
}

// ---------------------------------------------------------------------------------------------
// panic capture

use std::cell::RefCell;
thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Run code under test; on panic return "message at file:line".
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("{msg} at {loc}"))
        },
    }
}

// ---------------------------------------------------------------------------------------------
// child

fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed) ^ hash_str(id) ^ mix(i.wrapping_mul(0x5851F42D4C957F2D)))
}

fn new_cx(seed: u64, size: usize, thorough: bool, scratch: &Path) -> Cx {
    Cx {
        rng: Rng::new(seed),
        seed,
        size,
        thorough,
        verbose: false,
        scratch: scratch.to_owned(),
        counters: BTreeMap::new(),
        maxima: BTreeMap::new(),
        input: String::new(),
        sig: None,
        nontrivial: false,
        violations: Vec::new(),
        inconclusive: 0,
        observed_findings: BTreeSet::new(),
    }
}

fn run_one(f: fn(&mut Cx), cx: &mut Cx) {
    if let Err(e) = catch(AssertUnwindSafe(|| f(cx))) {
        // strip line numbers from the key so that it names the panic, not its line
        let key = e.split(" at ").next().unwrap_or("").to_owned();
        cx.violations.push((format!("panic: {key}"), format!("panicked: {e}")));
    }
}

static CASE_START_CPU_MS: AtomicU64 = AtomicU64::new(0);
/// Directed scenarios hold many inputs and get this many times the CPU time of a case.
static CASE_FACTOR: AtomicU64 = AtomicU64::new(1);
static CASE_ACTIVE: AtomicBool = AtomicBool::new(false);

fn thread_cpu_ms(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

fn self_clock() -> libc::clockid_t {
    let mut c: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    c
}

fn watchdog(limit_s: u64, clock: libc::clockid_t, hang_file: PathBuf) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        if CASE_ACTIVE.load(Ordering::SeqCst) {
            let used = thread_cpu_ms(clock).saturating_sub(CASE_START_CPU_MS.load(Ordering::SeqCst));
            if used > limit_s * 1000 * CASE_FACTOR.load(Ordering::SeqCst) {
                let _ = std::fs::write(&hang_file, format!("{used}"));
                unsafe { libc::_exit(97) };
            }
        }
    });
}

fn begin_case(clock: libc::clockid_t) {
    CASE_START_CPU_MS.store(thread_cpu_ms(clock), Ordering::SeqCst);
    CASE_ACTIVE.store(true, Ordering::SeqCst);
}
fn end_case() {
    CASE_ACTIVE.store(false, Ordering::SeqCst);
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap().join().unwrap()
}

fn size_of(i: u64) -> usize {
    ((i * 37) % 100) as usize
}

/// Child process: run this shard's cases and write results to `out`.
fn child(prop: &'static Prop, shard: u64, nshards: u64, seed: u64, thorough: bool, limit_s: u64, out: PathBuf, skip: BTreeSet<String>) {
    install_hook();
    if !prop.external {
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    }
    on_big_stack(move || {
        let clock = self_clock();
        watchdog(prop.case_cpu, clock, out.with_extension("hang"));
        let journal = out.with_extension("journal");
        let scratch = out.with_extension("scratch");
        std::fs::create_dir_all(&scratch).unwrap();
        let start = Instant::now();
        let n = if thorough { prop.thorough } else { prop.quick };
        let mut evaluations = 0u64;
        let mut counters: BTreeMap<String, u64> = BTreeMap::new();
        let mut maxima: BTreeMap<String, u64> = BTreeMap::new();
        let mut sigs: BTreeSet<u64> = BTreeSet::new();
        let mut samples: Vec<String> = Vec::new();
        let mut violations: Vec<Violation> = Vec::new();
        let mut inconclusive = 0u64;
        let mut truncated = 0u64;
        let mut observed: BTreeSet<String> = BTreeSet::new();
        let mut finish = |cx: Cx, name: String, violations: &mut Vec<Violation>| {
            evaluations += 1;
            for (k, v) in cx.counters { *counters.entry(k).or_default() += v; }
            for (k, v) in cx.maxima { let e = maxima.entry(k).or_default(); *e = (*e).max(v); }
            inconclusive += cx.inconclusive;
            observed.extend(cx.observed_findings);
            if cx.nontrivial {
                let s = cx.sig.unwrap_or_else(|| hash_str(&cx.input));
                if sigs.insert(s) && (samples.len() < 2 || (samples.len() < 4 && cx.size > 50)) && !cx.input.is_empty() {
                    let mut s = cx.input.clone();
                    if s.len() > 1500 { let mut k = 1500; while !s.is_char_boundary(k) { k -= 1 } s.truncate(k); s.push_str("..."); }
                    samples.push(s);
                }
            }
            for (key, detail) in cx.violations {
                violations.push(Violation { key, detail, input: cx.input.clone(), case: name.clone() });
            }
        };
        if shard == 0 {
            for (name, f) in prop.directed {
                let case = format!("directed:{name}");
                if skip.contains(&case) { continue; }
                let _ = std::fs::write(&journal, &case);
                let mut cx = new_cx(case_seed(seed, name, 0), 50, thorough, &scratch);
                cx.input(format!("directed scenario {name}"));
                CASE_FACTOR.store(20, Ordering::SeqCst);
                begin_case(clock);
                run_one(*f, &mut cx);
                end_case();
                CASE_FACTOR.store(1, Ordering::SeqCst);
                finish(cx, case, &mut violations);
            }
        }
        let mut i = shard;
        while i < n {
            if violations.len() >= 6 { break; }
            if start.elapsed().as_secs() >= limit_s { truncated = (n - i).div_ceil(nshards); break; }
            let s = case_seed(seed, prop.id, i);
            let case = format!("case:{}:{}", s, size_of(i));
            if !skip.contains(&case) {
                let _ = std::fs::write(&journal, &case);
                let mut cx = new_cx(s, size_of(i), thorough, &scratch);
                begin_case(clock);
                run_one(prop.case, &mut cx);
                end_case();
                finish(cx, case, &mut violations);
            }
            i += nshards;
        }
        drop(finish);
        let _ = std::fs::remove_dir_all(&scratch);
        let v = json!({
            "evaluations": evaluations, "counters": counters, "maxima": maxima,
            "sigs": sigs.iter().collect::<Vec<_>>(), "samples": samples, "inconclusive": inconclusive,
            "truncated": truncated, "observed": observed,
            "violations": violations.iter().map(|v| json!({"key": v.key, "detail": v.detail, "input": v.input, "case": v.case})).collect::<Vec<_>>(),
        });
        std::fs::write(&out, serde_json::to_vec(&v).unwrap()).unwrap();
    });
}

/// Run a single named case in this process, print what it found; exit 1 on violation.
fn replay_case(prop: &'static Prop, case: String, seed: u64, thorough: bool, scratch: PathBuf) -> i32 {
    install_hook();
    on_big_stack(move || {
        let clock = self_clock();
        watchdog(prop.case_cpu, clock, scratch.with_extension("hang"));
        std::fs::create_dir_all(&scratch).unwrap();
        let mut cx;
        let f = if let Some(name) = case.strip_prefix("directed:") {
            CASE_FACTOR.store(20, Ordering::SeqCst);
            cx = new_cx(case_seed(seed, name, 0), 50, thorough, &scratch);
            prop.directed.iter().find(|d| d.0 == name).expect("no such directed case").1
        } else {
            let mut it = case.strip_prefix("case:").expect("bad case").split(':');
            let s: u64 = it.next().unwrap().parse().unwrap();
            let size: usize = it.next().unwrap().parse().unwrap();
            cx = new_cx(s, size, thorough, &scratch);
            prop.case
        };
        cx.verbose = true;
        begin_case(clock);
        run_one(f, &mut cx);
        end_case();
        let _ = std::fs::remove_dir_all(&scratch);
        println!("--- input\n{}", cx.input);
        for (k, d) in &cx.violations { println!("--- {k}\n{d}"); }
        println!("--- counters {:?}", cx.counters);
        if cx.violations.is_empty() { println!("no violation"); 0 } else { 1 }
    })
}

// ---------------------------------------------------------------------------------------------
// parent

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_owned()))
}

pub fn known_findings(id: &str) -> Vec<(String, String)> {
    let Ok(text) = std::fs::read_to_string(verif().join("known_findings.json")) else { return vec![] };
    let v: Value = serde_json::from_str(&text).expect("known_findings.json");
    v["findings"].as_array().map(|a| a.iter()
        .filter(|e| e["property"] == id && e["status"] == "finding")
        .map(|e| (e["key"].as_str().unwrap().to_owned(), e["what"].as_str().unwrap().to_owned()))
        .collect()).unwrap_or_default()
}

fn wait_child(mut c: std::process::Child, deadline: Instant) -> Option<std::process::ExitStatus> {
    loop {
        match c.try_wait().expect("wait") {
            Some(s) => return Some(s),
            None if Instant::now() > deadline => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            },
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

struct Shard { n: u64, child: std::process::Child, out: PathBuf, restarts: u32, skip: Vec<String> }

fn run(prop: &'static Prop) -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let tier = if thorough { "thorough" } else { "quick" };
    let limit_s: u64 = std::env::var("VERIF_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 120 });
    let hard = start + Duration::from_secs(limit_s + 120);
    let rundir = verif().join("target/run").join(format!("{}-{}", prop.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&rundir);
    std::fs::create_dir_all(&rundir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let spawn = |n: u64, out: &Path, skip: &[String]| {
        let mut c = std::process::Command::new(&exe);
        c.arg("child").arg(prop.id).arg(n.to_string()).arg(prop.shards.to_string()).arg(seed.to_string())
            .arg(tier).arg(limit_s.to_string()).arg(out).args(skip);
        let log = std::fs::File::create(out.with_extension("log")).unwrap();
        c.stdin(std::process::Stdio::null()).stdout(log.try_clone().unwrap()).stderr(log);
        c.spawn().expect("spawn child")
    };
    let mut shards: Vec<Shard> = (0..prop.shards).map(|n| {
        let out = rundir.join(format!("shard-{n}"));
        Shard { n, child: spawn(n, &out, &[]), out, restarts: 0, skip: vec![] }
    }).collect();

    let mut crashes: Vec<Violation> = Vec::new();
    let mut timeouts = 0u64;
    let mut unconfirmed = 0u64;
    let mut results: Vec<Value> = Vec::new();
    while let Some(sh) = shards.pop() {
        let Shard { n, child, out, restarts, mut skip } = sh;
        let status = wait_child(child, hard);
        match status {
            Some(s) if s.success() => {
                let v: Value = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
                results.push(v);
            },
            None => timeouts += 1,
            Some(s) => {
                // Died: which case, and does it die again on its own?
                let case = std::fs::read_to_string(out.with_extension("journal")).unwrap_or_default();
                let hang = out.with_extension("hang").exists();
                let _ = std::fs::remove_file(out.with_extension("hang"));
                let again = std::process::Command::new(&exe).arg("case").arg(prop.id).arg(&case).arg(seed.to_string()).arg(tier)
                    .arg(rundir.join("confirm")).stdin(std::process::Stdio::null()).output().expect("confirm");
                let log = format!("{}{}", String::from_utf8_lossy(&again.stdout), String::from_utf8_lossy(&again.stderr));
                let died = again.status.code().is_none_or(|c| c != 0 && c != 1);
                if died {
                    let what = if hang { format!("does not terminate within {} s of CPU time", prop.case_cpu) } else { format!("process died: {s}") };
                    crashes.push(Violation { key: if hang { "hang".into() } else { format!("crash: {}", s) }, detail: format!("{what}\n{log}"), input: String::new(), case: case.clone() });
                } else {
                    unconfirmed += 1;
                }
                if restarts < 3 {
                    // continue with the rest of the shard, leaving that case out
                    skip.push(case);
                    let child = spawn(n, &out, &skip);
                    shards.push(Shard { n, child, out, restarts: restarts + 1, skip });
                }
            },
        }
    }

    let mut evaluations = 0;
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut truncated = 0;
    let mut inconclusive = timeouts + unconfirmed;
    let mut violations: Vec<Violation> = crashes;
    let mut observed: BTreeSet<String> = BTreeSet::new();
    for r in &results {
        evaluations += r["evaluations"].as_u64().unwrap();
        truncated += r["truncated"].as_u64().unwrap();
        inconclusive += r["inconclusive"].as_u64().unwrap();
        for s in r["sigs"].as_array().unwrap() { sigs.insert(s.as_u64().unwrap()); }
        for (k, v) in r["counters"].as_object().unwrap() { *counters.entry(k.clone()).or_default() += v.as_u64().unwrap(); }
        for (k, v) in r["maxima"].as_object().unwrap() { let e = maxima.entry(k.clone()).or_default(); *e = (*e).max(v.as_u64().unwrap()); }
        for s in r["samples"].as_array().unwrap() { if samples.len() < 6 { samples.push(s.clone()); } }
        for s in r["observed"].as_array().unwrap() { observed.insert(s.as_str().unwrap().to_owned()); }
        for v in r["violations"].as_array().unwrap() {
            let g = |k: &str| v[k].as_str().unwrap().to_owned();
            violations.push(Violation { key: g("key"), detail: g("detail"), input: g("input"), case: g("case") });
        }
    }

    let known = known_findings(prop.id);
    let (suppressed, violations): (Vec<_>, Vec<_>) = violations.into_iter().partition(|v| known.iter().any(|k| k.0 == v.key));
    for v in &suppressed { observed.insert(v.key.clone()); }
    for (k, what) in &known {
        if observed.contains(k) { println!("KNOWN-FINDING: property={} {}", prop.id, what); }
    }

    println!("{} [{} seed {}]: {} evaluations, {} distinct non-trivial, {:.1}s", prop.id, tier, seed, evaluations, sigs.len(), start.elapsed().as_secs_f64());
    for (k, v) in &counters { println!("  observed {k}: {v}"); }
    for (k, v) in &maxima { println!("  max {k}: {v}"); }
    if truncated > 0 { println!("  note: time budget reached, {truncated} planned cases not run"); }
    if inconclusive > 0 { println!("  note: {inconclusive} inconclusive (timeouts {timeouts}, unconfirmed crashes {unconfirmed})"); }

    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut k = 0;
    for v in &violations {
        if !seen.insert(v.key.clone()) || k >= 5 { continue; }
        let dir = verif().join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}-{}-{}.json", prop.id, seed, k));
        std::fs::write(&path, serde_json::to_vec_pretty(&json!({
            "property": prop.id, "seed": seed, "tier": tier, "case": v.case, "key": v.key, "detail": v.detail, "input": v.input,
            "how": format!("/verif/check.sh {} --replay {}", prop.id, path.display()),
        })).unwrap()).unwrap();
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        println!("  {}: {}", v.key, v.detail.chars().take(3000).collect::<String>());
        if !v.input.is_empty() { println!("  input: {}", v.input.chars().take(2000).collect::<String>()); }
        k += 1;
    }

    let mut coverage = json!({
        "evaluations": evaluations, "distinct_nontrivial": sigs.len(), "rule": prop.rule, "samples": samples,
        "observed": counters, "maxima": maxima, "directed_scenarios": prop.directed.len(),
        "planned_cases_not_run": truncated, "inconclusive": inconclusive,
    });
    if let Ok(extra) = std::env::var("VH_EXTRA_COVERAGE") {
        if let Ok(Value::Object(o)) = serde_json::from_str(&extra) {
            for (k, v) in o { coverage[k] = v; }
        }
    }
    let ev = json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": prop.assumptions, "wall_s": start.elapsed().as_secs_f64(), "violations": violations.len(),
    });
    std::fs::create_dir_all(verif().join("evidence")).unwrap();
    std::fs::write(verif().join("evidence").join(format!("{}.json", prop.id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&rundir);
    if !violations.is_empty() { return 1; }
    if evaluations == 0 || results.is_empty() {
        println!("no case was evaluated");
        return 3;
    }
    0
}

pub fn main(props: &'static [&'static Prop]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &'static Prop {
        props.iter().copied().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) })
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(find(&args[2])),
        Some("child") => {
            let p = find(&args[2]);
            child(p, args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap(), args[6] == "thorough",
                args[7].parse().unwrap(), PathBuf::from(&args[8]), args[9..].iter().cloned().collect());
            0
        },
        Some("case") => replay_case(find(&args[2]), args[3].clone(), args[4].parse().unwrap(), args[5] == "thorough", PathBuf::from(&args[6])),
        Some("replay") => {
            let v: Value = serde_json::from_slice(&std::fs::read(&args[3]).unwrap()).unwrap();
            let d = verif().join("target/run/replay");
            replay_case(find(&args[2]), v["case"].as_str().unwrap().to_owned(), v["seed"].as_u64().unwrap(), v["tier"] == "thorough", d)
        },
        Some("list") => { for p in props { println!("{}", p.id); } 0 },
        _ => { eprintln!("usage: vh run|replay ID"); 2 },
    }
}
