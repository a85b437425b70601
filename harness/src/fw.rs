//! Check framework: worker processes running seeded cases under monitors, crash and hang capture,
//! confirmation in a fresh process, replay files and evidence.
use crate::rng::mix;
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, HashSet},
    io::{Read, Write},
    os::unix::process::ExitStatusExt,
    panic::{AssertUnwindSafe, catch_unwind},
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    time::{Duration, Instant},
};

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub notes: Vec<String>,
}

impl Stats {
    pub fn count(&mut self, k: impl Into<String>, n: u64) {
        *self.counters.entry(k.into()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max:{k}")).or_default();
        *e = (*e).max(n);
    }
    pub fn nontrivial(&mut self, h: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.samples.len() < 3 {
            self.samples.push(v());
        }
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub what: String,
    pub detail: Value,
    /// The history itself is the evidence (concurrent checks): no need to reproduce it.
    pub certain: bool,
    /// Signature for the known-findings file.
    pub key: String,
}

impl Violation {
    pub fn new(what: impl Into<String>, detail: Value) -> Self {
        Self { what: what.into(), detail, certain: false, key: String::new() }
    }
    pub fn certain(mut self) -> Self {
        self.certain = true;
        self
    }
    pub fn key(mut self, k: impl Into<String>) -> Self {
        self.key = k.into();
        self
    }
}

pub trait Check {
    fn case(&mut self, index: u64, seed: u64, st: &mut Stats) -> Result<(), Violation>;
    /// Called once at the end of a worker.
    fn finish(&mut self, _st: &mut Stats) {}
}

pub struct Plan {
    pub cases: u64,
    pub cap: Duration,
    pub workers: usize,
    /// A case taking longer than this (wall) is examined as a possible hang.
    pub stuck: Duration,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    /// Counters that must be non-zero for the run to count as having observed anything.
    pub must: Vec<&'static str>,
}

pub fn case_seed(prop: &str, seed: u64, index: u64) -> u64 {
    let mut h = mix(seed ^ 0xabcdef);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(index))
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VH_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

pub fn scratch() -> PathBuf {
    let p = std::env::var_os("VH_SCRATCH").map(PathBuf::from).unwrap_or_else(|| {
        std::env::temp_dir().join(format!("vh-scratch-{}", std::process::id()))
    });
    let _ = std::fs::create_dir_all(&p);
    p
}

pub fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// Panic message capture.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        LAST_PANIC.with(|l| *l.borrow_mut() = msg.clone());
        if std::env::var_os("VH_VERBOSE").is_some() {
            eprintln!("{msg}\n{}", std::backtrace::Backtrace::force_capture());
        } else if IN_WORKER.load(std::sync::atomic::Ordering::Relaxed) {
            eprintln!("{msg}");
        }
    }));
}
static IN_WORKER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Short description of the step being run, for crash reports.
pub fn set_tag(t: &str) {
    TAG.with(|l| {
        let mut l = l.borrow_mut();
        l.clear();
        l.push_str(t);
    });
}
pub fn current_tag() -> String {
    TAG.with(|l| l.borrow().clone())
}

/// Describes the case being run, for the report of a panic.
pub fn current(v: Value) {
    CURRENT.with(|l| *l.borrow_mut() = v);
}
thread_local! {
    static TAG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static CURRENT: std::cell::RefCell<Value> = const { std::cell::RefCell::new(Value::Null) };
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn run_one(
    c: &mut dyn Check,
    index: u64,
    seed: u64,
    st: &mut Stats,
) -> Result<(), Violation> {
    match catch_unwind(AssertUnwindSafe(|| c.case(index, seed, st))) {
        Ok(r) => r,
        Err(_) => {
            let msg = LAST_PANIC.with(|l| l.borrow().clone());
            let case = CURRENT.with(|l| l.borrow().clone());
            Err(Violation::new(format!("panic: {msg}"), json!({"panic": msg, "case": case})))
        }
    }
}

/// Worker entry: `first`, `step`, `count`, `cap` seconds.
pub fn worker(
    prop: &str,
    mut c: Box<dyn Check>,
    first: u64,
    step: u64,
    cases: u64,
    cap: f64,
    out: &Path,
) -> i32 {
    IN_WORKER.store(true, std::sync::atomic::Ordering::Relaxed);
    let known = known_findings(prop);
    let mut st = Stats::default();
    let start = Instant::now();
    let s = seed();
    let prog = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .write(true)
        .open(out.with_extension("progress"))
        .unwrap();
    let mut i = first;
    let mut done = 0u64;
    let mut code = 0;
    while i < cases {
        if start.elapsed().as_secs_f64() > cap {
            break;
        }
        {
            use std::os::unix::fs::FileExt;
            let mut buf = [0u8; 16];
            buf[..8].copy_from_slice(&i.to_le_bytes());
            buf[8..].copy_from_slice(&1u64.to_le_bytes());
            let _ = prog.write_all_at(&buf, 0);
        }
        let cs = case_seed(prop, s, i);
        if let Err(v) = run_one(&mut *c, i, cs, &mut st) {
            if known.iter().any(|(k, _)| !k.is_empty() && *k == v.key) {
                st.count(format!("known:{}", v.key), 1);
                done += 1;
                i += step;
                continue;
            }
            let j = json!({
                "index": i, "seed": cs, "what": v.what, "detail": v.detail, "certain": v.certain,
                "key": v.key, "first": first, "step": step,
            });
            std::fs::write(out.with_extension("violation"), serde_json::to_vec_pretty(&j).unwrap())
                .unwrap();
            code = 3;
            break;
        }
        done += 1;
        i += step;
    }
    if code == 0 {
        c.finish(&mut st);
    }
    let distinct: Vec<u64> = st.distinct.iter().copied().collect();
    let j = json!({
        "cases": done, "evals": st.evals, "counters": st.counters, "samples": st.samples,
        "notes": st.notes,
    });
    std::fs::write(out.with_extension("stats"), serde_json::to_vec(&j).unwrap()).unwrap();
    let mut f = std::fs::File::create(out.with_extension("distinct")).unwrap();
    let bytes: Vec<u8> = distinct.iter().flat_map(|x| x.to_le_bytes()).collect();
    f.write_all(&bytes).unwrap();
    std::io::stdout().flush().ok();
    // Skip destructors of JIT state.
    unsafe { libc::_exit(code) }
}

struct W {
    child: Child,
    out: PathBuf,
    first: u64,
    last_index: u64,
    last_change: Instant,
    done: bool,
    failure: Option<String>,
}

fn spawn(prop: &str, first: u64, step: u64, cases: u64, cap: f64, out: &Path) -> Child {
    let log = std::fs::File::create(out.with_extension("log")).unwrap();
    Command::new(std::env::current_exe().unwrap())
        .args(["worker", prop])
        .args([first.to_string(), step.to_string(), cases.to_string(), cap.to_string()])
        .arg(out)
        .env("TMPDIR", out.parent().unwrap())
        .env_remove("REVMC_JIT_MODE")
        .env_remove("REVMC_JIT_HELPER_PATH")
        .env_remove("REVMC_JIT_HELPER_MEMORY_LIMIT_BYTES")
        .env_remove("REVMC_JIT_HELPER_CPU_COUNT")
        .stdin(Stdio::null())
        .stdout(log.try_clone().unwrap())
        .stderr(log)
        .spawn()
        .unwrap()
}

fn read_progress(out: &Path) -> Option<u64> {
    let mut b = [0u8; 16];
    let mut f = std::fs::File::open(out.with_extension("progress")).ok()?;
    f.read_exact(&mut b).ok()?;
    Some(u64::from_le_bytes(b[..8].try_into().unwrap()))
}

fn tail(p: &Path, n: usize) -> String {
    let s = std::fs::read_to_string(p).unwrap_or_default();
    let l: Vec<&str> = s.lines().collect();
    l[l.len().saturating_sub(n)..].join("\n")
}

/// Signature of a crash, from what the dying process reported.
fn crash_key(log: &Path) -> String {
    let t = tail(log, 60);
    if let Some(l) = t.lines().rev().find_map(|l| l.strip_prefix("LLVM-FATAL ")) {
        return format!("llvm-fatal {l}");
    }
    String::new()
}

enum Confirm {
    Yes(Value),
    No,
    Hang,
}

/// Re-runs `[first..=index step]` in a fresh process.
fn confirm(prop: &str, first: u64, step: u64, index: u64, dir: &Path, limit: Duration) -> Confirm {
    let out = dir.join(format!("confirm-{first}-{index}"));
    for e in ["violation", "stats", "progress"] {
        let _ = std::fs::remove_file(out.with_extension(e));
    }
    let mut ch = spawn(prop, first, step, index + 1, 1e9, &out);
    let t = Instant::now();
    loop {
        match ch.try_wait().unwrap() {
            Some(s) => {
                if let Ok(b) = std::fs::read(out.with_extension("violation")) {
                    return Confirm::Yes(serde_json::from_slice(&b).unwrap());
                }
                if s.success() {
                    return Confirm::No;
                }
                return Confirm::Yes(json!({
                    "index": read_progress(&out), "what": format!("process died: {s}"),
                    "detail": {"status": s.to_string(), "signal": s.signal(), "log": tail(&out.with_extension("log"), 30)},
                    "key": crash_key(&out.with_extension("log")),
                }));
            }
            None => {
                if t.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Confirm::Hang;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    }
}

pub fn known_findings(prop: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.json");
    let Ok(b) = std::fs::read(p) else { return vec![] };
    let Ok(v) = serde_json::from_slice::<Value>(&b) else { return vec![] };
    v["findings"]
        .as_array()
        .into_iter()
        .flatten()
        .filter(|f| f["property"] == prop)
        .map(|f| (f["key"].as_str().unwrap_or("").into(), f["what"].as_str().unwrap_or("").into()))
        .collect()
}

/// Parent entry. Returns the exit code.
pub fn check(prop: &str, plan: &Plan) -> i32 {
    let start = Instant::now();
    let dir = scratch().join(prop);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let replays = verif_dir().join("replays");
    std::fs::create_dir_all(&replays).unwrap();
    let step = plan.workers as u64;
    let mut ws: Vec<W> = (0..plan.workers)
        .map(|k| {
            let out = dir.join(format!("w{k}"));
            W {
                child: spawn(prop, k as u64, step, plan.cases, plan.cap.as_secs_f64(), &out),
                out,
                first: k as u64,
                last_index: u64::MAX,
                last_change: Instant::now(),
                done: false,
                failure: None,
            }
        })
        .collect();
    let known = known_findings(prop);
    let mut known_crashes: Vec<String> = vec![];
    let mut stop_all = false;
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(25));
        for w in ws.iter_mut().filter(|w| !w.done) {
            if let Some(s) = w.child.try_wait().unwrap() {
                let key = crash_key(&w.out.with_extension("log"));
                if s.code().is_none() && known.iter().any(|(k, _)| !k.is_empty() && *k == key) {
                    // A listed finding ended the worker: carry on behind it.
                    known_crashes.push(key);
                    let next = read_progress(&w.out).unwrap_or(w.first) + step;
                    let left = plan.cap.as_secs_f64() - start.elapsed().as_secs_f64();
                    w.first = next;
                    w.child = spawn(prop, next, step, plan.cases, left.max(0.1), &w.out);
                    w.last_change = Instant::now();
                    continue;
                }
                w.done = true;
                if s.code() == Some(0) {
                } else if s.code() == Some(3) {
                    w.failure = Some("violation".into());
                    stop_all = true;
                } else {
                    w.failure = Some(format!("died: {s}"));
                    stop_all = true;
                }
                continue;
            }
            let p = read_progress(&w.out).unwrap_or(u64::MAX);
            if p != w.last_index {
                w.last_index = p;
                w.last_change = Instant::now();
            } else if w.last_change.elapsed() > plan.stuck {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
                w.failure = Some("stuck".into());
                stop_all = true;
            }
        }
        if stop_all {
            for w in ws.iter_mut().filter(|w| !w.done) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
            }
        }
    }

    // Merge statistics.
    let mut cases = 0u64;
    let mut evals = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut notes: Vec<String> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    for w in &ws {
        let Ok(b) = std::fs::read(w.out.with_extension("stats")) else { continue };
        let Ok(v) = serde_json::from_slice::<Value>(&b) else { continue };
        cases += v["cases"].as_u64().unwrap_or(0);
        evals += v["evals"].as_u64().unwrap_or(0);
        for (k, n) in v["counters"].as_object().into_iter().flatten() {
            let e = counters.entry(k.clone()).or_default();
            if k.starts_with("max:") {
                *e = (*e).max(n.as_u64().unwrap_or(0));
            } else {
                *e += n.as_u64().unwrap_or(0);
            }
        }
        if samples.len() < 4 {
            samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
        }
        for n in v["notes"].as_array().into_iter().flatten() {
            notes.push(n.as_str().unwrap_or("").to_string());
        }
        if let Ok(b) = std::fs::read(w.out.with_extension("distinct")) {
            for c in b.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    samples.truncate(4);

    // Judge failures.
    let mut violations = vec![];
    let mut known_hit = vec![];
    for (k, kw) in &known {
        let n = known_crashes.iter().filter(|c| *c == k).count() as u64
            + counters.get(&format!("known:{k}")).copied().unwrap_or(0);
        if n > 0 {
            known_hit.push(format!("{kw} [{k}; observed {n}x]"));
        }
    }
    let mut inconclusive = vec![];
    for w in &ws {
        let Some(f) = &w.failure else { continue };
        let (index, what, detail, certain, key) = if f == "violation" {
            let v: Value =
                serde_json::from_slice(&std::fs::read(w.out.with_extension("violation")).unwrap())
                    .unwrap();
            (
                v["index"].as_u64().unwrap(),
                v["what"].as_str().unwrap().to_string(),
                v["detail"].clone(),
                v["certain"] == true,
                v["key"].as_str().unwrap_or("").to_string(),
            )
        } else {
            let i = read_progress(&w.out).unwrap_or(w.first);
            (
                i,
                format!("worker {f} at case {i}"),
                json!({"log": tail(&w.out.with_extension("log"), 30)}),
                false,
                String::new(),
            )
        };
        let limit = plan.stuck + Duration::from_secs(50);
        let mut confirmed = certain.then(|| ("history", what.clone(), detail.clone(), key.clone()));
        if confirmed.is_none() {
            let take = |v: Value| {
                (
                    v["what"].as_str().unwrap_or("").to_string(),
                    v["detail"].clone(),
                    v["key"].as_str().unwrap_or("").to_string(),
                )
            };
            match confirm(prop, index, step, index, &dir, limit) {
                Confirm::Yes(v) => {
                    let (a, b, c) = take(v);
                    confirmed = Some(("case", a, b, c));
                }
                Confirm::Hang => {
                    confirmed = Some((
                        "case",
                        format!("no progress within {limit:?} (twice)"),
                        detail.clone(),
                        "hang".into(),
                    ))
                }
                Confirm::No => {
                    // Depends on what the process did before: replay the worker's sequence.
                    let seq_limit = plan.cap * 2 + limit;
                    if let Confirm::Yes(v) = confirm(prop, w.first, step, index, &dir, seq_limit) {
                        let (a, b, c) = take(v);
                        confirmed = Some(("sequence", a, b, c));
                    }
                }
            }
        }
        match confirmed {
            Some((mode, what, detail, key)) => {
                if let Some((k, kw)) = known.iter().find(|(k, _)| !k.is_empty() && *k == key) {
                    known_hit.push(format!("{kw} [{k}]"));
                    continue;
                }
                let path = replays.join(format!("{prop}-{}-{index}.json", seed()));
                let first = if mode == "sequence" { w.first } else { index };
                let j = json!({
                    "property": prop, "verif_seed": seed(), "tier": tier(), "mode": mode,
                    "first": first, "step": step, "index": index, "what": what, "detail": detail,
                    "key": key,
                    "how": "bash /verif/run.sh replay <this file>",
                });
                std::fs::write(&path, serde_json::to_vec_pretty(&j).unwrap()).unwrap();
                violations.push((path, what));
            }
            None => inconclusive.push(what),
        }
    }
    for m in &plan.must {
        let hit = counters.iter().any(|(k, v)| k.starts_with(m) && *v > 0);
        if !hit && violations.is_empty() {
            inconclusive.push(format!("monitor never observed `{m}`"));
        }
    }
    let mut cov = json!({
        "evaluations": evals,
        "distinct_nontrivial": distinct.len(),
        "rule": plan.rule,
        "samples": samples,
        "cases": cases,
        "workers": plan.workers,
        "observed": counters,
    });
    if !inconclusive.is_empty() {
        cov["inconclusive"] = json!(inconclusive);
    }
    if !notes.is_empty() {
        notes.sort();
        notes.dedup();
        cov["notes"] = json!(notes);
    }
    let ev = json!({
        "property": prop, "tier": tier(), "seed": seed(), "level": plan.level, "coverage": cov,
        "assumptions": plan.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let evd = verif_dir().join("evidence");
    std::fs::create_dir_all(&evd).unwrap();
    std::fs::write(evd.join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);

    println!(
        "{prop}: {cases} cases, {evals} evaluations, {} distinct non-trivial, {:.1}s",
        distinct.len(),
        start.elapsed().as_secs_f64()
    );
    for k in &known_hit {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    for i in &inconclusive {
        println!("INCONCLUSIVE: {i}");
    }
    if violations.is_empty() {
        0
    } else {
        for (p, what) in &violations {
            let w: String = what.chars().take(600).collect();
            println!("  {w}");
            println!("VIOLATION property={prop} replay={}", p.display());
        }
        1
    }
}

pub fn replay(path: &Path, mut mk: impl FnMut(&str) -> Box<dyn Check>) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap();
    unsafe { std::env::set_var("VERIF_SEED", v["verif_seed"].to_string()) };
    if let Some(t) = v["tier"].as_str() {
        unsafe { std::env::set_var("VERIF_TIER", t) };
    }
    let (first, step, index) = (
        v["first"].as_u64().unwrap(),
        v["step"].as_u64().unwrap(),
        v["index"].as_u64().unwrap(),
    );
    let mut c = mk(prop);
    let mut st = Stats::default();
    let mut i = first;
    while i <= index {
        if let Err(e) = run_one(&mut *c, i, case_seed(prop, seed(), i), &mut st) {
            println!("case {i}: {}", e.what);
            println!("{}", serde_json::to_string_pretty(&e.detail).unwrap());
            println!("VIOLATION property={prop} replay={}", path.display());
            return 1;
        }
        i += step;
    }
    println!("not reproduced");
    0
}
