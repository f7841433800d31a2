//! The supervisor and its workers.
//!
//! `vh check ID` splits the case indices over worker processes.  Case `i` is
//! decoded from bytes that proptest generates with a ChaCha generator seeded
//! by (seed, ID, i), so every case can be made again from its index.  A
//! failing case is shrunk with proptest's runner over `BytesTree`; a case that
//! kills its process (stack overflow, abort, work budget) is confirmed and
//! shrunk in fresh child processes.

use crate::api;
use crate::budget;
use crate::src::{Bytes, BytesTree, Src};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub enum Out {
    Pass,
    /// The case does not apply (the generator missed its aim, or the
    /// reference model leaves the verdict open).
    Discard,
    Fail(String),
    /// A defect on record: (key in the known-findings file, what fails).
    Known(&'static str, String),
}

pub type CheckFn = fn(&mut Src, &mut Case) -> Out;

pub struct Prop {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    /// enumerated cases, run in full in every tier
    pub fixed: u64,
    pub quick: u64,
    pub thorough: u64,
    /// allocation budget of one case
    pub budget: u64,
    pub f: CheckFn,
}

pub struct Case {
    /// Some(i): the i-th enumerated case, else a generated one.
    pub fixed: Option<u64>,
    pub thorough: bool,
    key: Option<u64>,
    labels: Vec<&'static str>,
    sample: Option<String>,
    want: bool,
    /// executions of the code under test, if counted
    pub execs: u64,
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a: the same in every build
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

impl Case {
    fn new(fixed: Option<u64>, thorough: bool, want: bool) -> Case {
        Case { fixed, thorough, key: None, labels: vec![], sample: None, want, execs: 0 }
    }
    /// This case is non-trivial; `k` identifies it.
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, k: &T) {
        self.key = Some(hash(k));
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want {
            self.sample = Some(f());
        }
    }
}

pub fn bytes_for(seed: u64, id: &str, index: u64, cfg: &Config) -> Vec<u8> {
    let mut k = [0u8; 32];
    k[..8].copy_from_slice(&seed.to_le_bytes());
    k[8..16].copy_from_slice(&hash(id).to_le_bytes());
    k[16..24].copy_from_slice(&index.to_le_bytes());
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &k);
    let mut r = TestRunner::new_with_rng(cfg.clone(), rng);
    Bytes.new_tree(&mut r).unwrap().current()
}

pub fn config() -> Config {
    Config { failure_persistence: None, max_shrink_iters: 6000, cases: 1, ..Config::default() }
}

fn run_case(p: &Prop, fixed: Option<u64>, bytes: &[u8], thorough: bool, want: bool) -> (Out, Case) {
    let mut c = Case::new(fixed, thorough, want);
    let mut s = Src::new(bytes);
    budget::arm(p.budget);
    let o = (p.f)(&mut s, &mut c);
    budget::disarm();
    (o, c)
}

#[derive(Clone)]
pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub root: PathBuf,
    pub jobs: u64,
    pub scale: f64,
}

pub fn thorough(o: &Opts) -> bool {
    o.tier == "thorough"
}

pub fn total(p: &Prop, o: &Opts) -> u64 {
    let n = if thorough(o) { p.thorough } else { p.quick };
    p.fixed + (n as f64 * o.scale) as u64
}

fn cpu_of_thread(tid: u32) -> f64 {
    // utime + stime of one of our own threads, in seconds
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

extern "C" {
    fn gettid() -> i32;
}

/// Run `f` in a thread with a known stack, watched: a case that uses more
/// than `limit` seconds of CPU time ends the process with status 78.
pub fn watched<T: Send + 'static>(limit: f64, cur: Arc<AtomicU64>, f: impl FnOnce() -> T + Send + 'static) -> T {
    let tid = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicBool::new(false));
    let (t2, d2) = (tid.clone(), done.clone());
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            t2.store(unsafe { gettid() } as u64, Ordering::SeqCst);
            let r = f();
            d2.store(true, Ordering::SeqCst);
            r
        })
        .unwrap();
    let mut last = u64::MAX;
    let mut at = 0.0;
    while !done.load(Ordering::SeqCst) && !h.is_finished() {
        std::thread::sleep(Duration::from_millis(20));
        let t = tid.load(Ordering::SeqCst);
        if t == 0 {
            continue;
        }
        let c = cur.load(Ordering::SeqCst);
        let cpu = cpu_of_thread(t as u32);
        if c != last {
            last = c;
            at = cpu;
        } else if cpu - at > limit {
            std::process::exit(budget::EXIT_HANG);
        }
    }
    match h.join() {
        Ok(r) => r,
        Err(_) => std::process::exit(2),
    }
}

// ------------------------------------------------------------------ worker

/// Runs its share of the cases; writes its report to `out`.
pub fn worker(p: &'static Prop, o: Opts, shard: u64, out: PathBuf) -> i32 {
    let cur = Arc::new(AtomicU64::new(u64::MAX));
    let c2 = cur.clone();
    watched(20.0, cur, move || worker_in(p, &o, shard, &out, &c2))
}

fn worker_in(p: &'static Prop, o: &Opts, shard: u64, out: &Path, cur: &AtomicU64) -> i32 {
    let cfg = config();
    let n = total(p, o);
    let prog = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(out.join(format!("p{}", shard))).unwrap();
    let (mut evals, mut discards, mut execs) = (0u64, 0u64, 0u64);
    let mut keys: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut sampled: HashSet<Vec<&'static str>> = HashSet::new();
    let mut known: BTreeMap<&'static str, String> = BTreeMap::new();
    let mut i = shard;
    while i < n {
        cur.store(i, Ordering::SeqCst);
        let _ = prog.write_at(&i.to_le_bytes(), 0);
        let fixed = if i < p.fixed { Some(i) } else { None };
        let bytes = if fixed.is_some() { vec![] } else { bytes_for(o.seed, p.id, i, &cfg) };
        let want = samples.len() < 8;
        let (r, c) = run_case(p, fixed, &bytes, thorough(o), want);
        evals += 1;
        execs += c.execs;
        for l in &c.labels {
            *labels.entry(l).or_default() += 1;
        }
        match r {
            Out::Pass => {
                if let Some(k) = c.key {
                    keys.insert(k);
                    if let Some(x) = c.sample {
                        if sampled.insert(c.labels.clone()) {
                            samples.push(x);
                        }
                    }
                }
            }
            Out::Discard => discards += 1,
            Out::Known(k, m) => {
                known.insert(k, m);
            }
            Out::Fail(m) => {
                let (b, m) = shrink(p, fixed, bytes, m, o, cur);
                let j = serde_json::json!({"index": i, "fixed": fixed, "bytes": crate::sch::hex(&b), "message": m});
                std::fs::write(out.join(format!("f{}", shard)), j.to_string()).unwrap();
                return 1;
            }
        }
        i += o.jobs;
    }
    let mut kb = Vec::with_capacity(keys.len() * 8);
    for k in &keys {
        kb.extend_from_slice(&k.to_le_bytes());
    }
    std::fs::write(out.join(format!("k{}", shard)), kb).unwrap();
    let j = serde_json::json!({
        "evaluations": evals, "discards": discards, "execs": execs, "labels": labels, "samples": samples, "known": known,
    });
    std::fs::write(out.join(format!("r{}", shard)), j.to_string()).unwrap();
    0
}

/// Shrink with proptest's runner.
fn shrink(p: &'static Prop, fixed: Option<u64>, bytes: Vec<u8>, m: String, o: &Opts, cur: &AtomicU64) -> (Vec<u8>, String) {
    if fixed.is_some() {
        return (bytes, m);
    }
    let th = thorough(o);
    let start = Instant::now();
    let step = std::cell::Cell::new(1u64 << 40);
    let mut r = TestRunner::new(config());
    let res = r.run_one(BytesTree::new(bytes.clone()), |b| {
        step.set(step.get() + 1);
        cur.store(step.get(), Ordering::SeqCst);
        if start.elapsed() > Duration::from_secs(60) {
            return Ok(());
        }
        match run_case(p, None, &b, th, false).0 {
            Out::Fail(m) => Err(TestCaseError::fail(m)),
            _ => Ok(()),
        }
    });
    match res {
        Err(TestError::Fail(reason, b)) => (b, reason.message().to_string()),
        // not failing when run again: report the case as found
        _ => (bytes, m),
    }
}

// --------------------------------------------------------------- run one

/// Run one case given its bytes (or the number of an enumerated case).
/// 0: passes, 1: fails (message on stdout).
pub fn one(p: &'static Prop, fixed: Option<u64>, bytes: Vec<u8>, th: bool) -> i32 {
    let cur = Arc::new(AtomicU64::new(0));
    let r = watched(20.0, cur, move || {
        let (r, c) = run_case(p, fixed, &bytes, th, true);
        (r, c.sample, c.labels)
    });
    match r {
        (Out::Fail(m), _, _) => {
            println!("{}", m);
            1
        }
        (o, s, l) => {
            let k = match o {
                Out::Pass => "pass",
                Out::Discard => "discard",
                _ => "known finding",
            };
            println!("{} {:?}\n{}", k, l, s.unwrap_or_default());
            0
        }
    }
}

// ------------------------------------------------------------- supervisor

fn me() -> Command {
    Command::new(std::env::current_exe().unwrap())
}

fn died(st: &std::process::ExitStatus) -> Option<String> {
    if let Some(s) = st.signal() {
        // 4 ILL, 6 ABRT, 7 BUS, 8 FPE, 11 SEGV; a kill is not the program's doing
        return if [4, 6, 7, 8, 11].contains(&s) { Some(format!("the process died of signal {}", s)) } else { None };
    }
    match st.code() {
        Some(budget::EXIT_BUDGET) => Some("the work budget was exceeded (runaway allocation or lookups)".into()),
        Some(budget::EXIT_HANG) => Some("no end after 20 s of CPU time".into()),
        _ => None,
    }
}

fn run_child(p: &Prop, o: &Opts, fixed: Option<u64>, bytes: &[u8]) -> std::process::Output {
    let mut c = me();
    c.arg("one").arg(p.id).arg(&o.tier);
    match fixed {
        Some(i) => c.arg(format!("fixed:{}", i)),
        None => c.arg("-"),
    };
    let mut ch = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(if std::env::var_os("VH_DEBUG").is_some() { Stdio::inherit() } else { Stdio::null() }).spawn().unwrap();
    ch.stdin.take().unwrap().write_all(bytes).ok();
    ch.wait_with_output().unwrap()
}

pub fn known_findings(root: &Path) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let (id, r) = l.split_once(' ')?;
            let (k, _) = r.strip_prefix("key=")?.split_once(' ')?;
            Some((id.to_string(), k.to_string()))
        })
        .collect()
}

fn write_replay(p: &Prop, o: &Opts, fixed: Option<u64>, bytes: &[u8], msg: &str) -> PathBuf {
    let d = o.root.join("replays");
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join(format!("{}-{:016x}.json", p.id, hash(&(fixed, bytes))));
    let j = serde_json::json!({
        "property": p.id, "tier": o.tier, "seed": o.seed, "fixed": fixed,
        "bytes": crate::sch::hex(bytes), "message": msg,
        "how": "cd /verif && ./run.sh replay <this file>",
    });
    std::fs::write(&f, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    f
}

fn evidence(p: &Prop, o: &Opts, cov: serde_json::Value, viol: u64, t0: Instant) {
    let d = o.root.join("evidence");
    std::fs::create_dir_all(&d).unwrap();
    let j = serde_json::json!({
        "property": p.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": cov,
        "assumptions": ["the code under test is the crate in /repo's working tree, built with debug assertions and overflow checks",
            "the oracle is the harness's own model, encoders and decoders (see DESIGN.md)"],
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": viol,
    });
    std::fs::write(d.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&j).unwrap() + "\n").unwrap();
}

struct Tmp(PathBuf);
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn violation(p: &Prop, o: &Opts, fixed: Option<u64>, bytes: &[u8], msg: &str, t0: Instant, evals: u64) -> i32 {
    let f = write_replay(p, o, fixed, bytes, msg);
    println!("{}", msg);
    evidence(
        p,
        o,
        serde_json::json!({"evaluations": evals, "distinct_nontrivial": 0, "rule": p.rule, "samples": [msg],
            "note": "stopped at the first violation; counts are those of the failing worker"}),
        1,
        t0,
    );
    println!("VIOLATION property={} replay={}", p.id, f.display());
    1
}

pub fn check(p: &'static Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let tmp = Tmp(std::env::temp_dir().join(format!("vh-{}-{}", p.id, std::process::id())));
    std::fs::create_dir_all(&tmp.0).unwrap();
    let mut ws: Vec<(u64, Option<Child>, Option<std::process::ExitStatus>)> = (0..o.jobs)
        .map(|i| {
            let c = me()
                .arg("worker")
                .arg(p.id)
                .arg(&o.tier)
                .arg(o.seed.to_string())
                .arg(i.to_string())
                .arg(o.jobs.to_string())
                .arg(o.scale.to_string())
                .arg(&tmp.0)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::piped())
                .spawn()
                .unwrap();
            (i, Some(c), None)
        })
        .collect();
    let wall = if thorough(o) { 6 * 3600 } else { 800 };
    let mut bad: Option<u64> = None;
    loop {
        let mut live = 0;
        for w in ws.iter_mut() {
            if w.2.is_some() {
                continue;
            }
            match w.1.as_mut().unwrap().try_wait().unwrap() {
                Some(st) => {
                    w.2 = Some(st);
                    if st.code() != Some(0) && bad.is_none() {
                        bad = Some(w.0);
                    }
                }
                None => live += 1,
            }
        }
        if bad.is_some() || live == 0 {
            break;
        }
        if t0.elapsed().as_secs() > wall {
            for w in ws.iter_mut() {
                let _ = w.1.as_mut().unwrap().kill();
            }
            println!("error: out of time");
            return 2;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    if let Some(b) = bad {
        for w in ws.iter_mut() {
            if w.2.is_none() {
                let c = w.1.as_mut().unwrap();
                let _ = c.kill();
                let _ = c.wait();
            }
        }
        let w = &mut ws[b as usize];
        let st = w.2.unwrap();
        let ff = tmp.0.join(format!("f{}", b));
        let cur = std::fs::read(tmp.0.join(format!("p{}", b)))
            .ok()
            .and_then(|x| x.try_into().ok())
            .map(u64::from_le_bytes);
        if st.code() == Some(1) && ff.exists() {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&ff).unwrap()).unwrap();
            let bytes = unhex(j["bytes"].as_str().unwrap());
            let msg = j["message"].as_str().unwrap().to_string();
            let idx = j["index"].as_u64().unwrap();
            return violation(p, o, j["fixed"].as_u64(), &bytes, &msg, t0, idx / o.jobs + 1);
        }
        if let (Some(why), Some(i)) = (died(&st), cur) {
            let fixed = if i < p.fixed { Some(i) } else { None };
            let bytes = if fixed.is_some() { vec![] } else { bytes_for(o.seed, p.id, i, &config()) };
            let out = run_child(p, o, fixed, &bytes);
            match died(&out.status) {
                Some(_) => {
                    let hang = out.status.code() == Some(budget::EXIT_HANG);
                    let bytes = if fixed.is_some() || hang { bytes } else { shrink_dead(p, o, bytes) };
                    let msg = format!("case {}: {}", i, why);
                    return violation(p, o, fixed, &bytes, &msg, t0, i / o.jobs + 1);
                }
                None => {
                    println!("error: worker {} ended ({}) at case {}, and the case alone did not", b, why, i);
                    return 2;
                }
            }
        }
        let mut e = String::new();
        if let Some(mut s) = w.1.as_mut().unwrap().stderr.take() {
            use std::io::Read;
            let _ = s.read_to_string(&mut e);
        }
        println!("error: worker {} ended with {:?} at case {:?}\n{}", b, st, cur, e);
        return 2;
    }
    // all done
    let (mut evals, mut discards, mut execs) = (0, 0, 0);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut per: Vec<Vec<serde_json::Value>> = vec![];
    let mut known: BTreeMap<String, String> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    for i in 0..o.jobs {
        let j: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(tmp.0.join(format!("r{}", i))).unwrap()).unwrap();
        evals += j["evaluations"].as_u64().unwrap();
        discards += j["discards"].as_u64().unwrap();
        execs += j["execs"].as_u64().unwrap();
        for (k, v) in j["labels"].as_object().unwrap() {
            *labels.entry(k.clone()).or_default() += v.as_u64().unwrap();
        }
        per.push(j["samples"].as_array().unwrap().clone());
        for (k, v) in j["known"].as_object().unwrap() {
            known.insert(k.clone(), v.as_str().unwrap().to_string());
        }
        for c in std::fs::read(tmp.0.join(format!("k{}", i))).unwrap().chunks(8) {
            keys.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    for r in 0..3 {
        for x in &per {
            if let Some(v) = x.get(r) {
                if samples.len() < 12 {
                    samples.push(v.clone());
                }
            }
        }
    }
    let list = known_findings(&o.root);
    for (k, m) in &known {
        if !list.iter().any(|(id, key)| id == p.id && key == k) {
            let msg = format!("[{}] {}", k, m);
            return violation(p, o, None, &[], &msg, t0, evals);
        }
        println!("KNOWN-FINDING: property={} [{}] {}", p.id, k, m);
    }
    let mut cov = serde_json::json!({
        "evaluations": evals, "distinct_nontrivial": keys.len(), "rule": p.rule, "samples": samples,
        "discarded": discards, "classes": labels, "workers": o.jobs,
    });
    if execs > 0 {
        cov["executions_of_code_under_test"] = execs.into();
    }
    if p.fixed > 0 {
        cov["enumerated_cases"] = p.fixed.into();
    }
    if !known.is_empty() {
        cov["known_findings_seen"] = serde_json::json!(known.keys().collect::<Vec<_>>());
    }
    evidence(p, o, cov, 0, t0);
    println!(
        "{}: held on {} cases ({} distinct non-trivial, {} discarded), {:.1} s",
        p.id,
        evals,
        keys.len(),
        discards,
        t0.elapsed().as_secs_f64()
    );
    0
}

fn shrink_dead(p: &Prop, o: &Opts, bytes: Vec<u8>) -> Vec<u8> {
    let mut t = BytesTree::new(bytes.clone());
    let mut best = bytes;
    let t0 = Instant::now();
    if !t.simplify() {
        return best;
    }
    for _ in 0..400 {
        if t0.elapsed().as_secs() > 60 {
            break;
        }
        let b = t.current();
        let st = run_child(p, o, None, &b).status;
        let more = if died(&st).is_some() && st.code() != Some(budget::EXIT_HANG) {
            best = b;
            t.simplify()
        } else {
            t.complicate()
        };
        if !more {
            break;
        }
    }
    best
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn replay(props: &'static [Prop], file: &str, root: PathBuf) -> i32 {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let id = j["property"].as_str().unwrap();
    let p = props.iter().find(|p| p.id == id).unwrap();
    let o = Opts {
        tier: j["tier"].as_str().unwrap_or("quick").into(),
        seed: j["seed"].as_u64().unwrap_or(1),
        root,
        jobs: 1,
        scale: 1.0,
    };
    let bytes = unhex(j["bytes"].as_str().unwrap());
    let out = run_child(p, &o, j["fixed"].as_u64(), &bytes);
    println!("{}", String::from_utf8_lossy(&out.stdout));
    let bad = out.status.code() == Some(1) || died(&out.status).is_some();
    if let Some(w) = died(&out.status) {
        println!("{}", w);
    }
    if bad {
        println!("VIOLATION property={} replay={}", id, file);
        1
    } else {
        out.status.code().unwrap_or(2)
    }
}

/// The process must not be judged by panics of the harness itself.
pub fn init() {
    api::install_hook();
}
