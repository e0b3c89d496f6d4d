//! Harness: exploration bookkeeping, parallel enumeration, violations, known findings, evidence.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// How many violations to collect before stopping (development: MC_MAX).
static MAXV: std::sync::LazyLock<usize> = std::sync::LazyLock::new(|| std::env::var("MC_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(300));

pub struct Violation {
    pub sig: String,
    pub case: String,
    pub detail: String,
}

/// One run of one property's check.
pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<String>,
    pub start: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    evals: AtomicU64,
    counters: Mutex<BTreeMap<String, u64>>,
    outcomes: Mutex<HashSet<u64>>,
    samples: Mutex<BTreeMap<String, Vec<String>>>,
    violations: Mutex<Vec<Violation>>,
    known: BTreeMap<String, String>,
    known_seen: Mutex<BTreeMap<String, usize>>,
    nviol: AtomicUsize,
    notes: Mutex<BTreeMap<String, String>>,
    pub capped: AtomicBool,
    threads: usize,
}

pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    // SipHash with fixed keys: the same in every run.
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, only: Option<String>) -> Ctx {
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            only,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            evals: AtomicU64::new(0),
            counters: Mutex::new(BTreeMap::new()),
            outcomes: Mutex::new(HashSet::new()),
            samples: Mutex::new(BTreeMap::new()),
            violations: Mutex::new(vec![]),
            known: read_known(prop),
            known_seen: Mutex::new(BTreeMap::new()),
            nviol: AtomicUsize::new(0),
            notes: Mutex::new(BTreeMap::new()),
            capped: AtomicBool::new(false),
            threads: std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
        }
    }
    /// Model states visited.
    pub fn state(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    /// Transitions executed on the real code and compared with the model.
    pub fn transition(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    /// Complete histories run on the real code whose every step was compared with the model.
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn eval(&self, n: u64) {
        self.evals.fetch_add(n, Ordering::Relaxed);
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.into()).or_insert(0) += n;
    }
    pub fn counter(&self, k: &str) -> u64 {
        self.counters.lock().unwrap().get(k).cloned().unwrap_or(0)
    }
    pub fn note(&self, k: &str, v: String) {
        self.notes.lock().unwrap().insert(k.into(), v);
    }
    /// Record a distinct observed outcome.
    pub fn outcome<T: std::hash::Hash>(&self, t: &T) -> bool {
        self.outcomes.lock().unwrap().insert(hash(t))
    }
    pub fn sample(&self, group: &str, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        let e = s.entry(group.into()).or_default();
        if e.len() < 3 {
            let t = f();
            if t.len() < 1500 && !e.contains(&t) {
                e.push(t);
            }
        }
    }
    pub fn violation(&self, sig: impl Into<String>, case: impl Into<String>, detail: impl Into<String>) {
        let (sig, case, detail) = (sig.into(), case.into(), detail.into());
        if self.known.contains_key(&sig) {
            let mut k = self.known_seen.lock().unwrap();
            *k.entry(sig).or_insert(0) += 1;
            if self.only.is_some() {
                println!("known finding [{}]\n{}", case, detail);
            }
            return;
        }
        self.nviol.fetch_add(1, Ordering::Relaxed);
        let mut v = self.violations.lock().unwrap();
        if v.len() < *MAXV + 100 {
            v.push(Violation { sig, case, detail });
        }
    }
    pub fn too_many(&self) -> bool {
        self.nviol.load(Ordering::Relaxed) > *MAXV
    }
    /// Whether this case should be run (replay runs one case only).
    pub fn want(&self, case: &str) -> bool {
        match &self.only {
            None => true,
            Some(o) => o == case || case.starts_with(&format!("{}|", o)) || o.starts_with(&format!("{}|", case)),
        }
    }
    /// Run `f` on every index in 0..n on all cores. Exhaustive; order is irrelevant to the result.
    pub fn par<F: Fn(usize) + Sync>(&self, n: usize, f: F) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(n.max(1)) {
                let b = std::thread::Builder::new().stack_size(64 << 20);
                b.spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || self.too_many() {
                        break;
                    }
                    self.watch(i, || f(i));
                })
                .unwrap();
            }
        });
    }
    /// Like `par`, with per-thread state.
    pub fn par_with<S, M: Fn() -> S + Sync, F: Fn(&mut S, usize) + Sync>(&self, n: usize, mk: M, f: F) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(n.max(1)) {
                let b = std::thread::Builder::new().stack_size(64 << 20);
                b.spawn_scoped(s, || {
                    let mut st = mk();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || self.too_many() {
                            break;
                        }
                        self.watch(i, || f(&mut st, i));
                    }
                })
                .unwrap();
            }
        });
    }
    /// A panic in the middle of a job (the code under test broke something the job relies on) is a violation.
    fn watch(&self, i: usize, f: impl FnOnce()) {
        if let Err(e) = guard(f) {
            self.violation(format!("{}/panic", self.prop), format!("job {}", i), format!("job {} of this check could not be completed: {}", i, e));
        }
    }
    /// What a worker process has found, for its parent.
    pub fn export(&self) -> serde_json::Value {
        serde_json::json!({
            "states": self.states.load(Ordering::Relaxed), "transitions": self.transitions.load(Ordering::Relaxed),
            "traces": self.traces.load(Ordering::Relaxed), "evals": self.evals.load(Ordering::Relaxed),
            "counters": *self.counters.lock().unwrap(), "samples": *self.samples.lock().unwrap(),
            "outcomes": self.outcomes.lock().unwrap().iter().map(|h| h.to_string()).collect::<Vec<_>>(),
            "violations": self.take_violations(),
            "known": *self.known_seen.lock().unwrap(),
        })
    }
    pub fn take_violations(&self) -> Vec<Vec<String>> {
        self.violations.lock().unwrap().drain(..).map(|v| vec![v.sig, v.case, v.detail]).collect()
    }
    pub fn absorb(&self, j: &serde_json::Value) {
        let n = |k: &str| j[k].as_u64().unwrap_or(0);
        self.state(n("states"));
        self.transition(n("transitions"));
        self.trace(n("traces"));
        self.eval(n("evals"));
        for (k, v) in j["counters"].as_object().into_iter().flatten() {
            self.count(k, v.as_u64().unwrap_or(0));
        }
        for (g, v) in j["samples"].as_object().into_iter().flatten() {
            for s in v.as_array().into_iter().flatten().filter_map(|s| s.as_str()) {
                self.sample(g, || s.to_string());
            }
        }
        for h in j["outcomes"].as_array().into_iter().flatten().filter_map(|s| s.as_str()).filter_map(|s| s.parse().ok()) {
            self.outcomes.lock().unwrap().insert(h);
        }
        for v in j["violations"].as_array().into_iter().flatten() {
            let s = |i: usize| v[i].as_str().unwrap_or("").to_string();
            self.violation(s(0), s(1), s(2));
        }
        for (k, v) in j["known"].as_object().into_iter().flatten() {
            *self.known_seen.lock().unwrap().entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0) as usize;
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Print the verdict, write replays and evidence, and return the exit code.
    pub fn finish(&self, info: &Info) -> i32 {
        let known = &self.known;
        let viols = self.violations.lock().unwrap();
        let seen_known = self.known_seen.lock().unwrap();
        let mut fresh: Vec<&Violation> = vec![];
        let mut seen: BTreeSet<&str> = BTreeSet::new();
        for v in viols.iter() {
            if seen.insert(&v.sig) {
                fresh.push(v);
            }
        }
        // Simplest first: fewest characters in the case is a good proxy for the shortest history.
        fresh.sort_by_key(|v| (v.detail.len(), v.case.clone()));
        for (sig, what) in known {
            if seen_known.contains_key(sig) {
                println!("KNOWN-FINDING: property={} {}", self.prop, what);
            } else if self.only.is_none() {
                println!("note: known finding of {} not reproduced on this tree: {}", self.prop, sig);
            }
        }
        let mut rc = 0;
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        if self.only.is_none() {
            // Replays of earlier runs of this property are stale.
            if let Ok(rd) = std::fs::read_dir(&dir) {
                for e in rd.flatten() {
                    if e.file_name().to_string_lossy().starts_with(&format!("{}-", self.prop)) {
                        let _ = std::fs::remove_file(e.path());
                    }
                }
            }
        }
        for (i, v) in fresh.iter().enumerate() {
            rc = 1;
            if i >= 5 && std::env::var("MC_ALL").is_err() {
                println!("... and {} more violations of {}", fresh.len() - 5, self.prop);
                break;
            }
            let path = format!("{}/{}-{}.json", dir, self.prop, i);
            let j = serde_json::json!({
                "property": self.prop, "signature": v.sig, "case": v.case, "detail": v.detail,
                "tier": if self.thorough { "thorough" } else { "quick" },
                "replay_with": format!("bash run.sh {} {} --case '{}'", self.prop, if self.thorough { "thorough" } else { "quick" }, v.case),
            });
            if self.only.is_none() {
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
            }
            println!("--- {} [{}]\n{}", v.sig, v.case, v.detail);
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        let states = self.states.load(Ordering::Relaxed);
        let transitions = self.transitions.load(Ordering::Relaxed);
        let traces = self.traces.load(Ordering::Relaxed);
        let evals = self.evals.load(Ordering::Relaxed);
        let outcomes = self.outcomes.lock().unwrap().len() as u64;
        let samples: Vec<String> = self.samples.lock().unwrap().iter().flat_map(|(g, v)| v.iter().map(move |s| format!("{}: {}", g, s))).collect();
        let mut cov = serde_json::Map::new();
        let capped = self.capped.load(Ordering::Relaxed) || self.too_many();
        match info.level {
            "model_checking" => {
                cov.insert("states".into(), states.into());
                cov.insert("transitions".into(), transitions.into());
                cov.insert("traces_validated_against_impl".into(), traces.into());
                cov.insert("distinct_outcomes".into(), outcomes.into());
            }
            _ => {
                cov.insert("evaluations".into(), evals.into());
                cov.insert("distinct_nontrivial".into(), outcomes.into());
                cov.insert("rule".into(), info.rule.into());
                if states > 0 {
                    cov.insert("states".into(), states.into());
                }
                if transitions > 0 {
                    cov.insert("transitions".into(), transitions.into());
                }
            }
        }
        cov.insert("rule".into(), info.rule.into());
        cov.insert("bounds".into(), info.bounds.into());
        cov.insert("samples".into(), samples.into());
        cov.insert("exhaustive".into(), (!capped).into());
        for (k, v) in self.counters.lock().unwrap().iter() {
            cov.insert(format!("n_{}", k), (*v).into());
        }
        for (k, v) in self.notes.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone().into());
        }
        let j = serde_json::json!({
            "property": self.prop,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": info.level,
            "coverage": cov,
            "assumptions": info.assumptions,
            "wall_s": (self.elapsed() * 100.0).round() / 100.0,
            "violations": fresh.len(),
            "known_findings_reproduced": seen_known.keys().collect::<Vec<_>>(),
        });
        if self.only.is_none() {
            let d = format!("{}/evidence", root());
            let _ = std::fs::create_dir_all(&d);
            std::fs::write(format!("{}/{}.json", d, self.prop), serde_json::to_string_pretty(&j).unwrap()).expect("evidence");
        }
        println!(
            "{} {}: states={} transitions={} traces={} evaluations={} outcomes={} violations={} known={} {:.1}s{}",
            self.prop, if self.thorough { "thorough" } else { "quick" }, states, transitions, traces, evals, outcomes, fresh.len(), seen_known.len(), self.elapsed(),
            if capped { " (stopped early)" } else { "" }
        );
        for (k, v) in self.counters.lock().unwrap().iter() {
            println!("  {} = {}", k, v);
        }
        // A check that explored nothing has decided nothing.
        if rc == 0 && self.only.is_none() && transitions + evals == 0 {
            eprintln!("nothing explored");
            return 3;
        }
        rc
    }
}

/// What a check says about itself in its evidence.
pub struct Info {
    pub level: &'static str,
    pub rule: &'static str,
    pub bounds: &'static str,
    pub assumptions: Vec<&'static str>,
}

pub fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// `known_findings.txt`: lines "known: property=<id> sig=<signature> :: <what fails>" suppress exactly
/// that signature; lines "fixed: ..." suppress nothing.
fn read_known(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    for l in text.lines() {
        let pre = format!("known: property={} sig=", prop);
        if let Some(rest) = l.strip_prefix(&pre) {
            let mut it = rest.splitn(2, " :: ");
            let sig = it.next().unwrap_or("").trim().to_string();
            let what = it.next().unwrap_or("").trim().to_string();
            m.insert(sig, what);
        }
    }
    m
}

/// Run `f`, turning a panic of the code under test into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(e) => Err(format!(
            "PANIC {}",
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}

/// All subsets of 0..n with at most k elements, smallest first.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut nl = vec![];
        for s in &layer {
            let lo = s.last().map(|x| x + 1).unwrap_or(0);
            for i in lo..n {
                let mut t = s.clone();
                t.push(i);
                nl.push(t);
            }
        }
        out.extend(nl.iter().cloned());
        layer = nl;
    }
    out
}

/// All sequences over 0..n with length exactly k.
pub fn sequences(n: usize, k: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = n.pow(k as u32);
    (0..total).map(move |mut i| {
        let mut v = vec![0; k];
        for j in (0..k).rev() {
            v[j] = i % n;
            i /= n;
        }
        v
    })
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(cur, n, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], n, &mut out);
    out
}

pub fn dup_fd(fd: i32) -> i32 {
    unsafe { dup(fd) }
}
pub fn redirect(from: i32, to: i32) {
    unsafe {
        dup2(from, to);
    }
}

/// Silences what the code under test prints to the standard output, while it lives.
pub struct Quiet(i32);
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
impl Quiet {
    pub fn new() -> Quiet {
        use std::io::Write;
        use std::os::unix::io::AsRawFd;
        let _ = std::io::stdout().flush();
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
        unsafe {
            let keep = dup(1);
            dup2(null.as_raw_fd(), 1);
            Quiet(keep)
        }
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            dup2(self.0, 1);
            close(self.0);
        }
    }
}
