//! The monitor core: counts what was observed, records violations, attributes panics.
use std::{
    cell::RefCell,
    collections::{hash_map::DefaultHasher, BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    time::Instant,
};

use crate::rng::Rng;

#[derive(Debug, Clone)]
pub struct Panic {
    pub file: String,
    pub line: u32,
    pub msg: String,
}

impl Panic {
    /// Did the panic originate in the repository under test (and not in a dependency)?
    pub fn in_repo(&self) -> bool {
        self.file.contains("work/scope/") || self.file.starts_with("/repo/")
    }
    /// Did the panic originate in a crate that reads PDFs or talks to the network?
    pub fn third_party(&self) -> bool {
        !self.in_repo() && !self.in_harness() && self.file.contains("/registry/")
    }
    pub fn in_harness(&self) -> bool {
        !self.file.contains("work/scope/") && (self.file.starts_with("src/") || self.file.contains("/verif/harness/"))
    }
}

impl std::fmt::Display for Panic {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "panic at {}:{}: {}", self.file, self.line, self.msg)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<Panic>> = const { RefCell::new(None) };
    static GUARDED: RefCell<u32> = const { RefCell::new(0) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let guarded = GUARDED.with(|g| *g.borrow() > 0);
        let loc = info.location();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let mut p = Panic {
            file: loc.map(|l| l.file().to_string()).unwrap_or_default(),
            line: loc.map(|l| l.line()).unwrap_or(0),
            msg,
        };
        if (p.file.starts_with("/rustc/") || p.file.starts_with("library/")) {
            // raised inside the standard library: whoever called it
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            let at = bt
                .lines()
                .filter_map(|l| l.trim().strip_prefix("at "))
                .find(|l| !l.starts_with("/rustc/") && !l.starts_with("library/") && !l.contains("src/mon.rs"));
            if let Some(at) = at {
                let mut it = at.split(':');
                p.msg = format!("{} (in {})", p.msg, p.file);
                p.file = it.next().unwrap_or("").to_string();
                p.line = it.next().and_then(|l| l.parse().ok()).unwrap_or(0);
            }
        }
        if !guarded || p.in_harness() {
            default(info);
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(p));
    }));
}

/// Run code under test. A panic comes back as Err with its origin; a panic of the harness itself
/// (a bug of ours) is never swallowed.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    GUARDED.with(|g| *g.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| *g.borrow_mut() -= 1);
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            let p = LAST_PANIC.with(|l| l.borrow_mut().take());
            match p {
                Some(p) if p.in_harness() => std::panic::resume_unwind(e),
                Some(p) => Err(p),
                None => Err(Panic {
                    file: "?".into(),
                    line: 0,
                    msg: "unknown panic".into(),
                }),
            }
        }
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub key: String,
    pub detail: String,
    pub suite: String,
    pub case: u64,
}

#[derive(Default)]
pub struct Mon {
    pub suite: String,
    pub case: u64,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    /// panics of the harness itself: no answer, unless a violation was seen as well
    pub harness_errors: u64,
    pub max_samples: usize,
    /// when set, used for reporting instead of the suite's random state
    pub note: String,
}

#[allow(dead_code)]
impl Mon {
    pub fn new() -> Self {
        Mon {
            max_samples: 3,
            ..Default::default()
        }
    }
    /// One observed execution. `key` identifies the case, `nontrivial` per the check's rule.
    pub fn observe<T: Hash + ?Sized>(&mut self, key: &T, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial && self.distinct.len() < 4_000_000 {
            let h = hash_of(&(self.suite.as_str(), hash_of(key)));
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < self.max_samples {
            let mut v = s();
            if v.chars().count() > 1200 {
                v = v.chars().take(1200).collect::<String>() + "…";
            }
            self.samples.push(format!("[{}] {}", self.suite, v));
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(name) {
            *v += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn fail(&mut self, key: &str, detail: String) {
        if self.violations.len() < 50 {
            self.violations.push(Violation {
                key: key.to_string(),
                detail,
                suite: self.suite.clone(),
                case: self.case,
            });
        }
        self.count("violations_seen", 1);
    }
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(key, detail());
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(
        &mut self,
        got: &T,
        want: &T,
        key: &str,
        ctx: impl FnOnce() -> String,
    ) -> bool {
        if got != want {
            let c = ctx();
            self.fail(key, format!("{c}\n  got:  {got:?}\n  want: {want:?}"));
            false
        } else {
            true
        }
    }
    /// Call code under test that must neither panic nor ... ; a panic is a violation.
    pub fn no_panic<T>(
        &mut self,
        key: &str,
        ctx: impl FnOnce() -> String,
        f: impl FnOnce() -> T,
    ) -> Option<T> {
        match guard(f) {
            Ok(v) => Some(v),
            Err(p) => {
                let c = ctx();
                self.fail(&format!("{key}:panic"), format!("{p}\n  on {c}"));
                None
            }
        }
    }
    pub fn merge(&mut self, o: Mon) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            if k.starts_with("max_") {
                let e = self.counters.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *self.counters.entry(k).or_insert(0) += v;
            }
        }
        for s in o.samples {
            if self.samples.len() < 24 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
        self.harness_errors += o.harness_errors;
    }
    pub fn count_max(&mut self, name: &str, n: u64) {
        let e = self.counters.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
}

pub struct Env {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub start: Instant,
    /// only run this (suite, case)
    pub only: Option<(String, u64)>,
    /// reduced workloads, when run as part of another check
    pub scale: u64,
    /// multiplies the quick budgets of cheap checks
    pub boost: u64,
    /// where the running cases are noted, for whoever watches this process
    pub progress: Option<Progress>,
    /// cases left out
    pub skip: Vec<(String, u64)>,
}

/// What each worker is doing, in a file that outlives the process. A case that uses up its CPU time
/// ends the process.
pub struct Progress {
    pub file: std::fs::File,
    pub cpu_limit: u64,
}

pub const SLOT: usize = 64;
pub const HUNG: i32 = 77;
/// CPU time after which a case (milliseconds, usually) is taken to never end
pub const CASE_CPU_S: u64 = 120;

impl Progress {
    fn note(&self, worker: usize, suite: &str, case: u64, what: &str) {
        use std::os::unix::fs::FileExt;
        let mut s = format!("{what} {suite} {case}");
        while s.len() < SLOT {
            s.push(' ');
        }
        s.truncate(SLOT - 1);
        s.push('\n');
        let _ = self.file.write_all_at(s.as_bytes(), (worker * SLOT) as u64);
    }
}

fn cpu_of(clock: libc::clockid_t) -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: plain system call writing to our timespec
    unsafe { libc::clock_gettime(clock, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
fn own_clock() -> libc::clockid_t {
    let mut c: libc::clockid_t = 0;
    // SAFETY: as above
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    c
}

impl Env {
    fn hung(&self, suite: &str, case: u64) -> ! {
        let dir = crate::verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.txt", self.id));
        let tier = if self.thorough { "thorough" } else { "quick" };
        let text = format!(
            "property {} key hang\nreplay: VERIF_SEED={} VERIF_TIER={tier} ./check.sh {} --case {suite} {case}\nstill running after {CASE_CPU_S} s of CPU time\n",
            self.id, self.seed, self.id
        );
        let _ = std::fs::write(&path, &text);
        eprintln!("{text}keys: [\"hang\"]");
        println!("VIOLATION property={} replay={}", self.id, path.display());
        std::process::exit(1)
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let quick = quick * self.boost;
        (if self.thorough { thorough.max(quick) } else { quick } / self.scale).max(1)
    }

    /// Run `n` independent cases of a suite over the worker threads. Each case gets its own RNG
    /// derived from (seed, suite, case), so that any case can be replayed alone.
    pub fn suite(
        &self,
        mon: &mut Mon,
        name: &str,
        n: u64,
        f: impl Fn(&mut Rng, &mut Mon) + Sync,
    ) {
        if let Some((s, c)) = &self.only {
            if s != name {
                return;
            }
            let mut m = Mon::new();
            m.suite = name.to_string();
            m.case = *c;
            let mut rng = Rng::new(&[self.seed, hash_of(name), *c]);
            f(&mut rng, &mut m);
            mon.merge(m);
            return;
        }
        let t0 = Instant::now();
        let next = std::sync::atomic::AtomicU64::new(0);
        let bad = std::sync::atomic::AtomicU64::new(0);
        // (clock, case + 1, cpu time at its start), per worker
        let running: Vec<std::sync::Mutex<(libc::clockid_t, u64, f64)>> = (0..self.threads).map(|_| Default::default()).collect();
        let left = std::sync::atomic::AtomicUsize::new(self.threads);
        let results: Vec<Mon> = std::thread::scope(|s| {
            let mut hs = vec![];
            {
                let (running, left) = (&running, &left);
                let limit = self.progress.as_ref().map_or(CASE_CPU_S, |p| p.cpu_limit) as f64;
                s.spawn(move || {
                    while left.load(std::sync::atomic::Ordering::Relaxed) > 0 {
                        std::thread::sleep(std::time::Duration::from_millis(20));
                        for (t, w) in running.iter().enumerate() {
                            let w = w.lock().unwrap();
                            if w.1 > 0 && cpu_of(w.0) - w.2 > limit {
                                if let Some(p) = &self.progress {
                                    p.note(t, name, w.1 - 1, "hung");
                                    std::process::exit(HUNG);
                                }
                                self.hung(name, w.1 - 1);
                            }
                        }
                    }
                });
            }
            for t in 0..self.threads {
                let (f, next, bad, running, left) = (&f, &next, &bad, &running, &left);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let mut m = Mon::new();
                            m.max_samples = if t == 0 { 3 } else { 0 };
                            m.suite = name.to_string();
                            let clock = own_clock();
                            loop {
                                let c = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                                if c >= n || bad.load(std::sync::atomic::Ordering::Relaxed) > 20 {
                                    break;
                                }
                                m.case = c;
                                if let Some(p) = &self.progress {
                                    if self.skip.iter().any(|(s, k)| s == name && *k == c) {
                                        m.count("cases_left_out", 1);
                                        continue;
                                    }
                                    p.note(t, name, c, "run");
                                }
                                *running[t].lock().unwrap() = (clock, c + 1, cpu_of(clock));
                                let mut rng = Rng::new(&[self.seed, hash_of(name), c]);
                                let v0 = m.violations.len();
                                if catch_unwind(AssertUnwindSafe(|| f(&mut rng, &mut m))).is_err() {
                                    match LAST_PANIC.with(|l| l.borrow_mut().take()) {
                                        Some(p) if p.in_repo() => m.fail("panic", p.to_string()),
                                        _ => {
                                            eprintln!("HARNESS ERROR in suite {name} case {c}");
                                            m.harness_errors += 1;
                                        }
                                    }
                                    bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                                }
                                if m.violations.len() > v0 {
                                    bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                                }
                                let mut w = running[t].lock().unwrap();
                                m.count_max("max_case_cpu_ms", ((cpu_of(clock) - w.2) * 1000.0) as u64);
                                w.1 = 0;
                                if let Some(p) = &self.progress {
                                    p.note(t, name, c, "done");
                                }
                            }
                            left.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
                            m
                        })
                        .unwrap(),
                );
            }
            hs.into_iter()
                .map(|h| match h.join() {
                    Ok(m) => m,
                    Err(e) => {
                        eprintln!("HARNESS ERROR in suite {name}");
                        drop(e);
                        std::process::exit(2);
                    }
                })
                .collect()
        });
        for m in results {
            mon.merge(m);
        }
        eprintln!("  suite {name}: {n} cases, {:.2}s", t0.elapsed().as_secs_f64());
        mon.count("suites", 1);
    }
}
