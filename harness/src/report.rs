//! Evidence, verdicts, replays and case-parallel execution.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub id: String,
    pub level: &'static str,
    pub quick: bool,
    pub seed: u64,
    start: Instant,
    counters: Mutex<BTreeMap<String, u64>>,
    distinct: Mutex<BTreeSet<u64>>,
    samples: Mutex<Vec<String>>,
    notes: Mutex<BTreeMap<String, String>>,
    violations: Mutex<Vec<(String, String)>>,
    capped: AtomicBool,
    running: Mutex<BTreeMap<usize, (Instant, String)>>,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hash64(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

/// Silence panic messages: panics of the code under test are outcomes here.
pub fn quiet_panics() {
    if std::env::var("CTMC_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

/// Run code under test; a panic is turned into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}

impl Ctx {
    pub fn new(id: &str, level: &'static str) -> &'static Ctx {
        quiet_panics();
        let tier = std::env::args()
            .nth(1)
            .or_else(|| std::env::var("VERIF_TIER").ok())
            .unwrap_or_else(|| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let c: &'static Ctx = Box::leak(Box::new(Ctx {
            id: id.into(),
            level,
            quick: tier != "thorough",
            seed,
            start: Instant::now(),
            counters: Default::default(),
            distinct: Default::default(),
            samples: Default::default(),
            notes: Default::default(),
            violations: Default::default(),
            capped: AtomicBool::new(false),
            running: Default::default(),
        }));
        // A case of the code under test that never returns is itself a violation (every case takes well
        // under a second on a correct tree); the harness must still answer in time.
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let limit = Duration::from_secs(if c.quick { 300 } else { 1800 });
            let stuck: Option<String> = c
                .running
                .lock()
                .unwrap()
                .values()
                .find(|(t, _)| t.elapsed() > limit)
                .map(|(_, d)| d.clone());
            if let Some(d) = stuck {
                c.violation("does-not-terminate", format!("case did not finish within {:?}: {}", limit, d));
                c.finish();
            }
        });
        c
    }
    pub fn thorough(&self) -> bool {
        !self.quick
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick {
            q
        } else {
            t
        }
    }
    pub fn add(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.into()).or_insert(0) += n;
    }
    /// Count one evaluation; `key` identifies the case (for distinctness) when it is non-trivial.
    pub fn eval(&self, key: Option<&str>) {
        self.add("evaluations", 1);
        if let Some(k) = key {
            self.distinct.lock().unwrap().insert(hash64(k.as_bytes()));
        }
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            let s = s();
            v.push(s);
        }
    }
    /// Samples spread over categories: at most one per category.
    pub fn sample_cat(&self, cat: &str, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        let pre = format!("[{}] ", cat);
        if v.len() < 40 && !v.iter().any(|x| x.starts_with(&pre)) {
            let s = s();
            v.push(pre + &s);
        }
    }
    pub fn note(&self, k: &str, v: impl Into<String>) {
        self.notes.lock().unwrap().insert(k.into(), v.into());
    }
    pub fn cap(&self, what: &str) {
        self.capped.store(true, SeqCst);
        self.note("capped", what);
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn violation(&self, key: &str, detail: String) {
        let mut v = self.violations.lock().unwrap();
        if v.iter().filter(|x| x.0 == key).count() < 100 {
            v.push((key.to_string(), detail));
        }
    }
    pub fn violated(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
    /// Check a condition that the property demands.
    pub fn require(&self, cond: bool, key: &str, detail: impl FnOnce() -> String) {
        if !cond {
            self.violation(key, detail());
        }
    }
    /// Run all cases on 8 worker threads. Each worker owns a one-thread rayon pool, so that the code
    /// under test (and the thread-local seams) stay on the worker. A panic outside `guarded` is an error
    /// of the harness.
    pub fn cases<T: Sync>(&'static self, cases: &[T], name: impl Fn(&T) -> String + Sync, f: impl Fn(&T) + Sync) {
        let next = AtomicUsize::new(0);
        let times = std::env::var("CT_TIMES").is_ok();
        let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
        let failed: Mutex<Option<String>> = Mutex::new(None);
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let (next, failed, f, name) = (&next, &failed, &f, &name);
                s.spawn(move || {
                    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(64 << 20).build().unwrap();
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= cases.len() || failed.lock().unwrap().is_some() {
                            break;
                        }
                        // a verdict needs one violation; the rest of a long exploration can be left out then
                        if self.elapsed() > 100.0 && self.fresh_violation() {
                            self.cap("stopped early after a violation");
                            break;
                        }
                        let d = name(&cases[i]);
                        self.running.lock().unwrap().insert(t, (Instant::now(), d.clone()));
                        let began = Instant::now();
                        let r = pool.install(|| guarded(|| f(&cases[i])));
                        if times {
                            eprintln!("{:8.2}s {}", began.elapsed().as_secs_f64(), d);
                        }
                        self.running.lock().unwrap().remove(&t);
                        if let Err(e) = r {
                            *failed.lock().unwrap() = Some(format!("{}: {}", d, e));
                        }
                    }
                });
            }
        });
        if let Some(e) = failed.into_inner().unwrap() {
            // The drivers of every check complete on a tree where the property holds, so a panic that reaches
            // this point is the code under test failing outside of the calls that may be refused.
            self.violation("unexpected-panic", e);
            self.finish();
        }
    }
    fn fresh_violation(&self) -> bool {
        let known = self.known();
        self.violations.lock().unwrap().iter().any(|(k, _)| !known.iter().any(|(kk, _)| kk == k))
    }
    fn known(&self) -> Vec<(String, String)> {
        let t = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
        let pre = format!("known: property={} key=", self.id);
        t.lines()
            .filter_map(|l| l.strip_prefix(&pre))
            .map(|l| {
                let (k, d) = l.split_once(' ').unwrap_or((l, ""));
                (k.to_string(), d.to_string())
            })
            .collect()
    }
    pub fn finish(&self) -> ! {
        let dir = verif_dir();
        let known = self.known();
        let all = self.violations.lock().unwrap().clone();
        let (kn, new): (Vec<_>, Vec<_>) = all.into_iter().partition(|(k, _)| known.iter().any(|(kk, _)| kk == k));
        for (k, d) in &known {
            if kn.iter().any(|(kk, _)| kk == k) {
                println!("KNOWN-FINDING: property={} {} {}", self.id, k, d);
            }
        }
        let counters = self.counters.lock().unwrap().clone();
        let distinct = self.distinct.lock().unwrap().len();
        let mut cov: Vec<(String, String)> = counters.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
        if self.level != "model_checking" {
            cov.push(("distinct_nontrivial".into(), distinct.to_string()));
        } else if distinct > 0 && !counters.contains_key("states") {
            cov.push(("states".into(), distinct.to_string()));
        }
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|s| esc(s)).collect();
        cov.push(("samples".into(), format!("[{}]", samples.join(","))));
        let capped = self.capped.load(SeqCst);
        cov.push(("exhaustive".into(), (!capped).to_string()));
        let mut notes = self.notes.lock().unwrap().clone();
        if let Ok(s) = std::env::var("CT_CHECKED_RUN") {
            notes.insert("overflow_checked_run".into(), s);
        }
        let mut assumptions = vec![];
        for (k, v) in &notes {
            if k.starts_with("assume") {
                assumptions.push(esc(v));
            } else {
                cov.push((k.clone(), esc(v)));
            }
        }
        let covs: Vec<String> = cov.iter().map(|(k, v)| format!("    {}: {}", esc(k), v)).collect();
        let js = format!(
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n{}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
            esc(&self.id),
            esc(if self.quick { "quick" } else { "thorough" }),
            self.seed,
            esc(self.level),
            covs.join(",\n"),
            assumptions.join(", "),
            self.elapsed(),
            new.len()
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
        std::fs::write(format!("{}/evidence/{}.json", dir, self.id), js).expect("evidence");
        println!(
            "{}: {} {:?} in {:.1}s{}",
            self.id,
            if new.is_empty() { "held" } else { "VIOLATED" },
            counters,
            self.elapsed(),
            if capped { " (capped)" } else { "" }
        );
        if new.is_empty() {
            std::process::exit(0);
        }
        let _ = std::fs::create_dir_all(format!("{}/replays", dir));
        let path = format!("{}/replays/{}.txt", dir, self.id);
        let mut out = String::new();
        for (k, d) in &new {
            out += &format!("[{}] {}\n", k, d);
        }
        let _ = std::fs::write(&path, out);
        let mut seen = BTreeSet::new();
        for (k, d) in &new {
            if seen.insert(k.clone()) && seen.len() <= 10 {
                println!("  violated [{}]: {}", k, d.chars().take(600).collect::<String>());
            }
        }
        println!("VIOLATION property={} replay={}", self.id, path);
        std::process::exit(1);
    }
}
