//! Runs the cases of a check on worker threads, collects what the monitors
//! observed, and turns it into a verdict, an evidence file and replay files.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::rng::Rng;

pub const STACK: usize = 1 << 30;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

/// Raised (as a panic payload) by a monitor deep inside a run.
pub struct Viol(pub String);

pub fn violate(msg: String) -> ! {
    std::panic::panic_any(Viol(msg))
}

#[derive(Default)]
struct Acc {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    samples: Vec<String>,
}

impl Acc {
    fn merge(&mut self, o: Acc) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters { *self.counters.entry(k).or_default() += v }
        for (k, v) in o.maxima { let e = self.maxima.entry(k).or_default(); *e = (*e).max(v) }
        for s in o.samples { if self.samples.len() < 12 { self.samples.push(s) } }
    }
}

/// What a case reports.
pub struct Case {
    pub idx: u64,
    pub rng: Rng,
    pub tier: Tier,
    pub seed: u64,
    acc: Acc,
    pub desc: String,
    sampled: usize,
}

impl Case {
    /// One more evaluation of the property's oracle.
    pub fn eval(&mut self) { self.acc.evaluations += 1 }
    pub fn evals(&mut self, n: u64) { self.acc.evaluations += n }
    /// This evaluation was non-trivial; `key` identifies it.
    pub fn nontrivial(&mut self, key: u64) { crate::heap::aside(|| self.acc.distinct.insert(key)); }
    pub fn count(&mut self, name: &str, n: u64) {
        if n == 0 { return }
        match self.acc.counters.get_mut(name) {
            Some(c) => *c += n,
            None => crate::heap::aside(|| { self.acc.counters.insert(name.into(), n); }),
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        match self.acc.maxima.get_mut(name) {
            Some(c) => *c = (*c).max(n),
            None => crate::heap::aside(|| { self.acc.maxima.insert(name.into(), n); }),
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sampled < 2 {
            self.sampled += 1;
            let mut s = f();
            if s.len() > 1500 { let mut n = 1500; while !s.is_char_boundary(n) { n -= 1 } s.truncate(n); s.push('…') }
            self.acc.samples.push(s);
        }
    }
    /// A case that can be used on another thread and absorbed afterwards.
    pub fn quiet(c: &Case) -> Case {
        Case { idx: c.idx, rng: c.rng.clone(), tier: c.tier, seed: c.seed, acc: Acc::default(), desc: String::new(), sampled: 9 }
    }
    pub fn absorb(&mut self, o: Case) { self.acc.merge(o.acc) }
    /// Description written to the replay file if this case fails.
    pub fn describe(&mut self, s: String) { self.desc = s; }
    /// As `describe`, not counted as live bytes.
    pub fn describe_aside(&mut self, f: impl FnOnce() -> String) { crate::heap::aside(|| self.desc = f()) }
}

pub struct Violation {
    stage: String,
    idx: u64,
    msg: String,
    desc: String,
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub tier: Tier,
    pub only: Option<(String, u64)>,
    acc: Acc,
    stages: Vec<String>,
    violations: Vec<Violation>,
    errors: Vec<String>,
    start: Instant,
    pub assumptions: Vec<String>,
    pub level: &'static str,
    pub rule: String,
    pub budget: Duration,
    pub exhaustive_note: Option<String>,
}

thread_local! {
    static PANIC_INFO: std::cell::RefCell<Option<(String, bool)>> = const { std::cell::RefCell::new(None) };
}

fn own_path(f: &str) -> Option<bool> {
    // Some(true): harness, Some(false): library, None: standard library.
    if f.contains("/rustc/") || f.contains("/rustlib/") || f.contains("/.rustup/") || f.starts_with("library/") { return None }
    if f.starts_with("src/") || f.starts_with("./src/") || f.contains("harness/src/") || f.contains("harness/./src/") { return Some(true) }
    Some(false)
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<Viol>().is_some() || info.payload().is::<crate::configs::Planted>() { return }
        let msg = info.payload().downcast_ref::<String>().cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_default();
        let (file, line) = info.location().map_or(("?".into(), 0), |l| (l.file().to_string(), l.line()));
        let mine = own_path(&file).or_else(|| {
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            bt.lines().filter_map(|l| l.trim().strip_prefix("at ")).find_map(|p| {
                // Skip frames of this hook itself.
                if p.contains("runner.rs") { return None }
                own_path(p)
            })
        }).unwrap_or(true);
        PANIC_INFO.with(|p| *p.borrow_mut() = Some((format!("panic at {file}:{line}: {msg}"), mine)));
    }));
}

/// Runs `f`; a panic of the library becomes `Err(Ok(message))`, one of the
/// harness `Err(Err(message))`.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Result<String, String>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => match p.downcast::<Viol>() {
            Ok(v) => Err(Ok(v.0)),
            Err(_) => {
                let (m, mine) = PANIC_INFO.with(|p| p.borrow_mut().take())
                    .unwrap_or(("panic without information".into(), true));
                Err(if mine { Err(m) } else { Ok(m) })
            }
        },
    }
}

pub fn workers() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(8)
}

impl Ctx {
    pub fn new(id: &str, seed: u64, tier: Tier, only: Option<(String, u64)>) -> Self {
        Ctx { id: id.into(), seed, tier, only, acc: Acc::default(), stages: vec![], violations: vec![], errors: vec![],
              start: Instant::now(), assumptions: vec![], level: "exploration", rule: String::new(),
              budget: Duration::from_secs(if tier == Tier::Quick { 240 } else { 700 }), exhaustive_note: None }
    }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    pub fn pick<X>(&self, quick: X, thorough: X) -> X {
        if self.quick() { quick } else { thorough }
    }
    pub fn error(&mut self, e: String) { self.errors.push(e) }
    pub fn fail(&mut self, stage: &str, idx: u64, msg: String, desc: String) {
        self.violations.push(Violation { stage: stage.into(), idx, msg, desc });
    }
    pub fn only_stage(&self) -> Option<&str> { self.only.as_ref().map(|o| o.0.as_str()) }
    pub fn failed(&self) -> bool { !self.violations.is_empty() }
    pub fn note_stage(&mut self, s: String) { self.stages.push(s) }
    /// Merge counters from work done outside a stage (e.g. a child process).
    pub fn add(&mut self, f: impl FnOnce(&mut Case)) {
        let mut c = self.new_case(0, "outside");
        f(&mut c);
        self.acc.merge(c.acc);
    }
    fn new_case(&self, idx: u64, stage: &str) -> Case {
        Case { idx, rng: Rng::for_case(self.seed, stage, idx), tier: self.tier, seed: self.seed,
               acc: Acc::default(), desc: String::new(), sampled: 0 }
    }

    /// Runs cases `0..n` of a stage; stops at a failure.
    pub fn stage(&mut self, name: &str, n: u64, f: impl Fn(&mut Case) -> Result<(), String> + Sync) {
        self.stage_on(name, n, workers(), f)
    }

    pub fn stage_on(&mut self, name: &str, n: u64, threads: usize, f: impl Fn(&mut Case) -> Result<(), String> + Sync) {
        let range = match &self.only {
            Some((s, i)) if s == name => *i..*i + 1,
            Some(_) => return,
            None => 0..n,
        };
        if self.failed() && self.only.is_none() { return }
        let t0 = Instant::now();
        let next = AtomicU64::new(range.start);
        let stop = AtomicBool::new(false);
        let truncated = AtomicBool::new(false);
        let results: Mutex<(Acc, Vec<Violation>, Vec<String>, u64)> = Mutex::new((Acc::default(), vec![], vec![], 0));
        let batch = ((range.end - range.start) / 512).clamp(1, 256);
        let deadline = self.start + self.budget;
        let this = &*self;
        std::thread::scope(|sc| {
            for _ in 0..threads.min((range.end - range.start).max(1) as usize) {
                std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, || {
                    let mut acc = Acc::default();
                    let mut done = 0;
                    crate::wrap::set_stage(name);
                    'outer: loop {
                        let lo = next.fetch_add(batch, Relaxed);
                        if lo >= range.end { break }
                        for idx in lo..(lo + batch).min(range.end) {
                            if stop.load(Relaxed) { break 'outer }
                            if Instant::now() > deadline { truncated.store(true, Relaxed); break 'outer }
                            let mut c = this.new_case(idx, name);
                            c.sampled = if acc.samples.len() < 2 && idx % 7 == 3 || range.end - range.start == 1 { 0 } else { 9 };
                            crate::wrap::set_case(idx);
                            let r = guarded(|| f(&mut c));
                            done += 1;
                            let desc = std::mem::take(&mut c.desc);
                            let a = std::mem::take(&mut c.acc);
                            acc.merge(a);
                            let bad = match r {
                                Ok(Ok(())) => continue,
                                Ok(Err(m)) => Ok(m),
                                Err(e) => e,
                            };
                            stop.store(true, Relaxed);
                            let mut g = results.lock().unwrap();
                            match bad {
                                Ok(msg) => g.1.push(Violation { stage: name.into(), idx, msg, desc }),
                                Err(e) => g.2.push(format!("stage {name} case {idx}: {e}\n{desc}")),
                            }
                            break 'outer;
                        }
                    }
                    let mut g = results.lock().unwrap();
                    g.0.merge(acc);
                    g.3 += done;
                }).expect("spawn worker");
            }
        });
        let (acc, mut viol, errs, done) = results.into_inner().unwrap();
        self.acc.merge(acc);
        viol.sort_by_key(|v| v.idx);
        self.violations.extend(viol);
        self.errors.extend(errs);
        let tr = if truncated.load(Relaxed) { " (stopped by time budget)" } else { "" };
        self.stages.push(format!("{name}: {done} of {} cases in {:.1} s{tr}", range.end - range.start, t0.elapsed().as_secs_f64()));
    }

    /// Writes evidence and replay files, prints the verdict, returns the exit code.
    pub fn finish(mut self, verif: &std::path::Path) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let mut out = String::new();
        for s in &self.stages { let _ = writeln!(out, "  {s}"); }
        for (k, v) in &self.acc.counters { let _ = writeln!(out, "  observed {k}: {v}"); }
        for (k, v) in &self.acc.maxima { let _ = writeln!(out, "  maximum {k}: {v}"); }
        println!("{} tier={:?} seed={} evaluations={} distinct_nontrivial={}\n{out}", self.id, self.tier, self.seed,
                 self.acc.evaluations, self.acc.distinct.len());
        if self.only.is_none() && self.violations.is_empty() && self.errors.is_empty()
            && (self.acc.evaluations == 0 || self.acc.distinct.is_empty()) {
            self.errors.push("the run observed nothing".into());
        }
        let mut j = String::from("{\n");
        let _ = write!(j, " \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n",
                       js(&self.id), if self.quick() { "quick" } else { "thorough" }, self.seed, self.level);
        let _ = write!(j, " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
                       self.acc.evaluations, self.acc.distinct.len(), js(&self.rule));
        let list = |v: &[String]| format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        let _ = write!(j, "  \"samples\": {},\n  \"stages\": {},\n", list(&self.acc.samples), list(&self.stages));
        let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
        let _ = write!(j, "  \"observed\": {},\n  \"maxima\": {}", map(&self.acc.counters), map(&self.acc.maxima));
        if let Some(e) = &self.exhaustive_note { let _ = write!(j, ",\n  \"exhaustive_part\": {}", js(e)); }
        let _ = write!(j, "\n }},\n \"assumptions\": {},\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n",
                       list(&self.assumptions), self.violations.len());
        if self.only.is_none() {
            let ev = verif.join("evidence");
            let _ = std::fs::create_dir_all(&ev);
            if let Err(e) = std::fs::write(ev.join(format!("{}.json", self.id)), j) {
                self.errors.push(format!("cannot write evidence: {e}"));
            }
        }
        if !self.violations.is_empty() {
            let dir = verif.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let tier = if self.quick() { "quick" } else { "thorough" };
            for v in self.violations.iter().take(3) {
                let stage: String = v.stage.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
                let path = dir.join(format!("{}-{}-{stage}-{}.txt", self.id, self.seed, v.idx));
                let text = format!("property {}\nstage {}\ncase {}\nwhat failed: {}\n\n{}\n\nreplay: VERIF_SEED={} VERIF_TIER={tier} bash check.sh {} --only '{}:{}'\n",
                                   self.id, v.stage, v.idx, v.msg, v.desc, self.seed, self.id, v.stage, v.idx);
                let _ = std::fs::write(&path, &text);
                let short: String = text.chars().take(3000).collect();
                println!("{short}");
                println!("VIOLATION property={} replay={}", self.id, path.display());
            }
            for e in &self.errors { println!("also: {e}") }
            return 1;
        }
        if !self.errors.is_empty() {
            for e in &self.errors { println!("CHECK-ERROR {}: {}", self.id, e.chars().take(3000).collect::<String>()) }
            return 2;
        }
        println!("HELD property={}", self.id);
        0
    }
}

/// JSON string.
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
