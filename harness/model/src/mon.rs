//! The monitor runtime: runs workloads in parallel, collects what the
//! oracles observed, reports violations and writes the evidence.
//!
//! Verdicts are three-valued.  An oracle that disagrees with an execution
//! (or a panic inside of pica-rs or one of its dependencies) is a violation,
//! exit 1.  A failure of the harness itself, a watchdog that fires or a
//! workload that observed nothing is inconclusive, exit 3.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{Value, json};

use crate::generate;
use crate::rng::{Rng, fnv};

pub type Verdict = Result<(), String>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// The result of a case that says nothing about the code under test.
pub const INCONCLUSIVE: &str = "\u{1}inconclusive: ";

pub fn inconclusive<T>(msg: impl std::fmt::Display) -> Result<T, String> {
    Err(format!("{INCONCLUSIVE}{msg}"))
}

#[derive(Default)]
struct Local {
    counts: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    samples: Vec<(u64, Value)>,
}

impl Local {
    fn merge(&mut self, o: Local) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        self.sigs.extend(o.sigs);
        self.samples.extend(o.samples);
    }
}

/// One execution of a workload.
pub struct Case<'a> {
    pub r: Rng,
    pub idx: u64,
    pub thread: usize,
    pub tier: Tier,
    pub name: &'a str,
    local: &'a mut Local,
    max_samples: usize,
}

impl Case<'_> {
    /// Counts observed events.
    pub fn count(&mut self, key: &str, n: u64) {
        if let Some(v) = self.local.counts.get_mut(key) {
            *v += n;
        } else {
            self.local.counts.insert(key.to_string(), n);
        }
    }

    /// Records that a situation (named by its features) was seen.
    pub fn sig(&mut self, s: &str) {
        self.local.sigs.insert(fnv(s.as_bytes()));
    }

    pub fn sig_hash(&mut self, h: u64) {
        self.local.sigs.insert(h);
    }

    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.local.samples.len() < self.max_samples && self.idx < 64 {
            let v = json!({"case": format!("{}:{}", self.name, self.idx), "what": f()});
            self.local.samples.push((self.idx, v));
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
}

struct Violation {
    workload: String,
    case: u64,
    message: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub replay: Option<(String, u64)>,
    pub threads: usize,
    pub scratch: PathBuf,
    verif: PathBuf,
    level: String,
    rule: String,
    assumptions: Vec<String>,
    start: Instant,
    evaluations: AtomicU64,
    total: Mutex<Local>,
    workloads: Mutex<Vec<Value>>,
    violations: Mutex<Vec<Violation>>,
    inconclusive: Mutex<Vec<String>>,
    known: Mutex<Vec<String>>,
    state: Arc<fs::File>,
    slots: Arc<Vec<Slot>>,
    budget: Duration,
    hang_is_violation: AtomicBool,
    exhaustive: Mutex<Vec<String>>,
    pub scale: AtomicU64,
}

struct Slot {
    since: AtomicU64, // milliseconds since start, plus one; 0 = idle
    what: Mutex<String>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| "/verif".into(), PathBuf::from)
}

/// Runs `f` in a supervised child process and turns a crash of the child
/// into a verdict.
pub fn main(f: impl FnOnce(&mut Ctx)) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: {} PROPERTY quick|thorough [WORKLOAD:CASE]", args[0]);
        std::process::exit(3);
    }
    let scratch = std::env::temp_dir().join(format!("vmon-{}-{}", args[1], std::process::id()));
    if std::env::var_os("VMON_CHILD").is_none() {
        let _ = fs::create_dir_all(&scratch);
        let state = scratch.join("state");
        fs::write(&state, vec![0u8; 64 * 128]).expect("state file");
        let status = Command::new(std::env::current_exe().unwrap())
            .args(&args[1..])
            .env("VMON_CHILD", &scratch)
            .status();
        let data = fs::read(&state).unwrap_or_default();
        let _ = fs::remove_dir_all(&scratch);
        let status = status.expect("child");
        if let Some(code) = status.code() {
            std::process::exit(code);
        }
        let sig = status.signal().unwrap_or(0);
        let running: Vec<String> = data
            .chunks(128)
            .map(|c| {
                String::from_utf8_lossy(c).trim_end_matches('\0').trim().to_string()
            })
            .filter(|s| !s.is_empty())
            .collect();
        eprintln!("the monitored process ended by signal {sig} in {running:?}");
        // SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE come from the code; a kill
        // from outside says nothing about it.
        if matches!(sig, 4 | 6 | 7 | 8 | 11) {
            let path = write_replay(
                &args[1],
                "crash",
                0,
                &format!("process ended by signal {sig}; cases in progress: {running:?}"),
            );
            println!("VIOLATION property={} replay={}", args[1], path.display());
            std::process::exit(1);
        }
        std::process::exit(3);
    }
    let scratch: PathBuf = std::env::var_os("VMON_CHILD").unwrap().into();
    let mut ctx = Ctx::new(&args, scratch);
    f(&mut ctx);
    let code = ctx.finish();
    std::process::exit(code);
}

fn write_replay(prop: &str, workload: &str, case: u64, message: &str) -> PathBuf {
    let dir = verif_dir().join("replay");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{workload}-{case}.json"));
    let tier = std::env::args().nth(2).unwrap_or_default();
    let mut message = message.to_string();
    if message.len() > 20_000 {
        let mut k = 20_000;
        while !message.is_char_boundary(k) {
            k -= 1;
        }
        message.truncate(k);
    }
    let v = json!({
        "property": prop,
        "workload": workload,
        "case": case,
        "seed": seed(),
        "tier": tier,
        "message": message,
        "rerun": format!(
            "VERIF_SEED={} /verif/bin/check {prop} {tier} {workload}:{case}", seed()
        ),
    });
    let _ = fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

impl Ctx {
    fn new(args: &[String], scratch: PathBuf) -> Ctx {
        std::panic::set_hook(Box::new(|info| {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        }));
        let tier = match args[2].as_str() {
            "quick" => Tier::Quick,
            "thorough" => Tier::Thorough,
            t => {
                eprintln!("unknown tier {t}");
                std::process::exit(3)
            }
        };
        let replay = args.get(3).map(|s| {
            let (a, b) = s.rsplit_once(':').expect("WORKLOAD:CASE");
            (a.to_string(), b.parse().expect("case number"))
        });
        let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
        let state = fs::OpenOptions::new().write(true).open(scratch.join("state")).expect("state");
        let secs = std::env::var("VMON_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(
            if tier == Tier::Quick { 150 } else { 2400 },
        );
        let slots: Arc<Vec<Slot>> = Arc::new(
            (0..threads + 1)
                .map(|_| Slot { since: AtomicU64::new(0), what: Mutex::new(String::new()) })
                .collect(),
        );
        Ctx {
            prop: args[1].clone(),
            tier,
            seed: seed(),
            replay,
            threads,
            scratch,
            verif: verif_dir(),
            level: "exploration".into(),
            rule: String::new(),
            assumptions: vec![],
            start: Instant::now(),
            evaluations: AtomicU64::new(0),
            total: Mutex::default(),
            workloads: Mutex::default(),
            violations: Mutex::default(),
            inconclusive: Mutex::default(),
            known: Mutex::default(),
            state: Arc::new(state),
            slots,
            budget: Duration::from_secs(secs),
            scale: AtomicU64::new(1),
            hang_is_violation: AtomicBool::new(false),
            exhaustive: Mutex::default(),
        }
    }

    pub fn level(&mut self, level: &str) {
        self.level = level.into();
    }

    pub fn rule(&mut self, rule: &str) {
        self.rule = rule.into();
    }

    pub fn assume(&mut self, a: &str) {
        self.assumptions.push(a.into());
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// A space that this run went through completely.
    pub fn exhausted(&self, what: &str) {
        self.exhaustive.lock().unwrap().push(what.into());
    }

    pub fn hang_is_violation(&self) {
        self.hang_is_violation.store(true, Ordering::Relaxed);
    }

    fn watchdog(&self, limit: Duration) -> Arc<AtomicBool> {
        let stop = Arc::new(AtomicBool::new(false));
        let (s, slots, start) = (stop.clone(), self.slots.clone(), self.start);
        let violation = self.hang_is_violation.load(Ordering::Relaxed);
        let prop = self.prop.clone();
        std::thread::spawn(move || {
            while !s.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                let now = start.elapsed().as_millis() as u64;
                for slot in slots.iter() {
                    let since = slot.since.load(Ordering::Relaxed);
                    if since > 0 && now + 1 > since + limit.as_millis() as u64 {
                        let what = slot.what.lock().unwrap().clone();
                        eprintln!("watchdog: {what} did not end within {limit:?}");
                        if violation {
                            let (w, c) = what.rsplit_once(':').unwrap_or((&what, "0"));
                            let p = write_replay(
                                &prop,
                                w,
                                c.parse().unwrap_or(0),
                                &format!("no end after {limit:?}"),
                            );
                            println!("VIOLATION property={prop} replay={}", p.display());
                            std::process::exit(1);
                        }
                        std::process::exit(3);
                    }
                }
            }
        });
        stop
    }

    /// Runs `f` on cases 0..n (n depends on the tier) on all cores.
    pub fn run(
        &self,
        name: &str,
        quick: u64,
        thorough: u64,
        f: impl Fn(&mut Case) -> Verdict + Sync,
    ) {
        // Workloads that enumerate something have a fixed size.
        let scale = if quick == thorough { 1 } else { self.scale.load(Ordering::Relaxed) };
        let n = scale * if self.quick() { quick } else { thorough };
        let (lo, hi) = match &self.replay {
            Some((w, c)) if w == name => (*c, *c + 1),
            Some(_) => return,
            None => (0, n),
        };
        let next = AtomicUsize::new(lo as usize);
        let bad = AtomicUsize::new(0);
        let started = Instant::now();
        // No single workload may use up the whole budget.
        let deadline = self.start + self.budget;
        let stop = self.watchdog(Duration::from_secs(240));
        let done = AtomicU64::new(0);
        let before = self.total.lock().unwrap().sigs.len();
        std::thread::scope(|s| {
            for t in 0..self.threads.min((hi - lo).max(1) as usize) {
                let (next, bad, done, f) = (&next, &bad, &done, &f);
                let slot = &self.slots[t];
                let worker = move || {
                    let mut local = Local::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed) as u64;
                        if i >= hi || bad.load(Ordering::Relaxed) >= 3 || Instant::now() > deadline {
                            break;
                        }
                        let what = format!("{name}:{i}");
                        let mut line = [0u8; 128];
                        let b = what.as_bytes();
                        line[..b.len().min(128)].copy_from_slice(&b[..b.len().min(128)]);
                        let _ = self.state.write_at(&line, t as u64 * 128);
                        *slot.what.lock().unwrap() = what;
                        slot.since.store(
                            self.start.elapsed().as_millis() as u64 + 1,
                            Ordering::Relaxed,
                        );
                        let mut case = Case {
                            r: Rng::derive(self.seed, &format!("{}/{name}", self.prop), i),
                            idx: i,
                            thread: t,
                            tier: self.tier,
                            name,
                            local: &mut local,
                            max_samples: 2,
                        };
                        if case.r.chance(1, 6) {
                            generate::use_kin(&mut case.r);
                        }
                        PANIC.with(|p| *p.borrow_mut() = None);
                        let res = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
                        slot.since.store(0, Ordering::Relaxed);
                        done.fetch_add(1, Ordering::Relaxed);
                        let res = match res {
                            Ok(r) => r,
                            Err(_) => {
                                let (loc, msg) = PANIC
                                    .with(|p| p.borrow_mut().take())
                                    .unwrap_or_default();
                                if from_harness(&loc) {
                                    Err(format!("{INCONCLUSIVE}harness panic at {loc}: {msg}"))
                                } else {
                                    Err(format!("panic at {loc}: {msg}"))
                                }
                            }
                        };
                        if let Err(m) = res {
                            match m.strip_prefix(INCONCLUSIVE) {
                                Some(m) => {
                                    let mut v = self.inconclusive.lock().unwrap();
                                    if v.len() < 50 {
                                        v.push(format!("{name}:{i}: {m}"));
                                    }
                                }
                                None => {
                                    bad.fetch_add(1, Ordering::Relaxed);
                                    self.violations.lock().unwrap().push(Violation {
                                        workload: name.into(),
                                        case: i,
                                        message: m,
                                    });
                                }
                            }
                        }
                    }
                    let _ = self.state.write_at(&[0u8; 128], t as u64 * 128);
                    self.total.lock().unwrap().merge(local);
                };
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, worker)
                    .unwrap();
            }
        });
        stop.store(true, Ordering::Relaxed);
        let done = done.into_inner();
        self.evaluations.fetch_add(done, Ordering::Relaxed);
        let after = self.total.lock().unwrap().sigs.len();
        if done == 0 && hi > lo {
            self.inconclusive.lock().unwrap().push(format!("{name}: nothing was run"));
        }
        self.workloads.lock().unwrap().push(json!({
            "name": name,
            "cases": done,
            "planned": hi - lo,
            "new_situations": after - before,
            "seconds": (started.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        }));
    }

    pub fn count(&self, key: &str, n: u64) {
        *self.total.lock().unwrap().counts.entry(key.into()).or_default() += n;
    }

    pub fn counted(&self, key: &str) -> u64 {
        self.total.lock().unwrap().counts.get(key).copied().unwrap_or(0)
    }

    /// An event class that must have been observed, otherwise the run says
    /// too little (inconclusive).
    pub fn require(&self, key: &str, min: u64) {
        if self.replay.is_some() || !self.violations.lock().unwrap().is_empty() {
            return;
        }
        let n = self.counted(key);
        if n < min {
            self.inconclusive
                .lock()
                .unwrap()
                .push(format!("observed only {n} of at least {min} events '{key}'"));
        }
    }

    /// Reports that a finding of the known-findings file still exists, or,
    /// if it is not listed there, a violation.
    pub fn finding(&self, signature: &str, message: &str) {
        let file = fs::read_to_string(self.verif.join("known-findings.txt")).unwrap_or_default();
        let head = format!("known: property={} signature={signature} ", self.prop);
        for line in file.lines() {
            if let Some(what) = line.strip_prefix(&head) {
                let mut k = self.known.lock().unwrap();
                let l = format!("KNOWN-FINDING: property={} {what}", self.prop);
                if !k.contains(&l) {
                    k.push(l);
                }
                return;
            }
        }
        let workload = format!("finding-{signature}");
        let mut v = self.violations.lock().unwrap();
        if !v.iter().any(|x| x.workload == workload) {
            v.push(Violation { workload, case: 0, message: message.into() });
        }
    }

    pub fn is_known(&self, signature: &str) -> bool {
        let file = fs::read_to_string(self.verif.join("known-findings.txt")).unwrap_or_default();
        let head = format!("known: property={} signature={signature} ", self.prop);
        file.lines().any(|l| l.starts_with(&head))
    }

    fn finish(self) -> i32 {
        let mut violations = self.violations.into_inner().unwrap();
        let inconclusive = self.inconclusive.into_inner().unwrap();
        let known = self.known.into_inner().unwrap();
        let mut total = self.total.into_inner().unwrap();
        violations.sort_by(|a, b| (&a.workload, a.case).cmp(&(&b.workload, b.case)));
        total.samples.sort_by_key(|s| s.0);
        let mut samples: Vec<Value> = vec![];
        let mut seen = HashSet::new();
        let mut size = 0;
        for (_, v) in total.samples {
            let mut text = v.to_string();
            let name = v["case"].as_str().unwrap().split(':').next().unwrap().to_string();
            // two samples per workload at most
            let k = (0..2).find(|k| !seen.contains(&(name.clone(), *k)));
            let Some(k) = k else { continue };
            if text.len() > 3000 {
                let mut cut = 2500;
                while !text.is_char_boundary(cut) {
                    cut -= 1;
                }
                text.truncate(cut);
                size += text.len();
                if size > 36_000 {
                    break;
                }
                seen.insert((name, k));
                samples.push(json!({"case": v["case"], "what_shortened": text}));
                continue;
            }
            size += text.len();
            if size > 36_000 {
                break;
            }
            seen.insert((name, k));
            samples.push(v);
        }
        if self.replay.is_none() {
            let exhaustive = self.exhaustive.into_inner().unwrap();
            let mut coverage = json!({
                "evaluations": self.evaluations.load(Ordering::Relaxed),
                "distinct_nontrivial": total.sigs.len(),
                "rule": self.rule,
                "samples": samples,
                "observed": total.counts,
                "workloads": self.workloads.into_inner().unwrap(),
                "inconclusive": inconclusive.len(),
            });
            if !exhaustive.is_empty() {
                coverage["spaces_enumerated_completely"] = json!(exhaustive);
            }
            if !known.is_empty() {
                coverage["known_findings_seen"] = json!(known);
            }
            let ev = json!({
                "property": self.prop,
                "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
                "seed": self.seed,
                "level": self.level,
                "coverage": coverage,
                "assumptions": self.assumptions,
                "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
                "violations": violations.len(),
            });
            let dir = self.verif.join("evidence");
            let _ = fs::create_dir_all(&dir);
            fs::write(
                dir.join(format!("{}.json", self.prop)),
                serde_json::to_string_pretty(&ev).unwrap() + "\n",
            )
            .expect("evidence");
        }
        for k in &known {
            println!("{k}");
        }
        for m in inconclusive.iter().take(5) {
            eprintln!("inconclusive: {m}");
        }
        println!(
            "{}: {} executions, {} situations, {} violations, {:.1} s",
            self.prop,
            self.evaluations.load(Ordering::Relaxed),
            total.sigs.len(),
            violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        for v in violations.iter().take(5) {
            let path = write_replay(&self.prop, &v.workload, v.case, &v.message);
            let short: String = v.message.chars().take(1500).collect();
            eprintln!("{}:{}: {short}", v.workload, v.case);
            println!("VIOLATION property={} replay={}", self.prop, path.display());
        }
        let _ = std::io::stdout().flush();
        if !violations.is_empty() {
            1
        } else if !inconclusive.is_empty() {
            3
        } else {
            0
        }
    }
}

fn from_harness(loc: &str) -> bool {
    let l = loc.replace('\\', "/");
    ["model/src/", "libmon/src/", "climon/src/"].iter().any(|d| l.contains(d))
        && !l.contains(".cargo/registry")
}

/// Compares an observation with what the model expects.
pub fn same<T: PartialEq>(
    what: &str,
    got: &T,
    want: &T,
    show: impl Fn(&T) -> String,
    ctx: impl Fn() -> String,
) -> Verdict {
    if got == want {
        return Ok(());
    }
    Err(format!("{what}: got {} but expected {}\n{}", show(got), show(want), ctx()))
}
