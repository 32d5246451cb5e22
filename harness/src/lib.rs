//! Explicit exploration engine: enumerates every choice sequence of a bounded driver, runs the real
//! code on each, and keeps measured counts of what was covered.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod alloc_guard;

const SHARDS: usize = 64;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    Exploration,
    FaultEnumeration,
    ModelChecking,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub key: String,
    pub msg: String,
    pub space: String,
    pub choices: Vec<usize>,
}

struct Slot {
    busy_since_ms: AtomicU64,
    what: Mutex<(String, Vec<usize>)>,
}

pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    root: String,
    t0: Instant,
    level: Level,
    known: Vec<(String, String)>,
    found: Mutex<BTreeMap<String, Found>>,
    executions: AtomicU64,
    transitions: AtomicU64,
    replays: AtomicU64,
    states: Vec<Mutex<HashSet<u64>>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    spaces: Mutex<Vec<Value>>,
    assumptions: Mutex<Vec<String>>,
    rule: Mutex<String>,
    capped: AtomicBool,
    errors: Mutex<Vec<String>>,
    only: Option<(String, Vec<usize>)>,
    slots: Vec<Slot>,
    threads: usize,
    hang_ms: AtomicU64,
}

/// The chooser handed to a driver: every nondeterministic decision of an execution goes through it.
pub struct Ch<'a> {
    pub ctx: &'a Ctx,
    space: &'a str,
    prefix: Vec<usize>,
    taken: Vec<(usize, usize)>,
    nstates: std::cell::Cell<u64>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Runs code under test; a panic becomes an error carrying its message and location.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (m, l) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "?".into()));
            Err(format!("panic at {l}: {m}"))
        }
    }
}

impl Ch<'_> {
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        let i = self.taken.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!(c < n, "replayed choice out of range");
        self.taken.push((c, n));
        c
    }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.pick(xs.len());
        xs[i].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.pick(hi_incl - lo + 1)
    }
    /// Records a (canonicalised) state that was visited.
    pub fn state<T: Hash + ?Sized>(&self, t: &T) {
        let h = h64(&(self.space, h64(t)));
        self.nstates.set(self.nstates.get() + 1);
        self.ctx.states[(h as usize) % SHARDS].lock().unwrap().insert(h);
    }
    pub fn ops(&self, n: u64) {
        self.ctx.transitions.fetch_add(n, SeqCst);
    }
    pub fn validated(&self, n: u64) {
        self.ctx.replays.fetch_add(n, SeqCst);
    }
    pub fn outcome(&self, what: &str) {
        self.ctx.outcome(what, 1);
    }
    pub fn sample(&self, f: impl FnOnce() -> Value) {
        self.ctx.sample(f);
    }
    pub fn choices(&self) -> Vec<usize> {
        self.taken.iter().map(|t| t.0).collect()
    }
    pub fn fail(&self, key: impl Into<String>, msg: impl Into<String>) {
        self.ctx.report(Found {
            key: key.into(),
            msg: msg.into(),
            space: self.space.into(),
            choices: self.choices(),
        });
    }
    pub fn check(&self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(key, msg());
        }
        ok
    }
}

impl Ctx {
    pub fn root(&self) -> &str {
        &self.root
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    /// Runs one fixed choice sequence outside the exploration (to build what an exploration starts from).
    pub fn fixed<T>(&self, choices: &[usize], f: impl FnOnce(&mut Ch) -> T) -> T {
        let mut c = Ch { ctx: self, space: "fixed", prefix: choices.to_vec(), taken: vec![], nstates: Default::default() };
        f(&mut c)
    }
    pub fn outcome(&self, what: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(what.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, f: impl FnOnce() -> Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(f());
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn set_hang_limit(&self, secs: u64) {
        self.hang_ms.store(secs * 1000, SeqCst);
    }
    pub fn elapsed(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }
    pub fn report(&self, f: Found) {
        let mut m = self.found.lock().unwrap();
        match m.get(&f.key) {
            Some(o) if o.choices.len() <= f.choices.len() && o.space <= f.space => {}
            _ => {
                m.insert(f.key.clone(), f);
            }
        }
    }
    pub fn error(&self, e: String) {
        self.errors.lock().unwrap().push(e);
    }
    fn now_ms(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64 + 1
    }

    /// Exhaustively runs `f` on every choice sequence. Returns the number of executions.
    pub fn explore(&self, space: &str, f: impl Fn(&mut Ch) + Sync) -> u64 {
        self.explore_capped(space, f64::INFINITY, f)
    }

    pub fn explore_capped(&self, space: &str, secs: f64, f: impl Fn(&mut Ch) + Sync) -> u64 {
        if let Some((s, ch)) = &self.only {
            if s == space {
                let mut c = Ch { ctx: self, space, prefix: ch.clone(), taken: vec![], nstates: Default::default() };
                self.execute(&mut c, &f, 0);
                return 1;
            }
            return 0;
        }
        let start = Instant::now();
        let before: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        // an item stands for the executions prefix ++ [a], a in from..n
        let queue: Mutex<Vec<(Vec<usize>, usize, usize)>> = Mutex::new(vec![(vec![], 0, 0)]);
        let active = AtomicUsize::new(0);
        let count = AtomicU64::new(0);
        let maxdepth = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for t in 0..self.threads {
                let (queue, active, count, f, stop, maxdepth) =
                    (&queue, &active, &count, &f, &stop, &maxdepth);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || loop {
                        let item = {
                            let mut q = queue.lock().unwrap();
                            match q.pop() {
                                Some((p, a, n)) => {
                                    active.fetch_add(1, SeqCst);
                                    if a + 1 < n {
                                        q.push((p.clone(), a + 1, n));
                                    }
                                    let mut p = p;
                                    if n > 0 {
                                        p.push(a);
                                    }
                                    Some(p)
                                }
                                None => None,
                            }
                        };
                        let Some(prefix) = item else {
                            if active.load(SeqCst) == 0 || stop.load(SeqCst) {
                                break;
                            }
                            std::thread::sleep(Duration::from_micros(50));
                            continue;
                        };
                        let plen = prefix.len();
                        let mut c = Ch { ctx: self, space, prefix, taken: vec![], nstates: Default::default() };
                        self.execute(&mut c, f, t);
                        count.fetch_add(1, SeqCst);
                        maxdepth.fetch_max(c.taken.len(), SeqCst);
                        {
                            let mut q = queue.lock().unwrap();
                            for i in plen..c.taken.len() {
                                let n = c.taken[i].1;
                                if n > 1 {
                                    let p: Vec<usize> = c.taken[..i].iter().map(|t| t.0).collect();
                                    q.push((p, 1, n));
                                }
                            }
                            if start.elapsed().as_secs_f64() > secs
                                || self.found.lock().unwrap().len() > 200
                            {
                                stop.store(true, SeqCst);
                                if !q.is_empty() {
                                    self.capped.store(true, SeqCst);
                                }
                                q.clear();
                            }
                        }
                        active.fetch_sub(1, SeqCst);
                    })
                    .expect("thread");
            }
        });
        let n = count.load(SeqCst);
        let after: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        self.spaces.lock().unwrap().push(json!({
            "space": space, "executions": n, "new_states": after - before,
            "max_choices": maxdepth.load(SeqCst), "complete": !stop.load(SeqCst),
            "wall_s": (start.elapsed().as_secs_f64()*100.0).round()/100.0 }));
        n
    }

    fn execute(&self, c: &mut Ch, f: &(impl Fn(&mut Ch) + Sync), slot: usize) {
        {
            let mut w = self.slots[slot].what.lock().unwrap();
            *w = (c.space.to_string(), c.prefix.clone());
        }
        alloc_guard::set_current(self, c.space, &c.prefix);
        self.slots[slot].busy_since_ms.store(self.now_ms(), SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| f(c)));
        self.slots[slot].busy_since_ms.store(0, SeqCst);
        alloc_guard::clear_current();
        if r.is_err() {
            let (m, l) =
                LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
            if l.contains("/harness/") || l.contains("harness/src") {
                self.error(format!("harness panic at {l}: {m} (space {} choices {:?})", c.space, c.choices()));
            } else {
                c.fail(format!("panic:{}", strip_line(&l)), format!("panic at {l}: {m}"));
            }
        }
        self.executions.fetch_add(1, SeqCst);
        self.transitions.fetch_add(c.taken.len() as u64, SeqCst);
        if c.nstates.get() == 0 {
            let ch = c.choices();
            c.state(&ch);
        }
    }

    /// A second build configuration of the same check adds its counts to the first one's evidence.
    fn merge(&self, mut ev: Value, dir: &str) -> Value {
        let cfg = std::env::var("VERIF_CONFIG").unwrap_or("release".into());
        if let Some(a) = ev["coverage"]["spaces"].as_array_mut() {
            for s in a {
                s["build"] = json!(cfg);
            }
        }
        if std::env::var("VERIF_MERGE").as_deref() != Ok("1") {
            return ev;
        }
        let Some(old) = std::fs::read_to_string(format!("{dir}/{}.json", self.id))
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
        else {
            return ev;
        };
        for k in ["states", "transitions", "traces_validated_against_impl", "executions", "evaluations", "distinct_nontrivial"] {
            if let (Some(a), Some(b)) = (old["coverage"][k].as_u64(), ev["coverage"][k].as_u64()) {
                // the second build revisits the same inputs: distinct counts do not add up
                let v = if k == "states" || k == "distinct_nontrivial" { a.max(b) } else { a + b };
                ev["coverage"][k] = json!(v);
            }
        }
        let mut sp = old["coverage"]["spaces"].as_array().cloned().unwrap_or_default();
        sp.extend(ev["coverage"]["spaces"].as_array().cloned().unwrap_or_default());
        ev["coverage"]["spaces"] = json!(sp);
        let ex = old["coverage"]["exhaustive"].as_bool().unwrap_or(false);
        ev["coverage"]["exhaustive"] = json!(ex && ev["coverage"]["exhaustive"].as_bool().unwrap_or(false));
        ev["wall_s"] = json!(old["wall_s"].as_f64().unwrap_or(0.0) + self.elapsed());
        ev["violations"] = json!(old["violations"].as_u64().unwrap_or(0) + ev["violations"].as_u64().unwrap_or(0));
        ev
    }

    fn replay_path(&self, n: usize) -> String {
        {
            let cfg = std::env::var("VERIF_CONFIG").unwrap_or("release".into());
            format!("{}/work/replay/{}-{cfg}-{n}.json", self.root, self.id)
        }
    }

    /// Writes the evidence, prints the verdict lines and returns the exit code.
    fn finish(&self) -> i32 {
        let found = self.found.lock().unwrap();
        let mut new = vec![];
        let mut known = vec![];
        for f in found.values() {
            match self.known.iter().find(|(k, _)| k == &f.key) {
                Some((_, what)) => known.push((f.clone(), what.clone())),
                None => new.push(f.clone()),
            }
        }
        let errors = self.errors.lock().unwrap();
        let states: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        let ex = self.executions.load(SeqCst);
        let spaces = self.spaces.lock().unwrap().clone();
        let mut cov = json!({
            "samples": *self.samples.lock().unwrap(),
            "exhaustive": !self.capped.load(SeqCst),
            "spaces": spaces,
            "outcomes": *self.outcomes.lock().unwrap(),
            "rule": *self.rule.lock().unwrap(),
        });
        match self.level {
            Level::ModelChecking => {
                cov["states"] = json!(states);
                cov["transitions"] = json!(self.transitions.load(SeqCst));
                cov["traces_validated_against_impl"] = json!(self.replays.load(SeqCst));
                cov["executions"] = json!(ex);
            }
            _ => {
                cov["evaluations"] = json!(ex + self.replays.load(SeqCst));
                cov["distinct_nontrivial"] = json!(states);
                cov["transitions"] = json!(self.transitions.load(SeqCst));
            }
        }
        let ev = json!({
            "property": self.id, "tier": self.tier, "seed": self.seed,
            "level": match self.level { Level::Exploration => "exploration",
                Level::FaultEnumeration => "fault_enumeration", Level::ModelChecking => "model_checking" },
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.elapsed(),
            "violations": new.len(),
        });
        let dir = format!("{}/evidence", self.root);
        let ev = self.merge(ev, &dir);
        let _ = std::fs::create_dir_all(&dir);
        if self.only.is_none() {
            if let Err(e) = std::fs::write(
                format!("{dir}/{}.json", self.id),
                serde_json::to_string_pretty(&ev).unwrap(),
            ) {
                println!("cannot write evidence: {e}");
                return 3;
            }
        }
        println!(
            "{}: {} executions, {} states, {} transitions, {:.1}s{}",
            self.id, ex, states, self.transitions.load(SeqCst), self.elapsed(),
            if self.capped.load(SeqCst) { " (time cap reached)" } else { "" }
        );
        for s in spaces.iter() {
            println!("  {s}");
        }
        for (k, v) in self.outcomes.lock().unwrap().iter() {
            println!("  outcome {k}: {v}");
        }
        for (f, what) in &known {
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, what, f.key);
        }
        let _ = std::fs::create_dir_all(format!("{}/work/replay", self.root));
        for (i, f) in new.iter().enumerate() {
            let p = if self.only.is_some() { "(replayed)".into() } else { self.replay_path(i) };
            if self.only.is_none() {
                let _ = std::fs::write(
                    &p,
                    serde_json::to_string_pretty(&json!({"property": self.id, "tier": self.tier,
                        "key": f.key, "message": f.msg, "space": f.space, "choices": f.choices,
                        "how": format!("cd /verif && ./check.sh {} {} --replay <this file>", self.id, self.tier)}))
                    .unwrap(),
                );
            }
            if i < 25 {
                println!("  [{}] {} (space {}, choices {:?})", f.key, f.msg, f.space, f.choices);
                println!("VIOLATION property={} replay={}", self.id, p);
            }
        }
        for e in errors.iter().take(10) {
            println!("ERROR {e}");
        }
        if !new.is_empty() {
            1
        } else if !errors.is_empty() {
            3
        } else {
            0
        }
    }
}

/// `/repo/src/x.rs:12:3` -> `src/x.rs` so that keys do not depend on line numbers.
fn strip_line(l: &str) -> String {
    let f = l.split(':').next().unwrap_or(l);
    f.strip_prefix("/repo/").unwrap_or(f).to_string()
}

fn load_known(root: &str, id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{root}/KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            // known: property=<id> key=<key> :: <what fails>
            if let Some(r) = l.strip_prefix(&format!("known: property={id} key=")) {
                if let Some((k, w)) = r.split_once(" :: ") {
                    v.push((k.trim().to_string(), w.trim().to_string()));
                }
            }
        }
    }
    v
}

/// Entry point of every check binary.
pub fn main(id: &str, level: Level, body: impl Fn(&Ctx) + Sync) {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or("?".into());
        if std::env::var("HARNESS_PANICS").is_ok() {
            eprintln!("panic {l}: {m}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((m, l)));
    }));
    let args: Vec<String> = std::env::args().collect();
    let tier = args.get(1).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let only = args.iter().position(|a| a == "--replay").and_then(|i| args.get(i + 1)).map(|p| {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(p).expect("replay file")).expect("json");
        (
            v["space"].as_str().unwrap().to_string(),
            v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
        )
    });
    let threads = std::env::var("HARNESS_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
        id: id.into(),
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        known: load_known(&root, id),
        root,
        t0: Instant::now(),
        level,
        found: Default::default(),
        executions: 0.into(),
        transitions: 0.into(),
        replays: 0.into(),
        states: (0..SHARDS).map(|_| Default::default()).collect(),
        outcomes: Default::default(),
        samples: Default::default(),
        spaces: Default::default(),
        assumptions: Default::default(),
        rule: Default::default(),
        capped: false.into(),
        errors: Default::default(),
        only,
        slots: (0..threads)
            .map(|_| Slot { busy_since_ms: 0.into(), what: Default::default() })
            .collect(),
        threads,
        hang_ms: AtomicU64::new(120_000),
    }));
    // watchdog: an execution that does not end is a violation (the code under test hangs)
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = ctx.now_ms();
        for s in &ctx.slots {
            let b = s.busy_since_ms.load(SeqCst);
            if b != 0 && now > b && now - b > ctx.hang_ms.load(SeqCst) {
                let (space, choices) = s.what.lock().unwrap().clone();
                ctx.report(Found {
                    key: "hang".into(),
                    msg: format!("execution still running after {} s", (now - b) / 1000),
                    space,
                    choices,
                });
                let rc = ctx.finish();
                std::process::exit(rc);
            }
        }
    });
    let r = catch_unwind(AssertUnwindSafe(|| body(ctx)));
    if r.is_err() {
        let (m, l) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
        if l.contains("/repo/src") {
            ctx.report(Found { key: format!("panic:{}", strip_line(&l)), msg: format!("panic at {l}: {m}"), space: "main".into(), choices: vec![] });
        } else {
            ctx.error(format!("harness panic at {l}: {m}"));
        }
    }
    let rc = ctx.finish();
    std::process::exit(rc);
}
