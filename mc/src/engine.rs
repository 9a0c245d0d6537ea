//! Enumeration engine: parallel units of work, panic and crash capture, replay, evidence.
use crate::model::Fnv;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Violation {
    pub key: String,
    pub desc: String,
    pub what: String,
}

struct Slot {
    /// Start of the current case in ms since the start of the run, 0: none
    since: AtomicU64,
    desc: Mutex<String>,
}

struct Shared {
    only: Option<String>,
    stop: AtomicBool,
    t0: Instant,
    slots: Vec<Slot>,
    found: Mutex<Vec<Violation>>,
    known: Vec<(String, String)>,
}

/// Context of one worker.
pub struct Ctx {
    sh: Arc<Shared>,
    id: usize,
    states: HashSet<u64>,
    pub transitions: u64,
    pub validated: u64,
    pub extra: BTreeMap<String, u64>,
    samples: Vec<String>,
    unit: String,
    pub known_hits: BTreeMap<String, u64>,
    buf: String,
    local_bad: HashSet<String>,
}

impl Ctx {
    /// Counts a state of the model.
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn note(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn note_max(&mut self, k: &str, n: u64) {
        let e = self.extra.entry(format!("max_{}", k)).or_insert(0);
        *e = (*e).max(n);
    }
    /// One case: `desc` identifies it (and replays it), `key` groups cases in the list of known findings.
    pub fn case(&mut self, key: &str, desc: std::fmt::Arguments, f: impl FnOnce() -> Result<(), String>) {
        if self.sh.stop.load(Relaxed) {
            return;
        }
        self.buf.clear();
        let _ = write!(self.buf, "{}: {}", key, desc);
        if let Some(o) = &self.sh.only {
            if *o != self.buf {
                return;
            }
        }
        set_crash_desc(&self.buf);
        {
            let s = &self.sh.slots[self.id];
            let mut d = s.desc.lock().unwrap();
            d.clear();
            d.push_str(&self.buf);
            s.since.store(self.sh.t0.elapsed().as_millis() as u64 + 1, Relaxed);
        }
        self.transitions += 1;
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(e) => Err(format!("panicked: {}", panic_text(&e))),
        };
        self.sh.slots[self.id].since.store(0, Relaxed);
        match r {
            Ok(()) => {
                self.validated += 1;
                if self.samples.len() < 2 {
                    self.samples.push(self.buf.clone());
                }
            }
            Err(what) => self.violation(key, what),
        }
    }
    fn violation(&mut self, key: &str, what: String) {
        if self.sh.known.iter().any(|(k, _)| k == key) {
            *self.known_hits.entry(key.to_string()).or_insert(0) += 1;
            return;
        }
        // The first counterexample of a key is enough
        if !self.local_bad.insert(key.to_string()) {
            return;
        }
        let mut f = self.sh.found.lock().unwrap();
        if f.iter().any(|v| v.key == key) {
            return;
        }
        f.push(Violation { key: key.to_string(), desc: self.buf.clone(), what });
        if f.len() >= 60 {
            self.sh.stop.store(true, Relaxed);
        }
    }
    pub fn stopped(&self) -> bool {
        self.sh.stop.load(Relaxed)
    }
    pub fn replaying(&self) -> Option<&str> {
        self.sh.only.as_deref()
    }
}

fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    let loc = LAST_PANIC.with(|l| l.borrow().clone());
    if let Some(s) = e.downcast_ref::<&str>() {
        format!("{} {}", s, loc)
    } else if let Some(s) = e.downcast_ref::<String>() {
        format!("{} {}", s, loc)
    } else {
        format!("(no text) {}", loc)
    }
}
thread_local! {
    static LAST_MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    static CRASH: std::cell::Cell<(*const u8, usize)> = std::cell::Cell::new((std::ptr::null(), 0));
}

pub type Unit = Box<dyn Fn(&mut Ctx) + Send + Sync>;
#[derive(Default)]
pub struct Plan {
    pub units: Vec<(String, Unit)>,
    pub bounds: String,
    pub assumptions: Vec<String>,
    /// Additional findings made outside of the cases
    pub exhaustive: bool,
}
impl Plan {
    pub fn new(bounds: &str) -> Plan {
        Plan { bounds: bounds.to_string(), exhaustive: true, ..Default::default() }
    }
    pub fn unit(&mut self, name: impl Into<String>, f: impl Fn(&mut Ctx) + Send + Sync + 'static) {
        self.units.push((name.into(), Box::new(f)));
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    /// Even more for properties whose thorough exploration takes a few seconds only
    Deep,
}
impl Tier {
    pub fn pick<A>(self, q: A, t: A) -> A {
        if self == Tier::Quick { q } else { t }
    }
    pub fn pick3<A>(self, q: A, t: A, d: A) -> A {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
            Tier::Deep => d,
        }
    }
    pub fn thorough(self) -> bool {
        self != Tier::Quick
    }
    /// For properties which are fast to explore
    pub fn up(self) -> Tier {
        if self == Tier::Quick { Tier::Thorough } else { Tier::Deep }
    }
}

// ---- crash reporting -------------------------------------------------------------------------
extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn open(path: *const std::os::raw::c_char, flags: i32, ...) -> i32;
    fn _exit(code: i32) -> !;
}
static mut PROP: [u8; 64] = [0; 64];
static PROP_LEN: AtomicUsize = AtomicUsize::new(0);
static mut REPLAY: [u8; 512] = [0; 512];
static REPLAY_LEN: AtomicUsize = AtomicUsize::new(0);
static CRASHED: AtomicBool = AtomicBool::new(false);

fn set_crash_desc(s: &str) {
    CRASH.with(|c| c.set((s.as_ptr(), s.len())));
}
extern "C" fn on_signal(sig: i32) {
    unsafe {
        if CRASHED.swap(true, SeqCst) {
            loop {
                std::hint::spin_loop();
            }
        }
        let w = |fd: i32, b: &[u8]| {
            write(fd, b.as_ptr(), b.len());
        };
        #[allow(static_mut_refs)]
        let (prop, replay) = (&PROP[..PROP_LEN.load(SeqCst)], &REPLAY[..REPLAY_LEN.load(SeqCst)]);
        #[allow(static_mut_refs)]
        let fd = open(REPLAY.as_ptr() as *const std::os::raw::c_char, 0o1 | 0o100 | 0o1000, 0o644);
        let (p, n) = CRASH.with(|c| c.get());
        if !p.is_null() {
            w(fd, std::slice::from_raw_parts(p, n));
        } else {
            w(fd, b"unknown (crash in a worker thread)");
        }
        w(fd, b"\n# the process was ended by a signal\n");
        w(1, b"CRASH: signal ");
        w(1, &[b'0' + (sig / 10) as u8, b'0' + (sig % 10) as u8]);
        LAST_MSG.with(|m| {
            if let Ok(m) = m.try_borrow() {
                w(1, b" ");
                w(1, m.as_bytes());
                w(fd, b"\n# last panic: ");
                w(fd, m.as_bytes());
            }
        });
        w(1, b"\nVIOLATION property=");
        w(1, prop);
        w(1, b" replay=");
        w(1, replay);
        w(1, b"\n");
        _exit(1);
    }
}

fn install_handlers(prop: &str, replay: &str) {
    unsafe {
        #[allow(static_mut_refs)]
        {
            PROP[..prop.len()].copy_from_slice(prop.as_bytes());
            REPLAY[..replay.len()].copy_from_slice(replay.as_bytes());
        }
        PROP_LEN.store(prop.len(), SeqCst);
        REPLAY_LEN.store(replay.len(), SeqCst);
        for s in [4, 6, 7, 8, 11] {
            signal(s, on_signal as *const () as usize);
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        LAST_MSG.with(|p| *p.borrow_mut() = format!("{} {}", m, l));
        LAST_PANIC.with(|p| *p.borrow_mut() = l);
    }));
}

// ---- known findings --------------------------------------------------------------------------
/// Lines `known: property=<id> key=<key> | <what fails>`
fn load_known(prop: &str) -> Vec<(String, String)> {
    let path = format!("{}/known_findings.txt", root());
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut r = Vec::new();
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("known: ") {
            if let Some(x) = x.strip_prefix(&format!("property={} key=", prop)) {
                let (k, w) = x.split_once(" | ").unwrap_or((x, ""));
                r.push((k.trim().to_string(), w.trim().to_string()));
            }
        }
    }
    r
}

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string())
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push(' '),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub struct Args {
    pub prop: String,
    pub tier: Tier,
    pub replay: Option<String>,
    /// Suffix for runs which are parts of a check
    pub part: String,
}

/// Runs a plan. Returns the exit code.
pub fn run(a: &Args, plan: Plan) -> i32 {
    let prop = a.prop.clone();
    let root = root();
    let _ = std::fs::create_dir_all(format!("{}/evidence/replay", root));
    let replay_path = |n: usize| format!("{}/evidence/replay/{}{}-{}.txt", root, prop, a.part, n);
    install_handlers(&prop, &format!("{}/evidence/replay/{}{}-crash.txt", root, prop, a.part));
    let only = a.replay.as_ref().map(|p| {
        std::fs::read_to_string(p).expect("replay file").lines().next().unwrap_or("").to_string()
    });
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).max(2);
    let sh = Arc::new(Shared {
        only,
        stop: AtomicBool::new(false),
        t0: Instant::now(),
        slots: (0..workers).map(|_| Slot { since: AtomicU64::new(0), desc: Mutex::new(String::new()) }).collect(),
        found: Mutex::new(Vec::new()),
        known: load_known(&prop),
    });
    let plan = Arc::new(plan);
    let next = Arc::new(AtomicUsize::new(0));
    let limit_ms: u64 = std::env::var("MC_CASE_LIMIT_S").ok().and_then(|x| x.parse().ok()).unwrap_or(120) * 1000;
    let results: Arc<Mutex<Vec<Ctx>>> = Arc::new(Mutex::new(Vec::new()));
    let slow: Arc<Mutex<Vec<(u128, String)>>> = Arc::new(Mutex::new(Vec::new()));
    let done = Arc::new(AtomicUsize::new(0));
    let mut hs = Vec::new();
    for id in 0..workers {
        let (sh, plan, next, results, done, slow) = (sh.clone(), plan.clone(), next.clone(), results.clone(), done.clone(), slow.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut ctx = Ctx {
                        sh: sh.clone(),
                        id,
                        states: HashSet::new(),
                        transitions: 0,
                        validated: 0,
                        extra: BTreeMap::new(),
                        samples: Vec::new(),
                        unit: String::new(),
                        known_hits: BTreeMap::new(),
                        buf: String::with_capacity(1 << 16),
                        local_bad: HashSet::new(),
                    };
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= plan.units.len() || sh.stop.load(Relaxed) {
                            break;
                        }
                        ctx.unit = plan.units[i].0.clone();
                        let t = Instant::now();
                        (plan.units[i].1)(&mut ctx);
                        slow.lock().unwrap().push((t.elapsed().as_millis(), plan.units[i].0.clone()));
                    }
                    results.lock().unwrap().push(ctx);
                    done.fetch_add(1, SeqCst);
                })
                .unwrap(),
        );
    }
    // Watchdog
    while done.load(SeqCst) < workers {
        std::thread::sleep(Duration::from_millis(20));
        let now = sh.t0.elapsed().as_millis() as u64;
        for s in &sh.slots {
            let t = s.since.load(Relaxed);
            if t != 0 && now > t + limit_ms {
                let d = s.desc.lock().unwrap().clone();
                if s.since.load(Relaxed) == t {
                    let p = replay_path(99);
                    let _ = std::fs::write(&p, format!("{}\n# the call did not return within {} s\n", d, limit_ms / 1000));
                    println!("HANG: {}", d);
                    println!("VIOLATION property={} replay={}", prop, p);
                    std::process::exit(1);
                }
            }
        }
        if hs.iter().all(|h| h.is_finished()) && done.load(SeqCst) < workers {
            println!("harness error: a worker of the engine ended unexpectedly");
            return 2;
        }
    }
    for h in hs {
        let _ = h.join();
    }
    let ctxs = std::mem::take(&mut *results.lock().unwrap());
    let mut states: HashSet<u64> = HashSet::new();
    let (mut transitions, mut validated) = (0u64, 0u64);
    let mut extra: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    for c in ctxs {
        states.extend(&c.states);
        transitions += c.transitions;
        validated += c.validated;
        for (k, n) in c.extra {
            if k.starts_with("max_") {
                let e = extra.entry(k).or_insert(0);
                *e = (*e).max(n);
            } else {
                *extra.entry(k).or_insert(0) += n;
            }
        }
        samples.extend(c.samples);
        for (k, n) in c.known_hits {
            *hits.entry(k).or_insert(0) += n;
        }
    }
    if std::env::var("MC_TIMES").is_ok() {
        let mut s = slow.lock().unwrap();
        s.sort();
        for (t, n) in s.iter().rev().take(15) {
            println!("{:6} ms {}", t, n);
        }
    }
    let found = sh.found.lock().unwrap();
    let mut code = 0;
    for (k, n) in &hits {
        let what = sh.known.iter().find(|x| x.0 == *k).map(|x| x.1.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={} {} ({} cases): {}", prop, k, n, what);
    }
    for (i, v) in found.iter().enumerate() {
        let p = replay_path(i);
        let _ = std::fs::write(&p, format!("{}\n# {}\n# replay: /verif/run.sh {} replay {}\n", v.desc, v.what.replace('\n', "\n# "), prop, p));
        println!("FAILED: {}\n   {}", v.desc, v.what);
        println!("VIOLATION property={} replay={}", prop, p);
        code = 1;
    }
    samples.truncate(12);
    let wall = sh.t0.elapsed().as_secs_f64();
    if a.replay.is_none() {
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\"bounds\":{},\"units\":{}",
            js(&prop),
            js(if a.tier == Tier::Quick { "quick" } else { "thorough" }),
            std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<u64>().ok()).unwrap_or(1),
            states.len(),
            transitions,
            validated,
            plan.exhaustive && code == 0 && extra.get("capped_explorations").map_or(true, |n| *n == 0),
            js(&plan.bounds),
            plan.units.len(),
        );
        for (k, n) in &extra {
            let _ = write!(o, ",{}:{}", js(k), n);
        }
        let _ = write!(o, ",\"samples\":[{}]}}", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"assumptions\":[{}]", plan.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"wall_s\":{:.3},\"violations\":{}}}\n", wall, found.len());
        let file = format!("{}/evidence/{}{}.json", root, prop, a.part);
        if std::fs::write(&file, o).is_err() {
            println!("cannot write {}", file);
            return 2;
        }
    }
    println!(
        "{}{} {:?}: {} states, {} transitions, {} executions agree with the model, {} violations, {:.1} s",
        prop,
        a.part,
        a.tier,
        states.len(),
        transitions,
        validated,
        found.len(),
        wall
    );
    code
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = Fnv::new();
    h.s(s);
    h.0
}
