//! Counting, violations, watchdog and panic capture.
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

pub static EVALS: AtomicU64 = AtomicU64::new(0);
static CASES: AtomicU64 = AtomicU64::new(0);
static VIOL: Mutex<Vec<Value>> = Mutex::new(Vec::new());
static NVIOL: AtomicU64 = AtomicU64::new(0);
static SAMPLES: Mutex<Vec<Value>> = Mutex::new(Vec::new());
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
const MAX_SLOTS: usize = 64;
static NSLOT: AtomicU64 = AtomicU64::new(0);
static TRACE: AtomicU64 = AtomicU64::new(0);
static SLOT_ID: [AtomicU64; MAX_SLOTS] = [const { AtomicU64::new(0) }; MAX_SLOTS];
static SLOT_BEAT: [AtomicU64; MAX_SLOTS] = [const { AtomicU64::new(0) }; MAX_SLOTS];
type Describe = Box<dyn Fn(u64) -> String + Send>;
static DESCRIBE: Mutex<Option<Describe>> = Mutex::new(None);

thread_local! {
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static MY_SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Count one evaluation of an expectation on the real code.
pub fn eval(n: u64) {
    EVALS.fetch_add(n, Relaxed);
}
/// Count one case (a transition, walk or recorded step).
pub fn case() {
    CASES.fetch_add(1, Relaxed);
}
pub fn violation(v: Value) {
    NVIOL.fetch_add(1, Relaxed);
    let mut g = VIOL.lock().unwrap();
    if g.len() < 20 {
        g.push(v);
    }
}
pub fn sample(f: impl FnOnce() -> Value) {
    let mut g = SAMPLES.lock().unwrap();
    if g.len() < 6 {
        g.push(f());
    }
}
pub fn violations() -> u64 {
    NVIOL.load(Relaxed)
}

/// Run code under test; a panic is an outcome, not a crash.
pub fn guarded<A>(f: impl FnOnce() -> A) -> Result<A, String> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()));
    DEPTH.with(|d| d.set(d.get() - 1));
    r
}

/// Name the case a thread is working on, for the watchdog.  `id` is turned
/// into text by the closure given to `describe_with`, only when needed.
pub fn working_on(id: u64) {
    let slot = MY_SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NSLOT.fetch_add(1, Relaxed) as usize % MAX_SLOTS);
        }
        s.get()
    });
    SLOT_ID[slot].store(id + 1, Relaxed);
    SLOT_BEAT[slot].fetch_add(1, Relaxed);
    if TRACE.load(Relaxed) == 1 {
        let g = DESCRIBE.lock().unwrap();
        eprintln!("CASE {}", g.as_ref().map(|f| f(id)).unwrap_or_else(|| id.to_string()));
    }
}
pub fn describe_with(f: impl Fn(u64) -> String + Send + 'static) {
    *DESCRIBE.lock().unwrap() = Some(Box::new(f));
}
pub fn done() {
    MY_SLOT.with(|s| {
        if s.get() != usize::MAX {
            SLOT_ID[s.get()].store(0, Relaxed);
        }
    });
}

pub fn finish(out: &str, extra: Value) -> ! {
    let viol = VIOL.lock().unwrap().clone();
    let r = json!({
        "evaluations": EVALS.load(Relaxed),
        "cases": CASES.load(Relaxed),
        "violation_count": NVIOL.load(Relaxed),
        "violations": viol,
        "samples": SAMPLES.lock().unwrap().clone(),
        "extra": extra,
    });
    std::fs::write(out, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    std::process::exit(if viol.is_empty() { 0 } else { 1 });
}

/// Silence panics (remember the message) and report calls that do not return.
pub fn install(out: String, limit_s: u64) {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}").replace('\n', " ");
        if DEPTH.with(|d| d.get()) == 0 {
            eprintln!("HARNESS PANIC {msg}");
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = msg.clone());
        *LAST_PANIC.lock().unwrap() = msg;
    }));
    if std::env::var_os("RTCONF_TRACE_CASES").is_some() {
        TRACE.store(1, Relaxed);
    }
    std::thread::spawn(move || {
        let mut seen = vec![(0u64, std::time::Instant::now()); MAX_SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for k in 0..MAX_SLOTS {
                let (id, beat) = (SLOT_ID[k].load(Relaxed), SLOT_BEAT[k].load(Relaxed));
                if id == 0 || seen[k].0 != beat {
                    seen[k] = (beat, std::time::Instant::now());
                } else if seen[k].1.elapsed().as_secs() >= limit_s {
                    let g = DESCRIBE.lock().unwrap();
                    let d = g.as_ref().map(|f| f(id - 1)).unwrap_or_else(|| id.to_string());
                    violation(json!({"what": "call did not return", "seconds": limit_s, "case": d}));
                    finish(&out, json!({"hang": true}));
                }
            }
        }
    });
}

/// Run `work(i)` for i in 0..n on all cores.
pub fn parallel(n: usize, work: impl Fn(usize) + Sync) {
    let next = AtomicU64::new(0);
    let threads = std::thread::available_parallelism().map(|p| p.get()).unwrap_or(4);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed) as usize;
                if i >= n {
                    done();
                    break;
                }
                work(i);
            });
        }
    });
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Self {
        let mut r = Rng(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_mul(0xD1B5_4A32_D192_ED03));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}
