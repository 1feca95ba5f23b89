//! Runs the cases of a property over all cores, watches for panics and hangs, collects evidence.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub struct Ctx {
    pub evals: u64,
    pub sigs: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub max_ratio: f64,
    pub thorough: bool,
    pub verbose: bool,
}
impl Ctx {
    pub fn new(thorough: bool, verbose: bool) -> Self {
        Ctx { evals: 0, sigs: HashSet::new(), counters: BTreeMap::new(), samples: vec![], max_ratio: 0.0, thorough, verbose }
    }
    /// A judged, non-trivial observation; distinct ones are counted by signature.
    pub fn sig<H: Hash>(&mut self, h: H) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.sigs.insert(s.finish());
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn ratio(&mut self, r: f64) {
        if r > self.max_ratio {
            self.max_ratio = r;
        }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    fn merge(&mut self, o: Ctx) {
        self.evals += o.evals;
        self.sigs.extend(o.sigs);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
        self.ratio(o.max_ratio);
    }
}
thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
/// Run code under test; a panic becomes Err((message, location)).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}
pub fn thread_cpu_ns() -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    unsafe extern "C" {
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}
struct Slot {
    /// case index + 1, 0 = idle
    case: AtomicU64,
    clk: Mutex<i32>,
    t0: AtomicU64,
}
pub struct Outcome {
    pub ctx: Ctx,
    pub violations: Vec<(u64, String)>,
    pub harness_errors: Vec<(u64, String)>,
    pub cases: u64,
}
fn cpu_of(clk: i32) -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    unsafe extern "C" {
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(clk, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}
fn my_clock() -> i32 {
    unsafe extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    }
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    c
}
pub type CaseFn = dyn Fn(&mut Ctx, &mut Rng, u64) -> Result<(), String> + Sync;

/// `hang_s`: CPU seconds a single case may take before it counts as not terminating.
pub fn run(prop: u64, seed: u64, first: u64, cases: u64, threads: usize, thorough: bool, verbose: bool, hang_s: u64, f: &CaseFn,
           on_hang: &(dyn Fn(u64) + Sync)) -> Outcome {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let viol: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    let herr: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    let total: Mutex<Ctx> = Mutex::new(Ctx::new(thorough, verbose));
    let slots: Vec<Arc<Slot>> = (0..threads)
        .map(|_| Arc::new(Slot { case: AtomicU64::new(0), clk: Mutex::new(0), t0: AtomicU64::new(0) }))
        .collect();
    std::thread::scope(|s| {
        let mut hs = vec![];
        for slot in &slots {
            let slot = slot.clone();
            let (next, stop, viol, herr, total) = (&next, &stop, &viol, &herr, &total);
            hs.push(s.spawn(move || {
                *slot.clk.lock().unwrap() = my_clock();
                let mut ctx = Ctx::new(thorough, verbose);
                loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= cases || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let idx = first + k;
                    slot.t0.store(thread_cpu_ns(), Ordering::Relaxed);
                    slot.case.store(idx + 1, Ordering::Release);
                    let mut rng = Rng::new(seed, prop, idx);
                    let r = guarded(|| f(&mut ctx, &mut rng, idx));
                    slot.case.store(0, Ordering::Release);
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(m)) => {
                            let mut v = viol.lock().unwrap();
                            v.push((idx, m));
                            if v.len() >= 5 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        Err((m, loc)) => {
                            if loc.starts_with("src/") || loc.contains("/verif/harness/") {
                                herr.lock().unwrap().push((idx, format!("harness panic: {m} at {loc}")));
                            } else {
                                let mut v = viol.lock().unwrap();
                                v.push((idx, format!("panic in the code under test: {m} at {loc}")));
                                if v.len() >= 5 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                }
                total.lock().unwrap().merge(ctx);
            }));
        }
        let done = &done;
        let slots2 = &slots;
        s.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                for sl in slots2.iter() {
                    let c = sl.case.load(Ordering::Acquire);
                    if c == 0 {
                        continue;
                    }
                    let clk = *sl.clk.lock().unwrap();
                    let t0 = sl.t0.load(Ordering::Relaxed);
                    let now = cpu_of(clk);
                    if now > t0 && now - t0 > hang_s * 1_000_000_000 && sl.case.load(Ordering::Acquire) == c {
                        on_hang(c - 1);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    let mut violations = viol.into_inner().unwrap();
    violations.sort();
    Outcome {
        ctx: total.into_inner().unwrap(),
        violations,
        harness_errors: herr.into_inner().unwrap(),
        cases,
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
