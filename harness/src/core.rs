//! Exploration driver: deterministic, index-addressable families of cases, run in parallel,
//! each case isolated by `catch_unwind`, with counters, a watchdog and replay files.
use serde_json::{json, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = payload_str(info.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} (at {loc})"));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Runs `f`; a panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        let m: String = m.chars().take(600).collect();
        format!("panicked: {m}")
    })
}

/// Per-worker counters, merged into the family statistics at the end.
#[derive(Default)]
pub struct Local {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub sample: Option<String>,
}

impl Local {
    pub fn out(&mut self, k: &'static str) {
        *self.outcomes.entry(k).or_insert(0) += 1;
    }
    pub fn outn(&mut self, k: &'static str, n: u64) {
        *self.outcomes.entry(k).or_insert(0) += n;
    }
}

pub struct Violation {
    pub family: String,
    pub index: u64,
    pub message: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub families: Mutex<Vec<Value>>,
    pub violations: Mutex<Vec<Violation>>,
    pub totals: Mutex<Local>,
    pub samples: Mutex<Vec<Value>>,
    pub notes: Mutex<Vec<String>>,
    pub start: Instant,
    pub stop: AtomicBool,
    pub threads: usize,
    pub case_limit: Duration,
    pub skip: Vec<String>,
}

pub const MAX_VIOLATIONS: usize = 5;

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64) -> Ctx {
        let threads = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .min(16);
        Ctx {
            prop: prop.into(),
            tier,
            seed,
            only: None,
            families: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            totals: Mutex::new(Local::default()),
            samples: Mutex::new(vec![]),
            notes: Mutex::new(vec![]),
            start: Instant::now(),
            stop: AtomicBool::new(false),
            threads,
            case_limit: Duration::from_secs(150),
            skip: vec![],
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// quick value or thorough value
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }

    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }

    pub fn record(&self, family: &str, index: u64, message: String) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < MAX_VIOLATIONS {
            v.push(Violation {
                family: family.into(),
                index,
                message,
            });
        }
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Ordering::SeqCst);
        }
    }

    /// Builds something needed by a family before its enumeration; a panic here (library code
    /// refusing valid input) is a violation of the property.
    pub fn setup<T>(&self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.progress(&format!("setup:{what}"));
        let done = AtomicBool::new(false);
        let r = std::thread::scope(|s| {
            s.spawn(|| {
                let t0 = Instant::now();
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(5));
                    if t0.elapsed() > self.case_limit {
                        let m = format!("did not terminate within {} s", self.case_limit.as_secs());
                        self.record(&format!("setup:{what}"), 0, m);
                        std::process::exit(crate::finish(self));
                    }
                }
            });
            let r = guarded(f);
            done.store(true, Ordering::Relaxed);
            r
        });
        match r {
            Ok(t) => Some(t),
            Err(m) => {
                self.record(&format!("setup:{what}"), 0, m);
                None
            }
        }
    }

    /// Leaves the name of what is being explored where check.sh finds it if the process is killed
    /// (stack overflow, memory limit, abort), which no handler inside the process can report.
    fn progress(&self, what: &str) {
        if let Ok(p) = std::env::var("VERIF_PROGRESS") {
            let _ = std::fs::write(p, what);
        }
    }

    /// Exhaustively runs cases 0..n of a family.
    pub fn family<F>(&self, name: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Local) -> Result<(), String> + Sync,
    {
        if self.stop.load(Ordering::SeqCst) {
            return;
        }
        if self.only.as_ref().is_some_and(|(fam, _)| fam != name) {
            return;
        }
        self.progress(name);
        if let Some((_, idx)) = self.only.as_ref().filter(|(_, idx)| *idx != u64::MAX) {
            if *idx >= n {
                println!("replay index {idx} out of range for family {name} (n={n})");
                return;
            }
            let mut l = Local::default();
            let r = guarded(|| f(*idx, &mut l)).unwrap_or_else(Err);
            match r {
                Ok(()) => println!("replay {name}#{idx}: property held"),
                Err(m) => {
                    println!("replay {name}#{idx}: VIOLATED: {m}");
                    self.record(name, *idx, m);
                }
            }
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let total = Mutex::new(Local::default());
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 4096);
        let fam_fail = AtomicUsize::new(0);
        // (case index + 1, start in ms since ctx start) per worker; 0 = idle
        let slots: Vec<(AtomicU64, AtomicU64)> = (0..self.threads)
            .map(|_| (AtomicU64::new(0), AtomicU64::new(0)))
            .collect();
        let finished = AtomicBool::new(false);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..self.threads)
                .map(|w| {
                    let (next, done, total, f, slots, fam_fail) =
                        (&next, &done, &total, &f, &slots, &fam_fail);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let mut l = Local::default();
                            'outer: loop {
                                let a = next.fetch_add(chunk, Ordering::Relaxed);
                                if a >= n {
                                    break;
                                }
                                let b = (a + chunk).min(n);
                                for i in a..b {
                                    if self.stop.load(Ordering::Relaxed) {
                                        break 'outer;
                                    }
                                    slots[w].1.store(
                                        self.start.elapsed().as_millis() as u64,
                                        Ordering::Relaxed,
                                    );
                                    slots[w].0.store(i + 1, Ordering::Relaxed);
                                    let r = guarded(|| f(i, &mut l)).unwrap_or_else(Err);
                                    slots[w].0.store(0, Ordering::Relaxed);
                                    l.traces += 1;
                                    done.fetch_add(1, Ordering::Relaxed);
                                    if let Err(m) = r {
                                        self.record(name, i, m);
                                        if fam_fail.fetch_add(1, Ordering::Relaxed) >= 1 {
                                            // two failures of one family are enough
                                            next.store(n, Ordering::Relaxed);
                                            break 'outer;
                                        }
                                    }
                                }
                            }
                            let mut t = total.lock().unwrap();
                            merge(&mut t, l);
                        })
                        .expect("spawn")
                })
                .collect();
            let wd = {
                let (slots, finished) = (&slots, &finished);
                s.spawn(move || loop {
                    for _ in 0..10 {
                        if finished.load(Ordering::Relaxed) {
                            return;
                        }
                        std::thread::sleep(Duration::from_millis(50));
                    }
                    let now = self.start.elapsed().as_millis() as u64;
                    for (c, st) in slots.iter() {
                        let c = c.load(Ordering::Relaxed);
                        if c > 0
                            && now.saturating_sub(st.load(Ordering::Relaxed))
                                > self.case_limit.as_millis() as u64
                        {
                            self.record(
                                name,
                                c - 1,
                                format!(
                                    "did not terminate within {} s",
                                    self.case_limit.as_secs()
                                ),
                            );
                            let code = crate::finish(self);
                            std::process::exit(code);
                        }
                    }
                })
            };
            for h in hs {
                h.join().expect("worker");
            }
            finished.store(true, Ordering::Relaxed);
            wd.join().expect("watchdog");
        });
        let l = total.into_inner().unwrap();
        let cases = done.load(Ordering::Relaxed);
        let dt = t0.elapsed().as_secs_f64();
        println!(
            "  {name}: {cases}/{n} cases, states={} transitions={} outcomes={:?} [{dt:.2}s]",
            l.states, l.transitions, l.outcomes
        );
        self.families.lock().unwrap().push(json!({
            "family": name, "cases": n, "explored": cases, "complete": cases == n,
            "states": l.states, "transitions": l.transitions,
            "outcomes": l.outcomes.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<_, _>>(),
            "wall_s": (dt * 1000.0).round() / 1000.0
        }));
        if let Some(sm) = &l.sample {
            self.samples
                .lock()
                .unwrap()
                .push(json!({"family": name, "example": sm}));
        }
        merge(&mut self.totals.lock().unwrap(), l);
    }
}

fn merge(t: &mut Local, l: Local) {
    t.states += l.states;
    t.transitions += l.transitions;
    t.traces += l.traces;
    for (k, v) in l.outcomes {
        *t.outcomes.entry(k).or_insert(0) += v;
    }
    if t.sample.is_none() {
        t.sample = l.sample;
    }
}

/// Mixed-radix decoder for index-addressable products.
pub struct Dec(pub u64);
impl Dec {
    pub fn take(&mut self, n: usize) -> usize {
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !($c) {
            return Err(format!($($a)*));
        }
    };
}

/// Every sequence of at most `len` enabled operations, each executed from its own fresh start state and
/// without keeping copies of intermediate states alive (copies share data with the state they were made
/// from and could hide what became of it). The state is checked after every sequence.
pub fn sequences<S, O: Copy + std::fmt::Debug + Sync>(
    ctx: &Ctx,
    name: &str,
    ops: &[O],
    len: usize,
    start: impl Fn() -> S + Sync,
    enabled: impl Fn(&S, O) -> bool + Sync,
    apply: impl Fn(&mut S, O) -> Result<(), String> + Sync,
    check: impl Fn(&S, &mut Local) -> Result<(), String> + Sync,
) {
    let k = ops.len();
    let pre = len.min(2);
    ctx.family(name, (k as u64).pow(pre as u32), |i, l| {
        let mut digits = vec![0usize; len];
        let mut d = Dec(i);
        for x in digits.iter_mut().take(pre) {
            *x = d.take(k);
        }
        // first position of the digits that changed since the last sequence
        let mut fresh = if i % k as u64 == i { 0 } else { pre - 1 };
        loop {
            let mut s = start();
            let mut hist = vec![];
            let mut stop = len;
            for (step, &g) in digits.iter().enumerate() {
                let o = ops[g];
                if !enabled(&s, o) {
                    stop = step;
                    break;
                }
                hist.push(o);
                l.transitions += 1;
                apply(&mut s, o).map_err(|m| format!("after {hist:?}: {m}"))?;
                if step >= fresh {
                    check(&s, l).map_err(|m| format!("after {hist:?}: {m}"))?;
                }
            }
            if stop == len && l.sample.is_none() {
                l.sample = Some(format!("{hist:?}"));
            }
            // next sequence: skip everything that shares the disabled prefix
            let mut j = stop.min(len - 1);
            loop {
                if j < pre {
                    return Ok(());
                }
                digits[j] += 1;
                if digits[j] < k {
                    break;
                }
                digits[j] = 0;
                j -= 1;
            }
            for x in digits.iter_mut().skip(j + 1) {
                *x = 0;
            }
            fresh = j;
        }
    });
}
