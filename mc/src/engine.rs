//! Exhaustive exploration of numbered finite spaces, in parallel, with replay of single units.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Check = Result<(), String>;

#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ u64::from(*x);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// FNV-style mixing of words; good enough to count distinct observations.
pub fn mix(h: u64, v: u64) -> u64 {
    let x = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^ (x >> 29)
}
pub fn hash_words(it: impl IntoIterator<Item = u64>) -> u64 {
    it.into_iter().fold(0xcbf2_9ce4_8422_2325, mix)
}

/// Upper limit of remembered observations per worker (memory, not a search bound).
const OUTCOME_CAP: usize = 1 << 20;

pub struct Ctx<'a> {
    pub transitions: u64,
    outcomes: IdSet,
    pub capped: bool,
    pub samples: Vec<String>,
    want_sample: bool,
    beat: &'a AtomicU64,
}

impl Ctx<'_> {
    /// One call of the implementation is about to be compared with the model.
    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1;
        self.beat.store(self.transitions, Relaxed);
    }
    /// The model predicts this observation.
    #[inline]
    pub fn outcome(&mut self, h: u64) {
        if !self.capped {
            self.outcomes.insert(h);
            self.capped = self.outcomes.len() >= OUTCOME_CAP;
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            let mut s = f();
            if s.len() > 400 {
                let mut cut = 400;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

type UnitFn = Box<dyn Fn(u64, &mut Ctx) -> Check + Send + Sync>;

pub struct Suite {
    pub name: String,
    pub bound: String,
    pub units: u64,
    pub run: UnitFn,
}

impl Suite {
    pub fn new(
        name: &str,
        bound: &str,
        units: usize,
        run: impl Fn(usize, &mut Ctx) -> Check + Send + Sync + 'static,
    ) -> Suite {
        Suite {
            name: name.to_string(),
            bound: bound.to_string(),
            units: units as u64,
            run: Box::new(move |i, c| run(i as usize, c)),
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let at = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg}{at}")));
    }));
}

/// Run implementation code; a panic becomes an observation.
#[inline]
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        format!(
            "PANIC: {}",
            PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "?".into())
        )
    })
}

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub const SLOT_WORDS: usize = 8;

/// Shared slots: per worker [active, suite, unit, beat, ...]; survive a crash of this process.
pub fn map_slots(path: Option<&str>, n: usize) -> &'static [AtomicU64] {
    let words = n * SLOT_WORDS;
    match path {
        None => Box::leak((0..words).map(|_| AtomicU64::new(0)).collect::<Vec<_>>().into_boxed_slice()),
        Some(p) => {
            use std::os::fd::AsRawFd;
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).expect("slot file");
            f.set_len((words * 8) as u64).expect("slot file size");
            // SAFETY: a fresh shared mapping of a file we just sized; kept for the life of the process.
            unsafe {
                let m = mmap(std::ptr::null_mut(), words * 8, 3, 1, f.as_raw_fd(), 0);
                assert!(m as isize != -1, "mmap");
                std::slice::from_raw_parts(m.cast::<AtomicU64>(), words)
            }
        }
    }
}

pub struct Failure {
    pub suite: usize,
    pub unit: u64,
    pub message: String,
}

#[derive(Default)]
pub struct Stats {
    pub transitions: u64,
    pub states: u64,
    pub capped: bool,
    pub units: u64,
    pub samples: Vec<String>,
    pub per_suite: Vec<(String, String, u64, u64)>,
}

pub enum Outcome {
    Done(Stats, Option<Failure>),
    Hang(usize, u64),
}

fn run_unit(s: &Suite, unit: u64, ctx: &mut Ctx) -> Check {
    match catch_unwind(AssertUnwindSafe(|| (s.run)(unit, ctx))) {
        Ok(r) => r,
        Err(_) => Err(format!(
            "PANIC outside a compared call: {}",
            PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "?".into())
        )),
    }
}

pub fn explore(suites: &[Suite], threads: usize, slots: &'static [AtomicU64], stall: Duration) -> Outcome {
    let next: Vec<AtomicU64> = suites.iter().map(|_| AtomicU64::new(0)).collect();
    let done_units: Vec<AtomicU64> = suites.iter().map(|_| AtomicU64::new(0)).collect();
    let done_steps: Vec<AtomicU64> = suites.iter().map(|_| AtomicU64::new(0)).collect();
    let stop = AtomicBool::new(false);
    let finished = AtomicUsize::new(0);
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let merged: Mutex<(IdSet, bool, Vec<String>)> = Mutex::new((IdSet::default(), false, vec![]));
    let mut hang = None;
    std::thread::scope(|sc| {
        for t in 0..threads {
            let slot = &slots[t * SLOT_WORDS..(t + 1) * SLOT_WORDS];
            let (next, done_units, done_steps, stop, finished, failure, merged) =
                (&next, &done_units, &done_steps, &stop, &finished, &failure, &merged);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut ctx = Ctx {
                        transitions: 0,
                        outcomes: IdSet::default(),
                        capped: false,
                        samples: vec![],
                        want_sample: false,
                        beat: &slot[3],
                    };
                    'all: for (si, s) in suites.iter().enumerate() {
                        loop {
                            if stop.load(Relaxed) {
                                break 'all;
                            }
                            let unit = next[si].fetch_add(1, Relaxed);
                            if unit >= s.units {
                                break;
                            }
                            slot[1].store(si as u64, Relaxed);
                            slot[2].store(unit, Relaxed);
                            slot[0].store(1, Release);
                            ctx.want_sample = unit == s.units / 2;
                            let before = ctx.transitions;
                            let r = run_unit(s, unit, &mut ctx);
                            slot[0].store(0, Release);
                            done_steps[si].fetch_add(ctx.transitions - before, Relaxed);
                            if let Err(message) = r {
                                let mut f = failure.lock().unwrap();
                                if f.as_ref().map_or(true, |f| (f.suite, f.unit) > (si, unit)) {
                                    *f = Some(Failure { suite: si, unit, message });
                                }
                                stop.store(true, Relaxed);
                                break 'all;
                            }
                            done_units[si].fetch_add(1, Relaxed);
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.0.extend(ctx.outcomes.iter());
                    m.1 |= ctx.capped;
                    m.2.append(&mut ctx.samples);
                    finished.fetch_add(1, Release);
                })
                .expect("thread");
        }
        // Watchdog: a worker that is inside a unit and makes no step for `stall` hangs.
        let mut seen: Vec<(u64, u64, u64, Instant)> = vec![(0, 0, 0, Instant::now()); threads];
        while finished.load(Acquire) < threads {
            std::thread::sleep(Duration::from_millis(20));
            for t in 0..threads {
                let s = &slots[t * SLOT_WORDS..];
                let now = (s[1].load(Relaxed), s[2].load(Relaxed), s[3].load(Relaxed));
                if s[0].load(Acquire) == 0 || (seen[t].0, seen[t].1, seen[t].2) != now {
                    seen[t] = (now.0, now.1, now.2, Instant::now());
                } else if seen[t].3.elapsed() > stall && hang.is_none() {
                    hang = Some((now.0 as usize, now.1));
                }
            }
            if let Some((s, u)) = hang {
                // Workers cannot be joined any more: report and leave.
                crate::report_hang_and_exit(suites, s, u);
            }
        }
    });
    if let Some((s, u)) = hang {
        return Outcome::Hang(s, u);
    }
    let (set, capped, samples) = merged.into_inner().unwrap();
    let stats = Stats {
        transitions: done_steps.iter().map(|c| c.load(Relaxed)).sum(),
        states: set.len() as u64,
        capped,
        units: done_units.iter().map(|c| c.load(Relaxed)).sum(),
        samples,
        per_suite: suites
            .iter()
            .enumerate()
            .map(|(i, s)| (s.name.clone(), s.bound.clone(), done_units[i].load(Relaxed), done_steps[i].load(Relaxed)))
            .collect(),
    };
    Outcome::Done(stats, failure.into_inner().unwrap())
}

pub fn replay(s: &Suite, unit: u64) -> Check {
    let beat = AtomicU64::new(0);
    let mut ctx = Ctx {
        transitions: 0,
        outcomes: IdSet::default(),
        capped: false,
        samples: vec![],
        want_sample: false,
        beat: &beat,
    };
    run_unit(s, unit, &mut ctx)
}
