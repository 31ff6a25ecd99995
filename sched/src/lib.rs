//! The core crate as a shared object for the schedule explorer `sched.c`: calls of the C18 alphabet by
//! number, an allocator that asks the explorer for memory, and two deliberately broken control calls.
use mc::history::{alphabet, shared, Call};
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering::SeqCst};

extern "C" {
    fn mc_alloc(size: usize, align: usize) -> *mut u8;
    fn mc_free(ptr: *mut u8);
}

struct Explored;
// SAFETY: the explorer hands out fresh memory of the asked size and alignment.
unsafe impl GlobalAlloc for Explored {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        mc_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        mc_free(p);
    }
}
#[global_allocator]
static ALLOC: Explored = Explored;

/// Controls: the explorer must find a lost update, a deadlock and a race on heap memory here in every run.
mod control {
    use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::SeqCst};
    use std::sync::Mutex;
    static COUNTER: AtomicU64 = AtomicU64::new(5);
    static A: Mutex<u64> = Mutex::new(1);
    static B: Mutex<u64> = Mutex::new(2);
    static HEAP: AtomicPtr<[AtomicU64; 2]> = AtomicPtr::new(std::ptr::null_mut());
    static ONCE: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();

    /// Two threads of this: 6 and 7 in every order, unless an update is lost.
    pub fn lost_update() -> u64 {
        let v = COUNTER.load(SeqCst);
        COUNTER.store(v + 1, SeqCst);
        COUNTER.load(SeqCst)
    }
    pub fn lock(ab: bool) -> u64 {
        if ab {
            let a = A.lock().unwrap();
            let b = B.lock().unwrap();
            *a + *b
        } else {
            let b = B.lock().unwrap();
            let a = A.lock().unwrap();
            *a + *b
        }
    }
    /// Key and value of a cache in two separate words on the heap.
    pub fn torn_cache(key: u64) -> u64 {
        let mut p = HEAP.load(SeqCst);
        if p.is_null() {
            let fresh = Box::into_raw(Box::new([AtomicU64::new(0), AtomicU64::new(0)]));
            p = match HEAP.compare_exchange(std::ptr::null_mut(), fresh, SeqCst, SeqCst) {
                Ok(_) => fresh,
                Err(q) => q,
            };
        }
        // SAFETY: never freed.
        let cell = unsafe { &*p };
        if cell[0].load(SeqCst) == key {
            return cell[1].load(SeqCst);
        }
        cell[0].store(key, SeqCst);
        cell[1].store(key * 10, SeqCst);
        key * 10
    }
    /// Correct: must be quiet in every schedule.
    pub fn once() -> u64 {
        ONCE.get_or_init(|| (0..5).collect()).iter().sum()
    }
}

pub enum Work {
    Call(Call),
    Control(usize),
    Kept(&'static AtomicU64),
}
const CONTROLS: usize = 7;

/// The calls of one mode: those that make their own values, or those on values shared by the threads.
fn calls() -> Vec<Call> {
    let warm = WARM.load(SeqCst);
    let mut v = alphabet();
    v.retain(|c| matches!(c, Call::Shared { .. }) == warm);
    for c in &mut v {
        if let Call::Shared { at, .. } = c {
            *at = std::ptr::from_ref(shared()) as usize;
        }
    }
    v
}
static WARM: AtomicBool = AtomicBool::new(false);
static KEPT: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());

/// Switches to the calls on shared values, and makes these.
#[no_mangle]
pub extern "C" fn sl_shared(warm: bool) {
    KEPT.store(Box::leak(Box::new(AtomicU64::new(5))), SeqCst);
    WARM.store(warm, SeqCst);
    if warm {
        shared();
    }
}

#[no_mangle]
pub extern "C" fn sl_count() -> usize {
    calls().len()
}

/// Call `i` of the mode; from `sl_count()` on, the controls.
#[no_mangle]
pub extern "C" fn sl_prepare(i: usize) -> *mut Work {
    let mut a = calls();
    let n = a.len();
    assert!(i < n + CONTROLS);
    Box::into_raw(Box::new(if i < n {
        Work::Call(a.swap_remove(i))
    } else if i == n + CONTROLS - 1 {
        // SAFETY: leaked by `sl_shared`.
        Work::Kept(unsafe { &*KEPT.load(SeqCst) })
    } else {
        Work::Control(i - n)
    }))
}

/// # Safety
/// `w` comes from `sl_prepare`.
#[no_mangle]
pub unsafe extern "C" fn sl_exec(w: *const Work) -> u64 {
    match &*w {
        Work::Call(c) => c.answer(),
        Work::Control(0) => control::lost_update(),
        Work::Control(1) => control::lock(true),
        Work::Control(2) => control::lock(false),
        Work::Control(3) => control::torn_cache(3),
        Work::Control(4) => control::torn_cache(4),
        Work::Control(_) => control::once(),
        Work::Kept(a) => {
            let v = a.load(SeqCst);
            a.store(v + 1, SeqCst);
            a.load(SeqCst)
        }
    }
}

/// # Safety
/// `buf` has `len` bytes.
#[no_mangle]
pub unsafe extern "C" fn sl_describe(i: usize, buf: *mut u8, len: usize) {
    let a = calls();
    let mut s = a.get(i).map_or_else(|| format!("control {}", i - a.len()), |c| format!("{c:?}"));
    s.truncate(len - 1);
    s.push('\0');
    std::ptr::copy_nonoverlapping(s.as_ptr(), buf, s.len());
}
