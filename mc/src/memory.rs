//! C27: repeating calls leaves the memory in use where it was.
use crate::engine::{hash_words, Ctx, Suite};
use crate::history::{alphabet, Call};
use crate::model::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::Arc;

thread_local!(static LIVE: Cell<i64> = const { Cell::new(0) });

/// Counts the bytes each thread holds.
pub struct Counting;
fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
    #[cfg(feature = "cost")]
    let _ = PEAK.try_with(|p| p.set(p.get().max(LIVE.with(Cell::get))));
}
#[cfg(feature = "cost")]
thread_local!(static PEAK: Cell<i64> = const { Cell::new(0) });
/// The bytes held now; from here on the most is remembered (C35).
#[cfg(feature = "cost")]
pub fn peak_start() -> i64 {
    let now = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(now));
    now
}
#[cfg(feature = "cost")]
pub fn peak_since(before: i64) -> u64 {
    (PEAK.with(Cell::get) - before).max(0) as u64
}
// SAFETY: hands everything to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Rounds after which the memory is looked at: something that grows without bound grows between any two of them, even if it
/// doubles its room each time it is full. The first counts as warming up (caches may fill).
const LOOKS: [usize; 12] = [3, 7, 15, 31, 63, 127, 255, 511, 1023, 2047, 4095, 8191];

fn balanced(seq: &[&Call], ctx: &mut Ctx) -> Result<(), String> {
    let (mut rounds, mut last, mut grown, mut answers) = (0, 0, 0, 0u64);
    let start = LIVE.with(Cell::get);
    for look in LOOKS {
        while rounds < look {
            for c in seq {
                ctx.step();
                answers = answers.rotate_left(5) ^ c.answer();
            }
            rounds += 1;
        }
        let now = LIVE.with(Cell::get);
        if rounds > LOOKS[0] {
            if now <= last {
                break;
            }
            grown += 1;
        }
        last = now;
    }
    ctx.outcome(hash_words([grown as u64, answers]));
    if grown == LOOKS.len() - 1 {
        return Err(format!(
            "{rounds} repetitions of {} keep {} bytes although its results are dropped, more at each of {grown} looks after {LOOKS:?} repetitions",
            seq.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>().join("; "),
            last - start
        ));
    }
    Ok(())
}

/// The calls of C18, and strings, names and bounds of other sizes.
fn calls() -> Vec<Call> {
    let mut v = alphabet();
    let lu = 1u32 << 9;
    for name in ["Xx", "L", "N", "", "lu", "Lu ", "a name that is far longer than any category could ever be", "\u{1F600}\u{1F600}", "Cc", "Zs"] {
        v.push(Call::ParseCat(name));
        for ver in [0, 5, 10] {
            v.push(Call::General(ver, vec![name]));
            v.push(Call::General(ver, vec!["L", "Zs", name]));
            v.push(Call::General(ver, vec![name, "Q"]));
            v.push(Call::General(ver, vec![name; 20]));
        }
    }
    for text in ["", "9.0", "latest", "9.0.0.0", "18.0.0", "15.1.0", "17.0.0 ", "a text that is far longer than any version could ever be", "\u{664}.0.0"] {
        v.push(Call::ParseVer(text));
    }
    for (a, b) in [(1, 0), (MAX, 0), (0, MAX + 1), (MAX + 1, MAX + 1), (u32::MAX, 0), (0, u32::MAX), (255, 254)] {
        for as_set in [false, true] {
            for incs in ["", "\u{2603}"] {
                v.push(Call::Query { ver: 3, inc: Some(lu), exc: None, incs: incs.into(), excs: String::new(), min: a, max: b, as_set });
            }
        }
    }
    for n in [1usize, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 200, 255, 256, 257, 1000, 5000] {
        for start in [0x20u32, 0x80, 0x3000, 0x1F000] {
            let asc: String = (start..).step_by(2).filter_map(char::from_u32).take(n).collect();
            let rev: String = asc.chars().rev().collect();
            for (i, e) in [(&asc, ""), (&rev, ""), (&String::new(), rev.as_str()), (&asc, asc.as_str())] {
                for (inc, a, b) in [(Some(0), 0, MAX), (Some(lu | 1 << 5), 0, 255), (Some(lu), 0, 0x3FF)] {
                    v.push(Call::Query { ver: n % 11, inc, exc: None, incs: i.clone(), excs: e.into(), min: a, max: b, as_set: n % 2 == 0 });
                }
            }
        }
    }
    for k in 0..30 {
        for x in [1u32 << k, ALL & !(1 << k), (1 << k) - 1, 0x1F << k & ALL] {
            v.push(Call::Show(x));
            v.push(Call::Steps(x));
            for (a, b) in [(0, MAX), (0, 255), (0x40, 0x4FF)] {
                for as_set in [false, true] {
                    v.push(Call::Query { ver: k % 11, inc: Some(x), exc: (k % 2 == 0).then_some(lu), incs: String::new(), excs: String::new(), min: a, max: b, as_set });
                }
            }
        }
    }
    v
}

pub fn c27(thorough: bool) -> Vec<Suite> {
    let all = Arc::new(calls());
    let n = all.len();
    let mut out = vec![];
    {
        let all = all.clone();
        out.push(Suite::new("calls", &format!("{n} calls, valid and invalid, each repeated up to {} times: the memory in use does not grow at each of {} looks", LOOKS[LOOKS.len() - 1], LOOKS.len() - 1), n, move |u, ctx| {
            ctx.sample(|| format!("{:?}", all[u]));
            balanced(&[&all[u]], ctx)
        }));
    }
    {
        let base = Arc::new(alphabet());
        let k = base.len();
        let step = if thorough { 1 } else { 3 };
        out.push(Suite::new("pairs", &format!("all ordered pairs of {k} calls{}, alternating", if thorough { "" } else { " (second: every third, from each residue in turn)" }), k, move |a, ctx| {
            for b in (a % step..k).step_by(step) {
                balanced(&[&base[a], &base[b]], ctx)?;
            }
            Ok(())
        }));
    }
    {
        let all = all.clone();
        out.push(Suite::new("runs", "every window of 2 to 12 consecutive calls of the alphabet, repeated", n, move |u, ctx| {
            for len in 2..=12usize {
                if u + len <= n {
                    balanced(&all[u..u + len].iter().collect::<Vec<_>>(), ctx)?;
                }
            }
            Ok(())
        }));
    }
    out
}
