//! C18, histories: every call answers as it does first in a fresh process, whatever came before.
use crate::engine::{guard, hash_words, mix, Ctx, Suite};
use crate::model::*;
use crate::queries::subsets_of_size;
use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};
use unicode_intervals::{as_general_categories, Codepoints, Error, IntervalQuery, IntervalSet, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

#[derive(Clone, Debug)]
pub enum Call {
    Query { ver: usize, inc: Option<u32>, exc: Option<u32>, incs: String, excs: String, min: u32, max: u32, as_set: bool },
    Table(usize),
    IntervalsFor(usize, usize),
    Normalized(usize),
    General(usize, Vec<&'static str>),
    ParseCat(&'static str),
    ParseVer(&'static str),
    Show(u32),
    Steps(u32),
    /// A lookup on the values that all threads share; `at` is their address if they exist already.
    Shared { op: usize, at: usize },
}

/// Values made once and then used by every thread.
pub struct Shared {
    sets: [IntervalSet; 3],
    query: IntervalQuery<'static>,
    iter: Codepoints<'static>,
    _categories: UnicodeCategorySet,
}

static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());

/// The shared values of this process (not `Sync` for the compiler: a loss of that is told by another suite).
pub fn shared() -> &'static Shared {
    let mut p = SHARED.load(SeqCst);
    if p.is_null() {
        let v = UnicodeVersion::ALL[UnicodeVersion::ALL.len() - 1];
        let of = |set: u32, chars: &'static str| v.query().include_categories(to_set(set)).include_characters(chars);
        let base: &'static IntervalSet = Box::leak(Box::new(of(1 << 9, "").interval_set().expect("valid")));
        let fresh = Box::into_raw(Box::new(Shared {
            sets: [of(1 << 9, "").interval_set().expect("valid"), of(0, "acegixyz\u{3A9}").interval_set().expect("valid"), of(ALL, "").interval_set().expect("valid")],
            query: of(1 << 9 | 1 << 5, "!").exclude_characters("x").min_codepoint(0x30).max_codepoint(0x3FF),
            iter: base.iter(),
            _categories: to_set(0x155),
        }));
        p = match SHARED.compare_exchange(std::ptr::null_mut(), fresh, SeqCst, SeqCst) {
            Ok(_) => fresh,
            Err(q) => q,
        };
    }
    // SAFETY: never freed.
    unsafe { &*p }
}

/// The operations on the shared values.
const SHARED_OPS: usize = 30;

fn shared_answer(s: &'static Shared, op: usize) -> u64 {
    let (set, other) = (&s.sets[op % 3], &s.sets[(op + 1) % 3]);
    let n = set.len() as u32;
    let or = |x: Option<u32>| x.map_or(u64::MAX, u64::from);
    match op / 3 {
        0 => [0, n / 2, n - 1, n].iter().fold(1, |h, &i| mix(h, or(set.codepoint_at(i)))),
        1 => [0, 1, 2, 3].iter().fold(2, |h, &i| mix(h, or(set.codepoint_at(i)))),
        2 => [0u32, 65, 67, 97, 105, 255, 0x3A9, MAX].iter().fold(3, |h, &c| mix(h, or(set.index_of(c)))),
        3 => [MAX, 0x3A9, 255, 105, 97, 66, 65, 0].iter().fold(4, |h, &c| mix(h, u64::from(set.index_above(c)))),
        4 => mix(u64::from(set.contains('a')), u64::from(set.contains('A'))),
        5 => {
            let mut i = set.iter();
            (0..3).fold(5, |h, _| mix(mix(h, or(i.next())), or(i.next_back())))
        }
        6 => {
            let c = set.clone();
            mix(or(c.codepoint_at(n / 3)), or(c.index_of(101u32)))
        }
        7 => mix(or(set.codepoint_at(n / 2)), or(other.codepoint_at(5))),
        8 => match op % 3 {
            0 => s.query.clone().intervals().map_or(0, |l| hash_list(&l)),
            1 => s.query.clone().max_codepoint(0x100).interval_set().map_or(0, |l| l.len() as u64),
            _ => words(&format!("{:?} {}", s.query, s.query == s.query.clone())),
        },
        _ => match op % 3 {
            0 => s.iter.clone().take(20).fold(6, |h, x| mix(h, u64::from(x))),
            1 => {
                let mut i = s.iter.clone();
                mix(or(i.nth(7)), or(i.next_back()))
            }
            _ => s._categories.iter().fold(7, |h, c| mix(h, cat_index(c) as u64)),
        },
    }
}

/// Is a type one that threads may share and hand over? Asked of the compiler, without failing to compile if it is not.
macro_rules! thread_safe {
    ($($t:ty),*) => {{
        struct Ask<T>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            fn send(&self) -> bool {
                false
            }
            fn sync(&self) -> bool {
                false
            }
        }
        impl<T> No for &Ask<T> {}
        impl<T: Send> Ask<T> {
            fn send(&self) -> bool {
                true
            }
        }
        struct Ask2<T>(std::marker::PhantomData<T>);
        impl<T> No for &Ask2<T> {}
        impl<T: Sync> Ask2<T> {
            fn sync(&self) -> bool {
                true
            }
        }
        vec![$((stringify!($t), (&Ask::<$t>(std::marker::PhantomData)).send(), (&Ask2::<$t>(std::marker::PhantomData)).sync())),*]
    }};
}

thread_local!(static PLACES: std::cell::UnsafeCell<[[u8; 256]; 2]> = const { std::cell::UnsafeCell::new([[0; 256]; 2]) });

/// Both strings at addresses that are the same for all calls of a thread: nothing may be remembered by address.
fn at_fixed_places<T>(a: &str, b: &str, f: impl FnOnce(&str, &str) -> T) -> T {
    if a.len() > 256 || b.len() > 256 {
        return f(a, b);
    }
    PLACES.with(|p| {
        // SAFETY: the buffers are this thread's own and not borrowed: calls do not nest.
        let p = unsafe { &mut *p.get() };
        p[0][..a.len()].copy_from_slice(a.as_bytes());
        p[1][..b.len()].copy_from_slice(b.as_bytes());
        f(std::str::from_utf8(&p[0][..a.len()]).expect("UTF-8"), std::str::from_utf8(&p[1][..b.len()]).expect("UTF-8"))
    })
}

fn words(s: &str) -> u64 {
    hash_words(s.bytes().map(u64::from))
}

impl Call {
    /// The whole observable answer, as one hash.
    pub fn answer(&self) -> u64 {
        let v = |i: &usize| UnicodeVersion::ALL[*i];
        let lists = |l: &[Iv]| hash_list(l);
        let r = guard(|| match self {
            Call::Query { ver, inc, exc, incs, excs, min, max, as_set } => at_fixed_places(incs, excs, |incs, excs| {
                // The latest version's by both ways.
                let top = *ver + 1 == UnicodeVersion::ALL.len() && (*min as usize + *max as usize + incs.len()) % 2 == 1;
                let b = if top { unicode_intervals::query() } else { v(ver).query() }
                    .include_categories(inc.map(to_set))
                    .exclude_categories(exc.map(to_set))
                    .include_characters(incs)
                    .exclude_characters(excs)
                    .min_codepoint(*min)
                    .max_codepoint(*max);
                if *as_set {
                    match b.interval_set() {
                        Err(e) => words(&format!("{e:?}")),
                        Ok(s) => {
                            let n = s.len() as u32;
                            let mut h = u64::from(n);
                            for i in [0, 1, n / 2, n.saturating_sub(1), n] {
                                h = mix(h, s.codepoint_at(i).map_or(u64::MAX, u64::from));
                            }
                            for c in [0u32, 65, 66, 255, 256, 0x3000, MAX] {
                                h = mix(h, s.index_of(c).map_or(u64::MAX, u64::from));
                                h = mix(h, u64::from(s.index_above(c)));
                            }
                            let mut it = s.iter();
                            h = mix(h, it.next().map_or(u64::MAX, u64::from));
                            mix(h, it.next_back().map_or(u64::MAX, u64::from))
                        }
                    }
                } else {
                    match b.intervals() {
                        Err(e) => words(&format!("{e:?}")),
                        Ok(l) => lists(&l),
                    }
                }
            }),
            Call::Table(i) => v(i).table().iter().fold(7, |h, l| mix(h, lists(l))),
            Call::IntervalsFor(i, c) => lists(v(i).intervals_for(CATS[*c].2)),
            Call::Normalized(i) => v(i).normalized_categories().iter().fold(9, |h, c| mix(h, cat_index(*c) as u64)),
            Call::General(i, l) => match as_general_categories(l, v(i)) {
                Ok(l) => l.iter().fold(11, |h, c| mix(h, cat_index(*c) as u64)),
                Err(e) => words(&format!("{e:?} {e}")),
            },
            Call::ParseCat(s) => words(&format!("{:?}", s.parse::<UnicodeCategory>())),
            Call::ParseVer(s) => words(&format!("{:?}", s.parse::<UnicodeVersion>())),
            Call::Show(m) => words(&to_set(*m).to_string()),
            Call::Steps(m) => {
                let mut s = UnicodeCategorySet::new();
                for c in to_set(*m).iter() {
                    s.add(c);
                    s |= UnicodeCategory::Zs;
                    s.remove(UnicodeCategory::Zs);
                }
                s.iter().fold(13, |h, c| mix(h, cat_index(c) as u64))
            }
            Call::Shared { op, at: 0 } => shared_answer(shared(), *op),
            // SAFETY: the address of the shared values, which are never freed.
            Call::Shared { op, at } => shared_answer(unsafe { &*(*at as *const Shared) }, *op),
        });
        r.unwrap_or_else(|p| words(&p))
    }
}

const SHORT: &str = "z\u{3A9}\u{3B1}";
const LONG: &str = "a\u{3A9}\u{3B1}\u{3B3}0123456789abcdef\u{10000}xyz";

/// Calls that differ from a few centres in exactly one argument, and all the other entry points.
pub fn alphabet() -> Vec<Call> {
    let latest = UnicodeVersion::ALL.len() - 1;
    let lu = 1u32 << 9;
    let q = |ver, inc, exc, incs: &str, excs: &str, min, max| Call::Query { ver, inc, exc, incs: incs.into(), excs: excs.into(), min, max, as_set: false };
    let mut v = vec![];
    // (filters, characters, window) centres: small path, single category, several, everything.
    let centres: Vec<(Option<u32>, Option<u32>, &str, &str, u32, u32)> = vec![
        (Some(lu), None, "", "", 0, 255),
        (Some(lu | 1 << 5), None, "", "", 0x41, 0x3FF),
        (Some(lu), None, "a", "B", 0, MAX),
        (None, Some(lu), "", "", 0, 0x7F),
        (None, None, "", "", 0, MAX),
    ];
    for &(inc, exc, i, e, a, b) in &centres {
        v.push(q(latest, inc, exc, i, e, a, b));
        for ver in 0..latest {
            v.push(q(ver, inc, exc, i, e, a, b));
        }
        for x in [None, Some(0), Some(lu), Some(1 << 5), Some(lu | 1 << 5), Some(lu | 1 << 6), Some(1 << 8), Some(ALL), Some(ALL & !lu)] {
            if x != inc {
                v.push(q(latest, x, exc, i, e, a, b));
            }
            if x != exc {
                v.push(q(latest, inc, x, i, e, a, b));
            }
        }
        for s in ["", "a", "b", "ab", "ba", "A", "\u{100}", "\u{101}", "\u{1F600}", "aa", SHORT, LONG, "\u{410}\u{411}\u{412}\u{413}\u{414}\u{415}\u{416}\u{417}\u{418}\u{419}\u{41A}", "zyxwvutsrqponmlkjihgfedcba9876543210", "0123456789abcdefghijklmnopqrstuvwxyz"] {
            if s != i {
                v.push(q(latest, inc, exc, s, e, a, b));
            }
            if s != e {
                v.push(q(latest, inc, exc, i, s, a, b));
            }
        }
        for x in [0, 1, 0x40, 0x41, 0x42, 0x100, 0x101, 0x1_0041] {
            if x != a && x <= b {
                v.push(q(latest, inc, exc, i, e, x, b));
            }
        }
        for x in [0x42, 0x7F, 0xFE, 0xFF, 0x100, 0x17F, 0xFFFF, 0x1_00FF, MAX - 1, MAX, MAX + 1] {
            if x != b {
                v.push(q(latest, inc, exc, i, e, a, x));
            }
        }
        v.push(q(latest, inc, exc, i, e, b, a));
        v.push(Call::Query { ver: latest, inc, exc, incs: i.into(), excs: e.into(), min: a, max: b, as_set: true });
        v.push(Call::Query { ver: 0, inc, exc, incs: i.into(), excs: e.into(), min: a, max: b, as_set: true });
    }
    // Characters alone, in shapes that take different ways through merging and subtracting.
    let run = |from: u32, step: usize, n: usize| -> String { (from..).step_by(step).filter_map(char::from_u32).take(n).collect() };
    for (i, e) in [
        ("\u{3041}".to_string(), String::new()), (run(0x3041, 1, 2), String::new()), (run(0x3041, 1, 3), String::new()), (run(0x3041, 2, 2), String::new()), (run(0x3041, 2, 3), String::new()),
        (run(0x3041, 1, 12), String::new()), (run(0x3041, 2, 12), String::new()), (run(0x3041, 3, 40), String::new()), (run(0x3041, 1, 40), String::new()), (run(0x3041, 1, 12).chars().rev().collect(), String::new()),
        (run(0x3041, 2, 12).chars().rev().collect(), String::new()), ("\u{3041}\u{3041}".into(), String::new()), ("\u{3043}\u{3041}\u{3042}".into(), String::new()), (run(0x3041, 1, 12), run(0x3044, 1, 3)),
        (run(0x3041, 1, 12), run(0x3041, 2, 6)), (run(0x3041, 2, 12), run(0x3043, 2, 12)), (run(0x3041, 1, 3), run(0x3041, 1, 3)), (run(0x41, 1, 12), run(0x44, 2, 4)), (run(0x41, 2, 12), String::new()), (run(0x61, 2, 12), "b".into()),
    ] {
        for (inc, a, b) in [(Some(0), 0, MAX), (Some(lu), 0x41, 0x1FF), (Some(0), 0, 255)] {
            v.push(q(latest, inc, None, &i, &e, a, b));
        }
    }
    for ver in 0..=latest {
        v.push(Call::Table(ver));
        v.push(Call::Normalized(ver));
        v.push(Call::IntervalsFor(ver, 9));
        v.push(Call::General(ver, vec!["L", "Nd"]));
    }
    for c in [0, 4, 5, 29] {
        v.push(Call::IntervalsFor(latest, c));
    }
    for l in [vec![], vec!["N"], vec!["L"], vec!["Nd", "L"], vec!["X"], vec!["L", "Y"], vec!["C", "Cc"]] {
        v.push(Call::General(latest, l));
    }
    for s in ["Lu", "Ll", "lu", "", "Zs", "L"] {
        v.push(Call::ParseCat(s));
    }
    for s in ["9.0.0", "17.0.0", "17.0", "12.1.0", "12.0.0"] {
        v.push(Call::ParseVer(s));
    }
    for m in [0, lu, lu | 1, ALL, ALL & !1] {
        v.push(Call::Show(m));
        v.push(Call::Steps(m));
    }
    v.extend((0..SHARED_OPS).map(|op| Call::Shared { op, at: 0 }));
    v
}

/// What each call answers first in a process of its own.
fn fresh_answers(calls: &[Call]) -> Result<Vec<u64>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Vec<std::sync::Mutex<Result<u64, String>>> = calls.iter().map(|_| std::sync::Mutex::new(Err("not run".into()))).collect();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= calls.len() {
                    break;
                }
                let r = std::process::Command::new(&exe).arg("answer").arg(i.to_string()).output();
                *out[i].lock().unwrap() = match r {
                    Ok(o) => String::from_utf8_lossy(&o.stdout).trim().parse().map_err(|_| format!("fresh process for {:?}: {:?}", calls[i], o.status)),
                    Err(e) => Err(e.to_string()),
                };
            });
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap()).collect()
}

fn check(calls: &[Call], want: &[u64], seq: &[usize], ctx: &mut Ctx) -> Result<(), String> {
    for (k, &i) in seq.iter().enumerate() {
        ctx.step();
        if calls[i].answer() != want[i] {
            return Err(format!(
                "{:?}\n  answers differently than in a fresh process, after (among others) {}",
                calls[i],
                seq[..k].iter().rev().take(6).rev().map(|&j| format!("{:?}", calls[j])).collect::<Vec<_>>().join("; ")
            ));
        }
    }
    ctx.outcome(hash_words(seq.iter().map(|&i| want[i])));
    Ok(())
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
}

/// `mc cold`: reads the answers that each call has to give, then histories, one per line, and runs each in a fork of this
/// process, which itself never calls the core. Prints the first history that goes wrong, and where.
pub fn cold() {
    use std::io::BufRead;
    let calls = alphabet();
    let mut lines = std::io::stdin().lock().lines().map(|l| l.expect("input"));
    let want: Vec<u64> = lines.next().unwrap_or_default().split(' ').map(|x| x.parse().expect("answer")).collect();
    for line in lines {
        let seq: Vec<usize> = line.split(' ').map(|x| x.parse().expect("call")).collect();
        // SAFETY: this process has one thread.
        let status = unsafe {
            let pid = fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                alarm(30);
                let bad = seq.iter().position(|&i| calls[i].answer() != want[i]);
                _exit(bad.map_or(0, |k| 1 + k.min(200) as i32));
            }
            let mut st = 0;
            assert_eq!(waitpid(pid, &mut st, 0), pid);
            st
        };
        if status != 0 {
            println!("{} {line}", if status & 0x7F == 0 { (status >> 8 & 0xFF) - 1 } else { -(status & 0x7F) });
            return;
        }
    }
    println!("ok");
}

/// The histories, each starting in a process that has made no call yet.
fn check_cold(calls: &[Call], want: &[u64], histories: &[Vec<usize>], ctx: &mut Ctx) -> Result<(), String> {
    use std::io::Write;
    let mut child = std::process::Command::new(std::env::current_exe().expect("exe"))
        .arg("cold")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .expect("a zygote");
    let mut text = want.iter().map(u64::to_string).collect::<Vec<_>>().join(" ");
    for h in histories {
        text.push('\n');
        text.push_str(&h.iter().map(usize::to_string).collect::<Vec<_>>().join(" "));
        for _ in h {
            ctx.step();
        }
        ctx.outcome(hash_words(h.iter().map(|&i| want[i])));
    }
    text.push('\n');
    // The child may stop reading at the first failure.
    let mut input = child.stdin.take().expect("pipe");
    let _ = input.write_all(text.as_bytes());
    drop(input);
    let out = child.wait_with_output().expect("zygote");
    let answer = String::from_utf8_lossy(&out.stdout).trim().to_string();
    ctx.step();
    if answer == "ok" {
        return Ok(());
    }
    let mut f = answer.split(' ');
    let at: i64 = f.next().and_then(|x| x.parse().ok()).unwrap_or_else(|| panic!("zygote: {answer:?} {:?}", out.status));
    let seq: Vec<usize> = f.map(|x| x.parse().expect("call")).collect();
    let show = |k: usize| format!("{:?}", calls[seq[k]]);
    if at < 0 {
        return Err(format!("in a fresh process, the history\n  {}\n  is ended by signal {}", (0..seq.len()).map(show).collect::<Vec<_>>().join("\n  "), -at));
    }
    let at = at as usize;
    let before = (0..at).rev().take(6).rev().map(show).collect::<Vec<_>>().join("\n  ");
    Err(format!("{}\n  answers differently than first in a fresh process, after ({at} calls)\n  {before}", show(at)))
}

pub fn c18(thorough: bool) -> Vec<Suite> {
    let calls = std::sync::Arc::new(alphabet());
    let n = calls.len();
    let want = std::sync::Arc::new(match fresh_answers(&calls) {
        Ok(w) => w,
        Err(e) => {
            // A call that kills a fresh process is a violation in itself.
            return vec![Suite::new("fresh", "each call in a fresh process", 1, move |_, _| Err(e.clone()))];
        }
    });
    let mut out = vec![];
    out.push(Suite::new("shared types", "every public type: values can be handed over to and shared with other threads: complete", 1, |_, ctx| {
        let types = thread_safe!(IntervalSet, IntervalQuery<'static>, Codepoints<'static>, UnicodeCategorySet, UnicodeCategory, UnicodeVersion, Error, std::vec::Vec<(u32, u32)>);
        for (name, send, sync) in types {
            ctx.step();
            if !send || !sync {
                return Err(format!("{name}: Send is {send}, Sync is {sync}: threads cannot use it together"));
            }
        }
        // The question itself, on types with known answers.
        let known = thread_safe!(std::cell::Cell<u32>, std::rc::Rc<u32>, u32);
        assert_eq!(known.iter().map(|k| (k.1, k.2)).collect::<Vec<_>>(), [(true, false), (false, false), (true, true)]);
        Ok(())
    }));
    {
        let (calls, want) = (calls.clone(), want.clone());
        out.push(Suite::new("cold pairs", &format!("each of {n} calls, then each other call, then the first again, every such history in a process that has made no call before"), n, move |a, ctx| {
            check_cold(&calls, &want, &(0..n).map(|b| vec![a, b, a]).collect::<Vec<_>>(), ctx)
        }));
    }
    {
        let (calls, want) = (calls.clone(), want.clone());
        let step = if thorough { 2 } else { 6 };
        let sub: Vec<usize> = (0..n).step_by(step).collect();
        let k = sub.len();
        out.push(Suite::new("cold triples", &format!("all ordered triples of {k} calls, every one in a process that has made no call before"), k, move |a, ctx| {
            check_cold(&calls, &want, &(0..k * k).map(|u| vec![sub[a], sub[u % k], sub[u / k]]).collect::<Vec<_>>(), ctx)
        }));
    }
    {
        let (calls, want) = (calls.clone(), want.clone());
        let reps = if thorough { vec![2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 64, 127, 128] } else { vec![2, 3, 8, 16, 33] };
        out.push(Suite::new("cold repetition", &format!("each call {reps:?} times and then every tenth call, every one in a process that has made no call before"), n, move |a, ctx| {
            let mut all = vec![];
            for &r in &reps {
                for b in (a % 10..n).step_by(10) {
                    let mut h = vec![a; r];
                    h.push(b);
                    h.push(a);
                    all.push(h);
                }
            }
            check_cold(&calls, &want, &all, ctx)
        }));
    }
    {
        let (calls, want) = (calls.clone(), want.clone());
        out.push(Suite::new("pairs", &format!("all ordered pairs (and A B A) of {n} calls that differ in one argument, against fresh processes; 8 threads at once"), n, move |a, ctx| {
            for b in 0..n {
                check(&calls, &want, &[a, b, a], ctx)?;
            }
            ctx.sample(|| format!("{:?}; {:?}", calls[a], calls[n / 3]));
            Ok(())
        }));
    }
    {
        let (calls, want) = (calls.clone(), want.clone());
        let step = if thorough { 1 } else { 4 };
        let sub: Vec<usize> = (0..n).step_by(step).collect();
        let k = sub.len();
        out.push(Suite::new("triples", &format!("all ordered triples of {k} calls"), k * k, move |u, ctx| {
            let (a, b) = (sub[u % k], sub[u / k]);
            for &c in &sub {
                check(&calls, &want, &[a, b, c], ctx)?;
            }
            Ok(())
        }));
    }
    {
        // Each history in a thread of its own (thread-local state starts anew).
        let (calls, want) = (calls.clone(), want.clone());
        out.push(Suite::new("fresh-threads", "every ordered pair in a fresh thread, then the first again in another fresh thread", n, move |a, ctx| {
            for b in (a % 3..n).step_by(if thorough { 1 } else { 3 }) {
                let (c2, w2) = (&calls, &want);
                let r = std::thread::scope(|s| {
                    let bad = s.spawn(|| c2[a].answer() != w2[a] || c2[b].answer() != w2[b]).join().unwrap_or(true);
                    bad || s.spawn(|| c2[a].answer() != w2[a]).join().unwrap_or(true)
                });
                ctx.step();
                ctx.step();
                ctx.step();
                if r {
                    return Err(format!("in fresh threads: {:?}; {:?} answer differently than in a fresh process", calls[a], calls[b]));
                }
            }
            Ok(())
        }));
    }
    {
        // Long runs of one call, another in between at every power of two.
        let (calls, want) = (calls.clone(), want.clone());
        let reps = if thorough { 1 << 17 } else { 1 << 12 };
        out.push(Suite::new("repetition", &format!("each call {reps} times in a row (bounded to 0.3 s of calls each), then every other call once"), n, move |a, ctx| {
            let t = std::time::Instant::now();
            for k in 0..reps {
                check(&calls, &want, &[a], ctx)?;
                if k % 64 == 0 && t.elapsed().as_millis() > 300 {
                    break;
                }
            }
            for b in 0..n {
                check(&calls, &want, &[b], ctx)?;
            }
            check(&calls, &want, &[a], ctx)
        }));
    }
    {
        // Walk a chain of related queries up and down: sets, windows, versions change one at a time.
        let sets: Vec<u32> = subsets_of_size(30, 2).into_iter().chain(subsets_of_size(30, 1)).collect();
        let nv = UnicodeVersion::ALL.len();
        out.push(Suite::new("chains", "for every category pair: the 11 versions upwards and downwards, at 4 windows, answers of the two passes equal", sets.len(), move |u, ctx| {
            for (a, b) in [(0, 255), (0, 256), (0x41, 0x3FF), (0, MAX)] {
                let call = |ver| Call::Query { ver, inc: Some(sets[u]), exc: None, incs: String::new(), excs: String::new(), min: a, max: b, as_set: false };
                let up: Vec<u64> = (0..nv).map(|v| call(v).answer()).collect();
                for v in (0..nv).rev() {
                    ctx.step();
                    if call(v).answer() != up[v] {
                        return Err(format!("{:?} answers differently the second time", call(v)));
                    }
                }
                ctx.outcome(up.iter().fold(0, |h, x| mix(h, *x)));
            }
            Ok(())
        }));
    }
    out
}
