//! C30: whatever cuts a call short (the caller's own code panics, a writer refuses) or enters the library again in the
//! middle of a call leaves nothing behind.
use crate::engine::*;
use crate::model::*;
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write as _};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, OnceLock};
use unicode_intervals::{as_general_categories, Error, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

fn latest() -> UnicodeVersion {
    UnicodeVersion::ALL[UnicodeVersion::ALL.len() - 1]
}
fn old() -> UnicodeVersion {
    UnicodeVersion::ALL[0]
}
fn words(s: &str) -> u64 {
    hash_words(s.bytes().map(u64::from))
}
fn cats(l: impl IntoIterator<Item = UnicodeCategory>) -> u64 {
    l.into_iter().fold(11, |h, c| mix(h, cat_index(c) as u64))
}
fn ivs(r: Result<Vec<Iv>, Error>) -> u64 {
    match r {
        Ok(l) => hash_list(&l),
        Err(e) => words(&format!("{e:?} {e}")),
    }
}
fn expanded(r: Result<Vec<UnicodeCategory>, Error>) -> u64 {
    match r {
        Ok(l) => cats(l),
        Err(e) => words(&format!("{e:?} {e}")),
    }
}

/// What is asked again after a cut: every entry point, every way through a query.
pub(crate) const PROBES: usize = 21;
pub(crate) fn probe(i: usize) -> u64 {
    let lu = 1u32 << 9;
    let or = |x: Option<u32>| x.map_or(u64::MAX, u64::from);
    match i {
        0 => expanded(as_general_categories(["L", "Nd"], latest())),
        1 => expanded(as_general_categories(["Zs"], old())),
        2 => expanded(as_general_categories(["L", "Xx", "N"], latest())),
        3 => expanded(as_general_categories(Vec::<String>::new(), latest())),
        4 => ivs(latest().query().include_categories(to_set(lu | 1 << 5)).max_codepoint(255).include_characters("a0").exclude_characters("B").intervals()),
        5 => ivs(old().query().include_categories(to_set(lu)).intervals()),
        6 => ivs(latest().query().exclude_categories(to_set(lu)).include_characters("\u{3A9}zA").exclude_characters("q\u{3A8}").intervals()),
        7 => ivs(latest().query().include_categories(to_set(0)).include_characters("\u{3A9}\u{3AB}ab\u{10000}").intervals()),
        8 => ivs(latest().query().min_codepoint(7).max_codepoint(6).intervals()),
        9 => ivs(unicode_intervals::query().max_codepoint(MAX + 1).intervals()),
        10 => ivs(unicode_intervals::query().intervals()),
        11 => {
            let s = latest().query().include_categories(to_set(lu)).min_codepoint(0x30).interval_set().expect("valid");
            let n = s.len() as u32;
            let mut h = mix(u64::from(n), or(s.codepoint_at(n / 2)));
            for c in [0u32, 65, 66, 0x3A9, MAX] {
                h = mix(h, mix(or(s.index_of(c)), mix(u64::from(s.index_above(c)), u64::from(s.contains(c)))));
            }
            let mut it = s.iter();
            mix(h, mix(or(it.next()), or(it.next_back())))
        }
        12 => words(&format!("{:?} {:?}", "Lu".parse::<UnicodeCategory>(), "lu".parse::<UnicodeCategory>())),
        13 => words(&format!("{:?} {:?}", "9.0.0".parse::<UnicodeVersion>(), "9.0".parse::<UnicodeVersion>())),
        14 => words(&format!("{} {} {:?}", to_set(lu | 3), to_set(0), UnicodeCategory::Zs)),
        15 => words(&format!("{} {:?} {}", latest(), old(), Error::InvalidCodepoints(3, 2))),
        16 => cats(UnicodeVersion::ALL[4].normalized_categories()),
        17 => old().table().iter().fold(7, |h, l| mix(h, hash_list(l))),
        19 => ivs(unicode_intervals::query().include_categories(to_set(lu | 1 << 8)).min_codepoint(0x100).exclude_characters("\u{100}").intervals()),
        18 => cats(to_set(lu | 1 | 1 << 29).iter()),
        _ => {
            let mut s = UnicodeCategorySet::new();
            s.add(UnicodeCategory::Lu);
            s |= UnicodeCategory::Zs;
            s.remove(UnicodeCategory::Lu);
            u64::from(s.into_value())
        }
    }
}

fn answers() -> Vec<u64> {
    (0..PROBES).map(|i| guard(|| probe(i)).unwrap_or_else(|p| words(&p))).collect()
}

fn expect_same(want: &[u64], how: &dyn Fn() -> String, ctx: &mut Ctx) -> Check {
    for (i, (&w, g)) in want.iter().zip(answers()).enumerate() {
        ctx.step();
        if g != w {
            return Err(format!("after {}, probe {i} (see `probe` in cut.rs) answers differently than before", how()));
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Panic,
    Nest(usize),
    /// Says so in HELD and waits for GO.
    Hold,
}

pub(crate) static HELD: AtomicBool = AtomicBool::new(false);
pub(crate) static GO: AtomicBool = AtomicBool::new(false);

/// Counts the entries into the caller's code; acts at one of them.
pub(crate) struct Trap {
    at: usize,
    act: Act,
    count: Cell<usize>,
    fired: Cell<bool>,
    nested: RefCell<Option<u64>>,
}

impl Trap {
    pub(crate) fn new(at: usize, act: Act) -> Rc<Trap> {
        Rc::new(Trap { at, act, count: Cell::new(0), fired: Cell::new(false), nested: RefCell::new(None) })
    }
    fn hit(&self) {
        if std::thread::panicking() {
            return;
        }
        let c = self.count.get();
        self.count.set(c + 1);
        if c == self.at {
            self.fired.set(true);
            match self.act {
                Act::Panic => panic!("cut"),
                Act::Hold => {
                    HELD.store(true, SeqCst);
                    while !GO.load(SeqCst) {
                        std::thread::sleep(std::time::Duration::from_micros(50));
                    }
                }
                Act::Nest(i) => *self.nested.borrow_mut() = Some(guard(|| probe(i)).unwrap_or_else(|p| words(&p))),
            }
        }
    }
}

struct Entry(&'static str, Rc<Trap>);
impl AsRef<str> for Entry {
    fn as_ref(&self) -> &str {
        self.1.hit();
        self.0
    }
}
impl Drop for Entry {
    fn drop(&mut self) {
        self.1.hit();
    }
}
struct Entries(std::vec::IntoIter<&'static str>, Rc<Trap>);
impl Iterator for Entries {
    type Item = Entry;
    fn next(&mut self) -> Option<Entry> {
        self.1.hit();
        self.0.next().map(|s| Entry(s, self.1.clone()))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1.hit();
        self.0.size_hint()
    }
}
impl Drop for Entries {
    fn drop(&mut self) {
        self.1.hit();
    }
}
struct Source(Vec<&'static str>, Rc<Trap>);
impl IntoIterator for Source {
    type Item = Entry;
    type IntoIter = Entries;
    fn into_iter(self) -> Entries {
        self.1.hit();
        Entries(self.0.into_iter(), self.1.clone())
    }
}
struct Filter(Option<UnicodeCategorySet>, Rc<Trap>);
impl From<Filter> for Option<UnicodeCategorySet> {
    fn from(f: Filter) -> Self {
        f.1.hit();
        f.0
    }
}
struct Code(u32, Rc<Trap>);
impl From<Code> for u32 {
    fn from(c: Code) -> u32 {
        c.1.hit();
        c.0
    }
}
/// A writer that enters the caller's code at every piece, and takes no more than `room` bytes.
struct Paper {
    text: String,
    room: usize,
    refused: bool,
    late: usize,
    /// What is refused once only does not keep it from taking the next piece.
    forgiving: bool,
    /// The piece, counted from 0, that it refuses in any case.
    refuses: usize,
    pieces: usize,
    trap: Rc<Trap>,
}
impl fmt::Write for Paper {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.trap.hit();
        self.pieces += 1;
        if self.refused && !self.forgiving {
            self.late += 1;
            return Err(fmt::Error);
        }
        if self.pieces == self.refuses.wrapping_add(1) {
            self.refused = true;
            return Err(fmt::Error);
        }
        if self.text.len() + s.len() > self.room {
            self.refused = true;
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}
fn paper(room: usize, trap: &Rc<Trap>) -> Paper {
    Paper { text: String::new(), room, refused: false, late: 0, forgiving: false, refuses: usize::MAX, pieces: 0, trap: trap.clone() }
}

const LISTS: &[&[&str]] = &[&[], &["Lu"], &["L"], &["Xx"], &["Nd", "Nd"], &["Lu", "Xx"], &["L", "N", "Zs"], &["", "Lu"], &["C", "Cc", "Cs", "Zp"], &["Sm", "P", "Xx", "L"], &["L", "M", "N", "P", "S", "Z", "C"]];

/// Everything that can be written out.
fn written(k: usize) -> Option<(String, Box<dyn Fn(&mut Paper) -> fmt::Result>)> {
    let sets = [0u32, 1 << 9, 1 << 9 | 1 << 5, 0x3000_0001, 0x155, ALL & !(1 << 12), ALL];
    let errors = || {
        vec![
            Error::InvalidCategory("Xx".into()),
            Error::InvalidVersion("1.0 \u{2603}".into()),
            Error::InvalidCodepoints(5, 4),
            Error::CodepointNotInRange(0, u32::MAX),
        ]
    };
    let mut out: Vec<(String, Box<dyn Fn(&mut Paper) -> fmt::Result>)> = vec![];
    for m in sets {
        out.push((format!("{{}} of the set {m:#x}"), Box::new(move |w| write!(w, "{}", to_set(m)))));
        out.push((format!("{{:?}} of the set {m:#x}"), Box::new(move |w| write!(w, "{:?}", to_set(m)))));
        out.push((format!("{{:?}} of the iterator of {m:#x}"), Box::new(move |w| write!(w, "{:?}", to_set(m).iter()))));
        out.push((format!("{{:>9}} of the set {m:#x}"), Box::new(move |w| write!(w, "{:>9}", to_set(m)))));
    }
    for c in [UnicodeCategory::Cc, UnicodeCategory::Lu, UnicodeCategory::Zs] {
        out.push((format!("{{}} of {c:?}"), Box::new(move |w| write!(w, "{c}"))));
        out.push((format!("{{:?}} of {c:?}"), Box::new(move |w| write!(w, "{c:?}"))));
        out.push((format!("{{:>5}} of {c:?}"), Box::new(move |w| write!(w, "{c:>5}"))));
    }
    for v in [old(), latest()] {
        out.push((format!("{{}} of {v:?}"), Box::new(move |w| write!(w, "{v}"))));
        out.push((format!("{{:?}} of {v:?}"), Box::new(move |w| write!(w, "{v:?}"))));
        out.push((format!("{{:<9}} of {v:?}"), Box::new(move |w| write!(w, "{v:<9}"))));
    }
    for k in 0..errors().len() {
        out.push((format!("{{}} of {:?}", errors()[k]), Box::new(move |w| write!(w, "{}", errors()[k]))));
        out.push((format!("{{:?}} of {:?}", errors()[k]), Box::new(move |w| write!(w, "{:?}", errors()[k]))));
        out.push((format!("{{:#?}} of {:?}", errors()[k]), Box::new(move |w| write!(w, "{:#?}", errors()[k]))));
        out.push((format!("{{:40}} of {:?}", errors()[k]), Box::new(move |w| write!(w, "{:40}", errors()[k]))));
    }
    out.push(("{:?} of a query".into(), Box::new(|w| write!(w, "{:?}", latest().query().include_characters("ab").include_categories(to_set(3))))));
    out.push(("{:?} of an interval set".into(), Box::new(|w| write!(w, "{:?}", latest().query().include_categories(to_set(0)).include_characters("acz").interval_set().expect("valid")))));
    out.push(("{:?} of its iterator".into(), Box::new(|w| write!(w, "{:?}", latest().query().include_categories(to_set(0)).include_characters("acz").interval_set().expect("valid").iter()))));
    if k < out.len() {
        Some(out.swap_remove(k))
    } else {
        None
    }
}

const CLOSURES: usize = 24;
fn closure<I: Iterator<Item = T>, T: Copy + Into<u64>>(k: usize, mut it: I, t: &Trap) -> Option<u64> {
    let w = |x: T| -> u64 { x.into() };
    Some(match k {
        0 => {
            let mut h = 1;
            it.for_each(|x| {
                t.hit();
                h = mix(h, w(x));
            });
            h
        }
        1 => it.fold(2, |h, x| {
            t.hit();
            mix(h, w(x))
        }),
        2 => hash_words(it.map(|x| {
            t.hit();
            w(x)
        })),
        3 => it
            .filter(|x| {
                t.hit();
                w(*x) % 2 == 0
            })
            .count() as u64,
        4 => u64::from(it.any(|_| {
            t.hit();
            false
        })),
        5 => u64::from(it.all(|_| {
            t.hit();
            true
        })),
        6 => it
            .position(|x| {
                t.hit();
                w(x) > 70
            })
            .map_or(9, |p| p as u64),
        7 => it
            .find(|x| {
                t.hit();
                w(*x) > 70
            })
            .map_or(9, w),
        8 => it
            .max_by_key(|x| {
                t.hit();
                w(*x) % 7
            })
            .map_or(9, w),
        9 => it
            .min_by(|a, b| {
                t.hit();
                (w(*a) % 5).cmp(&(w(*b) % 5))
            })
            .map_or(9, w),
        10 => it
            .try_fold(3u64, |h, x| {
                t.hit();
                if w(x) > 75 {
                    Err(h)
                } else {
                    Ok(mix(h, w(x)))
                }
            })
            .map_or_else(|h| h, |h| h),
        11 => {
            let (a, b): (Vec<T>, Vec<T>) = it.partition(|x| {
                t.hit();
                w(*x) % 3 == 0
            });
            mix(hash_words(a.into_iter().map(w)), hash_words(b.into_iter().map(w)))
        }
        12 => it.inspect(|_| t.hit()).count() as u64,
        13 => hash_words(
            it.take_while(|x| {
                t.hit();
                w(*x) < 72
            })
            .map(w),
        ),
        14 => hash_words(
            it.skip_while(|x| {
                t.hit();
                w(*x) < 68
            })
            .map(w),
        ),
        15 => hash_words(it.flat_map(|x| {
            t.hit();
            [w(x), 1]
        })),
        16 => it
            .reduce(|a, b| {
                t.hit();
                if w(a) > w(b) {
                    a
                } else {
                    b
                }
            })
            .map_or(9, w),
        17 => hash_words(it.filter_map(|x| {
            t.hit();
            (w(x) % 2 == 1).then_some(w(x))
        })),
        18 => hash_words(it.scan(0u64, |s, x| {
            t.hit();
            *s += w(x);
            Some(*s)
        })),
        19 => it
            .find_map(|x| {
                t.hit();
                (w(x) > 71).then_some(w(x))
            })
            .unwrap_or(9),
        20 => {
            let mut h = it.by_ref().take(2).fold(5, |h, x| mix(h, w(x)));
            it.for_each(|x| {
                t.hit();
                h = mix(h, w(x));
            });
            h
        }
        21 => hash_words(it.step_by(2).map(|x| {
            t.hit();
            w(x)
        })),
        22 => hash_words(it.skip(1).map(|x| {
            t.hit();
            w(x)
        })),
        23 => u64::from(it.is_sorted_by_key(|x| {
            t.hit();
            w(x)
        })),
        _ => return None,
    })
}

/// Every way into the caller's code, numbered. None: past the last.
pub(crate) fn subject(k: usize, t: &Rc<Trap>) -> Option<(String, Result<u64, String>)> {
    let mut n = k;
    macro_rules! here {
        ($count:expr, $body:expr) => {
            if n < $count {
                #[allow(clippy::redundant_closure_call)]
                return Some($body(n));
            }
            n -= $count;
        };
    }
    // Entries of a list of categories: as an iterator of own entries, and by reference.
    here!(LISTS.len() * 2, |n: usize| {
        let (l, v) = (LISTS[n / 2], if n % 2 == 0 { latest() } else { old() });
        (format!("as_general_categories(own iterator of {l:?}, {v})"), guard(|| expanded(as_general_categories(Source(l.to_vec(), t.clone()), v))))
    });
    here!(LISTS.len() * 2, |n: usize| {
        let (l, v) = (LISTS[n / 2], if n % 2 == 0 { latest() } else { old() });
        (format!("as_general_categories(&own entries {l:?}, {v})"), guard(|| {
            let entries: Vec<Entry> = l.iter().map(|s| Entry(s, t.clone())).collect();
            expanded(as_general_categories(&entries, v))
        }))
    });
    // Conversions.
    let filters = [None, Some(0), Some(1 << 9), Some(ALL & !1), Some(ALL)];
    here!(filters.len() * 2, |n: usize| {
        let f = filters[n / 2];
        let of = |t: &Rc<Trap>| Filter(f.map(to_set), t.clone());
        (format!("query().{}(own filter {f:?})", if n % 2 == 0 { "include_categories" } else { "exclude_categories" }), guard(|| {
            let b = latest().query().max_codepoint(0x180).include_characters("a");
            ivs(if n % 2 == 0 { b.include_categories(of(t)).exclude_categories(UnicodeCategory::Ll) } else { b.include_categories(UnicodeCategory::Lu).exclude_categories(of(t)) }.intervals())
        }))
    });
    here!(3 * 7, |n: usize| {
        let c = [0u32, 64, 65, 70, 0xC0, MAX, u32::MAX][n / 3];
        (format!("{}(own code point {c})", ["contains", "index_of", "index_above"][n % 3]), guard(|| {
            let s = latest().query().include_categories(UnicodeCategory::Lu).max_codepoint(0x1FF).interval_set().expect("valid");
            let c = Code(c, t.clone());
            match n % 3 {
                0 => u64::from(s.contains(c)),
                1 => s.index_of(c).map_or(u64::MAX, u64::from),
                _ => u64::from(s.index_above(c)),
            }
        }))
    });
    // Closures over members.
    here!(CLOSURES * 4, |n: usize| {
        let what = ["members", "members from the end", "categories", "members of no set"][n % 4];
        (format!("iterating over {what}, closure {}", n / 4), guard(|| {
            let s = latest().query().include_categories(UnicodeCategory::Lu).include_characters("\u{3041}\u{3042}").min_codepoint(65).max_codepoint(75).interval_set().expect("valid");
            let none = latest().query().include_categories(to_set(0)).interval_set().expect("valid");
            match n % 4 {
                0 => closure(n / 4, s.iter(), t),
                1 => closure(n / 4, s.iter().rev(), t),
                2 => closure(n / 4, to_set(0x2000_0E41).iter().map(|c| cat_index(c) as u32 + 60), t),
                _ => closure(n / 4, none.iter(), t),
            }
            .expect("a closure")
        }))
    });
    // Writers.
    written(n).map(|(name, f)| {
        (format!("writing {name} to an own writer"), guard(|| {
            let mut w = paper(usize::MAX, t);
            let r = f(&mut w);
            mix(words(&w.text), u64::from(r.is_ok()))
        }))
    })
}

/// (subject, entry) pairs, and what the subject answers uncut.
pub(crate) struct Cuts {
    pub list: Vec<(usize, usize)>,
    pub plain: Vec<u64>,
    pub want: Vec<u64>,
}

pub(crate) fn cuts() -> &'static Result<Cuts, String> {
    static CUTS: OnceLock<Result<Cuts, String>> = OnceLock::new();
    CUTS.get_or_init(|| {
        let want = answers();
        let (mut list, mut plain) = (vec![], vec![]);
        for k in 0.. {
            let t = Trap::new(usize::MAX, Act::Panic);
            let Some((name, r)) = subject(k, &t) else { break };
            plain.push(r.map_err(|p| format!("{name}: {p}"))?);
            list.extend((0..t.count.get()).map(|at| (k, at)));
        }
        Ok(Cuts { list, plain, want })
    })
}

/// One cut or re-entry, checked by itself. Returns its name.
fn cut(c: &Cuts, (k, at): (usize, usize), act: Act, ctx: &mut Ctx) -> Result<String, String> {
    let t = Trap::new(at, act);
    ctx.step();
    let (name, r) = subject(k, &t).expect("a subject");
    let how = format!("{name}, {act:?} at entry {at} into the caller's code");
    if !t.fired.get() {
        return Err(format!("{how}: the entry is not reached, though it was in the same call before"));
    }
    match (act, r) {
        (Act::Panic, Err(p)) if p.starts_with("PANIC: cut") => {}
        (Act::Panic, Err(p)) => return Err(format!("{how}: ends with {p}, not with the caller's panic")),
        (Act::Panic, Ok(_)) => return Err(format!("{how}: the caller's panic is swallowed")),
        (Act::Hold, _) => {}
        (Act::Nest(_), Err(p)) => return Err(format!("{how}: {p}")),
        (Act::Nest(i), Ok(g)) => {
            if *t.nested.borrow() != Some(c.want[i]) {
                return Err(format!("{how}: the call inside (probe {i}) answers differently than alone"));
            }
            if g != c.plain[k] {
                return Err(format!("{how}: answers differently than without the call inside"));
            }
        }
    }
    ctx.outcome(mix(mix(k as u64, at as u64), match act {
        Act::Panic | Act::Hold => 999,
        Act::Nest(i) => i as u64,
    }));
    Ok(how)
}

fn probes_in_new_thread(c: &'static Cuts, how: &str, ctx: &mut Ctx) -> Check {
    ctx.step();
    let got = std::thread::spawn(answers).join().map_err(|_| format!("after {how}: probes in a new thread panic"))?;
    if let Some(i) = (0..PROBES).find(|&i| got[i] != c.want[i]) {
        return Err(format!("after {how}, probe {i} in a new thread answers differently than before"));
    }
    Ok(())
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
}

/// `mc coldcut`: reads the answers of the probes, then lines of cuts ("subject entry" pairs); each line runs in a fork of
/// this process, which itself never calls the core, and is followed by the probes.
pub fn cold() {
    use std::io::BufRead;
    let mut lines = std::io::stdin().lock().lines().map(|l| l.expect("input"));
    let want: Vec<u64> = lines.next().unwrap_or_default().split(' ').map(|x| x.parse().expect("answer")).collect();
    for line in lines {
        let n: Vec<usize> = line.split(' ').map(|x| x.parse().expect("number")).collect();
        // SAFETY: this process has one thread.
        let status = unsafe {
            let pid = fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                alarm(30);
                for p in n.chunks(2) {
                    let t = Trap::new(p[1], Act::Panic);
                    let _ = subject(p[0], &t);
                }
                let got = answers();
                _exit((0..PROBES).find(|&i| got[i] != want[i]).map_or(0, |i| 1 + i as i32));
            }
            let mut st = 0;
            assert_eq!(waitpid(pid, &mut st, 0), pid);
            st
        };
        if status != 0 {
            println!("{} {line}", if status & 0x7F == 0 { (status >> 8 & 0xFF) - 1 } else { -(status & 0x7F) });
            return;
        }
    }
    println!("ok");
}

fn check_cold(c: &Cuts, histories: &[Vec<(usize, usize)>], ctx: &mut Ctx) -> Check {
    use std::io::Write;
    let mut child = std::process::Command::new(std::env::current_exe().expect("exe"))
        .arg("coldcut")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .expect("a zygote");
    let mut text = c.want.iter().map(u64::to_string).collect::<Vec<_>>().join(" ");
    for h in histories {
        text.push('\n');
        text.push_str(&h.iter().map(|(a, b)| format!("{a} {b}")).collect::<Vec<_>>().join(" "));
        ctx.step();
    }
    text.push('\n');
    let mut input = child.stdin.take().expect("pipe");
    let _ = input.write_all(text.as_bytes());
    drop(input);
    let out = child.wait_with_output().expect("zygote");
    let answer = String::from_utf8_lossy(&out.stdout).trim().to_string();
    if answer == "ok" {
        return Ok(());
    }
    let n: Vec<i64> = answer.split(' ').map(|x| x.parse().unwrap_or_else(|_| panic!("zygote: {answer:?} {:?}", out.status))).collect();
    let show: Vec<String> = n[1..].chunks(2).map(|p| {
        let (name, _) = subject(p[0] as usize, &Trap::new(usize::MAX, Act::Panic)).expect("a subject");
        format!("{name}, cut by a panic at entry {}", p[1])
    }).collect();
    Err(format!("in a process that made no call before: {}; then {}", show.join("; "), if n[0] < 0 { format!("it is ended by signal {}", -n[0]) } else { format!("probe {} answers differently than in a fresh process", n[0]) }))
}

pub fn c30(thorough: bool) -> Vec<Suite> {
    let mut out = vec![];
    let c = match cuts() {
        Ok(c) => c,
        Err(e) => {
            let e = e.clone();
            out.push(Suite::new("uncut calls", "every call with the caller's own code, uncut", 1, move |_, _| Err(e.clone())));
            return out;
        }
    };
    let subjects = c.plain.len();
    out.push(Suite::new("cut", &format!("{subjects} calls that run the caller's code, cut by a panic at each of {} entries into it, then {PROBES} probes here and in a new thread", c.list.len()), c.list.len(), move |u, ctx| {
        let how = cut(c, c.list[u], Act::Panic, ctx)?;
        expect_same(&c.want, &|| how.clone(), ctx)?;
        probes_in_new_thread(c, &how, ctx)?;
        // The same call again, uncut.
        let (name, r) = subject(c.list[u].0, &Trap::new(usize::MAX, Act::Panic)).expect("a subject");
        if r.as_ref() != Ok(&c.plain[c.list[u].0]) {
            return Err(format!("after {how}: {name} again, uncut, answers differently than before"));
        }
        ctx.sample(|| how.clone());
        Ok(())
    }));
    out.push(Suite::new("inside", &format!("the same entries, with each of the {PROBES} probes called there"), c.list.len(), move |u, ctx| {
        for i in 0..PROBES {
            let how = cut(c, c.list[u], Act::Nest(i), ctx)?;
            if i == u % PROBES {
                expect_same(&c.want, &|| how.clone(), ctx)?;
            }
        }
        Ok(())
    }));
    // Two cuts in a row: one entry in the middle of each subject with each, and all pairs within a subject.
    let step = if thorough { 1 } else { 4 };
    out.push(Suite::new("two cuts", &format!("each cut after each {step}th other, then the probes"), c.list.len(), move |u, ctx| {
        for v in (u % step..c.list.len()).step_by(step) {
            let a = cut(c, c.list[v], Act::Panic, ctx)?;
            let b = cut(c, c.list[u], Act::Panic, ctx)?;
            if thorough || (u + v) % 8 == 0 {
                expect_same(&c.want, &|| format!("{a}; {b}"), ctx)?;
            }
        }
        expect_same(&c.want, &|| "two cuts, several times".to_string(), ctx)
    }));
    // In a process that has made no call.
    let mut histories: Vec<Vec<(usize, usize)>> = c.list.iter().map(|&x| vec![x]).collect();
    histories.extend(c.list.iter().map(|&x| vec![x, x]));
    for w in c.list.windows(2) {
        histories.push(w.to_vec());
        histories.push(vec![w[1], w[0]]);
    }
    let histories = Arc::new(histories);
    let per = 32;
    let units = histories.len().div_ceil(per);
    out.push(Suite::new("cold", &format!("{} histories of one or two cuts, each in a forked process that has made no call, then the probes", histories.len()), units, move |u, ctx| {
        check_cold(c, &histories[u * per..((u + 1) * per).min(histories.len())], ctx)
    }));
    let objects = (0..).take_while(|&k| written(k).is_some()).count();
    out.push(Suite::new("refusing writers", &format!("{objects} things written to a writer with room for every number of bytes up to their length, or that refuses one piece and takes the next: reported, nothing written afterwards, right again later"), objects, move |u, ctx| {
        let (name, f) = written(u).expect("an object");
        let none = Trap::new(usize::MAX, Act::Panic);
        let write = |room: usize| {
            guard(|| {
                let mut w = paper(room, &none);
                let r = f(&mut w);
                (w.text, r.is_ok(), w.late)
            })
            .map_err(|p| format!("{name}, with room for {room} bytes: {p}"))
        };
        let (full, ok, _) = write(usize::MAX)?;
        if !ok {
            return Err(format!("{name} reports an error although the writer takes everything"));
        }
        for room in 0..=full.len() {
            ctx.step();
            let (text, ok, _) = write(room)?;
            let want = room >= full.len();
            if ok != want {
                return Err(format!("{name}, with room for {room} of {} bytes, {}", full.len(), if ok { "reports no error" } else { "reports an error" }));
            }
            if !full.starts_with(&text) {
                return Err(format!("{name}, with room for {room} bytes, writes {text:?}, no start of {full:?}"));
            }
            if write(usize::MAX)? != (full.clone(), true, 0) {
                return Err(format!("{name} differs from {full:?} after a writer refused at {room} bytes"));
            }
            ctx.outcome(mix(u as u64, room as u64));
        }
        // Refused once, what follows is taken.
        let once = |room: usize, refuses: usize| {
            guard(|| {
                let mut w = Paper { forgiving: true, refuses, ..paper(room, &none) };
                let r = f(&mut w);
                (r.is_ok(), w.refused)
            })
            .map_err(|p| format!("{name}, with room for {room} bytes, piece {refuses} refused: {p}"))
        };
        for refuses in 0.. {
            ctx.step();
            let (ok, refused) = once(usize::MAX, refuses)?;
            if ok == refused {
                return Err(format!("{name} to a writer that refuses piece {refuses} only {}", if ok { "reports no error" } else { "reports an error" }));
            }
            if !refused {
                break;
            }
        }
        for room in 0..=full.len() {
            ctx.step();
            let (ok, refused) = once(room, usize::MAX)?;
            if ok == refused {
                return Err(format!("{name} to a writer with room for {room} bytes, where a later and shorter piece may still fit, {}", if ok { "reports no error" } else { "reports an error" }));
            }
        }
        expect_same(&c.want, &|| name.clone(), ctx)?;
        ctx.sample(|| name.clone());
        Ok(())
    }));
    out
}
