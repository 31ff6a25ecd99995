"""Planted bugs, eighth batch: what calls cost (C35)."""
from importlib.util import spec_from_file_location, module_from_spec
import pathlib
_s = spec_from_file_location("bugs1", pathlib.Path(__file__).with_name("bugs1.py"))
b1 = module_from_spec(_s)
_s.loader.exec_module(b1)
Q, I, S, C, L, PYLIB, PRE = b1.Q, b1.I, b1.S, b1.C, b1.L, b1.PYLIB, b1.PRE
BUGS = []


def bug(id, prop, edits, needs, breaks, rust=None, py=None, sh=None, features=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, rust=rust, py=py, sh=sh, features=features))


TIME = PRE + """#[allow(dead_code)]
fn time<T>(f: &dyn Fn() -> T) -> f64 {
    (0..3).map(|_| { let s = std::time::Instant::now(); std::hint::black_box(f()); s.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
}
#[allow(dead_code)]
fn grows<T>(small: &dyn Fn() -> T, big: &dyn Fn() -> T, most: f64) {
    let (a, b) = (time(small), time(big));
    assert!(b < most * a + 0.05, "{a} s, {b} s");
}
"""


def chars(expression, use):
    """Time for 512 and 32768 characters: 64 times as many."""
    return TIME + """fn s(n: u32) -> String { (0..n).map(|i| char::from_u32(0x10000 + (%s)).unwrap()).collect() }
fn main() {
    let (a, b) = (s(512), s(32768));
    let f = |s: &str| %s;
    grows(&|| f(&a), &|| f(&b), 600.0);
}""" % (expression, use)


ONLY = "query().include_categories(UnicodeCategorySet::new()).include_characters(s).intervals().unwrap()"
bug("c35-insert-sorted", "C35",
    [(I, "    let mut intervals: Vec<_> = string.chars().map(|c| (c as u32, c as u32)).collect();\n", """    // Sorted and without repetitions from the start
    let mut intervals: Vec<Interval> = Vec::new();
    for code in string.chars().map(u32::from) {
        let at = intervals.partition_point(|&(left, _)| left < code);
        if intervals.get(at) != Some(&(code, code)) {
            intervals.insert(at, (code, code));
        }
    }
""")],
    "many different characters in descending order", "time grows with the square of their number",
    rust=TIME + """fn s(n: u32) -> String { (0..n).map(|i| char::from_u32(0x10000 + 2 * (n - i)).unwrap()).collect() }
fn main() {
    let (a, b) = (s(4096), s(262144));
    let f = |s: &str| %s;
    grows(&|| f(&a), &|| f(&b), 600.0);
}""" % ONLY)
bug("c35-remove-overlapping", "C35",
    [(I, """    let mut border = 0_usize;
    for index in 1..intervals.len() {
        let interval = intervals[index];
        let right = intervals[border].1;
        if interval.0 <= right + 1 {
            // Intervals overlap
            if interval.1 > right {
                // Extend the one behind the border only if the current candidate right border
                // is greater
                intervals[border].1 = interval.1;
            }
        } else {
            // No overlap, this interval should be next behind the border
            border += 1;
            intervals[border] = interval;
        }
    }
    intervals.truncate(border + 1);
""", """    let mut index = 1_usize;
    while index < intervals.len() {
        let interval = intervals[index];
        let right = intervals[index - 1].1;
        if interval.0 <= right + 1 {
            // Intervals overlap
            if interval.1 > right {
                intervals[index - 1].1 = interval.1;
            }
            intervals.remove(index);
        } else {
            index += 1;
        }
    }
""")],
    "many characters that repeat or touch, others after them", "time grows with the square of their number",
    rust=TIME + """fn s(n: u32) -> String { (0..n).map(|i| char::from_u32(0x10000 + i / 2 * 2).unwrap()).collect() }
fn main() {
    let (a, b) = (s(4096), s(262144));
    let f = |s: &str| %s;
    grows(&|| f(&a), &|| f(&b), 600.0);
}""" % ONLY)
bug("c35-subtract-again", "C35",
    [(I, """            if rr < ll {
                j += 1;
            } else if rl > lr {
                result.push((ll, lr));
                i += 1;
            } else""", """            if rr < ll {
                j += 1;
            } else if rl > lr {
                result.push((ll, lr));
                i += 1;
                // The next one may start before this one
                j = 0;
            } else""")],
    "many excluded characters that lie between many intervals", "time grows with the product of the two numbers",
    rust=TIME + """fn s(n: u32, d: u32) -> String { (0..n).map(|i| char::from_u32(0x10000 + 4 * i + d).unwrap()).collect() }
fn main() {
    let (a, b, c, d) = (s(512, 0), s(512, 2), s(32768, 0), s(32768, 2));
    let f = |s: &str, t: &str| query().include_categories(UnicodeCategorySet::new()).include_characters(s).exclude_characters(t).intervals().unwrap();
    grows(&|| f(&a, &b), &|| f(&c, &d), 600.0);
}""")
bug("c35-position", "C35",
    [(S, """            // INVARIANT: `left <= codepoint` and offsets are small enough to not overflow.
            #[allow(clippy::arithmetic_side_effects)]
            Some(self.offsets[idx - 1] + (codepoint - left))
        } else {""", """            let within = (left..=right).position(|other| other == codepoint)?;
            // INVARIANT: offsets are small enough to not overflow.
            #[allow(clippy::arithmetic_side_effects, clippy::cast_possible_truncation)]
            Some(self.offsets[idx - 1] + within as u32)
        } else {""")],
    "a code point far from the start of a long interval", "a lookup goes through every code point before it",
    rust=TIME + """fn main() {
    let s = query().interval_set().unwrap();
    let f = |k: u32| (0..300).filter(|_| s.index_of(std::hint::black_box(k)) == Some(k)).count();
    grows(&|| f(100), &|| f(1_114_111), 50.0);
}""")
bug("c35-size-hint", "C35",
    [(S, """    #[inline]
    fn next(&mut self) -> Option<u32> {
        self.0.next()
    }
""", """    #[inline]
    fn next(&mut self) -> Option<u32> {
        self.0.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let remaining = self.clone().fold(0, |count, _| count + 1);
        (remaining, Some(remaining))
    }
""")],
    "size_hint, or collecting, of a large set's iterator", "it goes through all code points",
    rust=TIME + """fn main() {
    let (s, t) = (query().max_codepoint(9).interval_set().unwrap(), query().interval_set().unwrap());
    grows(&|| (0..50).map(|_| s.iter().size_hint().0).max(), &|| (0..50).map(|_| t.iter().size_hint().0).max(), 50.0);
}""")
bug("c35-reserve", "C35",
    [(Q, "            let mut intervals = Vec::new();\n", """            // One interval per code point at most
            #[allow(clippy::arithmetic_side_effects)]
            let mut intervals = Vec::with_capacity((max_codepoint - min_codepoint) as usize + 1);
""")],
    "wide bounds that are not the whole range", "megabytes are reserved for a few intervals",
    rust=TIME + """use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MOST: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MOST.fetch_max(l.size(), SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let r = query().include_categories(UnicodeCategory::Zs).min_codepoint(1).intervals().unwrap();
    assert!(r.len() < 20);
    let m = MOST.load(SeqCst);
    assert!(m < 1 << 20, "{m}");
}""")
bug("c35-recursion", "C35",
    [(I, """    let mut border = 0_usize;
    for index in 1..intervals.len() {
        let interval = intervals[index];
        let right = intervals[border].1;
        if interval.0 <= right + 1 {
            // Intervals overlap
            if interval.1 > right {
                // Extend the one behind the border only if the current candidate right border
                // is greater
                intervals[border].1 = interval.1;
            }
        } else {
            // No overlap, this interval should be next behind the border
            border += 1;
            intervals[border] = interval;
        }
    }
    intervals.truncate(border + 1);
}
""", """    // Each half, then the two together
    let border = merge_sorted(intervals, 0, 1);
    intervals.truncate(border + 1);
}

/// Merges from `index` on into the interval at `border`; gives the last border.
#[allow(clippy::arithmetic_side_effects)]
fn merge_sorted(intervals: &mut [Interval], border: usize, index: usize) -> usize {
    let Some(&interval) = intervals.get(index) else {
        return border;
    };
    let right = intervals[border].1;
    let border = if interval.0 <= right + 1 {
        intervals[border].1 = right.max(interval.1);
        border
    } else {
        intervals[border + 1] = interval;
        border + 1
    };
    let last = merge_sorted(intervals, border, index + 1);
    // Whatever lies behind the last border has no meaning any more
    intervals[index] = if index > last { (0, 0) } else { intervals[index] };
    last
}
""")],
    "some 100000 characters (fewer in a thread with a small stack)", "the stack overflows",
    rust=TIME + """fn main() {
    let s: String = (0..300000).map(|i| char::from_u32(0x10000 + 2 * i).unwrap()).collect();
    std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
        assert_eq!(query().include_categories(UnicodeCategorySet::new()).include_characters(&s).intervals().unwrap().len(), 300000);
    }).unwrap().join().unwrap();
}""")
bug("c35-error-text", "C35",
    [("crates/unicode-intervals/src/error.rs", """            Error::InvalidCategory(category) => f.write_fmt(format_args!(
                "'{category}' is not a valid Unicode category"
            )),""", """            Error::InvalidCategory(category) => {
                f.write_str("'")?;
                for index in 0..category.chars().count() {
                    f.write_fmt(format_args!("{}", category.chars().nth(index).unwrap_or(' ')))?;
                }
                f.write_str("' is not a valid Unicode category")
            }""")],
    "a wrong name of many thousand characters", "time for its message grows with the square of its length",
    rust=TIME + """fn main() {
    let f = |n: usize| "x".repeat(n).parse::<UnicodeCategory>().unwrap_err();
    let (a, b) = (f(4096), f(262144));
    grows(&|| a.to_string(), &|| b.to_string(), 600.0);
}""")
bug("c35-py-chars", "C35",
    [(PYLIB, """    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    let include = parse_categories(categories)?;
""", """    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    // A character that is both included and excluded needs no place in either
    let mut included = String::new();
    for character in include_characters.chars() {
        if exclude_characters.is_empty() || !exclude_characters.contains(character) {
            included.push(character);
        }
    }
    let include_characters = included.as_str();
    let include = parse_categories(categories)?;
""")],
    "Python, many included and many excluded characters", "time grows with the product of their numbers",
    py="""import time
import unicode_intervals as u
def t(n):
    a, b = "".join(chr(0x10000 + 4 * i) for i in range(n)), "".join(chr(0x10002 + 4 * i) for i in range(n))
    best = 9e9
    for _ in range(3):
        s = time.thread_time()
        u.query(categories=[], include_characters=a, exclude_characters=b)
        best = min(best, time.thread_time() - s)
    return best
small, big = t(1 << 11), t(1 << 15)
assert big < 80 * small + 0.05, (small, big)
""")
bug("c35-py-names", "C35",
    [(PYLIB, """        let mut names = Vec::new();
        for name in obj.try_iter()? {
            names.push(name?.extract::<String>()?);
        }
""", """        let mut names: Vec<String> = Vec::new();
        for name in obj.try_iter()? {
            // In the order of a stack, as the last name decides
            names.insert(0, name?.extract::<String>()?);
        }
        names.reverse();
""")],
    "Python, a list of very many names", "time grows with the square of their number",
    py="""import time
import unicode_intervals as u
def t(n):
    a = ["Lu"] * n
    best = 9e9
    for _ in range(3):
        s = time.thread_time()
        u.as_general_categories(a)
        best = min(best, time.thread_time() - s)
    return best
small, big = t(1 << 11), t(1 << 17)
assert big < 1000 * small + 0.05, (small, big)
""")
bug("c35-py-calls", "C35",
    [(PYLIB, """    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    let slot =""", """    // How often each version is asked for, in the order of the calls
    static ASKED: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    if let Ok(mut asked) = ASKED.try_lock() {
        let number = core_version as u8;
        if asked.iter().filter(|&&other| other == number).count() < usize::MAX {
            asked.push(number);
        }
    }
    let slot =""")],
    "Python, very many calls of categories()", "each takes longer than the one before",
    py="""import time
import unicode_intervals as u
def t():
    s = time.thread_time()
    for _ in range(300):
        u.categories()
    return time.thread_time() - s
first = min(t() for _ in range(5))
for _ in range(40000):
    u.categories()
later = min(t() for _ in range(5))
assert later < 30 * first + 0.005, (first, later)
""")
