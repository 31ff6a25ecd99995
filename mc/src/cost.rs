//! C35: the work, memory and stack of a call are bounded by the sizes of its input and output.
//!
//! Work is counted, not timed: basic blocks entered in the core and in the generic code of std compiled with it, and bytes
//! moved by the C library (cost.c), on this thread, while the call runs.
use crate::engine::{hash_words, Check, Ctx, Suite};
use crate::memory;
use std::fmt::Write as _;
use unicode_intervals::{as_general_categories, IntervalQuery, IntervalSet, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

extern "C" {
    fn cost_start();
    fn cost_blocks() -> u64;
    fn cost_moved() -> u64;
    fn cost_lowest() -> u64;
}

#[derive(Clone, Copy, Debug)]
struct Cost {
    /// Blocks, and moved pieces of 16 bytes.
    work: u64,
    /// Bytes held at most at a time, beyond those before the call.
    memory: u64,
    stack: u64,
}

#[inline(never)]
fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let here = std::hint::black_box(0u64);
    let before = memory::peak_start();
    // SAFETY: plain counters of this thread.
    unsafe { cost_start() };
    let r = f();
    let (blocks, moved, lowest) = unsafe { (cost_blocks(), cost_moved(), cost_lowest()) };
    let top = std::ptr::from_ref(&here) as u64;
    (r, Cost { work: blocks + moved / 16, memory: memory::peak_since(before), stack: top.saturating_sub(lowest) })
}

/// What lies between one point of the growth and another: `r` times the input.
const SLACK: u64 = 6;
const STACK: u64 = 64 << 10;

fn grows(what: &dyn Fn() -> String, sizes: &[usize], costs: &[Cost], ctx: &mut Ctx) -> Check {
    let (n0, c0) = (sizes[0], costs[0]);
    for (n, c) in sizes.iter().zip(costs).skip(1) {
        let r = (n / n0) as u64;
        ctx.outcome(hash_words([r, u64::from(c.work.max(1).ilog2()), u64::from(c.memory.max(1).ilog2())]));
        if c.work > SLACK * r * (c0.work + 64) {
            return Err(format!("{}: {} steps for size {n0}, but {} for size {n}: {} times as many for {r} times the size", what(), c0.work, c.work, c.work / c0.work.max(1)));
        }
        if c.memory > SLACK * r * (c0.memory + 256) {
            return Err(format!("{}: {} bytes at a time for size {n0}, but {} for size {n}", what(), c0.memory, c.memory));
        }
        if c.stack > c0.stack + STACK {
            return Err(format!("{}: {} bytes of stack for size {n0}, but {} for size {n}", what(), c0.stack, c.stack));
        }
    }
    Ok(())
}

fn no_more(what: &dyn Fn() -> String, c: Cost, work: u64, bytes: u64, of: &str) -> Check {
    if c.work > work {
        return Err(format!("{}: {} steps, more than {work} ({of})", what(), c.work));
    }
    if c.memory > bytes {
        return Err(format!("{}: {} bytes at a time, more than {bytes} ({of})", what(), c.memory));
    }
    if c.stack > STACK {
        return Err(format!("{}: {} bytes of stack", what(), c.stack));
    }
    Ok(())
}

/// Where the characters of a string come from: `len` code points from `base` on.
#[derive(Clone, Copy, Debug)]
struct Universe {
    base: u32,
    len: u32,
}
const UNIVERSES: [Universe; 4] =
    [Universe { base: 0x10000, len: 1 << 19 }, Universe { base: 0, len: 128 }, Universe { base: 0x80, len: 0x780 }, Universe { base: 0x3000, len: 0xA800 }];
const DELTAS: [i32; 8] = [-3, -2, -1, 0, 1, 2, 3, 64];

#[derive(Clone, Debug)]
enum Pattern {
    /// Each character this far from the one before, over and over.
    Deltas(Vec<i32>),
    /// `i * a` modulo n, times `d`.
    Mixed(u32, u32),
    /// Outwards from the middle, or inwards.
    Zigzag(bool, u32),
    /// Two runs, one after each other's characters.
    Twins(u32),
    /// The last one first.
    Late(u32),
}

impl Pattern {
    fn string(&self, u: Universe, n: usize) -> String {
        let n32 = n as u32;
        let at = |k: u32| char::from_u32(u.base + k % u.len).unwrap_or('x');
        match self {
            Pattern::Deltas(d) => {
                let mut k = u.len as i64 / 2;
                (0..n)
                    .map(|i| {
                        let c = at(k as u32);
                        k = (k + i64::from(d[i % d.len()])).rem_euclid(i64::from(u.len));
                        c
                    })
                    .collect()
            }
            Pattern::Mixed(a, d) => (0..n32).map(|i| at((i.wrapping_mul(*a) % n32) * d)).collect(),
            Pattern::Zigzag(out, d) => {
                let k: Vec<u32> = (0..n32).map(|i| if i % 2 == 0 { n32 + i } else { n32 - i } * d).collect();
                if *out { k.iter().map(|&k| at(k)).collect() } else { k.iter().rev().map(|&k| at(k)).collect() }
            }
            Pattern::Twins(d) => (0..n32).map(|i| at((i / 2) * d + (i % 2) * 2 * n32)).collect(),
            Pattern::Late(d) => (0..n32).map(|i| at(((i + 1) % n32) * d)).collect(),
        }
    }
}

fn patterns(thorough: bool) -> Vec<Pattern> {
    let mut out = vec![];
    let longest = if thorough { 4 } else { 3 };
    let mut level: Vec<Vec<i32>> = vec![vec![]];
    for _ in 0..longest {
        level = level.iter().flat_map(|p| DELTAS.iter().map(|&d| [p.clone(), vec![d]].concat())).collect();
        out.extend(level.iter().cloned().map(Pattern::Deltas));
    }
    for d in [1, 2, 3] {
        out.extend([3, 5, 7919, 20011].map(|a| Pattern::Mixed(a, d)));
        out.extend([Pattern::Zigzag(false, d), Pattern::Zigzag(true, d), Pattern::Twins(d), Pattern::Late(d)]);
    }
    out
}

fn sizes(thorough: bool) -> &'static [usize] {
    if thorough { &[512, 4096, 32768, 262_144] } else { &[512, 4096, 32768] }
}

type Make = for<'a> fn(&'a str, &'a str) -> IntervalQuery<'a>;
/// What is done with a string (and a second one). The name, whether the two are included, the query, the same without the strings.
const USES: [(&str, [bool; 2], Make); 9] = [
    ("include_characters only", [true, false], |a, _| unicode_intervals::query().include_categories(UnicodeCategorySet::new()).include_characters(a)),
    ("include_characters beside Lu", [true, false], |a, _| unicode_intervals::query().include_categories(UnicodeCategory::Lu).include_characters(a)),
    ("include_characters beside L", [true, false], |a, _| unicode_intervals::query().include_categories(UnicodeCategory::L).include_characters(a)),
    ("exclude_characters from all", [false, true], |_, b| unicode_intervals::query().exclude_characters(b)),
    ("exclude_characters from L", [false, true], |_, b| unicode_intervals::query().include_categories(UnicodeCategory::L).exclude_characters(b)),
    ("exclude_characters from Cn", [false, true], |_, b| unicode_intervals::query().include_categories(UnicodeCategory::Cn).exclude_characters(b)),
    ("both, below U+0080", [true, true], |a, b| unicode_intervals::query().include_categories(UnicodeCategory::L).max_codepoint(0x7F).include_characters(a).exclude_characters(b)),
    ("include_characters, within bounds", [true, false], |a, _| UnicodeVersion::V9_0_0.query().include_categories(UnicodeCategory::Lu | UnicodeCategory::Ll).min_codepoint(0x11000).max_codepoint(0x20000).include_characters(a)),
    ("both", [true, true], |a, b| unicode_intervals::query().include_categories(UnicodeCategorySet::new()).include_characters(a).exclude_characters(b)),
];

fn ask(q: &IntervalQuery) -> (usize, Cost) {
    let (r, c) = measure(|| q.intervals().expect("valid"));
    let (s, d) = measure(|| q.interval_set().expect("valid"));
    (r.len() + usize::from(s.is_empty()), Cost { work: c.work.max(d.work), memory: c.memory.max(d.memory), stack: c.stack.max(d.stack) })
}

fn one_use(k: usize, p: &Pattern, q: &Pattern, u: Universe, thorough: bool, ctx: &mut Ctx) -> Check {
    let (name, takes, make) = USES[k];
    let what = || format!("{name}: {p:?} of {u:?}{}", if takes == [true, true] { format!(", excluding {q:?}") } else { String::new() });
    let sizes = sizes(thorough);
    let mut costs = vec![];
    for &n in sizes {
        let (a, b) = (p.string(u, n), q.string(u, n));
        ctx.step();
        let (len, c) = ask(&make(&a, &b));
        ctx.sample(|| format!("{}, {n} characters: {len} intervals, {c:?}", what()));
        costs.push(c);
        grows(&what, sizes, &costs, ctx)?;
        if n == sizes[sizes.len() - 1] {
            // Together no more than one after the other.
            let only: Make = USES[0].2;
            let (_, rest) = ask(&make("", ""));
            let (mut work, mut bytes) = (rest.work, rest.memory);
            for (taken, s) in takes.iter().zip([&a, &b]) {
                if *taken {
                    let (_, c) = ask(&only(s, ""));
                    work += c.work;
                    bytes += c.memory;
                }
            }
            no_more(&what, c, SLACK * work + 4096, SLACK * bytes + 4096, "6 times the sum of its parts")?;
        }
    }
    Ok(())
}

fn texts() -> Vec<(String, String)> {
    let mut out = vec![];
    for start in ["", "L", "Lu", "Uppercase_Letter", "15.0.0", "1", "Uppercase", "\u{e9}"] {
        for more in ["a", "L", "u", "_", "Letter", "Lu,", " ", "0", "9", ".", "1.", "15.0.", "-", "\u{e9}", "\u{10FFFF}", "\0", "A_", "Lu|"] {
            out.push((start.to_string(), more.to_string()));
        }
    }
    out
}

fn window(v: UnicodeVersion, set: UnicodeCategorySet, min: u32, max: u32) -> u64 {
    set.iter().map(|c| v.intervals_for(c).iter().filter(|i| i.0 <= max && i.1 >= min).count() as u64).sum()
}

fn selections() -> Vec<UnicodeCategorySet> {
    let mut out = vec![UnicodeCategorySet::new(), UnicodeCategorySet::all()];
    out.extend(UnicodeCategorySet::all().iter().map(UnicodeCategorySet::from));
    out.extend([UnicodeCategory::L, UnicodeCategory::P, UnicodeCategory::S, UnicodeCategory::C, UnicodeCategory::N, UnicodeCategory::Lu | UnicodeCategory::Cn, UnicodeCategory::L | UnicodeCategory::P | UnicodeCategory::S]);
    let mut most = UnicodeCategorySet::all();
    most.remove(UnicodeCategory::Zl);
    out.push(most);
    out
}

fn bounds(set: UnicodeCategorySet, v: UnicodeVersion, ctx: &mut Ctx) -> Check {
    for min in [0u32, 0x40, 0x80, 0x3400, 0xFFFF, 0x10000, 0x10_0000] {
        for w in [0u32, 1, 0x3F, 0xFF, 0x1000, 0xFFFF, 0x10000, 0xF_FFFF, 0x10_FFFF] {
            let max = min.saturating_add(w).min(0x10_FFFF);
            for (a, b) in [("", ""), ("a", ""), ("", "\u{10FFFD}"), ("\u{3400}", "a")] {
                ctx.step();
                let q = v.query().include_categories(set).min_codepoint(min).max_codepoint(max).include_characters(a).exclude_characters(b);
                let (len, c) = ask(&q);
                // The library may go through the whole table of the selected categories.
                let m = window(v, set, 0, 0x10_FFFF) + 16;
                ctx.outcome(hash_words([len as u64, u64::from(c.work.max(1).ilog2())]));
                let what = || format!("{v:?} {set:?} from {min:#x} to {max:#x}, {a:?} and not {b:?}");
                ctx.sample(|| format!("{}: {len} intervals, {c:?}", what()));
                no_more(&what, c, PER_TABLE_INTERVAL.0 * m + 8192, PER_TABLE_INTERVAL.1 * m + 16384, "by the intervals of its categories")?;
            }
        }
    }
    Ok(())
}
/// Steps and bytes.
const PER_TABLE_INTERVAL: (u64, u64) = (400, 256);
const PER_INTERVAL: u64 = 60;
const PER_CODEPOINT: u64 = 100;

fn sets(kind: usize) -> (String, IntervalSet) {
    let q = unicode_intervals::query();
    let n = [1usize, 2, 16, 64, 512, 4096, 32768, 1 << 19];
    match kind {
        0..8 => {
            let max = n[kind] as u32;
            (format!("one interval of {max}"), q.max_codepoint(max - 1).interval_set().expect("valid"))
        }
        8..15 => {
            let s = Pattern::Deltas(vec![2]).string(UNIVERSES[0], n[kind - 8]);
            (format!("{} single characters", n[kind - 8]), q.include_categories(UnicodeCategorySet::new()).include_characters(&s).interval_set().expect("valid"))
        }
        15 => ("everything".into(), q.interval_set().expect("valid")),
        16 => ("nothing".into(), q.include_categories(UnicodeCategorySet::new()).interval_set().expect("valid")),
        k => {
            let set = selections()[k - 17];
            (format!("{set:?}"), UnicodeVersion::V9_0_0.query().include_categories(set).interval_set().expect("valid"))
        }
    }
}
fn set_count() -> usize {
    17 + selections().len()
}

fn lookups(kind: usize, ctx: &mut Ctx) -> Check {
    let (name, set) = sets(kind);
    let len = set.len() as u32;
    let m = set.iter().fold((0u64, u32::MAX - 1), |(n, last), c| (n + u64::from(c != last.wrapping_add(1)), c)).0 + 16;
    let limit = |op: &str, c: Cost| no_more(&|| format!("{op} of {name}"), c, PER_INTERVAL * m, 64 * m, "by its intervals");
    let ks: Vec<u32> = [0, 1, 2, 7].into_iter().chain([1u32, 2, 3, 4, 7, 8].map(|d| len / 8 * d)).chain([len.wrapping_sub(2), len.wrapping_sub(1), len, len.wrapping_add(1), 0x10_FFFF, u32::MAX]).collect();
    for &k in &ks {
        for c in [Some(k), set.codepoint_at(k), set.codepoint_at(k).map(|c| c + 1), set.codepoint_at(k).map(|c| c.wrapping_sub(1))].into_iter().flatten() {
            ctx.step();
            let (a, x) = measure(|| set.contains(c));
            limit(&format!("contains({c})"), x)?;
            let (b, x) = measure(|| set.index_of(c));
            limit(&format!("index_of({c})"), x)?;
            let (d, x) = measure(|| set.index_above(c));
            limit(&format!("index_above({c})"), x)?;
            ctx.outcome(hash_words([u64::from(a), u64::from(b.unwrap_or(u32::MAX)), u64::from(d)]));
        }
        let (_, x) = measure(|| set.codepoint_at(k));
        limit(&format!("codepoint_at({k})"), x)?;
        let (_, x) = measure(|| set.iter().nth(k as usize));
        // `nth` may well take one step after the other.
        no_more(&|| format!("iter().nth({k}) of {name}"), x, PER_INTERVAL * m + PER_CODEPOINT * u64::from(k.min(len)), 64 * m, "by its intervals and steps")?;
    }
    let (_, x) = measure(|| set.len());
    limit("len", x)?;
    let (_, x) = measure(|| set.is_empty());
    limit("is_empty", x)?;
    let (_, x) = measure(|| set.iter());
    limit("iter", x)?;
    let (_, x) = measure(|| set.iter().next());
    limit("iter().next()", x)?;
    let (_, x) = measure(|| set.iter().next_back());
    limit("iter().next_back()", x)?;
    let (_, x) = measure(|| set.iter().size_hint());
    limit("iter().size_hint()", x)?;
    let (_, x) = measure(|| set.clone());
    limit("clone", x)?;
    Ok(())
}

fn iteration(kind: usize, ctx: &mut Ctx) -> Check {
    let (name, set) = sets(kind);
    let len = set.len() as u64;
    let ways: [(&str, fn(&IntervalSet) -> u64); 8] = [
        ("forward", |s| s.iter().map(u64::from).sum()),
        ("backward", |s| s.iter().rev().map(u64::from).sum()),
        ("by next", |s| {
            let (mut it, mut n) = (s.iter(), 0);
            while let Some(c) = it.next() {
                n += u64::from(c);
            }
            n
        }),
        ("from both ends", |s| {
            let (mut it, mut n) = (s.iter(), 0);
            while let (Some(a), b) = (it.next(), it.next_back()) {
                n += u64::from(a) + u64::from(b.unwrap_or(0));
            }
            n
        }),
        ("by nth(1)", |s| {
            let (mut it, mut n) = (s.iter(), 0);
            while let Some(c) = it.nth(1) {
                n += u64::from(c);
            }
            n
        }),
        ("&set", |s| s.into_iter().map(u64::from).sum()),
        ("looking at size_hint", |s| {
            let (mut it, mut n) = (s.iter(), 0);
            while let Some(c) = it.next() {
                n += u64::from(c) + it.size_hint().0 as u64;
            }
            n
        }),
        ("count and last", |s| s.iter().count() as u64 + s.iter().last().map_or(0, u64::from)),
    ];
    let m = set.iter().fold((0u64, u32::MAX - 1), |(n, last), c| (n + u64::from(c != last.wrapping_add(1)), c)).0 + 16;
    for (way, f) in ways {
        ctx.step();
        let (sum, c) = measure(|| f(&set));
        ctx.outcome(hash_words([sum]));
        ctx.sample(|| format!("{way} through {name} ({len} code points): {c:?}"));
        no_more(&|| format!("{way} through {name} ({len} code points)"), c, PER_CODEPOINT * (len + 16) + PER_INTERVAL * m, 64 * m, "by its code points and intervals")?;
    }
    Ok(())
}

pub fn c35(thorough: bool) -> Vec<Suite> {
    let mut out = vec![];
    let ps = patterns(thorough);
    let n = ps.len();
    let (p2, bound) = (ps.clone(), format!("{n} patterns of characters (all sequences of at most {} of 8 distances; mixed, zigzag, twins, late) in 4 ranges, 512 to {} characters; 9 uses", if thorough { 4 } else { 3 }, sizes(thorough)[sizes(thorough).len() - 1]));
    out.push(Suite::new("strings", &bound, n * 4, move |i, ctx| {
        let (p, u) = (&p2[i / 4], UNIVERSES[i % 4]);
        for k in 0..USES.len() {
            one_use(k, p, p, u, thorough, ctx)?;
        }
        Ok(())
    }));
    // A few of each kind against each other.
    let few: Vec<Pattern> = ps.iter().filter(|p| match p {
        Pattern::Deltas(d) => d.len() == 1 || d.len() == 2 && d[0] > 0 && d[1] > 0,
        _ => true,
    }).cloned().collect();
    let m = few.len();
    out.push(Suite::new("pairs of strings", &format!("all pairs of {m} patterns, one included, one excluded"), m * m, move |i, ctx| one_use(8, &few[i / m], &few[i % m], UNIVERSES[0], thorough, ctx)));
    let names = ["Lu", "Uppercase_Letter", "L", "Letter", "Cn", "Other_Punctuation", "bad", ""];
    out.push(Suite::new("lists", "lists of 512 to 32768 names: all sequences of at most 3 of 8 over and over, as &str and String", 8 + 64 + 512, move |i, ctx| {
        let seq: Vec<&str> = match i {
            0..8 => vec![names[i]],
            8..72 => vec![names[(i - 8) / 8], names[(i - 8) % 8]],
            _ => vec![names[(i - 72) / 64], names[(i - 72) / 8 % 8], names[(i - 72) % 8]],
        };
        for v in [UnicodeVersion::V9_0_0, UnicodeVersion::latest()] {
            let sizes = sizes(false);
            let (mut a, mut b) = (vec![], vec![]);
            for &n in sizes {
                let list: Vec<&str> = seq.iter().copied().cycle().take(n).collect();
                ctx.step();
                a.push(measure(|| as_general_categories(&list, v).map_or(99, |s| s.len())).1);
                let owned: Vec<String> = list.iter().map(ToString::to_string).collect();
                b.push(measure(|| as_general_categories(owned, v).map_or(99, |s| s.len())).1);
            }
            grows(&|| format!("as_general_categories of {seq:?} over and over"), sizes, &a, ctx)?;
            grows(&|| format!("as_general_categories of {seq:?} over and over, as String"), sizes, &b, ctx)?;
        }
        Ok(())
    }));
    let ts = texts();
    out.push(Suite::new("texts", "names and versions of 512 to 262144 times a piece: 144 texts; parsing and the error's text", ts.len(), move |i, ctx| {
        let (start, more) = &ts[i];
        let sizes = [512, 4096, 32768, 262_144];
        let mut costs = [vec![], vec![], vec![], vec![]];
        for n in sizes {
            let text = start.clone() + &more.repeat(n);
            ctx.step();
            costs[0].push(measure(|| text.parse::<UnicodeCategory>().is_ok()).1);
            costs[1].push(measure(|| text.parse::<UnicodeVersion>().is_ok()).1);
            costs[2].push(measure(|| as_general_categories([&text], UnicodeVersion::latest()).is_ok()).1);
            costs[3].push(
                measure(|| {
                    let mut s = String::new();
                    if let Err(e) = text.parse::<UnicodeCategory>() {
                        let _ = write!(s, "{e} {e:?}");
                    }
                    if let Err(e) = text.parse::<UnicodeVersion>() {
                        let _ = write!(s, "{e} {e:?}");
                    }
                    s.len()
                })
                .1,
            );
            for (c, what) in costs.iter().zip(["UnicodeCategory::from_str", "UnicodeVersion::from_str", "as_general_categories", "the error's text"]) {
                grows(&|| format!("{what} of {start:?} and {more:?} over and over"), &sizes, c, ctx)?;
            }
        }
        Ok(())
    }));
    let ss = selections();
    let versions = [UnicodeVersion::V9_0_0, UnicodeVersion::V12_1_0, UnicodeVersion::latest()];
    out.push(Suite::new("bounds", "40 selections x 3 versions x 7 lower bounds x 9 widths x 4 pairs of characters", ss.len() * 3, move |i, ctx| bounds(ss[i / 3], versions[i % 3], ctx)));
    out.push(Suite::new("lookups", "every operation of a set: 57 sets of 0 to 1114112 code points in 0 to 32768 intervals", set_count(), lookups));
    out.push(Suite::new("iteration", "8 ways to go through each of these sets", set_count(), iteration));
    out
}
