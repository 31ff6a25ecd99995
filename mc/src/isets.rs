//! C09 (rank/select) and C10 (iteration) of interval sets.
use crate::engine::{guard, hash_words, Ctx, Suite};
use crate::model::*;
use crate::queries::M;
use unicode_intervals::{Codepoints, IntervalSet, UnicodeCategorySet};

/// The interval set whose members are the given characters, through the public API.
fn set_of(m: &Model, ver: usize, s: &str) -> Result<(IntervalSet, Vec<Iv>), String> {
    let b = m.vers[ver].v.query().include_categories(UnicodeCategorySet::new()).include_characters(s);
    let iv = guard(|| b.intervals()).map_err(|p| format!("intervals of {}: {p}", short(s)))?.map_err(|e| format!("{e:?}"))?;
    let is = guard(|| b.interval_set()).map_err(|p| format!("interval_set of {}: {p}", short(s)))?.map_err(|e| format!("{e:?}"))?;
    Ok((is, iv))
}

fn members(iv: &[Iv]) -> Vec<u32> {
    iv.iter().flat_map(|&(a, b)| a..=b).collect()
}

fn fail<T: std::fmt::Debug, U: std::fmt::Debug>(what: &str, call: String, got: T, want: U) -> Result<(), String> {
    Err(format!("set {what}\n  {call} = {got:?}, expected {want:?}"))
}

/// All lookups for one argument.
fn lookups(what: &dyn Fn() -> String, s: &IntervalSet, mem: &[u32], x: u32, ctx: &mut Ctx) -> Result<(), String> {
    // `x` as an index ...
    ctx.step();
    let want = mem.get(x as usize).copied();
    let got = guard(|| s.codepoint_at(x)).map_err(|p| format!("set {}: codepoint_at({x}): {p}", what()))?;
    if got != want {
        return fail(&what(), format!("codepoint_at({x})"), got, want);
    }
    // ... and as a code point.
    let below = mem.partition_point(|&y| y < x);
    let rank = (mem.get(below) == Some(&x)).then_some(below as u32);
    ctx.step();
    let got = guard(|| s.index_of(x)).map_err(|p| format!("set {}: index_of({x:#X}): {p}", what()))?;
    if got != rank {
        return fail(&what(), format!("index_of({x:#X})"), got, rank);
    }
    ctx.step();
    let got = guard(|| s.index_above(x)).map_err(|p| format!("set {}: index_above({x:#X}): {p}", what()))?;
    if got as usize != below {
        return fail(&what(), format!("index_above({x:#X})"), got, below);
    }
    ctx.step();
    let got = guard(|| s.contains(x)).map_err(|p| format!("set {}: contains({x:#X}): {p}", what()))?;
    if got != rank.is_some() {
        return fail(&what(), format!("contains({x:#X})"), got, rank.is_some());
    }
    if let Some(ch) = char::from_u32(x) {
        ctx.step();
        let got = guard(|| (s.contains(ch), s.index_of(ch), s.index_above(ch))).map_err(|p| format!("set {}: lookups of {ch:?}: {p}", what()))?;
        if got != (rank.is_some(), rank, below as u32) {
            return fail(&what(), format!("(contains, index_of, index_above)({ch:?})"), got, (rank.is_some(), rank, below));
        }
    }
    if let Ok(b) = u8::try_from(x) {
        let got = guard(|| (s.contains(b), s.index_of(b), s.index_above(b))).map_err(|p| format!("set {}: lookups of {b}u8: {p}", what()))?;
        if got != (rank.is_some(), rank, below as u32) {
            return fail(&what(), format!("(contains, index_of, index_above)({b}u8)"), got, (rank.is_some(), rank, below));
        }
    }
    Ok(())
}

fn sizes(what: &dyn Fn() -> String, s: &IntervalSet, mem: &[u32], ctx: &mut Ctx) -> Result<(), String> {
    ctx.step();
    let got = guard(|| (s.len(), s.is_empty())).map_err(|p| format!("set {}: len: {p}", what()))?;
    if got != (mem.len(), mem.is_empty()) {
        return fail(&what(), "(len(), is_empty())".into(), got, (mem.len(), mem.is_empty()));
    }
    Ok(())
}

const EXTREMES: [u32; 12] =
    [0x10_FFFF, 0x11_0000, 0x11_0001, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0041, 0xFFFF_0000, u32::MAX - 2, u32::MAX - 1, u32::MAX, 0x1_0041, 0x0100_0041];

fn windows(width: usize) -> Vec<Vec<char>> {
    [0u32, 58, 250, 0xD7FA, 0xFFFA, MAX + 1 - width as u32].iter().map(|&s| (s..).filter_map(char::from_u32).take(width).collect()).collect()
}

/// Characters far apart: every gap kind between neighbours (none, 1, 31, 32 KiB, planes).
fn spread(width: usize) -> Vec<Vec<char>> {
    let a = [0x41u32, 0x42, 0x44, 0x61, 0x80, 0x81, 0x3B1, 0x4E00, 0xFFFF, 0x1_0000, 0x2_0000, 0x10_FFFF];
    let b = [0u32, 2, 3, 0x7F, 0x80, 0xD7FF, 0xE000, 0x1_F600, 0x1_F640, 0xE_01F0, 0x10_FFFE, 0x10_FFFF];
    let c: Vec<u32> = (0..12).map(|i| 97 + 2 * i).collect();
    [&a[..], &b, &c].iter().map(|l| l.iter().take(width).filter_map(|&x| char::from_u32(x)).collect()).collect()
}

/// One lookup, and what it must answer.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Look {
    At(u32),
    IndexOf(u32),
    Above(u32),
    Contains(u32),
    Len,
    First(bool),
}

fn look(s: &IntervalSet, l: Look) -> Option<u32> {
    match l {
        Look::At(x) => s.codepoint_at(x),
        Look::IndexOf(x) => s.index_of(x),
        Look::Above(x) => Some(s.index_above(x)),
        Look::Contains(x) => Some(u32::from(s.contains(x))),
        Look::Len => Some(s.len() as u32),
        Look::First(front) => if front { s.iter().next() } else { s.iter().next_back() },
    }
}

fn look_model(mem: &[u32], l: Look) -> Option<u32> {
    match l {
        Look::At(x) => mem.get(x as usize).copied(),
        Look::IndexOf(x) => mem.iter().position(|&y| y == x).map(|i| i as u32),
        Look::Above(x) => Some(mem.iter().filter(|&&y| y < x).count() as u32),
        Look::Contains(x) => Some(u32::from(mem.contains(&x))),
        Look::Len => Some(mem.len() as u32),
        Look::First(front) => if front { mem.first().copied() } else { mem.last().copied() },
    }
}

/// (run length, period) of the characters in a large set.
fn many() -> Vec<(u32, u32)> {
    vec![(1, 2), (1, 3), (2, 3), (1, 17), (300, 301)]
}

fn many_lens(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (if thorough { 5 } else { 8 }..18).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).filter(|n| thorough || n.trailing_zeros() != n.ilog2() || *n >= 4096).collect();
    v.extend([1 << 19, 2_000_000]);
    v
}

fn shape_text((run, period): (u32, u32), len: usize) -> String {
    (0x20..=MAX).filter(|x| (x - 0x20) % period < run).filter_map(char::from_u32).take(len).collect()
}

fn real_sets(full: bool) -> Vec<u32> {
    let mut v: Vec<u32> = (0..30).map(|i| 1 << i).collect();
    v.extend(GROUP_LETTERS.iter().map(|&l| group_mask(l)));
    v.extend([ALL, 0, group_mask(b'L') | group_mask(b'N')]);
    if full {
        v.extend((0..30).map(|i| ALL & !(1u32 << i)));
    }
    v
}

pub fn c09(m: &M, thorough: bool) -> Vec<Suite> {
    let mut out = vec![];
    let width = if thorough { 18 } else { 14 };
    {
        let m = m.clone();
        let ws = windows(width);
        out.push(Suite::new(
            "small-sets",
            &format!("all 2^{width} subsets of {width} consecutive characters at {} positions (0, word and 256 edges, around the surrogates, the top); every argument in the window +-3, every index up to len+3, u32 extremes", ws.len()),
            ws.len() * 64,
            move |u, ctx| {
                let (w, block) = (&ws[u / 64], u % 64);
                let per = (1usize << width) / 64;
                let mut text = String::new();
                for k in block * per..(block + 1) * per {
                    text.clear();
                    text.extend(w.iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|(_, c)| *c));
                    let (s, iv) = set_of(&m, m.latest(), &text)?;
                    let mem = members(&iv);
                    ctx.outcome(hash_list(&iv));
                    let what = || show(&iv);
                    sizes(&what, &s, &mem, ctx)?;
                    let lo = u32::from(w[0]).saturating_sub(3);
                    let hi = u32::from(*w.last().unwrap()) + 3;
                    for x in (lo..=hi).chain(0..mem.len() as u32 + 3).chain(EXTREMES) {
                        lookups(&what, &s, &mem, x, ctx)?;
                    }
                    ctx.sample(what);
                }
                Ok(())
            },
        ));
    }
    {
        // Every real category/group set: all arguments.
        let m = m.clone();
        let sets = real_sets(true);
        let vers: Vec<usize> = if thorough { (0..m.vers.len()).collect() } else { vec![0, m.vers.len() / 2, m.latest()] };
        out.push(Suite::new(
            "category-sets",
            &format!("{} category, group and complement sets x {} versions, every argument 0..=0x10FFFF+16 as code point and as index, and u32 extremes", sets.len(), vers.len()),
            sets.len() * vers.len() * 4,
            move |u, ctx| {
                let (quarter, rest) = ((u % 4) as u32, u / 4);
                let (set, ver) = (sets[rest % sets.len()], vers[rest / sets.len()]);
                let b = Q::new(ver).inc(set).builder(&m);
                let iv = guard(|| b.intervals().expect("valid")).map_err(|p| format!("intervals of {}: {p}", mask_names(set)))?;
                let s = guard(|| b.interval_set().expect("valid")).map_err(|p| format!("interval_set of {}: {p}", mask_names(set)))?;
                let mem = members(&iv);
                ctx.outcome(hash_list(&iv));
                let what = || format!("{} of Unicode {}", mask_names(set), m.vers[ver].name);
                sizes(&what, &s, &mem, ctx)?;
                let q = 0x44000;
                for x in quarter * q..(quarter + 1) * q + 16 {
                    lookups(&what, &s, &mem, x, ctx)?;
                }
                for x in EXTREMES {
                    lookups(&what, &s, &mem, x, ctx)?;
                }
                ctx.sample(|| format!("{}: {} members", what(), mem.len()));
                Ok(())
            },
        ));
    }
    {
        // More intervals than any category has.
        let m = m.clone();
        let shapes = many();
        let lens = many_lens(thorough);
        out.push(Suite::new(
            "many-intervals",
            &format!("sets of {} shapes (every k-th character, runs with gaps) with {lens:?} characters: every argument to the last member, as code point and index", shapes.len()),
            shapes.len() * lens.len(),
            move |u, ctx| {
                let (shape, len) = (shapes[u % shapes.len()], lens[u / shapes.len()]);
                let text = shape_text(shape, len);
                let (s, iv) = set_of(&m, m.latest(), &text)?;
                let mem = members(&iv);
                ctx.outcome(hash_list(&iv));
                let what = || format!("of {len} characters, shape {shape:?}: {} intervals", iv.len());
                sizes(&what, &s, &mem, ctx)?;
                for x in (0..=mem.last().map_or(0, |x| x + 3)).chain(EXTREMES) {
                    lookups(&what, &s, &mem, x, ctx)?;
                }
                ctx.sample(what);
                Ok(())
            },
        ));
    }
    {
        // All versions, arguments at run edges.
        let m = m.clone();
        let mut sets = real_sets(true);
        sets.extend(crate::queries::subsets_of_size(30, 2));
        let n = m.vers.len();
        out.push(Suite::new(
            "edges",
            &format!("{} sets (singles, pairs, groups, complements) x {n} versions: every run edge +-1 as code point, every run offset +-1 as index", sets.len()),
            sets.len() * n,
            move |u, ctx| {
                let (set, ver) = (sets[u % sets.len()], u / sets.len());
                let b = Q::new(ver).inc(set).builder(&m);
                let iv = guard(|| b.intervals().expect("valid")).map_err(|p| format!("intervals of {}: {p}", mask_names(set)))?;
                let s = guard(|| b.interval_set().expect("valid")).map_err(|p| format!("interval_set of {}: {p}", mask_names(set)))?;
                let mut offset = 0u32;
                ctx.outcome(hash_list(&iv));
                let total: u32 = iv.iter().map(|(a, b)| b - a + 1).sum();
                let what = || format!("{} of Unicode {}", mask_names(set), m.vers[ver].name);
                for (k, &(a, b)) in iv.iter().enumerate() {
                    let checks = [
                        (a, Some(offset), offset),
                        (b, Some(offset + (b - a)), offset + (b - a)),
                        (b + 1, None, offset + (b - a) + 1),
                    ];
                    for (x, of, above) in checks {
                        ctx.step();
                        let got = guard(|| (s.index_of(x), s.index_above(x), s.contains(x))).map_err(|p| format!("set {}: lookups of {x:#X}: {p}", what()))?;
                        if got != (of, above, of.is_some()) {
                            return fail(&what(), format!("(index_of, index_above, contains)({x:#X})"), got, (of, above, of.is_some()));
                        }
                    }
                    for (i, want) in [(offset, Some(a)), (offset + (b - a), Some(b)), (offset + (b - a) + 1, iv.get(k + 1).map(|x| x.0))] {
                        ctx.step();
                        let got = guard(|| s.codepoint_at(i)).map_err(|p| format!("set {}: codepoint_at({i}): {p}", what()))?;
                        if got != want {
                            return fail(&what(), format!("codepoint_at({i})"), got, want);
                        }
                    }
                    offset += b - a + 1;
                }
                ctx.step();
                if (s.len() as u32, s.is_empty()) != (total, total == 0) {
                    return fail(&what(), "(len, is_empty)".into(), (s.len(), s.is_empty()), (total, total == 0));
                }
                Ok(())
            },
        ));
    }
    {
        // Several lookups on one and the same set: the answers depend on the set and the argument only.
        let m = m.clone();
        let (width, depth) = if thorough { (9, 3) } else { (7, 3) };
        let mut ws = spread(width);
        ws.push((65..).filter_map(char::from_u32).take(width).collect());
        out.push(Suite::new(
            "sequences",
            &format!("all 2^{width} subsets of {} spread windows: every sequence of {} lookups (codepoint_at, index_of, index_above, contains at member, edge and extreme arguments; len; ends of the iteration) on one set object, continued on a clone made before and after", ws.len(), depth),
            ws.len() << width,
            move |u, ctx| {
                let (w, k) = (&ws[u >> width], u & ((1 << width) - 1));
                let text: String = w.iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|(_, c)| *c).collect();
                let (s, iv) = set_of(&m, m.latest(), &text)?;
                let mem = members(&iv);
                ctx.outcome(hash_list(&iv));
                let mut args: Vec<u32> = vec![0, u32::MAX];
                for &(a, b) in &iv {
                    args.extend([a, b, b + 1]);
                }
                args.sort_unstable();
                args.dedup();
                let mut all: Vec<Look> = (0..=mem.len() as u32).map(Look::At).collect();
                all.extend(args.iter().flat_map(|&x| [Look::IndexOf(x), Look::Above(x)]));
                all.extend(args.iter().filter(|x| !mem.contains(x)).map(|&x| Look::Contains(x)));
                all.extend(iv.iter().map(|&(a, _)| Look::Contains(a)));
                all.extend([Look::At(u32::MAX), Look::Len, Look::First(true), Look::First(false)]);
                let want: Vec<Option<u32>> = all.iter().map(|&l| look_model(&mem, l)).collect();
                let n = all.len();
                let run = |t: &IntervalSet, seq: &[usize]| -> Result<(), String> {
                    for (j, &i) in seq.iter().enumerate() {
                        let got = look(t, all[i]);
                        if got != want[i] {
                            return Err(format!("set {}: {:?} = {got:X?}, expected {:X?}, after {:?}", show(&iv), all[i], want[i], seq[..j].iter().map(|&i| all[i]).collect::<Vec<_>>()));
                        }
                    }
                    Ok(())
                };
                let walk = || -> Result<(), String> {
                    for a in 0..n {
                        for b in 0..n {
                            // Every pair on an object that has seen nothing but its ancestors' lookups ...
                            let t = s.clone();
                            run(&t, &[a, b])?;
                            if mem.len() > if thorough { 6 } else { 5 } {
                                continue;
                            }
                            // ... and every third one after it, on a clone of that.
                            for c in 0..n {
                                let third = t.clone();
                                let got = look(&third, all[c]);
                                if got != want[c] {
                                    return Err(format!("set {}: {:?} = {got:X?}, expected {:X?}, after {:?}", show(&iv), all[c], want[c], [all[a], all[b]]));
                                }
                            }
                        }
                    }
                    // The original, in all orders of pairs, without clones in between.
                    for a in 0..n {
                        for b in 0..n {
                            run(&s, &[a, b])?;
                        }
                    }
                    Ok(())
                };
                for _ in 0..n * n {
                    ctx.step();
                }
                guard(walk).map_err(|p| format!("set {}: lookups: {p}", show(&iv)))??;
                ctx.sample(|| format!("{}: {n} lookups", show(&iv)));
                Ok(())
            },
        ));
    }
    out
}

// ---------------------------------------------------------------- C10

/// What is left of an iteration, and what to do next.
#[derive(Clone, Copy)]
enum Op {
    Next,
    Back,
    Nth(usize),
    NthBack(usize),
}
const OPS: [Op; 8] = [Op::Next, Op::Back, Op::Nth(1), Op::NthBack(1), Op::Nth(0), Op::NthBack(2), Op::Nth(3), Op::Nth(50)];

fn op_name(o: Op) -> String {
    match o {
        Op::Next => "next()".into(),
        Op::Back => "next_back()".into(),
        Op::Nth(n) => format!("nth({n})"),
        Op::NthBack(n) => format!("nth_back({n})"),
    }
}

fn apply_model(o: Op, mut w: &[u32]) -> (Option<u32>, &[u32]) {
    let (n, back) = match o {
        Op::Next => (0, false),
        Op::Nth(n) => (n, false),
        Op::Back => (0, true),
        Op::NthBack(n) => (n, true),
    };
    if n >= w.len() {
        return (None, &[]);
    }
    let r;
    if back {
        let i = w.len() - 1 - n;
        r = w[i];
        w = &w[..i];
    } else {
        r = w[n];
        w = &w[n + 1..];
    }
    (Some(r), w)
}

fn apply_impl(o: Op, it: &mut Codepoints) -> Option<u32> {
    match o {
        Op::Next => it.next(),
        Op::Back => it.next_back(),
        Op::Nth(n) => it.nth(n),
        Op::NthBack(n) => it.nth_back(n),
    }
}

/// Everything that ends an iteration, each on its own clone.
fn finish(it: &Codepoints, left: &[u32], path: &dyn Fn() -> String, ctx: &mut Ctx, all: bool) -> Result<(), String> {
    macro_rules! same {
        ($name:literal, $got:expr, $want:expr) => {{
            ctx.step();
            let got = guard(|| $got).map_err(|p| format!("{}.{}: {p}", path(), $name))?;
            let want = $want;
            if got != want {
                return Err(format!("{}.{} = {got:X?}, expected {want:X?}", path(), $name));
            }
        }};
    }
    let (lo, hi) = guard(|| it.size_hint()).map_err(|p| format!("{}.size_hint(): {p}", path()))?;
    ctx.step();
    if lo > left.len() || hi.is_some_and(|h| h < left.len()) {
        return Err(format!("{}.size_hint() = ({lo}, {hi:?}) but {} members are left", path(), left.len()));
    }
    let cap = left.len() + 8;
    same!("collect()", it.clone().take(cap).collect::<Vec<_>>(), left.to_vec());
    same!("rev().collect()", it.clone().rev().take(cap).collect::<Vec<_>>(), left.iter().rev().copied().collect::<Vec<_>>());
    if all {
        same!("fold", it.clone().fold(Vec::new(), |mut v, x| { v.push(x); v }), left.to_vec());
        same!("rfold", it.clone().rfold(Vec::new(), |mut v, x| { v.push(x); v }), left.iter().rev().copied().collect::<Vec<_>>());
        same!("count()", it.clone().count(), left.len());
        same!("last()", it.clone().last(), left.last().copied());
        same!("max()", it.clone().max(), left.last().copied());
        same!("min()", it.clone().min(), left.first().copied());
        same!("skip(1).step_by(2)", it.clone().skip(1).step_by(2).collect::<Vec<_>>(), left.iter().copied().skip(1).step_by(2).collect::<Vec<_>>());
        same!("rev().skip(1)", it.clone().rev().skip(1).collect::<Vec<_>>(), left.iter().rev().copied().skip(1).collect::<Vec<_>>());
        same!("rev().rev()", it.clone().rev().rev().collect::<Vec<_>>(), left.to_vec());
        same!("chain of halves", {
            let mut a = it.clone();
            let f: Vec<u32> = a.by_ref().take(left.len() / 2).collect();
            f.into_iter().chain(a).collect::<Vec<_>>()
        }, left.to_vec());
        same!("find middle, then rest", {
            let mut a = it.clone();
            let mid = left.get(left.len() / 2).copied();
            let f = a.find(|x| Some(*x) == mid);
            (f, a.collect::<Vec<_>>())
        }, (left.get(left.len() / 2).copied(), left.iter().copied().skip(left.len() / 2 + 1).collect::<Vec<_>>()));
        same!("rfind first, then rest", {
            let mut a = it.clone();
            let f = a.rfind(|x| Some(*x) == left.first().copied());
            (f, a.next())
        }, (left.first().copied(), None::<u32>));
        same!("fuse after the end", {
            let mut a = it.clone();
            while a.next().is_some() {}
            (a.next(), a.next_back(), a.next(), a.nth(2), a.nth_back(1), a.next_back())
        }, (None, None, None, None, None, None));
        same!("fuse after the end, from the back", {
            let mut a = it.clone();
            while a.next_back().is_some() {}
            (a.next_back(), a.next(), a.next_back(), a.next())
        }, (None, None, None, None));
    }
    Ok(())
}

fn walk(it: &Codepoints, left: &[u32], depth: usize, ops: &[Op], path: &mut Vec<Op>, what: &dyn Fn() -> String, ctx: &mut Ctx) -> Result<(), String> {
    ctx.outcome(hash_words(left.iter().map(|&x| u64::from(x)).chain([path.len() as u64])));
    {
        let p = || format!("{}.iter(); {}; it", what(), path.iter().map(|o| op_name(*o)).collect::<Vec<_>>().join("; "));
        finish(it, left, &p, ctx, depth % 2 == 0 || left.len() < 3)?;
    }
    if depth == 0 {
        return Ok(());
    }
    for &o in ops {
        let mut next = it.clone();
        let (want, rest) = apply_model(o, left);
        ctx.step();
        let got = guard(|| apply_impl(o, &mut next));
        let got = match got {
            Ok(g) if g == want => Ok(()),
            Ok(g) => Err(format!("{g:X?}, expected {want:X?}")),
            Err(p) => Err(p),
        };
        if let Err(e) = got {
            return Err(format!("{}.iter(); {}; {} = {e}", what(), path.iter().map(|o| op_name(*o)).collect::<Vec<_>>().join("; "), op_name(o)));
        }
        path.push(o);
        walk(&next, rest, depth - 1, ops, path, what, ctx)?;
        path.pop();
    }
    Ok(())
}

pub fn c10(m: &M, thorough: bool) -> Vec<Suite> {
    let mut out = vec![];
    for (width, ops, depth, name) in [
        (if thorough { 11 } else { 9 }, 2usize, if thorough { 13 } else { 11 }, "front-back"),
        (if thorough { 8 } else { 7 }, 6, if thorough { 7 } else { 5 }, "with-nth"),
        (if thorough { 6 } else { 5 }, 8, if thorough { 7 } else { 5 }, "all-ops"),
    ] {
        let m = m.clone();
        let ws = windows(width);
        out.push(Suite::new(
            name,
            &format!("all subsets of {width} consecutive characters at {} positions; all sequences of {ops} step kinds to depth {depth}; at every state the size hint, collect, rev and every other state 10 adaptors on clones", ws.len()),
            ws.len() << width,
            move |u, ctx| {
                let (w, k) = (&ws[u >> width], u & ((1 << width) - 1));
                let text: String = w.iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|(_, c)| *c).collect();
                let (s, iv) = set_of(&m, m.latest(), &text)?;
                let mem = members(&iv);
                let what = || format!("set {}", show(&iv));
                let d = depth.min(mem.len() + 2);
                walk(&s.iter(), &mem, d, &OPS[..ops], &mut vec![], &what, ctx)?;
                ctx.step();
                let by_ref: Vec<u32> = guard(|| (&s).into_iter().take(mem.len() + 8).collect()).map_err(|p| format!("{}: (&set).into_iter(): {p}", what()))?;
                if by_ref != mem {
                    return Err(format!("{}: (&set).into_iter() yields {by_ref:X?}", what()));
                }
                ctx.sample(what);
                Ok(())
            },
        ));
    }
    {
        // More intervals than any category has.
        let m = m.clone();
        let shapes = many();
        let lens = many_lens(thorough);
        out.push(Suite::new(
            "many-intervals",
            &format!("sets of {} shapes (every k-th character, runs with gaps) with {lens:?} characters: whole iterations from each end and both, nth and nth_back around powers of two and the end, counts", shapes.len()),
            shapes.len() * lens.len(),
            move |u, ctx| {
                let (shape, len) = (shapes[u % shapes.len()], lens[u / shapes.len()]);
                let (s, iv) = set_of(&m, m.latest(), &shape_text(shape, len))?;
                let mem = members(&iv);
                let n = mem.len();
                ctx.outcome(hash_list(&iv));
                let what = || format!("set of {len} characters, shape {shape:?}: {} intervals", iv.len());
                let pan = |p: String| format!("{}: {p}", what());
                ctx.step();
                if guard(|| s.iter().take(n + 8).ne(mem.iter().copied())).map_err(pan)? {
                    return Err(format!("{}: forward iteration differs", what()));
                }
                ctx.step();
                if guard(|| s.iter().rev().take(n + 8).ne(mem.iter().rev().copied())).map_err(pan)? {
                    return Err(format!("{}: backward iteration differs", what()));
                }
                ctx.step();
                let bad = guard(|| {
                    let mut it = s.iter();
                    (0..=n / 2).find(|&k| {
                        let (lo, hi) = it.size_hint();
                        let left = n.saturating_sub(2 * k);
                        let w = (mem.get(k).copied().filter(|_| 2 * k < n), mem.get(n.wrapping_sub(k + 1)).copied().filter(|_| 2 * k + 1 < n));
                        lo > left || hi.is_some_and(|h| h < left) || (it.next(), it.next_back()) != w
                    })
                })
                .map_err(pan)?;
                if let Some(k) = bad {
                    return Err(format!("{}: iteration from both ends goes wrong at step {k}", what()));
                }
                let mut at: Vec<usize> = (3..21).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain([n.saturating_sub(2), n.saturating_sub(1), n, n + 1, usize::MAX, 1 << 32]).collect();
                at.retain(|&j| j <= n + 1 || j > MAX as usize);
                for j in at {
                    ctx.step();
                    let got = guard(|| {
                        let (mut a, mut b) = (s.iter(), s.iter());
                        (a.nth(j), a.next(), b.nth_back(j), b.next_back())
                    })
                    .map_err(pan)?;
                    let back = |j: usize| if j < n { Some(mem[n - 1 - j]) } else { None };
                    let want = (mem.get(j).copied(), mem.get(j.saturating_add(1)).copied(), back(j), back(j.saturating_add(1)));
                    if got != want {
                        return Err(format!("{}: (nth({j}), next(), nth_back({j}), next_back()) = {got:X?}, expected {want:X?}", what()));
                    }
                }
                ctx.step();
                let got = guard(|| (s.iter().count(), s.iter().last(), s.iter().max(), s.iter().min())).map_err(pan)?;
                if got != (n, mem.last().copied(), mem.last().copied(), mem.first().copied()) {
                    return Err(format!("{}: (count, last, max, min) = {got:X?}", what()));
                }
                Ok(())
            },
        ));
    }
    {
        // Every provided method, from every state.
        let m = m.clone();
        let width = if thorough { 9 } else { 7 };
        let mut ws = spread(width);
        ws.extend([(0..).filter_map(char::from_u32).take(width).collect::<Vec<_>>(), ('a'..).take(width).collect()]);
        out.push(Suite::new(
            "methods",
            &format!("all 2^{width} subsets of {} spread and consecutive windows, every number of front and of back steps taken before: every provided method of Iterator and DoubleEndedIterator, stopped at each member and never, then the rest, against a list", ws.len()),
            ws.len() << width,
            move |u, ctx| {
                let (w, k) = (&ws[u >> width], u & ((1 << width) - 1));
                let text: String = w.iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|(_, c)| *c).collect();
                let (s, iv) = set_of(&m, m.latest(), &text)?;
                let mem = members(&iv);
                ctx.outcome(hash_list(&iv));
                let mut front = s.iter();
                for f in 0..=mem.len() {
                    let mut it = front.clone();
                    for b in 0..=mem.len() - f {
                        let left = &mem[f..mem.len() - b];
                        let here = || format!("set {}: iter() after {f} front and {b} back steps", show(&iv));
                        // Fewer states for long sets: the ends of the two counters.
                        if mem.len() <= 5 || f + b <= 2 || left.len() <= 1 {
                            crate::adapt::forward(&|| it.clone(), left, |x: u32| x, &here, ctx)?;
                            crate::adapt::forward(&|| it.clone().rev(), &left.iter().rev().copied().collect::<Vec<_>>(), |x: u32| x, &|| format!("{}.rev()", here()), ctx)?;
                            crate::adapt::ordered(&it, left, &here, ctx)?;
                        }
                        it.next_back();
                    }
                    front.next();
                }
                ctx.sample(|| show(&iv));
                Ok(())
            },
        ));
    }
    {
        // Real sets: go k steps from the front (or the back), then the rest from the other end; k at every run edge.
        let m = m.clone();
        let sets = real_sets(true);
        let vers: Vec<usize> = if thorough { (0..m.vers.len()).collect() } else { vec![0, m.latest()] };
        let max_edges = if thorough { 4000 } else { 100 };
        out.push(Suite::new(
            "category-sets",
            &format!("{} category, group and complement sets x {} versions: complete forward and backward iteration; split at run edges (first {max_edges} from each end), next/next_back alternation to the end", sets.len(), vers.len()),
            sets.len() * vers.len(),
            move |u, ctx| {
                let (set, ver) = (sets[u % sets.len()], vers[u / sets.len()]);
                let b = Q::new(ver).inc(set).builder(&m);
                let iv = guard(|| b.intervals().expect("valid")).map_err(|p| format!("intervals of {}: {p}", mask_names(set)))?;
                let s = guard(|| b.interval_set().expect("valid")).map_err(|p| format!("interval_set of {}: {p}", mask_names(set)))?;
                let mem = members(&iv);
                ctx.outcome(hash_list(&iv));
                let what = || format!("{} of Unicode {}", mask_names(set), m.vers[ver].name);
                let pan = |p: String| format!("{}: {p}", what());
                ctx.step();
                let all: Vec<u32> = guard(|| s.iter().take(mem.len() + 8).collect()).map_err(pan)?;
                if all != mem {
                    return Err(format!("{}: forward iteration yields {} items, expected {}", what(), all.len(), mem.len()));
                }
                ctx.step();
                let mut all: Vec<u32> = guard(|| s.iter().rev().take(mem.len() + 8).collect()).map_err(pan)?;
                all.reverse();
                if all != mem {
                    return Err(format!("{}: backward iteration yields {} items, expected {}", what(), all.len(), mem.len()));
                }
                // Alternate ends, in ratios.
                for (f, bk) in [(1usize, 1usize), (3, 1), (1, 5), (64, 1)] {
                    ctx.step();
                    let mut it = s.iter();
                    let (mut lo, mut hi) = (0usize, mem.len());
                    let r = guard(|| {
                        while lo < hi {
                            for _ in 0..f {
                                let w = if lo < hi { lo += 1; Some(mem[lo - 1]) } else { None };
                                let g = it.next();
                                if g != w {
                                    return Err(format!("next() = {g:X?}, expected {w:X?} after {lo} front and {} back steps", mem.len() - hi));
                                }
                            }
                            for _ in 0..bk {
                                let w = if lo < hi { hi -= 1; Some(mem[hi]) } else { None };
                                let g = it.next_back();
                                if g != w {
                                    return Err(format!("next_back() = {g:X?}, expected {w:X?} after {lo} front and {} back steps", mem.len() - hi));
                                }
                            }
                        }
                        let tail = (it.next(), it.next_back());
                        if tail != (None, None) {
                            return Err(format!("after the end: {tail:X?}"));
                        }
                        Ok(())
                    })
                    .map_err(pan)?;
                    r.map_err(|e| format!("{}: {e}", what()))?;
                }
                // Jump to run edges with nth / nth_back.
                let mut offs = vec![];
                let mut o = 0usize;
                for &(a, b) in &iv {
                    offs.push(o);
                    o += (b - a) as usize + 1;
                }
                let n = offs.len();
                for (k, &off) in offs.iter().enumerate() {
                    if k >= max_edges && k + max_edges < n {
                        continue;
                    }
                    for j in [off.saturating_sub(1), off, off + 1] {
                        ctx.step();
                        let mut it = s.iter();
                        let got = guard(|| (it.nth(j), it.next(), it.next_back(), it.size_hint())).map_err(pan)?;
                        let g1 = mem.get(j).copied();
                        let rest = mem.get(j + 1..).unwrap_or(&[]);
                        let g2 = rest.first().copied();
                        let g3 = if rest.len() > 1 { rest.last().copied() } else { None };
                        let left = rest.len().saturating_sub(2);
                        if (got.0, got.1, got.2) != (g1, g2, g3) || got.3 .0 > left || got.3 .1.is_some_and(|h| h < left) {
                            return Err(format!("{}: nth({j}), next(), next_back(), size_hint() = {got:X?}, expected {g1:X?}, {g2:X?}, {g3:X?}, {left} left", what()));
                        }
                        ctx.step();
                        let mut it = s.iter();
                        let got = guard(|| (it.nth_back(j), it.next_back(), it.next(), it.size_hint())).map_err(pan)?;
                        let (g1, rest) = if j < mem.len() { (Some(mem[mem.len() - 1 - j]), &mem[..mem.len() - 1 - j]) } else { (None, &mem[..0]) };
                        let g2 = rest.last().copied();
                        let g3 = if rest.len() > 1 { rest.first().copied() } else { None };
                        let left = rest.len().saturating_sub(2);
                        if (got.0, got.1, got.2) != (g1, g2, g3) || got.3 .0 > left || got.3 .1.is_some_and(|h| h < left) {
                            return Err(format!("{}: nth_back({j}), next_back(), next(), size_hint() = {got:X?}, expected {g1:X?}, {g2:X?}, {g3:X?}, {left} left", what()));
                        }
                    }
                }
                ctx.sample(|| format!("{}: {} members in {} runs", what(), mem.len(), iv.len()));
                Ok(())
            },
        ));
    }
    out
}
