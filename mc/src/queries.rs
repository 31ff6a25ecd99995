//! Query spaces for C01–C06.
use crate::engine::{guard, hash_words, Ctx, Suite};
use crate::model::*;
use std::sync::Arc;
use unicode_intervals::Error;

pub type M = Arc<Model>;

fn singles() -> Vec<u32> {
    (0..30).map(|i| 1 << i).collect()
}
fn groups() -> Vec<u32> {
    GROUP_LETTERS.iter().map(|&l| group_mask(l)).collect()
}
fn complements(v: &[u32]) -> Vec<u32> {
    v.iter().map(|x| ALL & !x).collect()
}
pub fn subsets_of_size(n: u32, k: u32) -> Vec<u32> {
    fn go(start: u32, n: u32, k: u32, acc: u32, out: &mut Vec<u32>) {
        if k == 0 {
            out.push(acc);
            return;
        }
        for i in start..n {
            go(i + 1, n, k - 1, acc | 1 << i, out);
        }
    }
    let mut out = vec![];
    go(0, n, k, 0, &mut out);
    out
}
/// Sets of the three shapes the code distinguishes: none, one, several, all.
pub fn set_alphabet() -> Vec<u32> {
    let mut v = vec![0, ALL];
    v.extend(singles());
    v.extend(complements(&singles()));
    v.extend(groups());
    v.extend(complements(&groups()));
    v
}
/// Two ways to ask for the same set: by inclusion or by exclusion.
fn ask(q: Q<'_>, mask: u32, by_exclusion: bool) -> Q<'_> {
    if by_exclusion {
        q.exc(ALL & !mask)
    } else {
        q.inc(mask)
    }
}

/// Starts, ends and their neighbours of the runs a set selects.
fn edges(m: &Model, ver: usize, mask: u32) -> Vec<u32> {
    // Edges of each member's own runs, also where two members touch.
    let mut e: Vec<u32> = vec![0, 1, 63, 64, 127, 128, 191, 192, 254, 255, 256, 257, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, MAX - 1, MAX];
    for &(a, b, x) in &m.vers[ver].own.runs {
        if x & mask != 0 {
            e.extend([a.saturating_sub(1), a, a + 1, b.saturating_sub(1), b, b + 1]);
        }
    }
    e.retain(|&x| x <= MAX);
    e.sort_unstable();
    e.dedup();
    e
}
const FAR: [u32; 8] = [0, 0x7F, 0xFF, 0x100, 0xD7FF, 0xE000, 0xFFFF, MAX];

pub fn all_versions(m: &M) -> Vec<usize> {
    (0..m.vers.len()).collect()
}
fn some_versions(m: &M) -> Vec<usize> {
    let mut v = vec![0, m.vers.len() / 2, m.latest()];
    v.dedup();
    v
}

/// Every code point as a one-point window, for one set.
fn points(m: &M, o: Oracle, sets: Vec<u32>, vers: Vec<usize>, name: &str) -> Suite {
    let m = m.clone();
    const CHUNK: u32 = 0x11000; // 16 chunks
    let n = sets.len() * vers.len() * 16;
    Suite::new(
        name,
        "min=max=cp for every code point 0..=0x10FFFF",
        n,
        move |u, ctx| {
            let (set, rest) = (sets[u % sets.len()], u / sets.len());
            let (ver, chunk) = (vers[rest % vers.len()], (rest / vers.len()) as u32);
            let mut s = Scratch::default();
            for cp in chunk * CHUNK..(chunk + 1) * CHUNK {
                check_query(&m, &Q::new(ver).inc(set).range(cp, cp), o, &mut s, ctx)?;
            }
            Ok(())
        },
    )
}

/// Windows with both ends at run edges of the set itself: near pairs, far pairs.
fn edge_windows(m: &M, o: Oracle, sets: Vec<u32>, vers: Vec<usize>, near: usize, far: bool, name: &str) -> Suite {
    let m = m.clone();
    Suite::new(
        name,
        &format!("for every set and version: windows [lo, hi], lo every run edge (start/end, and +-1) of the set, hi each of the next {near} edges{}; {} sets x {} versions; asked by inclusion and by exclusion", if far { " and 8 far limits; and the mirror image" } else { "" }, sets.len(), vers.len()),
        sets.len() * vers.len(),
        move |u, ctx| {
            let (set, ver) = (sets[u % sets.len()], vers[u / sets.len()]);
            let mut s = Scratch::default();
            let e = edges(&m, ver, set);
            for (i, &lo) in e.iter().enumerate() {
                let by = i % 2 == 1 && set != 0;
                for &hi in &e[i..e.len().min(i + near)] {
                    check_query(&m, &ask(Q::new(ver), set, by).range(lo, hi), o, &mut s, ctx)?;
                    if !by {
                        check_query(&m, &ask(Q::new(ver), set, true).range(lo, hi), o, &mut s, ctx)?;
                    }
                }
                if far {
                    for f in FAR {
                        let (a, b) = (lo.min(f), lo.max(f));
                        check_query(&m, &ask(Q::new(ver), set, by).range(a, b), o, &mut s, ctx)?;
                    }
                }
            }
            ctx.sample(|| ask(Q::new(ver), set, false).range(e[0], e[e.len() / 2]).source(&m));
            Ok(())
        },
    )
}

/// All windows of the first 256 code points and the rows just beyond.
fn small_windows(m: &M, o: Oracle, sets: Vec<u32>, vers: Vec<usize>, name: &str) -> Suite {
    let m = m.clone();
    Suite::new(
        name,
        &format!("all 0<=min<=max<=259, {} sets x {} versions", sets.len(), vers.len()),
        sets.len() * vers.len(),
        move |u, ctx| {
            let (set, ver) = (sets[u % sets.len()], vers[u / sets.len()]);
            let mut s = Scratch::default();
            for min in 0..260 {
                for max in min..260 {
                    check_query(&m, &ask(Q::new(ver), set, (min ^ max) & 1 == 1 && set != 0).range(min, max), o, &mut s, ctx)?;
                }
            }
            ctx.sample(|| ask(Q::new(ver), set, false).range(60, 70).source(&m));
            Ok(())
        },
    )
}

/// One-sided windows at every code point.
fn one_sided(m: &M, o: Oracle, sets: Vec<u32>, vers: Vec<usize>, step: u32, name: &str) -> Suite {
    let m = m.clone();
    let n = sets.len() * vers.len() * 16;
    const CHUNK: u32 = 0x11000;
    Suite::new(
        name,
        &format!("[cp, MAX] and [0, cp] for {} code point, {} sets x {} versions", if step == 1 { "every".into() } else { format!("every {step}th") }, sets.len(), vers.len()),
        n,
        move |u, ctx| {
            let (set, rest) = (sets[u % sets.len()], u / sets.len());
            let (ver, chunk) = (vers[rest % vers.len()], (rest / vers.len()) as u32);
            let mut s = Scratch::default();
            let mut cp = chunk * CHUNK;
            while cp < (chunk + 1) * CHUNK {
                check_query(&m, &Q::new(ver).inc(set).range(cp, MAX), o, &mut s, ctx)?;
                check_query(&m, &Q::new(ver).inc(set).range(0, cp), o, &mut s, ctx)?;
                cp += step;
            }
            Ok(())
        },
    )
}

/// Category sets at fixed windows.
fn sets_at(m: &M, o: Oracle, sets: Vec<u32>, vers: Vec<usize>, windows: Vec<Iv>, name: &str, bound: &str) -> Suite {
    let m = m.clone();
    const BLOCK: usize = 64;
    let blocks = sets.len().div_ceil(BLOCK);
    Suite::new(
        name,
        &format!("{bound}; {} sets x {} versions x {} windows, alternately by inclusion and exclusion", sets.len(), vers.len(), windows.len()),
        blocks * vers.len(),
        move |u, ctx| {
            let (block, ver) = (u % blocks, vers[u / blocks]);
            let mut s = Scratch::default();
            for (i, &set) in sets[block * BLOCK..sets.len().min((block + 1) * BLOCK)].iter().enumerate() {
                for &(a, b) in &windows {
                    let q = ask(Q::new(ver), set, i % 2 == 1 && set != 0).range(a, b);
                    check_query(&m, &q, o, &mut s, ctx)?;
                    ctx.sample(|| q.source(&m));
                }
            }
            Ok(())
        },
    )
}

fn filter_alphabet() -> Vec<Option<u32>> {
    let mut v: Vec<Option<u32>> = vec![None];
    v.extend(set_alphabet().into_iter().map(Some));
    v.extend([0b11, 0b101 << 7, 1 | 1 << 29, (1 << 12) | (1 << 7) | (1 << 26), (1 << 15) - 1, ALL & !((1 << 15) - 1), 0x1555_5555, 0x2AAA_AAAA].map(Some));
    v
}

/// Ranges of categories, of every size, in two cyclic orders: by number and by abbreviation.
pub fn spans() -> Vec<u32> {
    let mut by_name: Vec<usize> = (0..30).collect();
    by_name.sort_by_key(|&i| CATS[i].0);
    let mut out = vec![];
    for order in [(0..30).collect::<Vec<usize>>(), by_name] {
        for start in 0..30 {
            let mut mask = 0;
            for len in 0..29 {
                mask |= 1 << order[(start + len) % 30];
                out.push(mask);
            }
        }
    }
    out.sort_unstable();
    out.dedup();
    out
}

/// Windows with both ends at constants of the code, in all versions.
fn lexicon_windows(m: &M, o: Oracle, sets: Vec<u32>, vers: Vec<usize>) -> Suite {
    let m = m.clone();
    let ends = crate::lex::codepoints();
    let extra = [32u32, 33, 64];
    let mut ends: Vec<u32> = ends.into_iter().chain(extra).collect();
    ends.sort_unstable();
    ends.dedup();
    Suite::new(
        "lexicon-windows",
        &format!("all windows between {} code points: constants of the sources and their neighbours; {} sets x {} versions, by inclusion and exclusion in turn", ends.len(), sets.len(), vers.len()),
        sets.len() * vers.len(),
        move |u, ctx| {
            let (set, ver) = (sets[u % sets.len()], vers[u / sets.len()]);
            let mut s = Scratch::default();
            for (i, &lo) in ends.iter().enumerate() {
                for (j, &hi) in ends.iter().enumerate().skip(i) {
                    check_query(&m, &ask(Q::new(ver), set, (i + j) % 2 == 1 && set != 0).range(lo, hi), o, &mut s, ctx)?;
                }
            }
            Ok(())
        },
    )
}

/// Characters at constants of the code.
fn lexicon_chars(m: &M, o: Oracle, vers: Vec<usize>) -> Suite {
    let m = m.clone();
    let mut alpha: Vec<char> = crate::lex::codepoints().into_iter().filter_map(char::from_u32).collect();
    alpha.truncate(100);
    let (is, es) = (strings(&alpha, 2), strings(&alpha, 1));
    let cx: Vec<_> = [0usize, 2, 5, 7].iter().map(|&i| contexts()[i]).collect();
    Suite::new(
        "lexicon-chars",
        &format!("all include strings of length <=2 x exclude strings of length <=1 over {} characters: constants of the sources and their neighbours; {} contexts x {} versions", alpha.len(), cx.len(), vers.len()),
        is.len() * vers.len(),
        move |u, ctx| {
            let (incs, ver) = (&is[u % is.len()], vers[u / is.len()]);
            let mut s = Scratch::default();
            for excs in &es {
                for (k, &(inc, exc, a, b)) in cx.iter().enumerate() {
                    let q = Q { ver, inc, exc, incs, excs, min: a, max: b };
                    check_query(&m, &q, o, &mut s, ctx)?;
                    if k < 2 {
                        check_query(&m, &Q { incs: excs, excs: incs, ..q }, o, &mut s, ctx)?;
                    }
                }
            }
            Ok(())
        },
    )
}

/// Include and exclude filters of every size, nested, overlapping and equal.
fn span_pairs(m: &M, o: Oracle, vers: Vec<usize>) -> Suite {
    let m = m.clone();
    let all = spans();
    let incs: Vec<u32> = all.iter().copied().step_by(7).chain((1..30).map(|k| (1u32 << k) - 1)).chain([ALL]).collect();
    let n = incs.len();
    Suite::new(
        "span-pairs",
        &format!("{n} included x {} excluded ranges of 1..=29 categories (in two orders), full and small windows, x {} versions", all.len(), vers.len()),
        n * vers.len(),
        move |u, ctx| {
            let (inc, ver) = (incs[u % n], vers[u / n]);
            let mut s = Scratch::default();
            for (k, &exc) in all.iter().enumerate() {
                let (a, b) = [(0, MAX), (0, 255), (0x20, 0x17F)][k % 3];
                check_query(&m, &Q { inc: Some(inc), exc: Some(exc), ..Q::new(ver).range(a, b) }, o, &mut s, ctx)?;
            }
            Ok(())
        },
    )
}

/// All seven parameters together, each over a small alphabet.
fn mixed(m: &M, o: Oracle, with_chars: bool, wide: bool, vers: Vec<usize>) -> Suite {
    let m = m.clone();
    let g = |l: u8| group_mask(l);
    let lu = 1u32 << 9;
    let mut filters: Vec<Option<u32>> = vec![None];
    filters.extend([0, ALL, lu, lu | 1 << 5, 1 << 2, 1 << 3 | 1 << 4, g(b'L'), g(b'P') | g(b'S'), g(b'C'), ALL & !(1 << 2), ALL & !lu, 1 << 11 | 1 << 13 | 1 << 29, (1 << 15) - 1].map(Some));
    if wide || !with_chars {
        filters.extend([1 << 29, 1 << 0, ALL & !g(b'L'), g(b'M') | g(b'N'), 0x1555_5555, ALL & !(1 << 7), 1 << 26 | 1 << 7, ALL & !((1 << 15) - 1)].map(Some));
    }
    let mut windows: Vec<Iv> = vec![(0, MAX), (0, 255), (0, 256), (65, 90), (0x20, 0x17F), (0xFF, 0x100), (0x100, MAX), (0x3000, 0x9FFF), (0xD7FF, 0xE000), (MAX, MAX), (1, MAX), (0, MAX - 1), (0xFFFF, 0x1_0400)];
    if wide || !with_chars {
        windows.extend([(0, 0), (0, 0x7F), (0x80, 0xFF), (0x41, 0x41), (0x0, 0xFFFF), (0x1_0000, MAX), (0x370, 0x3FF), (0xE_0000, 0x10_0000), (0x100, 0x24F), (255, MAX), (0x2028, 0x2029), (0x1FFF, 0x2_0000)]);
    }
    let strings: Vec<String> = if with_chars {
        let mut v: Vec<String> = ["", "A", "aZ", "\u{e9}", "\u{2603}", "\u{10FFFF}\u{e000}", "A\u{2603}", "\0\u{ff}"].map(String::from).to_vec();
        v.push((0x30u32..0x30 + 40).filter_map(char::from_u32).collect());
        v.push((0xF0u32..0xF0 + 140).step_by(2).filter_map(char::from_u32).collect());
        if wide {
            v.extend(["ba", "AA", "\u{100}", "B\u{ff}\u{100}", "\u{d7ff}"].map(String::from));
        }
        v
    } else {
        vec![String::new()]
    };
    let (f, w) = (filters.len(), windows.len());
    Suite::new(
        "mixed",
        &format!("the product of {f} included x {f} excluded filters x {w} windows x {n} include x {n} exclude strings x {} versions", vers.len(), n = strings.len()),
        f * f * vers.len(),
        move |u, ctx| {
            let (inc, exc, ver) = (filters[u % f], filters[u / f % f], vers[u / f / f]);
            let mut s = Scratch::default();
            for &(a, b) in &windows {
                for incs in &strings {
                    for excs in &strings {
                        let q = Q { ver, inc, exc, incs, excs, min: a, max: b };
                        check_query(&m, &q, o, &mut s, ctx)?;
                    }
                }
            }
            ctx.sample(|| Q { ver, inc, exc, incs: &strings[strings.len() - 1], excs: "", min: 0, max: 255 }.source(&m));
            Ok(())
        },
    )
}

/// Category sets of every size at windows of all kinds.
fn span_windows(m: &M, o: Oracle, vers: Vec<usize>) -> Suite {
    let m = m.clone();
    let sets = spans();
    let ends = [0u32, 1, 0x40, 0x41, 0x5A, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x17F, 0x370, 0x1FFF, 0x2028, 0x3000, 0x9FFF, 0xD7FF, 0xDFFF, 0xFFFF, 0x1_0000, 0x1_F600, 0xE_0000, MAX - 1, MAX];
    let n = sets.len().div_ceil(8);
    Suite::new(
        "span-windows",
        &format!("{} ranges of 1..=29 categories (in two orders) x all windows between {} code points x {} versions, by inclusion and exclusion in turn", sets.len(), ends.len(), vers.len()),
        n * vers.len(),
        move |u, ctx| {
            let (block, ver) = (u % n, vers[u / n]);
            let mut s = Scratch::default();
            for (k, &set) in sets.iter().enumerate().skip(block * 8).take(8) {
                for (i, &lo) in ends.iter().enumerate() {
                    for (j, &hi) in ends.iter().enumerate().skip(i) {
                        check_query(&m, &ask(Q::new(ver), set, (i + j + k) % 2 == 1).range(lo, hi), o, &mut s, ctx)?;
                    }
                }
            }
            Ok(())
        },
    )
}

/// All pairs (included set, excluded set).
fn filter_pairs(m: &M, o: Oracle, vers: Vec<usize>, windows: Vec<Iv>, name: &str) -> Suite {
    let m = m.clone();
    let f = filter_alphabet();
    Suite::new(
        name,
        &format!("all pairs (include, exclude) over {} filters (none, empty, all, singles, complements, groups, ...) x {} versions x {} windows", f.len(), vers.len(), windows.len()),
        f.len() * vers.len(),
        move |u, ctx| {
            let (inc, ver) = (f[u % f.len()], vers[u / f.len()]);
            let mut s = Scratch::default();
            for &exc in &f {
                for &(a, b) in &windows {
                    let q = Q { inc, exc, ..Q::new(ver).range(a, b) };
                    check_query(&m, &q, o, &mut s, ctx)?;
                    ctx.sample(|| q.source(&m));
                }
            }
            Ok(())
        },
    )
}

/// Categories that matter for the 256-bit path: every subset of those present below 256.
fn latin_subsets(m: &M, o: Oracle, limit_bits: u32, vers: Vec<usize>, windows: Vec<Iv>, name: &str) -> Suite {
    let m = m.clone();
    let own = &m.vers[m.latest()].own;
    let mut present: Vec<u32> = vec![];
    for cp in 0..256 {
        let x = own.mask_at(cp);
        for i in 0..30 {
            if x >> i & 1 == 1 && !present.contains(&i) {
                present.push(i);
            }
        }
    }
    let bits = (present.len() as u32).min(limit_bits);
    let m2 = m.clone();
    let hi = bits.saturating_sub(8);
    Suite::new(
        name,
        &format!("all 2^{bits} subsets of the first {bits} of the {} categories present below U+0100, at {} windows, x {} versions", present.len(), windows.len(), vers.len()),
        (1usize << hi) * vers.len(),
        move |u, ctx| {
            let (block, ver) = (u & ((1 << hi) - 1), vers[u >> hi]);
            let mut s = Scratch::default();
            for low in 0..1usize << bits.min(8) {
                let pick = block << bits.min(8) | low;
                let mask: u32 = (0..bits).filter(|i| pick >> i & 1 == 1).map(|i| 1 << present[i as usize]).sum();
                for &(a, b) in &windows {
                    let q = ask(Q::new(ver), mask, pick % 3 == 1 && mask != 0).range(a, b);
                    check_query(&m2, &q, o, &mut s, ctx)?;
                }
            }
            Ok(())
        },
    )
}

fn c(x: u32) -> char {
    char::from_u32(x).expect("scalar")
}

/// Characters at which representations change, simplest first.
fn char_alphabet(n: usize) -> Vec<char> {
    [0x41, 0xFF, 0x100, 0x40, 0x3F, MAX, 0, 0x7F, 0x80, 0xBF, 0xC0, 0xD7FF, 0xE000, 0x42, 0x101, 0xFE, 0x10FFFE, 1, 0x2028, 0x2029, 0xFFFF, 0x10000, 0x30, 0x20]
        .iter()
        .take(n)
        .map(|&x| c(x))
        .collect()
}

fn strings(alpha: &[char], max_len: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..max_len {
        last = last.iter().flat_map(|s| alpha.iter().map(move |&ch| format!("{s}{ch}"))).collect();
        out.extend(last.iter().cloned());
    }
    out
}

/// (filter set, window) contexts in which strings are tried.
fn contexts() -> Vec<(Option<u32>, Option<u32>, u32, u32)> {
    let lu = 1 << 9;
    let zl = 1 << 27;
    let co = 1 << 3;
    let cs = 1 << 4;
    vec![
        (Some(0), None, 0, MAX),
        (Some(0), None, 0, 255),
        (None, None, 0, 255),
        (None, None, 0, 254),
        (None, None, 0, 256),
        (None, None, 0, MAX),
        (Some(lu), None, 0, 255),
        (Some(lu), None, 0, 300),
        (Some(lu | 1), None, 32, 200),
        (Some(lu | 1), None, 32, 600),
        (Some(zl), None, 0, MAX),
        (Some(co), None, 0x10_0000, MAX),
        (None, Some(lu), 64, 66),
        (None, Some(lu), 0xFE, 0x101),
        (Some(cs | co), None, 0xD7FE, 0xE001),
        (Some(lu), None, 63, 64),
    ]
}

/// All ordered strings up to a length, for both parameters together.
fn char_strings(m: &M, o: Oracle, n: usize, inc_len: usize, exc_len: usize, vers: Vec<usize>, name: &str) -> Suite {
    let m = m.clone();
    let alpha = char_alphabet(n);
    let (is, es) = (strings(&alpha, inc_len), strings(&alpha, exc_len));
    let cx = contexts();
    Suite::new(
        name,
        &format!("all include strings of length <={inc_len} x all exclude strings of length <={exc_len} over {n} boundary characters, {} filter/window contexts x {} versions", cx.len(), vers.len()),
        is.len() * vers.len(),
        move |u, ctx| {
            let (incs, ver) = (&is[u % is.len()], vers[u / is.len()]);
            let mut s = Scratch::default();
            for excs in &es {
                for &(inc, exc, a, b) in &cx {
                    let q = Q { ver, inc, exc, incs, excs, min: a, max: b };
                    check_query(&m, &q, o, &mut s, ctx)?;
                }
            }
            ctx.sample(|| Q::new(ver).chars(incs, &es[es.len() / 2]).source(&m));
            Ok(())
        },
    )
}

/// Every assignment absent / included / excluded / both to the points of a window.
fn char_assignments(m: &M, o: Oracle, width: usize, vers: Vec<usize>, name: &str) -> Suite {
    let m = m.clone();
    let windows: Vec<Vec<char>> = [0u32, 60, 124, 188, 252, 0xD7FC, 0xFFFC, MAX + 1 - width as u32]
        .iter()
        .map(|&start| (start..).filter_map(char::from_u32).take(width).collect())
        .collect();
    let total = 1usize << (2 * width);
    let per = total / 64;
    let bases: Vec<(Option<u32>, Option<u32>, u32, u32)> = vec![
        (Some(0), None, 0, MAX),
        (Some(0), None, 0, 255),
        (None, None, 0, 255),
        (None, None, 0, MAX),
        (None, Some(1 << 9), 0, 600),
        (Some(1 << 9 | 1 << 5 | 1 << 4 | 1 << 3), None, 0, MAX),
        (None, None, 62, 66),
        (None, None, 254, 257),
    ];
    Suite::new(
        name,
        &format!("all 4^{width} assignments absent/included/excluded/both to {width} consecutive characters, {} positions x {} contexts x {} versions", windows.len(), bases.len(), vers.len()),
        64 * windows.len() * vers.len(),
        move |u, ctx| {
            let (block, rest) = (u % 64, u / 64);
            let (w, ver) = (&windows[rest % windows.len()], vers[rest / windows.len()]);
            let mut s = Scratch::default();
            let (mut i, mut e) = (String::new(), String::new());
            for k in block * per..(block + 1) * per {
                i.clear();
                e.clear();
                for (p, &ch) in w.iter().enumerate() {
                    let d = k >> (2 * p) & 3;
                    if d & 1 == 1 {
                        i.push(ch);
                    }
                    if d & 2 == 2 {
                        e.push(ch);
                    }
                }
                for &(inc, exc, a, b) in &bases {
                    if (a, b) == (0, MAX) && inc.is_some_and(|x| x.count_ones() > 1) && k % 16 != 0 {
                        continue; // the large base only with the last two points free
                    }
                    check_query(&m, &Q { ver, inc, exc, incs: &i, excs: &e, min: a, max: b }, o, &mut s, ctx)?;
                }
            }
            Ok(())
        },
    )
}

/// The same inside long strings.
fn padded_assignments(m: &M, o: Oracle, width: usize, pads: Vec<usize>, vers: Vec<usize>) -> Suite {
    let m = m.clone();
    let windows: Vec<Vec<char>> = [60u32, 188, 252, 0xD7FC, 0xFFFC, MAX + 1 - width as u32]
        .iter()
        .map(|&start| (start..).filter_map(char::from_u32).take(width).collect())
        .collect();
    let total = 1usize << (2 * width);
    let bases: Vec<(Option<u32>, u32, u32)> = vec![(Some(0), 0, MAX), (None, 0, 255), (Some(1 << 9), 0, 600)];
    Suite::new(
        "padded-assignments",
        &format!("all 4^{width} assignments absent/included/excluded/both to {width} consecutive characters, {} positions, in strings with {pads:?} other characters before or after (in the include string, the exclude string, both), {} contexts x {} versions", windows.len(), bases.len(), vers.len()),
        16 * windows.len() * pads.len() * vers.len(),
        move |u, ctx| {
            let (block, rest) = (u % 16, u / 16);
            let (w, rest) = (&windows[rest % windows.len()], rest / windows.len());
            let (n, ver) = (pads[rest % pads.len()], vers[rest / pads.len()]);
            let mut s = Scratch::default();
            // Mixed: below 256 as far as that goes, then every third character further up.
            let filler: String = (0..n as u32).map(|i| if i < 100 { 0x21 + i * 3 % 0x97 } else { 0x400 + i * 3 }).filter_map(char::from_u32).filter(|c| !w.contains(c)).collect();
            let (mut i, mut e) = (String::new(), String::new());
            for k in block * total / 16..(block + 1) * total / 16 {
                for (pad_i, pad_e, before) in [(true, false, true), (false, true, true), (true, true, k % 2 == 0)] {
                    i.clear();
                    e.clear();
                    if before {
                        if pad_i {
                            i.push_str(&filler);
                        }
                        if pad_e {
                            e.push_str(&filler);
                        }
                    }
                    for (p, &ch) in w.iter().enumerate() {
                        let d = k >> (2 * p) & 3;
                        if d & 1 == 1 {
                            i.push(ch);
                        }
                        if d & 2 == 2 {
                            e.push(ch);
                        }
                    }
                    if !before {
                        if pad_i {
                            i.push_str(&filler);
                        }
                        if pad_e {
                            e.push_str(&filler);
                        }
                    }
                    let (inc, a, b) = bases[k % bases.len()];
                    check_query(&m, &Q { ver, inc, exc: None, incs: &i, excs: &e, min: a, max: b }, o, &mut s, ctx)?;
                    if k % 16 == 0 {
                        for &(inc, a, b) in &bases {
                            check_query(&m, &Q { ver, inc, exc: None, incs: &i, excs: &e, min: a, max: b }, o, &mut s, ctx)?;
                        }
                    }
                }
            }
            Ok(())
        },
    )
}

/// Every character, included, excluded and both.
fn every_char(m: &M, o: Oracle, vers: Vec<usize>, wide: bool, name: &str) -> Suite {
    let m = m.clone();
    let lu = 1 << 9;
    let mut bases: Vec<(Option<u32>, u32, u32)> = vec![(Some(0), 0, MAX), (None, 0, MAX), (None, 0, 255), (Some(lu), 0, 255), (Some(lu | 1 << 5), 60, 300), (Some(1 << 27), 0, MAX)];
    if wide {
        bases.push((Some(lu), 0, MAX));
    }
    Suite::new(
        name,
        &format!("every Unicode scalar value as include, exclude, both, and doubled, {} contexts x {} versions", bases.len(), vers.len()),
        256 * vers.len(),
        move |u, ctx| {
            let (chunk, ver) = ((u % 256) as u32, vers[u / 256]);
            let mut s = Scratch::default();
            let mut b1 = [0u8; 4];
            for cp in chunk * 0x1100..(chunk + 1) * 0x1100 {
                let Some(ch) = char::from_u32(cp) else { continue };
                let one: &str = ch.encode_utf8(&mut b1);
                for &(inc, a, b) in &bases {
                    let q = Q { inc, ..Q::new(ver).range(a, b) };
                    check_query(&m, &q.chars(one, ""), o, &mut s, ctx)?;
                    check_query(&m, &q.chars("", one), o, &mut s, ctx)?;
                    check_query(&m, &q.chars(one, one), o, &mut s, ctx)?;
                }
            }
            Ok(())
        },
    )
}

/// Characters at the edges of every run of a category.
fn edge_chars(m: &M, o: Oracle, sets: Vec<u32>, vers: Vec<usize>, name: &str) -> Suite {
    let m = m.clone();
    Suite::new(
        name,
        &format!("characters on, before and after every run edge of the set: alone, and with the opposite edge; {} sets x {} versions, unbounded and bounded to the run", sets.len(), vers.len()),
        sets.len() * vers.len(),
        move |u, ctx| {
            let (set, ver) = (sets[u % sets.len()], vers[u / sets.len()]);
            let mut s = Scratch::default();
            let mut runs = vec![];
            m.vers[ver].own.select(set, 0, MAX, &mut runs);
            for (k, &(a, b)) in runs.iter().enumerate() {
                let near: Vec<char> = [a.wrapping_sub(1), a, (a + b) / 2, b, b + 1].iter().filter_map(|&x| char::from_u32(x)).collect();
                let all: String = near.iter().collect();
                let outer: String = [near[0], near[near.len() - 1]].iter().collect();
                let q = Q::new(ver).inc(set);
                let full = k % 8 == 0;
                for ch in &near {
                    let one = ch.to_string();
                    for (i, e) in [(one.as_str(), ""), ("", one.as_str()), (all.as_str(), one.as_str()), (one.as_str(), all.as_str())] {
                        check_query(&m, &q.range(a, b).chars(i, e), o, &mut s, ctx)?;
                        if full {
                            check_query(&m, &q.chars(i, e), o, &mut s, ctx)?;
                        }
                    }
                }
                for (i, e) in [(all.as_str(), ""), ("", all.as_str()), (outer.as_str(), ""), ("", outer.as_str()), (outer.as_str(), all.as_str())] {
                    check_query(&m, &q.chars(i, e), o, &mut s, ctx)?;
                    check_query(&m, &q.range(a.saturating_sub(1), (b + 1).min(MAX)).chars(i, e), o, &mut s, ctx)?;
                }
            }
            Ok(())
        },
    )
}

/// Long strings: every length up to a limit and around powers of two, in several orders.
fn long_strings(m: &M, o: Oracle, all_to: usize, pow_to: usize, name: &str) -> Suite {
    let mut lens: Vec<usize> = (1..=all_to).collect();
    let mut p = all_to.next_power_of_two();
    while p <= pow_to {
        lens.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    lens.extend(crate::lex::lengths(pow_to as u32).into_iter().filter(|&n| n > all_to));
    lens.sort_unstable();
    lens.dedup();
    let bound = format!("include and exclude strings of every length 1..={all_to} and around powers of two to {pow_to}");
    strings_of(m, o, lens, vec![0u32, 0x20, 0xC0, 0xD780, 0x3000, 0x10_F000], &bound, name)
}

fn strings_of(m: &M, o: Oracle, lens: Vec<usize>, starts: Vec<u32>, bound: &str, name: &str) -> Suite {
    let m = m.clone();
    let orders = 6usize;
    let ver = m.latest();
    Suite::new(
        name,
        &format!("{bound}, from {} starts, in {orders} orders (ascending, descending, every other, doubled, interleaved, one repeated), as include, exclude and both", starts.len()),
        lens.len() * starts.len(),
        move |u, ctx| {
            let (n, start) = (lens[u % lens.len()], starts[u / lens.len()]);
            let mut s = Scratch::default();
            let asc: Vec<char> = (start..=MAX).filter_map(char::from_u32).take(n).collect();
            for k in 0..orders {
                let t: String = match k {
                    0 => asc.iter().collect(),
                    1 => asc.iter().rev().collect(),
                    2 => (start..=MAX).step_by(2).filter_map(char::from_u32).take(n).collect(),
                    3 => asc.iter().take(n / 2 + 1).chain(asc.iter().take(n / 2)).collect(),
                    4 => {
                        let (x, y) = asc.split_at(asc.len() / 2);
                        let mut t = String::new();
                        for i in 0..y.len() {
                            t.push(y[i]);
                            if i < x.len() {
                                t.push(x[i]);
                            }
                        }
                        t
                    }
                    _ => std::iter::repeat_n(asc[0], n).collect(),
                };
                let half: String = t.chars().take(n / 2).collect();
                for (inc, a, b) in [(Some(0), 0, MAX), (None, 0, 255), (Some(1 << 9), 0, 255), (Some(1 << 9), 0, 0x300), (None, 0, MAX)] {
                    let q = Q { inc, ..Q::new(ver).range(a, b) };
                    for (i, e) in [(t.as_str(), ""), ("", t.as_str()), (t.as_str(), half.as_str()), (half.as_str(), t.as_str())] {
                        check_query(&m, &q.chars(i, e), o, &mut s, ctx)?;
                    }
                }
                ctx.sample(|| Q::new(ver).chars(&t, "").source(&m));
            }
            Ok(())
        },
    )
}

/// Lists of adjacent runs made by characters next to category runs, for canonical form.
const STD_WINDOWS: [Iv; 8] = [(0, MAX), (0, 255), (0, 256), (65, 90), (0x20, 0x17F), (0x3000, 0x9FFF), (0x10FFFE, MAX), (0xD7FF, 0xE000)];

pub fn query_suites(m: &M, prop: &str, thorough: bool) -> Vec<Suite> {
    let o = match prop {
        "C01" => Oracle::Reference,
        "C02" => Oracle::Canonical,
        _ => Oracle::Own,
    };
    let (t, all, some, one) = (thorough, all_versions(m), some_versions(m), vec![m.latest()]);
    let light = !t && matches!(prop, "C01" | "C02");
    let mut s12 = vec![0, ALL];
    for k in 1..=2 {
        let v = subsets_of_size(30, k);
        s12.extend(complements(&v));
        s12.extend(v);
    }
    let pairs = subsets_of_size(30, 2);
    let mut s3 = subsets_of_size(30, 3);
    s3.extend(complements(&s3.clone()));
    let bounds = |v: &mut Vec<Suite>| {
        v.push(small_windows(m, o, set_alphabet(), all.clone(), "small-windows"));
        let mut sets = singles();
        sets.extend(groups());
        sets.extend([0, ALL, ALL & !(1 << 2), ALL & !(1 << 9), 0x1555_5555]);
        v.push(lexicon_windows(m, o, sets, all.clone()));
        v.push(span_windows(m, o, if t { all.clone() } else { some.clone() }));
        v.push(edge_windows(m, o, singles(), all.clone(), 12, true, "edge-windows-single"));
        v.push(edge_windows(m, o, groups(), all.clone(), if t { 16 } else { 8 }, true, "edge-windows-group"));
        v.push(edge_windows(m, o, complements(&singles()), if t { all.clone() } else if light { one.clone() } else { some.clone() }, if t { 8 } else { 2 }, false, "edge-windows-complement"));
        v.push(edge_windows(m, o, pairs.clone(), if t { all.clone() } else if light { one.clone() } else { some.clone() }, if t { 8 } else { 4 }, false, "edge-windows-pair"));
        if t {
            v.push(edge_windows(m, o, subsets_of_size(30, 3), some.clone(), 4, false, "edge-windows-triple"));
            v.push(one_sided(m, o, singles(), all.clone(), 1, "one-sided-single"));
            v.push(one_sided(m, o, groups(), one.clone(), 7, "one-sided-group"));
            v.push(points(m, o, groups(), all.clone(), "point-windows-group"));
        } else {
            v.push(one_sided(m, o, singles(), one.clone(), 7, "one-sided-single"));
        }
        v.push(points(m, o, singles(), if light { some.clone() } else { all.clone() }, "point-windows"));
        v.push(points(m, o, vec![ALL, 0], one.clone(), "point-windows-all-none"));
    };
    let cats = |v: &mut Vec<Suite>| {
        v.push(sets_at(m, o, s12.clone(), all.clone(), STD_WINDOWS.to_vec(), "sets-2", "all category sets of size <=2 or >=28"));
        v.push(sets_at(m, o, s3.clone(), if light { some.clone() } else { all.clone() }, vec![(0, MAX), (0, 255), (0x20, 0x17F)], "sets-3", "all category sets of size 3 or 27"));
        {
            let mut s4 = subsets_of_size(30, 4);
            s4.extend(complements(&s4.clone()));
            v.push(sets_at(m, o, s4, if t { all.clone() } else { one.clone() }, vec![(0, MAX), (0, 255), (0x20, 0x17F)], "sets-4", "all category sets of size 4 or 26"));
        }
        if t {
            let mut s5 = subsets_of_size(30, 5);
            s5.extend(complements(&s5.clone()));
            v.push(sets_at(m, o, s5, one.clone(), vec![(0, MAX), (0, 255)], "sets-5", "all category sets of size 5 or 25"));
        }
        let unions: Vec<u32> = (0..128u32).map(|k| (0..7).filter(|i| k >> i & 1 == 1).map(|i| group_mask(GROUP_LETTERS[i])).sum()).collect();
        v.push(sets_at(m, o, unions, all.clone(), STD_WINDOWS.to_vec(), "group-unions", "all 128 unions of major classes"));
        v.push(sets_at(m, o, spans(), all.clone(), STD_WINDOWS.to_vec(), "spans", "all cyclic ranges of 1..=29 categories by number and by abbreviation"));
        v.push(span_pairs(m, o, if t { all.clone() } else { one.clone() }));
        v.push(filter_pairs(m, o, all.clone(), STD_WINDOWS.to_vec(), "filter-pairs"));
        v.push(latin_subsets(m, o, 24, if t { all.clone() } else { one.clone() }, vec![(0, 255), (0x20, 0x7E), (0x80, 0x17F)], "latin-subsets"));
    };
    let chars = |v: &mut Vec<Suite>| {
        v.push(char_strings(m, o, if light { 16 } else { 24 }, 2, 2, one.clone(), "strings-2-2"));
        v.push(char_strings(m, o, if t { 14 } else if light { 7 } else { 9 }, 3, 2, one.clone(), "strings-3-2"));
        if t {
            v.push(char_strings(m, o, 7, 4, 3, one.clone(), "strings-4-3"));
        }
        v.push(lexicon_chars(m, o, if light { one.clone() } else { all.clone() }));
        v.push(char_strings(m, o, if t { 16 } else if light { 8 } else { 12 }, 2, 2, all.clone(), "strings-2-2-versions"));
        v.push(char_strings(m, o, 12, 1, 1, all.clone(), "strings-1-1"));
        v.push(char_assignments(m, o, if t { 10 } else if light { 7 } else { 8 }, one.clone(), "assignments"));
        v.push(padded_assignments(m, o, if t { 7 } else { 5 }, vec![7, 17, 33, 65, 130, 260], one.clone()));
        v.push(every_char(m, o, if t { all.clone() } else { one.clone() }, true, "every-char"));
        v.push(edge_chars(m, o, singles(), if light { some.clone() } else { all.clone() }, "edge-chars"));
        if t {
            v.push(edge_chars(m, o, groups(), some.clone(), "edge-chars-group"));
        }
        v.push(long_strings(m, o, if t { 1200 } else { 300 }, 65536, "long-strings"));
        let huge = if t { vec![131_071, 131_072, 131_073, 262_143, 262_145, 524_287, 524_289, 1_048_575, 1_048_576, 1_048_577, 1_112_063, 1_112_064] } else { vec![131_073, 524_289, 1_112_064] };
        v.push(strings_of(m, o, huge.clone(), vec![0], &format!("strings of {huge:?} characters (all there are)"), "huge-strings"));
    };
    let mut v = vec![mixed(m, o, prop != "C03", t, all.clone())];
    match prop {
        "C01" => {
            cats(&mut v);
            bounds(&mut v);
            chars(&mut v);
        }
        "C02" => {
            cats(&mut v);
            chars(&mut v);
            bounds(&mut v);
        }
        "C03" => {
            bounds(&mut v);
            v.push(sets_at(m, o, s12.clone(), all.clone(), STD_WINDOWS.to_vec(), "sets-2", "all category sets of size <=2 or >=28"));
        }
        "C04" => cats(&mut v),
        _ => chars(&mut v),
    }
    v
}

// ---------------------------------------------------------------- C06

fn bound_values(dense: bool) -> Vec<u32> {
    let mut v: Vec<u32> = vec![0, 1, 2, 63, 64, 65, 66, 127, 128, 254, 255, 256, 257, 0xD7FF, 0xD800, 0xDFFF, 0xE000];
    for p in 1..32 {
        let x = 1u32 << p;
        v.extend([x - 1, x, x + 1]);
    }
    for base in [MAX, 0x11_0000, 0x110_0000, 0x7FFF_FFFF, 0x8010_FFFF, u32::MAX - 1] {
        let r = if dense { 40 } else { 3 };
        v.extend(base.saturating_sub(r)..=base.saturating_add(r));
    }
    // Same low bits as valid values, other high bits.
    for high in [1u32, 2, 0x10, 0x80, 0xFF] {
        v.extend([high << 24, high << 24 | 0x41, high << 24 | MAX]);
    }
    v.extend(crate::lex::numbers().into_iter().filter(|&x| x > 33));
    v.sort_unstable();
    v.dedup();
    v
}

fn check_bounds(m: &Model, q: &Q, ctx: &mut Ctx) -> Result<(), String> {
    let want = if q.min > MAX || q.max > MAX {
        Some(Error::CodepointNotInRange(q.min, q.max))
    } else if q.min > q.max {
        Some(Error::InvalidCodepoints(q.min, q.max))
    } else {
        None
    };
    ctx.outcome(hash_words([u64::from(want.is_some()), u64::from(q.min > MAX || q.max > MAX), u64::from(q.min) << 32 | u64::from(q.max)]));
    let b = q.builder(m);
    ctx.step();
    let got = guard(|| b.intervals()).map_err(|p| format!("{}\n  {p}", q.source(m)))?;
    ctx.step();
    let set = guard(|| b.interval_set()).map_err(|p| format!("{} (as interval_set)\n  {p}", q.source(m)))?;
    let (g, s) = (got.as_ref().err(), set.as_ref().err());
    if g != want.as_ref() || s != want.as_ref() {
        return Err(format!("{}\n  expected {want:?}, intervals() says {g:?}, interval_set() says {s:?}", q.source(m)));
    }
    Ok(())
}

pub fn bounds_suites(m: &M, thorough: bool) -> Vec<Suite> {
    let vals = bound_values(thorough);
    let mut out = vec![];
    let ctxs: Vec<(Option<u32>, Option<u32>, &'static str, &'static str)> = {
        let lu = 1 << 9;
        let mut v = vec![];
        for (i, e) in [(None, None), (Some(0), None), (Some(lu), None), (None, Some(lu)), (None, Some(ALL)), (Some(ALL), None), (Some(group_mask(b'L')), Some(lu))] {
            for (a, b) in [("", ""), ("A", ""), ("", "A"), ("\u{100}\u{10FFFF}", "\u{100}"), ("\u{10FFFF}", "")] {
                v.push((i, e, a, b));
            }
        }
        v
    };
    for (name, vers, n) in [("grid-contexts", vec![m.latest()], ctxs.len()), ("grid-versions", all_versions(m), 3)] {
        let (m, vals, ctxs) = (m.clone(), vals.clone(), ctxs.clone());
        out.push(Suite::new(
            name,
            &format!("all pairs of {} bound values (limits, powers of two, +-) x {n} filter/character contexts x {} versions", vals.len(), vers.len()),
            vals.len() * vers.len(),
            move |u, ctx| {
                let (min, ver) = (vals[u % vals.len()], vers[u / vals.len()]);
                for &max in &vals {
                    for &(inc, exc, incs, excs) in ctxs.iter().take(n) {
                        let q = Q { ver, inc, exc, incs, excs, min, max };
                        check_bounds(&m, &q, ctx)?;
                        ctx.sample(|| q.source(&m));
                    }
                }
                Ok(())
            },
        ));
    }
    {
        // Setting only one bound.
        let (m, vals) = (m.clone(), vals.clone());
        let n = m.vers.len();
        out.push(Suite::new("dense-edge", "all pairs with both bounds in 0x10FFE0..=0x11001F, and in 0xE0..=0x11F, all versions", n * 2, move |u, ctx| {
            let lo = if u / n == 0 { 0x10_FFE0 } else { 0xE0 };
            for min in lo..lo + 64 {
                for max in lo..lo + 64 {
                    check_bounds(&m, &Q::new(u % n).range(min, max).inc(1 << 9 | 1 << 2), ctx)?;
                    check_bounds(&m, &Q::new(u % n).range(min, max).inc(0), ctx)?;
                }
            }
            for &x in &vals {
                check_bounds(&m, &Q::new(u % n).range(x, MAX), ctx)?;
                check_bounds(&m, &Q::new(u % n).range(0, x), ctx)?;
            }
            Ok(())
        }));
    }
    {
        let m = m.clone();
        let step: u64 = if thorough { 1 } else { 127 };
        out.push(Suite::new(
            "one-bound-sweep",
            &format!("every {}u32 as min (max = 0xFF, MAX) and as max (min = 0, 0x100)", if thorough { String::new() } else { format!("{step}th ") }),
            4096,
            move |u, ctx| {
                let mut x = (u as u64) << 20;
                let end = x + (1 << 20);
                x = x.div_ceil(step) * step;
                while x < end {
                    let v = x as u32;
                    let ver = (x % m.vers.len() as u64) as usize;
                    for q in [Q::new(ver).inc(0).range(v, 0xFF), Q::new(ver).inc(0).range(v, MAX), Q::new(ver).inc(0).range(0, v), Q::new(ver).inc(0).range(0x100, v)] {
                        check_bounds(&m, &q, ctx)?;
                    }
                    x += step;
                }
                Ok(())
            },
        ));
    }
    out
}
