//! C11–C14, C16: category sets, names, versions, major classes.
use crate::engine::{guard, hash_words, mix, Ctx, Suite};
use crate::model::*;
use crate::queries::{subsets_of_size, M};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use unicode_intervals::{as_general_categories, Error, UnicodeCategory, UnicodeCategorySet as Set, UnicodeVersion};

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// Every observation of a set agrees with the mask.
fn observe(set: &Set, mask: u32, path: &dyn Fn() -> String, ctx: &mut Ctx) -> Result<(), String> {
    ctx.step();
    let r = guard(|| {
        let mut got = 0u32;
        for (i, c) in CATS.iter().enumerate() {
            if set.contains(c.2) {
                got |= 1 << i;
            }
        }
        (got, set.len(), set.is_empty())
    })
    .map_err(|p| format!("{}: {p}", path()))?;
    if r != (mask, mask.count_ones() as usize, mask == 0) {
        return Err(format!(
            "{}\n  contains {} (len {}, is_empty {}), expected {} (len {}, is_empty {})",
            path(),
            mask_names(r.0),
            r.1,
            r.2,
            mask_names(mask),
            mask.count_ones(),
            mask == 0
        ));
    }
    Ok(())
}

/// Sets with the same members are equal and hash alike, others are not equal.
fn same(a: &Set, ma: u32, b: &Set, mb: u32, path: &dyn Fn() -> String) -> Result<(), String> {
    let (eq, ne) = (*a == *b, *a != *b);
    if eq != (ma == mb) || ne == eq || (eq && h(a) != h(b)) {
        return Err(format!("{}: == is {eq} and != is {ne} between [{}] and [{}], hashes {:#x} {:#x}", path(), mask_names(ma), mask_names(mb), h(a), h(b)));
    }
    Ok(())
}

fn group_sets() -> Vec<(&'static str, Set, u32)> {
    use UnicodeCategory as U;
    let g: [(&'static str, Set); 7] = [("L", U::L), ("M", U::M), ("N", U::N), ("P", U::P), ("S", U::S), ("Z", U::Z), ("C", U::C)];
    g.iter().map(|&(n, s)| (n, s, group_mask(n.as_bytes()[0]))).collect()
}

/// All transitions out of one state.
fn transitions(set: Set, mask: u32, others: &[(Set, u32)], ctx: &mut Ctx) -> Result<(), String> {
    ctx.outcome(u64::from(mask));
    let here = || format!("set [{}]", mask_names(mask));
    observe(&set, mask, &here, ctx)?;
    let rebuilt = to_set(mask);
    same(&set, mask, &rebuilt, mask, &here)?;
    for (i, c) in CATS.iter().enumerate() {
        let bit = 1u32 << i;
        let p = |op: &str| format!("set [{}] {op} {}", mask_names(mask), c.0);
        let r = guard(|| {
            let mut a = set;
            a.add(c.2);
            let mut r = set;
            r.remove(c.2);
            let mut oa = set;
            oa |= c.2;
            (a, r, oa, set | c.2, c.2 | set)
        })
        .map_err(|e| format!("{}: {e}", p("with")))?;
        observe(&r.0, mask | bit, &|| p("add"), ctx)?;
        observe(&r.1, mask & !bit, &|| p("remove"), ctx)?;
        observe(&r.2, mask | bit, &|| p("|="), ctx)?;
        observe(&r.3, mask | bit, &|| p("|"), ctx)?;
        observe(&r.4, mask | bit, &|| p("category | set:"), ctx)?;
        same(&r.0, mask | bit, &r.4, mask | bit, &|| p("add vs |"))?;
        same(&r.0, mask | bit, &set, mask, &|| p("add vs before"))?;
        same(&r.1, mask & !bit, &set, mask, &|| p("remove vs before"))?;
    }
    for &(o, m) in others {
        let p = || format!("set [{}] | [{}]", mask_names(mask), mask_names(m));
        let r = guard(|| {
            let mut a = set;
            a |= o;
            (set | o, a, o | set)
        })
        .map_err(|e| format!("{}: {e}", p()))?;
        observe(&r.0, mask | m, &p, ctx)?;
        observe(&r.1, mask | m, &p, ctx)?;
        observe(&r.2, mask | m, &p, ctx)?;
        same(&set, mask, &o, m, &p)?;
    }
    observe(&set, mask, &|| format!("{} after all operations on copies", here()), ctx)
}

fn starts() -> Vec<(String, Set, u32)> {
    let mut v = vec![("new()".to_string(), Set::new(), 0), ("default()".into(), Set::default(), 0), ("all()".into(), Set::all(), ALL)];
    for (i, c) in CATS.iter().enumerate() {
        v.push((format!("from({})", c.0), Set::from(c.2), 1 << i));
        let o: Option<Set> = c.2.into();
        v.push((format!("Option::from({})", c.0), o.unwrap_or_default(), 1 << i));
        for (j, d) in CATS.iter().enumerate() {
            v.push((format!("{} | {}", c.0, d.0), c.2 | d.2, 1 << i | 1 << j));
        }
    }
    for (n, s, m) in group_sets() {
        v.push((n.to_string(), s, m));
    }
    v
}

fn small_and_large(k: u32) -> Vec<u32> {
    let mut v = vec![];
    for n in 0..=k {
        let s = subsets_of_size(30, n);
        v.extend(s.iter().map(|x| ALL & !x));
        v.extend(s);
    }
    v
}

/// Walk all 2^30 sets in Gray-code order: one add or remove per state, on the real object.
fn gray_suite(name: &str, bits: u32, offset: u32, f: fn(&Set, u32, &mut Ctx) -> Result<(), String>) -> Suite {
    let block_bits = bits.min(18);
    Suite::new(
        name,
        &format!("all 2^{bits} sets over categories {offset}..{} in Gray-code order, one add/remove per step on the real object", offset + bits),
        1 << (bits - block_bits),
        move |u, ctx| {
            let gray = |i: u64| (i ^ (i >> 1)) as u32;
            let first = (u as u64) << block_bits;
            let mut mask = gray(first) << offset;
            let mut set = to_set(mask);
            for i in first..first + (1 << block_bits) {
                if i > first {
                    let m = gray(i) << offset;
                    let flip = (m ^ mask).trailing_zeros();
                    if m & (1 << flip) != 0 {
                        set.add(CATS[flip as usize].2);
                    } else {
                        set.remove(CATS[flip as usize].2);
                    }
                    mask = m;
                }
                f(&set, mask, ctx)?;
            }
            ctx.sample(|| format!("[{}]", mask_names(mask)));
            Ok(())
        },
    )
}

fn observe_fast(set: &Set, mask: u32, ctx: &mut Ctx) -> Result<(), String> {
    if mask & 0xFFF == 0 {
        ctx.outcome(u64::from(mask));
    }
    observe(set, mask, &|| "after a chain of add/remove".to_string(), ctx)
}

pub fn c11(thorough: bool) -> Vec<Suite> {
    let mut out = vec![];
    let others: Vec<(Set, u32)> = starts().into_iter().filter(|s| s.0.len() < 12).map(|s| (s.1, s.2)).chain([(to_set(0x1555_5555), 0x1555_5555), (to_set(0x2AAA_AAAA), 0x2AAA_AAAA), (to_set(ALL & !1), ALL & !1)]).collect();
    {
        let st = starts();
        let others = others.clone();
        out.push(Suite::new("starts", "every start value (new, default, all, from category, Option from category, category|category, groups), all transitions", st.len(), move |u, ctx| {
            let (n, s, m) = &st[u];
            observe(s, *m, &|| n.clone(), ctx)?;
            transitions(*s, *m, &others, ctx)
        }));
    }
    {
        let states = small_and_large(if thorough { 5 } else { 3 });
        let others = others.clone();
        const B: usize = 32;
        out.push(Suite::new(
            "all-transitions",
            &format!("every set of size <={0} or >={1}: add, remove, |=, |, reversed | with each of 30 categories; | and |= with {2} sets; contains x 30, len, is_empty, ==, !=, hash after each", if thorough { 5 } else { 3 }, if thorough { 25 } else { 27 }, others.len()),
            states.len().div_ceil(B),
            move |u, ctx| {
                for &m in &states[u * B..states.len().min((u + 1) * B)] {
                    transitions(to_set(m), m, &others, ctx)?;
                }
                Ok(())
            },
        ));
    }
    {
        // Operation sequences, not merged by state: history must not matter.
        let cats: Vec<usize> = vec![0, 4, 9, 29, 12];
        let depth = if thorough { 6 } else { 5 };
        let ops = cats.len() * 2 + 4;
        out.push(Suite::new(
            "sequences",
            &format!("all sequences of length {depth} over add/remove of {} categories, |= group L, | all, |= self, | new, from new() and all()", cats.len()),
            ops * ops * 2,
            move |u, ctx| {
                let (start, first, second) = (u % 2, u / 2 % ops, u / 2 / ops);
                let mut idx = vec![0usize; depth];
                idx[0] = first;
                idx[1] = second;
                loop {
                    let (mut s, mut m) = if start == 0 { (Set::new(), 0) } else { (Set::all(), ALL) };
                    let trace = idx.clone();
                    for &op in &trace {
                        ctx.step();
                        if op < cats.len() * 2 {
                            let c = cats[op / 2];
                            if op % 2 == 0 {
                                s.add(CATS[c].2);
                                m |= 1 << c;
                            } else {
                                s.remove(CATS[c].2);
                                m &= !(1 << c);
                            }
                        } else {
                            match op - cats.len() * 2 {
                                0 => {
                                    s |= UnicodeCategory::L;
                                    m |= group_mask(b'L');
                                }
                                1 => {
                                    s = s | Set::all();
                                    m = ALL;
                                }
                                2 => {
                                    let t = s;
                                    s |= t;
                                }
                                _ => s = s | Set::new(),
                            }
                        }
                    }
                    ctx.outcome(u64::from(m));
                    observe(&s, m, &|| format!("start {start}, operations {trace:?}"), ctx)?;
                    let mut k = depth;
                    loop {
                        k -= 1;
                        if k < 2 {
                            return Ok(());
                        }
                        idx[k] += 1;
                        if idx[k] < ops {
                            break;
                        }
                        idx[k] = 0;
                    }
                }
            },
        ));
    }
    if thorough {
        out.push(gray_suite("gray-walk", 30, 0, observe_fast));
    } else {
        out.push(gray_suite("gray-walk-low", 20, 0, observe_fast));
        out.push(gray_suite("gray-walk-high", 20, 10, observe_fast));
    }
    {
        // Pairs of sets: equality, union.
        let sets: Vec<u32> = small_and_large(if thorough { 2 } else { 1 }).into_iter().chain((0..128u32).map(|k| (0..7).filter(|i| k >> i & 1 == 1).map(|i| group_mask(GROUP_LETTERS[i])).sum())).chain([0x1555_5555, 0x2AAA_AAAA, 0x3FFF, 0xFFFF, 0x3FFF_0000]).collect();
        out.push(Suite::new("pairs", &format!("all ordered pairs of {} sets: |, |=, ==, hash", sets.len()), sets.len(), move |u, ctx| {
            let (m, s) = (sets[u], to_set(sets[u]));
            for &n in &sets {
                let o = to_set(n);
                let p = || format!("[{}] | [{}]", mask_names(m), mask_names(n));
                let mut t = s;
                t |= o;
                observe(&(s | o), m | n, &p, ctx)?;
                observe(&t, m | n, &p, ctx)?;
                same(&s, m, &o, n, &p)?;
                same(&(s | o), m | n, &s, m, &p)?;
            }
            Ok(())
        }));
    }
    out
}

// ---------------------------------------------------------------- C12

fn order() -> Vec<usize> {
    Set::all().iter().map(cat_index).collect()
}

fn iterate(set: &Set, mask: u32, order: &[usize], deep: bool, ctx: &mut Ctx) -> Result<(), String> {
    let here = || format!("set [{}]", mask_names(mask));
    let want: Vec<usize> = order.iter().copied().filter(|i| mask >> i & 1 == 1).collect();
    let n = want.len();
    ctx.step();
    let r = guard(|| {
        let mut it = set.iter();
        for (k, &w) in want.iter().enumerate() {
            let left = n - k;
            if it.len() != left || it.size_hint() != (left, Some(left)) {
                return Err(format!("after {k} steps len() is {}, size_hint() {:?}, but {left} members are to come", it.len(), it.size_hint()));
            }
            match it.next() {
                Some(c) if cat_index(c) == w => {}
                g => return Err(format!("step {k} yields {g:?}, expected {}", CATS[w].0)),
            }
        }
        for k in 0..3 {
            if it.len() != 0 || it.size_hint() != (0, Some(0)) {
                return Err(format!("at the end len() is {}, size_hint() {:?}", it.len(), it.size_hint()));
            }
            if let Some(c) = it.next() {
                return Err(format!("extra item {c:?} ({k} calls after the end)"));
            }
        }
        Ok(())
    })
    .map_err(|p| format!("{}.iter(): {p}", here()))?;
    r.map_err(|e| format!("{}.iter(): {e}", here()))?;
    if !deep {
        return Ok(());
    }
    ctx.outcome(u64::from(mask));
    ctx.step();
    let text = guard(|| set.to_string()).map_err(|p| format!("{}.to_string(): {p}", here()))?;
    let wanted = want.iter().map(|&i| CATS[i].0).collect::<Vec<_>>().join(", ");
    if text != wanted {
        return Err(format!("{} prints as {text:?}, expected {wanted:?}", here()));
    }
    let id = |v: Vec<UnicodeCategory>| v.into_iter().map(cat_index).collect::<Vec<_>>();
    macro_rules! eq {
        ($name:expr, $got:expr, $want:expr) => {{
            ctx.step();
            let got = guard(|| $got).map_err(|p| format!("{}.iter().{}: {p}", here(), $name))?;
            let want = $want;
            if got != want {
                return Err(format!("{}.iter().{} = {got:?}, expected {want:?}", here(), $name));
            }
        }};
    }
    eq!("collect()", id(set.iter().collect()), want.clone());
    eq!("count()", set.iter().count(), n);
    eq!("last()", set.iter().last().map(cat_index), want.last().copied());
    eq!("fold", set.iter().fold(vec![], |mut v, c| { v.push(cat_index(c)); v }), want.clone());
    eq!("enumerate().len()", set.iter().enumerate().len(), n);
    eq!("fuse()", { let mut i = set.iter().fuse(); i.by_ref().count() + i.count() }, n);
    for k in [0usize, 1, 2, n / 2, n.saturating_sub(1), n, n + 1] {
        eq!(format!("take({k}).len()"), set.iter().take(k).len(), k.min(n));
        eq!(format!("skip({k}).len()"), set.iter().skip(k).len(), n.saturating_sub(k));
        eq!(format!("take({k})"), id(set.iter().take(k).collect()), want[..k.min(n)].to_vec());
        eq!(format!("skip({k})"), id(set.iter().skip(k).collect()), want[k.min(n)..].to_vec());
        eq!(format!("nth({k})"), { let mut i = set.iter(); let x = i.nth(k).map(cat_index); (x, i.len(), i.next().map(cat_index)) }, (want.get(k).copied(), n.saturating_sub(k + 1), want.get(k + 1).copied()));
        eq!(format!("step_by({})", k + 1), { let i = set.iter().step_by(k + 1); (i.len(), id(i.collect())) }, (n.div_ceil(k + 1), want.iter().copied().step_by(k + 1).collect::<Vec<_>>()));
        eq!(format!("zip, chunk of {k}"), set.iter().zip(0..k).len(), k.min(n));
    }
    // A copy of the set iterates independently.
    eq!("interleaved with another iterator", { let (mut a, mut b) = (set.iter(), set.iter()); let mut v = vec![]; for i in 0..2 * n { v.extend(if i % 2 == 0 { a.next() } else { b.next() }.map(cat_index)); } v }, want.iter().flat_map(|&x| [x, x]).collect::<Vec<_>>());
    Ok(())
}

pub fn c12(thorough: bool) -> Vec<Suite> {
    let mut out = vec![];
    let ord = order();
    {
        let ord = ord.clone();
        out.push(Suite::new("full-set", "the full set yields each of the 30 categories once; printing it", 1, move |_, ctx| {
            let mut seen = 0u32;
            for &i in &ord {
                ctx.step();
                if seen >> i & 1 == 1 {
                    return Err(format!("all().iter() yields {} twice", CATS[i].0));
                }
                seen |= 1 << i;
            }
            if seen != ALL {
                return Err(format!("all().iter() never yields {}", mask_names(ALL & !seen)));
            }
            iterate(&Set::all(), ALL, &ord, true, ctx)
        }));
    }
    {
        let (states, ord) = (small_and_large(if thorough { 5 } else { 4 }), ord.clone());
        const B: usize = 64;
        out.push(Suite::new(
            "small-and-large",
            &format!("every set of size <={0} or >={1}: items, order, exact length and size hint at every step, adaptors take/skip/nth/step_by/zip/enumerate, printing", if thorough { 5 } else { 4 }, if thorough { 25 } else { 26 }),
            states.len().div_ceil(B),
            move |u, ctx| {
                for &m in &states[u * B..states.len().min((u + 1) * B)] {
                    iterate(&to_set(m), m, &ord, true, ctx)?;
                }
                ctx.sample(|| format!("[{}]", mask_names(states[u * B])));
                Ok(())
            },
        ));
    }
    {
        let ord = ord.clone();
        out.push(Suite::new("group-unions", "all 128 unions of the predefined groups", 128, move |u, ctx| {
            let (mut s, mut m) = (Set::new(), 0);
            for (i, g) in group_sets().iter().enumerate() {
                if u >> i & 1 == 1 {
                    s |= g.1;
                    m |= g.2;
                }
            }
            iterate(&s, m, &ord, true, ctx)
        }));
    }
    {
        let (states, ord) = (small_and_large(if thorough { 3 } else { 2 }), ord.clone());
        const B: usize = 16;
        out.push(Suite::new(
            "methods",
            &format!("every set of size <={0} or >={1}, after 0, 1, 2, half, all but one and all steps: every provided method of Iterator, stopped at each member and never, then the rest, against a list", if thorough { 3 } else { 2 }, if thorough { 27 } else { 28 }),
            states.len().div_ceil(B),
            move |u, ctx| {
                for &m in &states[u * B..states.len().min((u + 1) * B)] {
                    let set = to_set(m);
                    let want: Vec<usize> = ord.iter().copied().filter(|i| m >> i & 1 == 1).collect();
                    let n = want.len();
                    let mut steps = vec![0, 1, 2, n / 2, n.saturating_sub(1), n];
                    steps.retain(|&k| k <= n);
                    steps.dedup();
                    for k in steps {
                        let here = || format!("set [{}]: iter() after {k} steps", mask_names(m));
                        let make = || {
                            let mut i = set.iter();
                            for _ in 0..k {
                                i.next();
                            }
                            i
                        };
                        crate::adapt::forward(&make, &want[k..], cat_index, &here, ctx)?;
                    }
                }
                Ok(())
            },
        ));
    }
    fn plain(set: &Set, mask: u32, ctx: &mut Ctx) -> Result<(), String> {
        thread_local!(static ORDER: Vec<usize> = order());
        ORDER.with(|o| iterate(set, mask, o, mask & 0xFFF == 0, ctx))
    }
    if thorough {
        out.push(gray_suite("gray-walk", 30, 0, plain));
    } else {
        out.push(gray_suite("gray-walk-low", 18, 0, plain));
        out.push(gray_suite("gray-walk-mid", 18, 6, plain));
        out.push(gray_suite("gray-walk-high", 18, 12, plain));
    }
    out
}

// ---------------------------------------------------------------- C13, C14

/// What a parser of names must answer.
trait Names: Send + Sync + 'static {
    fn known(&self, s: &str) -> Option<usize>;
    fn parse(&self, s: &str) -> Result<Result<usize, Error>, String>;
    fn error(&self, s: &str) -> Error;
    fn all(&self) -> Vec<String>;
}

struct CatNames;
impl Names for CatNames {
    fn known(&self, s: &str) -> Option<usize> {
        CATS.iter().position(|c| c.0 == s)
    }
    fn parse(&self, s: &str) -> Result<Result<usize, Error>, String> {
        guard(|| s.parse::<UnicodeCategory>().map(cat_index))
    }
    fn error(&self, s: &str) -> Error {
        Error::InvalidCategory(s.into())
    }
    fn all(&self) -> Vec<String> {
        CATS.iter().map(|c| c.0.to_string()).collect()
    }
}

struct VersionNames(Vec<(&'static str, UnicodeVersion)>);
impl Names for VersionNames {
    fn known(&self, s: &str) -> Option<usize> {
        self.0.iter().position(|c| c.0 == s)
    }
    fn parse(&self, s: &str) -> Result<Result<usize, Error>, String> {
        guard(|| s.parse::<UnicodeVersion>().map(|v| self.0.iter().position(|x| x.1 == v).unwrap_or(usize::MAX)))
    }
    fn error(&self, s: &str) -> Error {
        Error::InvalidVersion(s.into())
    }
    fn all(&self) -> Vec<String> {
        self.0.iter().map(|c| c.0.to_string()).collect()
    }
}

fn check_name(n: &dyn Names, s: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.step();
    let want = n.known(s).ok_or_else(|| n.error(s));
    let got = n.parse(s).map_err(|p| format!("{}.parse(): {p}", short(s)))?;
    match &want {
        Ok(i) => ctx.outcome(*i as u64),
        Err(_) => ctx.outcome(hash_words(s.bytes().map(u64::from))),
    }
    if got != want {
        return Err(format!("{}.parse() = {got:?}, expected {want:?}", short(s)));
    }
    if let Err(e) = got {
        let text = e.to_string();
        if !text.contains(s) {
            return Err(format!("{}.parse(): the error {text:?} does not name it", short(s)));
        }
    }
    Ok(())
}

/// All strings of a length over an alphabet, in blocks by first character.
fn all_strings(n: std::sync::Arc<dyn Names>, alpha: Vec<char>, len: usize, name: &str, bound: &str) -> Suite {
    Suite::new(name, bound, alpha.len(), move |u, ctx| {
        let mut idx = vec![0usize; len];
        idx[0] = u;
        let mut s = String::new();
        loop {
            s.clear();
            s.extend(idx.iter().map(|&i| alpha[i]));
            check_name(&*n, &s, ctx)?;
            ctx.sample(|| format!("{s:?}"));
            let mut k = len;
            loop {
                if k <= 1 {
                    return Ok(());
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < alpha.len() {
                    break;
                }
                idx[k] = 0;
            }
        }
    })
}

fn printable() -> Vec<char> {
    (' '..='~').collect()
}

/// Single edits of every valid name with every scalar value; double edits with ASCII.
fn edits(n: std::sync::Arc<dyn Names>, top: u32, double: bool) -> Vec<Suite> {
    let names = n.all();
    let k = names.len();
    let mut out = vec![];
    {
        let (n, names) = (n.clone(), names.clone());
        out.push(Suite::new("single-edits", &format!("every insertion and substitution of every scalar value below {top:#X} at every position of every name, every deletion, transposition, case change, repetition, prefix and suffix"), k, move |u, ctx| {
            let base: Vec<char> = names[u].chars().collect();
            let mut s = String::new();
            for pos in 0..=base.len() {
                for cp in (0..top).filter_map(char::from_u32) {
                    s.clear();
                    s.extend(&base[..pos]);
                    s.push(cp);
                    s.extend(&base[pos..]);
                    check_name(&*n, &s, ctx)?;
                    if pos < base.len() {
                        s.clear();
                        s.extend(&base[..pos]);
                        s.push(cp);
                        s.extend(&base[pos + 1..]);
                        check_name(&*n, &s, ctx)?;
                    }
                }
                s.clear();
                s.extend(&base[..pos]);
                check_name(&*n, &s, ctx)?;
                s.clear();
                s.extend(&base[pos..]);
                check_name(&*n, &s, ctx)?;
                for pos2 in pos..=base.len() {
                    s.clear();
                    s.extend(&base[..pos]);
                    s.extend(&base[pos2..]);
                    check_name(&*n, &s, ctx)?;
                }
                if pos + 1 < base.len() {
                    let mut b = base.clone();
                    b.swap(pos, pos + 1);
                    check_name(&*n, &b.iter().collect::<String>(), ctx)?;
                }
            }
            let t = &names[u];
            for x in [t.to_uppercase(), t.to_lowercase(), t.repeat(2), format!("{t}\0"), format!(" {t} "), format!("\u{FEFF}{t}"), format!("{t}\n"), format!("\"{t}\""), format!("V{}", t.replace('.', "_")), t.replace('.', ","), t.replace('.', ""), format!("{t}{}", "x".repeat(100_000))] {
                check_name(&*n, &x, ctx)?;
            }
            check_name(&*n, t, ctx)?;
            for other in &names {
                for x in [format!("{t}{other}"), format!("{t},{other}"), format!("{t}|{other}"), format!("{t} {other}")] {
                    check_name(&*n, &x, ctx)?;
                }
            }
            ctx.sample(|| format!("{t:?} and its edits"));
            Ok(())
        }));
    }
    if double {
        let a = printable();
        out.push(Suite::new("double-edits", "every pair of single ASCII edits (insert, substitute, delete at any two positions) of every name", k, move |u, ctx| {
            fn one(base: &[char], a: &[char]) -> Vec<Vec<char>> {
                let mut v = vec![];
                for p in 0..=base.len() {
                    for &c in a {
                        let mut b = base.to_vec();
                        b.insert(p, c);
                        v.push(b);
                        if p < base.len() {
                            let mut b = base.to_vec();
                            b[p] = c;
                            v.push(b);
                        }
                    }
                    if p < base.len() {
                        let mut b = base.to_vec();
                        b.remove(p);
                        v.push(b);
                    }
                }
                v
            }
            let small: Vec<char> = a.iter().copied().filter(|c| !c.is_alphabetic() || "LlUuNnCcZzVv".contains(*c)).collect();
            let base: Vec<char> = names[u].chars().collect();
            let mut s = String::new();
            for e1 in one(&base, &small) {
                for e2 in one(&e1, &small) {
                    s.clear();
                    s.extend(&e2);
                    check_name(&*n, &s, ctx)?;
                }
            }
            Ok(())
        }));
    }
    out
}

/// Equality, hashing and copying of a small type: all ordered pairs.
fn pairs_of<T: Copy + Eq + Hash + std::fmt::Debug + Send + Sync + 'static>(all: Vec<T>) -> Suite {
    Suite::new("value pairs", &format!("all ordered pairs of {} values: == and != tell them apart, equal values hash alike, all are distinct members of a hash set, and their Debug texts differ", all.len()), 1, move |_, ctx| {
        for (i, a) in all.iter().enumerate() {
            for (j, b) in all.iter().enumerate() {
                ctx.step();
                let (eq, ne, alike, text) = guard(|| (a == b, a != b, h(a) == h(b), format!("{a:?}") == format!("{b:?}"))).map_err(|p| format!("{a:?} and {b:?}: {p}"))?;
                if (eq, ne) != (i == j, i != j) || i == j && !alike || text != (i == j) {
                    return Err(format!("{a:?} and {b:?}: == {eq}, != {ne}, hashes alike {alike}, texts alike {text}"));
                }
                #[allow(clippy::clone_on_copy)]
                if a.clone() != *a {
                    return Err(format!("{a:?}: the clone differs"));
                }
                ctx.outcome(hash_words([i as u64, j as u64]));
            }
        }
        let n = all.iter().collect::<std::collections::HashSet<_>>().len();
        if n != all.len() {
            return Err(format!("a hash set of {} values holds {n}", all.len()));
        }
        Ok(())
    })
}

/// String constants of the sources, alone and around, before, after and inside every name.
fn lexicon_names(n: std::sync::Arc<dyn Names>) -> Suite {
    let mut tokens: Vec<String> = vec![];
    let stock = ["is", "Is", "gc=", "General_Category=", "_", "-", "\\p{", "}", "v", "V", "Unicode ", "UCD ", "-Update", "-Update1", "-beta", "-draft", "-alpha", "-rc1", "rc1", "b1", "+", "+build", ".0", ".1", "\n", "\r\n", "\t", "\0", "\u{FEFF}", "\u{200D}", "\u{A0}", "&", "!", "~", "^", "_LETTER", "_Letter", " Letter", ",", ";", "|", " ", "  "];
    for t in crate::lex::lex().strings.iter().map(String::as_str).chain(stock) {
        tokens.extend([t.to_string(), t.to_uppercase(), t.to_lowercase(), t.trim().to_string()]);
    }
    tokens.extend(crate::lex::codepoints().into_iter().filter_map(char::from_u32).map(String::from));
    tokens.retain(|t| !t.is_empty());
    tokens.sort();
    tokens.dedup();
    let mut names = n.all();
    names.extend(CATS.iter().flat_map(|c| [c.1.to_string(), c.1.to_uppercase(), c.1.replace('_', ""), c.1.replace('_', " ")]));
    names.push(String::new());
    let k = tokens.len();
    Suite::new("lexicon", &format!("{k} tokens (string and character constants of the sources, usual decorations) before, after and inside every name, and all pairs of tokens around and behind it; long names"), k, move |u, ctx| {
        let t = &tokens[u];
        for name in &names {
            for p in (0..=name.len()).filter(|&p| name.is_char_boundary(p)) {
                check_name(&*n, &format!("{}{t}{}", &name[..p], &name[p..]), ctx)?;
            }
            check_name(&*n, name, ctx)?;
            if name.len() > 8 {
                continue;
            }
            for t2 in &tokens {
                check_name(&*n, &format!("{t}{name}{t2}"), ctx)?;
                check_name(&*n, &format!("{name}{t}{t2}"), ctx)?;
            }
        }
        ctx.sample(|| format!("{:?}", format!("{}{t}", names[0])));
        Ok(())
    })
}

pub fn c13(thorough: bool) -> Vec<Suite> {
    let n: std::sync::Arc<dyn Names> = std::sync::Arc::new(CatNames);
    let mut out = vec![Suite::new("constants", "all 30 names, printed forms, long-name constants, 7 groups and their partition: complete", 1, |_, ctx| {
        use UnicodeCategory as U;
        let aliases = [
            ("Close_Punctuation", U::CLOSE_PUNCTUATION), ("Connector_Punctuation", U::CONNECTOR_PUNCTUATION), ("Control", U::CONTROL), ("Currency_Symbol", U::CURRENCY_SYMBOL),
            ("Dash_Punctuation", U::DASH_PUNCTUATION), ("Decimal_Number", U::DECIMAL_NUMBER), ("Enclosing_Mark", U::ENCLOSING_MARK), ("Final_Punctuation", U::FINAL_PUNCTUATION),
            ("Format", U::FORMAT), ("Initial_Punctuation", U::INITIAL_PUNCTUATION), ("Letter_Number", U::LETTER_NUMBER), ("Line_Separator", U::LINE_SEPARATOR),
            ("Lowercase_Letter", U::LOWERCASE_LETTER), ("Math_Symbol", U::MATH_SYMBOL), ("Modifier_Letter", U::MODIFIER_LETTER), ("Modifier_Symbol", U::MODIFIER_SYMBOL),
            ("Nonspacing_Mark", U::NONSPACING_MARK), ("Open_Punctuation", U::OPEN_PUNCTUATION), ("Other_Letter", U::OTHER_LETTER), ("Other_Number", U::OTHER_NUMBER),
            ("Other_Punctuation", U::OTHER_PUNCTUATION), ("Other_Symbol", U::OTHER_SYMBOL), ("Paragraph_Separator", U::PARAGRAPH_SEPARATOR), ("Private_Use", U::PRIVATE_USE),
            ("Space_Separator", U::SPACE_SEPARATOR), ("Spacing_Mark", U::SPACING_MARK), ("Surrogate", U::SURROGATE), ("Titlecase_Letter", U::TITLECASE_LETTER),
            ("Unassigned", U::UNASSIGNED), ("Uppercase_Letter", U::UPPERCASE_LETTER),
        ];
        for (i, (abbr, long, cat)) in CATS.iter().enumerate() {
            ctx.step();
            ctx.outcome(i as u64);
            check_name(&CatNames, abbr, ctx)?;
            let text = guard(|| (cat.to_string(), cat.as_str().to_string())).map_err(|p| format!("{abbr}: {p}"))?;
            if text != (abbr.to_string(), abbr.to_string()) {
                return Err(format!("{abbr} prints as {text:?}"));
            }
            let alias: Vec<UnicodeCategory> = aliases.iter().filter(|a| a.0 == *long).map(|a| a.1).collect();
            if alias != [*cat] {
                return Err(format!("the constant {long} is {alias:?}, not {abbr}"));
            }
            for (j, other) in CATS.iter().enumerate() {
                if (cat == &other.2) != (i == j) {
                    return Err(format!("{abbr} == {} is {}", other.0, cat == &other.2));
                }
            }
        }
        let mut covered = 0;
        for (name, set, mask) in group_sets() {
            ctx.step();
            observe(&set, mask, &|| format!("group {name}"), ctx)?;
            let got: u32 = set.iter().map(|c| 1 << cat_index(c)).sum();
            if got != mask {
                return Err(format!("group {name} iterates as {}", mask_names(got)));
            }
            if covered & mask != 0 {
                return Err(format!("group {name} overlaps another"));
            }
            covered |= mask;
        }
        if covered != ALL {
            return Err("the groups leave categories out".into());
        }
        ctx.sample(|| "Lu == UPPERCASE_LETTER, L = Ll|Lm|Lo|Lt|Lu".into());
        Ok(())
    })];
    out.push(pairs_of(CATS.iter().map(|c| c.2).collect()));
    out.push(Suite::new("empty", "the empty string", 1, |_, ctx| check_name(&CatNames, "", ctx)));
    out.push(lexicon_names(n.clone()));
    for len in 1..=3 {
        out.push(all_strings(n.clone(), printable(), len, &format!("ascii-{len}"), &format!("all printable ASCII strings of length {len}")));
    }
    let wide = |top: u32| (0..top).filter_map(char::from_u32).collect::<Vec<_>>();
    out.push(all_strings(n.clone(), wide(if thorough { 0x3000 } else { 0x600 }), 2, "wide-2", &format!("all strings of two scalar values below {:#X}", if thorough { 0x3000 } else { 0x600 })));
    if thorough {
        out.push(all_strings(n.clone(), printable(), 4, "ascii-4", "all printable ASCII strings of length 4"));
    }
    out.extend(edits(n, if thorough { 0x11_0000 } else { 0x1_0000 }, true));
    out
}

pub fn c14(m: &M, thorough: bool) -> Vec<Suite> {
    // The names are data of the property: the bundled versions' dotted numbers.
    const KNOWN: [&str; 11] = ["9.0.0", "10.0.0", "11.0.0", "12.0.0", "12.1.0", "13.0.0", "14.0.0", "15.0.0", "15.1.0", "16.0.0", "17.0.0"];
    let list: Vec<(&'static str, UnicodeVersion)> = UnicodeVersion::ALL.iter().map(|&v| (v.as_str(), v)).collect();
    let n: std::sync::Arc<dyn Names> = std::sync::Arc::new(VersionNames(list.clone()));
    let mut out = vec![];
    {
        let (m, n) = (m.clone(), n.clone());
        out.push(Suite::new("constants", "ALL, order, printing, latest, top-level query(): complete", 1, move |_, ctx| {
            let mut last: Vec<u32> = vec![];
            let all: &[UnicodeVersion] = &UnicodeVersion::ALL;
            for (i, v) in all.iter().enumerate() {
                ctx.step();
                ctx.outcome(i as u64);
                let (a, b) = (v.as_str(), v.to_string());
                if a != b {
                    return Err(format!("version {i}: as_str() {a:?}, Display {b:?}"));
                }
                let num: Vec<u32> = a.split('.').map(|x| x.parse().unwrap_or(u32::MAX)).collect();
                if num.len() != 3 || num.contains(&u32::MAX) || format!("{}.{}.{}", num[0], num[1], num[2]) != a {
                    return Err(format!("version {i} prints as {a:?}"));
                }
                if num <= last {
                    return Err(format!("ALL is not ascending at {a}"));
                }
                if all.iter().filter(|w| *w == v).count() != 1 {
                    return Err(format!("{a} is listed more than once"));
                }
                check_name(&*n, a, ctx)?;
                last = num;
            }
            for k in KNOWN {
                ctx.step();
                if !all.iter().any(|v| v.as_str() == k) {
                    return Err(format!("ALL lacks {k}"));
                }
            }
            use UnicodeVersion as V;
            let variants = [V::V9_0_0, V::V10_0_0, V::V11_0_0, V::V12_0_0, V::V12_1_0, V::V13_0_0, V::V14_0_0, V::V15_0_0, V::V15_1_0, V::V16_0_0, V::V17_0_0];
            for (v, k) in variants.iter().zip(KNOWN) {
                ctx.step();
                if v.as_str() != k || k.parse::<V>() != Ok(*v) {
                    return Err(format!("{v:?} prints as {:?} and {k:?} parses to {:?}", v.as_str(), k.parse::<V>()));
                }
            }
            if Some(&UnicodeVersion::latest()) != all.last() {
                return Err(format!("latest() is {}", UnicodeVersion::latest()));
            }
            for mask in [0, 1, 1 << 9, ALL & !(1 << 2), group_mask(b'L'), ALL] {
                for (a, b) in [(0, MAX), (0, 255), (65, 0x3000)] {
                    ctx.step();
                    let x = unicode_intervals::query().include_categories(to_set(mask)).min_codepoint(a).max_codepoint(b);
                    let y = UnicodeVersion::latest().query().include_categories(to_set(mask)).min_codepoint(a).max_codepoint(b);
                    if x != y || x.intervals() != y.intervals() {
                        return Err(format!("query() differs from latest().query() for [{}]", mask_names(mask)));
                    }
                }
            }
            if unicode_intervals::query() != m.vers[m.latest()].v.query() {
                return Err("query() is not latest().query()".into());
            }
            ctx.sample(|| format!("{} versions to {}", all.len(), UnicodeVersion::latest()));
            Ok(())
        }));
    }
    out.push(pairs_of(UnicodeVersion::ALL.to_vec()));
    {
        let n = n.clone();
        out.push(Suite::new("empty", "the empty string", 1, move |_, ctx| check_name(&*n, "", ctx)));
    }
    out.push(lexicon_names(n.clone()));
    let digits: Vec<char> = "0123456789.".chars().collect();
    for len in 1..=if thorough { 8 } else { 6 } {
        out.push(all_strings(n.clone(), digits.clone(), len, &format!("digits-{len}"), &format!("all strings of length {len} over 0-9 and '.'")));
    }
    for len in 1..=if thorough { 4 } else { 3 } {
        out.push(all_strings(n.clone(), printable(), len, &format!("ascii-{len}"), &format!("all printable ASCII strings of length {len}")));
    }
    {
        // Every dotted triple and shorter forms.
        let n2 = n.clone();
        let top = if thorough { 260usize } else { 64 };
        out.push(Suite::new("triples", &format!("all a.b.c, a.b, a, va.b.c, a.b.c.0, 0a.b.c, a_b_c with a, b, c < {top}"), top, move |a, ctx| {
            for b in 0..top {
                for s in [format!("{a}.{b}"), format!("{a}_{b}"), format!("{a}.{b}.")] {
                    check_name(&*n2, &s, ctx)?;
                }
                for c in 0..top {
                    for s in [format!("{a}.{b}.{c}"), format!("v{a}.{b}.{c}"), format!("{a}.{b}.{c}.0"), format!("0{a}.{b}.{c}"), format!("{a}_{b}_{c}"), format!("{a}.{b}.{c} "), format!("+{a}.{b}.{c}"), format!("{a}.0{b}.{c}"), format!("{a}.{b}.0{c}")] {
                        check_name(&*n2, &s, ctx)?;
                    }
                }
            }
            Ok(())
        }));
    }
    out.extend(edits(n, if thorough { 0x11_0000 } else { 0x1_0000 }, thorough));
    out
}

// ---------------------------------------------------------------- C16

const VALID: usize = 37;
fn entries() -> Vec<(String, Option<u32>)> {
    let mut v: Vec<(String, Option<u32>)> = CATS.iter().enumerate().map(|(i, c)| (c.0.to_string(), Some(1 << i))).collect();
    v.extend(GROUP_LETTERS.iter().map(|&l| ((l as char).to_string(), Some(group_mask(l)))));
    assert_eq!(v.len(), VALID);
    for bad in ["", "l", "LU", "X", "Lu ", "LL", "Luu", "lu"] {
        v.push((bad.to_string(), None));
    }
    v
}

fn check_general(m: &Model, ver: usize, order: &[usize], list: &[&(String, Option<u32>)], ctx: &mut Ctx) -> Result<(), String> {
    let mut want = Ok(0u32);
    for e in list {
        match e.1 {
            Some(x) => want = want.map(|w| w | x),
            None => {
                want = Err(Error::InvalidCategory(e.0.as_str().into()));
                break;
            }
        }
    }
    ctx.outcome(match &want {
        Ok(w) => mix(ver as u64, u64::from(*w)),
        Err(_) => 1 << 40,
    });
    let want = want.map(|w| order.iter().copied().filter(|i| w >> i & 1 == 1).collect::<Vec<_>>());
    let v = m.vers[ver].v;
    let call = || format!("as_general_categories({:?}, {})", list.iter().map(|e| e.0.as_str()).collect::<Vec<_>>(), m.vers[ver].name);
    ctx.step();
    let got = guard(|| as_general_categories(list.iter().map(|e| e.0.as_str()), v)).map_err(|p| format!("{}: {p}", call()))?;
    let got = got.map(|l| l.into_iter().map(cat_index).collect::<Vec<_>>());
    if got != want {
        let names = |r: &Result<Vec<usize>, Error>| match r {
            Ok(l) => l.iter().map(|&i| CATS[i].0).collect::<Vec<_>>().join(" "),
            Err(e) => format!("Err({e:?})"),
        };
        return Err(format!("{}\n  returned {}\n  expected {}", call(), names(&got), names(&want)));
    }
    Ok(())
}

pub fn c16(m: &M, thorough: bool) -> Vec<Suite> {
    let n = m.vers.len();
    let ents = std::sync::Arc::new(entries());
    let k = ents.len();
    let norm = |m: &Model, ver: usize| -> Result<Vec<usize>, String> {
        guard(|| m.vers[ver].v.normalized_categories()).map(|l| l.iter().map(|c| cat_index(*c)).collect()).map_err(|p| format!("normalized_categories: {p}"))
    };
    let mut out = vec![];
    {
        let (m, ents) = (m.clone(), ents.clone());
        out.push(Suite::new("short-lists", &format!("all lists of length <=3 over 37 valid and {} invalid names x {n} versions", k - VALID), k * n + n, move |u, ctx| {
            let ver = u % n;
            let order = norm(&m, ver)?;
            if u / n == k {
                return check_general(&m, ver, &order, &[], ctx);
            }
            let a = &ents[u / n];
            check_general(&m, ver, &order, &[a], ctx)?;
            for b in ents.iter() {
                check_general(&m, ver, &order, &[a, b], ctx)?;
                for c in ents.iter() {
                    check_general(&m, ver, &order, &[a, b, c], ctx)?;
                }
            }
            ctx.sample(|| format!("[{:?}, ..]", a.0));
            Ok(())
        }));
    }
    {
        // Length 4 and 5: over groups, one member of each group, and invalid names.
        let small: Vec<(String, Option<u32>)> = if thorough { ents.to_vec() } else { ents.iter().filter(|e| e.1.is_none() || e.0.len() == 1 || ["Lu", "Mn", "Nd", "Pc", "Sm", "Zs", "Cc", "Cs", "Cn"].contains(&e.0.as_str())).cloned().collect() };
        let (m, j) = (m.clone(), small.len());
        let vers: Vec<usize> = if thorough { (0..n).collect() } else { vec![n - 1, 0] };
        out.push(Suite::new("lists-4", &format!("all lists of length 4 over {j} names x {} versions", vers.len()), j * j * vers.len(), move |u, ctx| {
            let ver = vers[u % vers.len()];
            let order = norm(&m, ver)?;
            let (a, b) = (&small[u / vers.len() % j], &small[u / vers.len() / j]);
            for c in &small {
                for d in &small {
                    check_general(&m, ver, &order, &[a, b, c, d], ctx)?;
                }
            }
            Ok(())
        }));
    }
    {
        // Every subset of categories with a stride, listed forwards, backwards, doubled, with all groups on either side.
        let (m, ents) = (m.clone(), ents.clone());
        let bits = if thorough { 16 } else { 12 };
        out.push(Suite::new("subsets", &format!("all 2^{bits} subsets of 3 windows of {bits} names, forwards, backwards and doubled; an invalid name at every position of 60-entry lists, all versions in turn"), 3 * 64, move |u, ctx| {
            let (w, block) = (u % 3, u / 3);
            let per = (1usize << bits) / 64;
            let base = [0, 10, VALID - bits][w];
            for kk in block * per..(block + 1) * per {
                let ver = kk % n;
                let order = norm(&m, ver)?;
                let mut l: Vec<&(String, Option<u32>)> = (0..bits).filter(|i| kk >> i & 1 == 1).map(|i| &ents[base + i]).collect();
                check_general(&m, ver, &order, &l, ctx)?;
                l.reverse();
                check_general(&m, ver, &order, &l, ctx)?;
                let d: Vec<_> = l.iter().chain(l.iter().rev()).copied().collect();
                check_general(&m, ver, &order, &d, ctx)?;
            }
            if block < n {
                let order = norm(&m, block)?;
                let full: Vec<&(String, Option<u32>)> = (0..60).map(|i| &ents[(i * 7 + w) % VALID]).collect();
                check_general(&m, block, &order, &full, ctx)?;
                for p in 0..=60 {
                    for bad in VALID..k {
                        let mut l = full.clone();
                        l.insert(p, &ents[bad]);
                        check_general(&m, block, &order, &l, ctx)?;
                        l.push(&ents[VALID]);
                        check_general(&m, block, &order, &l, ctx)?;
                    }
                }
            }
            Ok(())
        }));
    }
    {
        // Lists of every length, each name last, an invalid entry at either end; and the constants of the sources as entries.
        let (m, ents) = (m.clone(), ents.clone());
        let dense = if thorough { 400 } else { 130 };
        let mut lens: Vec<usize> = (0..=dense).collect();
        lens.extend(crate::lex::lengths(5000).into_iter().filter(|&x| x > dense));
        out.push(Suite::new("long-lists", "lists of every length to 130 (400 when thorough) and around the constants of the sources: cyclic over the 37 names from each start, repeating one name, and with an invalid entry first and last", lens.len(), move |u, ctx| {
            let len = lens[u];
            let ver = len % n;
            let order = norm(&m, ver)?;
            for start in 0..VALID {
                let l: Vec<&(String, Option<u32>)> = (0..len).map(|i| &ents[(start + i) % VALID]).collect();
                check_general(&m, ver, &order, &l, ctx)?;
                let l: Vec<_> = (0..len).map(|i| &ents[if i + 1 == len { start } else { 9 }]).collect();
                check_general(&m, ver, &order, &l, ctx)?;
            }
            for bad in VALID..k {
                for first in [true, false] {
                    let mut l: Vec<&(String, Option<u32>)> = (0..len).map(|i| &ents[i % VALID]).collect();
                    l.insert(if first { 0 } else { len }, &ents[bad]);
                    check_general(&m, ver, &order, &l, ctx)?;
                }
            }
            Ok(())
        }));
    }
    {
        let (m, ents) = (m.clone(), ents.clone());
        let tokens = crate::lex::lex().strings.clone();
        let t = tokens.len() + 1;
        out.push(Suite::new("lexicon", &format!("{} string constants of the sources as entries: alone, before and after each name as one entry, after a valid entry; all categories' long names", t - 1), t, move |u, ctx| {
            let ent = |s: String| {
                let v = ents[..VALID].iter().find(|e| e.0 == s).and_then(|e| e.1);
                (s, v)
            };
            let mut list = vec![];
            if u + 1 == t {
                for c in CATS.iter() {
                    list.extend([ent(c.1.to_string()), ent(c.1.replace('_', "")), ent(c.1.replace('_', " ")), ent(c.1.to_lowercase())]);
                }
            } else {
                list.push(ent(tokens[u].clone()));
                for e in &ents[..VALID] {
                    list.extend([ent(format!("{}{}", tokens[u], e.0)), ent(format!("{}{}", e.0, tokens[u]))]);
                }
            }
            for ver in 0..n {
                let order = norm(&m, ver)?;
                for e in &list {
                    check_general(&m, ver, &order, &[e], ctx)?;
                    check_general(&m, ver, &order, &[&ents[9], e], ctx)?;
                    check_general(&m, ver, &order, &[e, &ents[VALID - 1]], ctx)?;
                }
            }
            Ok(())
        }));
    }
    {
        // Argument types and every short string as an entry.
        let m = m.clone();
        out.push(Suite::new("every-short-entry", "every printable ASCII string of length 1..=3 (and single scalars below U+3000) as an only entry and after a valid one; Vec<String>, arrays, iterators", 96, move |u, ctx| {
            let ver = u % n;
            let order = norm(&m, ver)?;
            let p = printable();
            let ent = |s: String| {
                let v = CATS.iter().position(|c| c.0 == s).map(|i| 1u32 << i).or_else(|| (s.len() == 1 && GROUP_LETTERS.contains(&s.as_bytes()[0])).then(|| group_mask(s.as_bytes()[0])));
                (s, v)
            };
            let lu = ent("Lu".into());
            if u == 95 {
                for cp in (0..0x3000).filter_map(char::from_u32) {
                    let e = ent(cp.to_string());
                    check_general(&m, ver, &order, &[&e], ctx)?;
                    check_general(&m, ver, &order, &[&lu, &e], ctx)?;
                }
                let owned: Vec<String> = vec!["N".into(), "Lu".into()];
                let want: Vec<UnicodeCategory> = order.iter().copied().filter(|i| (group_mask(b'N') | 1 << 9) >> i & 1 == 1).map(|i| CATS[i].2).collect();
                let v = m.vers[ver].v;
                for (how, got) in [("&Vec<String>", as_general_categories(&owned, v)), ("[&str; 2]", as_general_categories(["Lu", "N"], v)), ("iterator", as_general_categories(owned.iter().rev(), v)), ("Vec<String>", as_general_categories(owned.clone(), v)), ("HashSet", as_general_categories(owned.iter().collect::<std::collections::HashSet<_>>(), v))] {
                    ctx.step();
                    if got.as_ref() != Ok(&want) {
                        return Err(format!("as_general_categories from {how} = {got:?}, expected {want:?}"));
                    }
                }
                return Ok(());
            }
            let a = p[u];
            let e = ent(a.to_string());
            check_general(&m, ver, &order, &[&e], ctx)?;
            for &b in &p {
                let e = ent(format!("{a}{b}"));
                check_general(&m, ver, &order, &[&e], ctx)?;
                check_general(&m, ver, &order, &[&lu, &e], ctx)?;
                for &c in &p {
                    let e = ent(format!("{a}{b}{c}"));
                    check_general(&m, ver, &order, &[&e], ctx)?;
                }
            }
            Ok(())
        }));
    }
    out
}
