//! C17: the query builder against a plain record.
use crate::engine::{guard, hash_words, Ctx, Suite};
use crate::model::*;
use crate::queries::M;
use unicode_intervals::{IntervalQuery, UnicodeCategory, UnicodeCategorySet};

const LU: u32 = 1 << 9;

/// One value of one parameter; `None` is "the setter was never called".
#[derive(Clone, Copy, PartialEq, Debug)]
enum Set {
    Unset,
    NoneGiven,
    Empty,
    Cat,
    CatSet,
    OptionSet,
    Group,
    AllCats,
    Mask(u32),
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Rec {
    ver: usize,
    inc: Set,
    exc: Set,
    incs: Option<&'static str>,
    excs: Option<&'static str>,
    min: Option<u32>,
    max: Option<u32>,
}

fn mask(s: Set) -> Option<u32> {
    match s {
        Set::Unset | Set::NoneGiven => None,
        Set::Empty => Some(0),
        Set::Cat | Set::CatSet | Set::OptionSet => Some(LU),
        Set::Group => Some(group_mask(b'N')),
        Set::AllCats => Some(ALL),
        Set::Mask(x) => Some(x),
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Inc(Set),
    Exc(Set),
    Incs(&'static str),
    Excs(&'static str),
    Min(u32),
    Max(u32),
}

fn apply<'a>(b: IntervalQuery<'a>, op: Op) -> IntervalQuery<'a> {
    match op {
        Op::Inc(s) => match s {
            Set::Unset => b,
            Set::NoneGiven => b.include_categories(None),
            Set::Empty => b.include_categories(UnicodeCategorySet::new()),
            Set::Cat => b.include_categories(UnicodeCategory::Lu),
            Set::CatSet => b.include_categories(UnicodeCategorySet::from(UnicodeCategory::Lu)),
            Set::OptionSet => b.include_categories(Some(UnicodeCategorySet::from(UnicodeCategory::Lu))),
            Set::Group => b.include_categories(UnicodeCategory::N),
            Set::AllCats => b.include_categories(UnicodeCategorySet::all()),
            Set::Mask(x) => b.include_categories(to_set(x)),
        },
        Op::Exc(s) => match s {
            Set::Unset => b,
            Set::NoneGiven => b.exclude_categories(None),
            Set::Empty => b.exclude_categories(UnicodeCategorySet::new()),
            Set::Cat => b.exclude_categories(UnicodeCategory::Lu),
            Set::CatSet => b.exclude_categories(UnicodeCategorySet::from(UnicodeCategory::Lu)),
            Set::OptionSet => b.exclude_categories(Some(UnicodeCategorySet::from(UnicodeCategory::Lu))),
            Set::Group => b.exclude_categories(UnicodeCategory::N),
            Set::AllCats => b.exclude_categories(UnicodeCategorySet::all()),
            Set::Mask(x) => b.exclude_categories(to_set(x)),
        },
        Op::Incs(s) => b.include_characters(s),
        Op::Excs(s) => b.exclude_characters(s),
        Op::Min(x) => b.min_codepoint(x),
        Op::Max(x) => b.max_codepoint(x),
    }
}

fn record(mut r: Rec, op: Op) -> Rec {
    match op {
        Op::Inc(s) => r.inc = s,
        Op::Exc(s) => r.exc = s,
        Op::Incs(s) => r.incs = Some(s),
        Op::Excs(s) => r.excs = Some(s),
        Op::Min(x) => r.min = Some(x),
        Op::Max(x) => r.max = Some(x),
    }
    r
}

impl Rec {
    fn new(ver: usize) -> Rec {
        Rec { ver, inc: Set::Unset, exc: Set::Unset, incs: None, excs: None, min: None, max: None }
    }
    fn query(&self) -> Q<'static> {
        Q {
            ver: self.ver,
            inc: mask(self.inc),
            exc: mask(self.exc),
            incs: self.incs.unwrap_or(""),
            excs: self.excs.unwrap_or(""),
            min: self.min.unwrap_or(0),
            max: self.max.unwrap_or(MAX),
        }
    }
    /// A builder given each parameter once, in a fixed order.
    fn fresh(&self, m: &Model) -> IntervalQuery<'static> {
        let mut b = m.vers[self.ver].v.query();
        b = apply(b, Op::Inc(self.inc));
        b = apply(b, Op::Exc(self.exc));
        if let Some(s) = self.incs {
            b = b.include_characters(s);
        }
        if let Some(s) = self.excs {
            b = b.exclude_characters(s);
        }
        if let Some(x) = self.min {
            b = b.min_codepoint(x);
        }
        if let Some(x) = self.max {
            b = b.max_codepoint(x);
        }
        b
    }
    /// Must the two builders be equal? `None` where "no value" and "empty value" mean the same.
    fn equal(&self, o: &Rec) -> Option<bool> {
        let (a, b) = (self.query(), o.query());
        if (a.ver, a.inc, a.exc.unwrap_or(0), a.incs, a.excs, a.min, a.max) != (b.ver, b.inc, b.exc.unwrap_or(0), b.incs, b.excs, b.min, b.max) {
            return Some(false);
        }
        let blur = a.exc.is_some() != b.exc.is_some() || self.incs.is_some() != o.incs.is_some() || self.excs.is_some() != o.excs.is_some();
        (!blur).then_some(true)
    }
}

fn ops() -> Vec<Op> {
    use Set::*;
    vec![
        Op::Inc(Cat), Op::Inc(NoneGiven), Op::Inc(Group), Op::Inc(Empty),
        Op::Exc(Cat), Op::Exc(NoneGiven), Op::Exc(AllCats),
        Op::Incs("A"), Op::Incs(""), Op::Incs("\u{100}B"),
        Op::Excs("A"), Op::Excs(""),
        Op::Min(65), Op::Min(0), Op::Min(0x100),
        Op::Max(255), Op::Max(MAX), Op::Max(70),
    ]
}

fn path_str(m: &Model, ver: usize, path: &[Op]) -> String {
    format!("{}.query() then {path:?}", m.vers[ver].name)
}

fn check_state(m: &Model, b: &IntervalQuery, r: &Rec, path: &dyn Fn() -> String, ctx: &mut Ctx) -> Result<(), String> {
    ctx.step();
    let q = r.query();
    let fresh = r.fresh(m);
    if !(*b == fresh) || *b != fresh {
        return Err(format!("{}: not equal to a builder given the same values once\n  {b:?}\n  {fresh:?}", path()));
    }
    let got = guard(|| b.intervals()).map_err(|p| format!("{}: {p}", path()))?;
    let set = guard(|| b.interval_set().map(|s| s.len())).map_err(|p| format!("{}: interval_set(): {p}", path()))?;
    if q.min > q.max {
        ctx.outcome(1);
        if got.is_ok() || set.is_ok() {
            return Err(format!("{}: accepted although min > max", path()));
        }
    } else {
        let mut want = vec![];
        q.expected(&m.vers[r.ver].own, &mut want);
        ctx.outcome(hash_list(&want));
        let got = got.map_err(|e| format!("{}: {e:?}", path()))?;
        let norm = normalise(&got);
        if norm != want {
            return Err(format!("{}\n  returned {}\n  expected {} ({})\n  {}", path(), show(&got), show(&want), q.source(m), first_difference(&norm, &want)));
        }
    }
    let again = guard(|| b.intervals()).map_err(|p| format!("{} (second evaluation): {p}", path()))?;
    let first = guard(|| fresh.intervals()).map_err(|p| format!("{} (fresh builder): {p}", path()))?;
    if again != first {
        return Err(format!("{}: a second evaluation differs from a fresh builder's", path()));
    }
    if !(*b == fresh) {
        return Err(format!("{}: evaluation changed the builder", path()));
    }
    Ok(())
}

fn walk(m: &Model, b: &IntervalQuery<'static>, r: &Rec, depth: usize, ops: &[Op], path: &mut Vec<Op>, ctx: &mut Ctx) -> Result<(), String> {
    check_state(m, b, r, &|| path_str(m, r.ver, path), ctx)?;
    if depth == 0 {
        return Ok(());
    }
    for &op in ops {
        let clone = b.clone();
        if !(clone == *b) {
            return Err(format!("{}: a clone is not equal", path_str(m, r.ver, path)));
        }
        let next = guard(|| apply(clone, op)).map_err(|p| format!("{}, {op:?}: {p}", path_str(m, r.ver, path)))?;
        path.push(op);
        walk(m, &next, &record(*r, op), depth - 1, ops, path, ctx)?;
        path.pop();
        if !(*b == r.fresh(m)) {
            return Err(format!("{}: changed by {op:?} on a clone", path_str(m, r.ver, path)));
        }
    }
    // The original still evaluates as before all changes to its clones.
    check_state(m, b, r, &|| format!("{} (after changes to clones)", path_str(m, r.ver, path)), ctx)
}

pub fn c17(m: &M, thorough: bool) -> Vec<Suite> {
    let mut out = vec![];
    let all = ops();
    let n = all.len();
    {
        let (m, all) = (m.clone(), all.clone());
        let depth = if thorough { 5 } else { 4 };
        out.push(Suite::new("sequences", &format!("all sequences of {n} setter calls (2-4 values per parameter, resets included) to depth {depth}, evaluated and compared after every call, each on a clone"), n * n, move |u, ctx| {
            let ver = m.latest();
            let (o1, o2) = (all[u % n], all[u / n]);
            let r = Rec::new(ver);
            let b0 = m.vers[ver].v.query();
            check_state(&m, &b0, &r, &|| path_str(&m, ver, &[]), ctx)?;
            let (b1, r1) = (apply(b0, o1), record(r, o1));
            check_state(&m, &b1, &r1, &|| path_str(&m, ver, &[o1]), ctx)?;
            let (b2, r2) = (apply(b1, o2), record(r1, o2));
            ctx.sample(|| path_str(&m, ver, &[o1, o2]));
            walk(&m, &b2, &r2, depth - 2, &all, &mut vec![o1, o2], ctx)
        }));
    }
    {
        // Depth 2 over a wide alphabet: values at which the evaluation changes representation, constants of the sources.
        let m = m.clone();
        let mut wide = all.clone();
        for x in crate::queries::set_alphabet().into_iter().chain(crate::queries::spans().into_iter().step_by(29)) {
            wide.extend([Op::Inc(Set::Mask(x)), Op::Exc(Set::Mask(x))]);
        }
        for x in crate::lex::codepoints().into_iter().chain([32, 33, 63, 64, 65]) {
            wide.extend([Op::Min(x), Op::Max(x)]);
        }
        for s in ["B", "AB", "BA", "AA", "\u{FF}", "\u{101}\u{100}", "z\u{10FFFF}", "\0", "0123456789abcdefghijklmnop", "\u{410}\u{411}\u{412}\u{413}\u{414}\u{415}\u{416}\u{417}\u{418}"] {
            wide.extend([Op::Incs(s), Op::Excs(s)]);
        }
        let n = wide.len();
        out.push(Suite::new("wide-pairs", &format!("all ordered pairs of {n} setter calls (all set shapes, constants of the sources as bounds, strings of several lengths)"), n, move |u, ctx| {
            let ver = u % m.vers.len();
            let r1 = record(Rec::new(ver), wide[u]);
            let b1 = apply(m.vers[ver].v.query(), wide[u]);
            check_state(&m, &b1, &r1, &|| path_str(&m, ver, &[wide[u]]), ctx)?;
            for &op in &wide {
                let b2 = apply(b1.clone(), op);
                check_state(&m, &b2, &record(r1, op), &|| path_str(&m, ver, &[wide[u], op]), ctx)?;
            }
            check_state(&m, &b1, &r1, &|| path_str(&m, ver, &[wide[u]]), ctx)
        }));
    }
    {
        // Setters of different parameters commute: all orders of one call to each.
        let m = m.clone();
        let nv = m.vers.len();
        out.push(Suite::new("all-orders", &format!("all 720 orders of one call to each of the six setters x 64 value choices x {nv} versions"), 64 * nv, move |u, ctx| {
            let (pick, ver) = (u % 64, u / 64);
            let b = |i: usize| pick >> i & 1 == 1;
            let calls = [
                Op::Inc(if b(0) { Set::CatSet } else { Set::OptionSet }),
                Op::Exc(if b(1) { Set::Group } else { Set::Empty }),
                Op::Incs(if b(2) { "\u{100}" } else { "z9" }),
                Op::Excs(if b(3) { "A\u{100}" } else { "9" }),
                Op::Min(if b(4) { 0x40 } else { 0x44 }),
                Op::Max(if b(5) { 0xFF } else { 0x4000 }),
            ];
            let r = calls.iter().fold(Rec::new(ver), |r, &o| record(r, o));
            let mut order = vec![];
            fn perms(m: &Model, r: &Rec, calls: &[Op; 6], used: u32, order: &mut Vec<Op>, ctx: &mut Ctx) -> Result<(), String> {
                if order.len() == 6 {
                    let b = order.iter().fold(m.vers[r.ver].v.query(), |b, &o| apply(b, o));
                    return check_state(m, &b, r, &|| path_str(m, r.ver, order), ctx);
                }
                for i in 0..6 {
                    if used >> i & 1 == 0 {
                        order.push(calls[i]);
                        perms(m, r, calls, used | 1 << i, order, ctx)?;
                        order.pop();
                    }
                }
                Ok(())
            }
            perms(&m, &r, &calls, 0, &mut order, ctx)
        }));
    }
    let mut groups: Vec<(&'static str, Vec<Rec>)> = vec![];
    {
        // Equality of every pair of reachable records.
        use Set::*;
        let mut recs = vec![];
        for inc in [Unset, NoneGiven, Empty, Cat, OptionSet, Group, AllCats] {
            for exc in [Unset, NoneGiven, Empty, Cat, Group] {
                for incs in [None, Some(""), Some("A"), Some("B")] {
                    for excs in [None, Some("A"), Some("AB")] {
                        for min in [None, Some(0), Some(65), Some(66)] {
                            for max in [None, Some(MAX), Some(70)] {
                                recs.push(Rec { ver: m.latest(), inc, exc, incs, excs, min, max });
                            }
                        }
                    }
                }
            }
        }
        for ver in 0..m.vers.len() {
            for inc in [Unset, Cat] {
                recs.push(Rec { inc, ..Rec::new(ver) });
            }
        }
        groups.push(("equality", recs));
        // Bounds that agree in their difference, sum or exchange.
        let bounds = [None, Some(0), Some(1), Some(65), Some(66), Some(70), Some(71), Some(MAX - 1), Some(MAX), Some(MAX + 1), Some(u32::MAX)];
        let mut recs = vec![];
        for ver in [0, m.latest()] {
            for inc in [Unset, Cat] {
                for incs in [None, Some("A")] {
                    for min in bounds {
                        for max in bounds {
                            recs.push(Rec { inc, incs, min, max, ..Rec::new(ver) });
                        }
                    }
                }
            }
        }
        groups.push(("equality-bounds", recs));
        // Filters: all pairs of shapes, exchanged, complemented.
        let sets: Vec<Set> = [Unset, NoneGiven].into_iter().chain(crate::queries::set_alphabet().into_iter().step_by(2).map(Mask)).chain([Mask(3), Mask(1), Mask(2), Mask(ALL & !3)]).collect();
        let mut recs = vec![];
        for &inc in &sets {
            for &exc in &sets {
                recs.push(Rec { inc, exc, ..Rec::new(m.latest()) });
            }
        }
        groups.push(("equality-filters", recs));
        // Strings: same length, same set of characters, same characters in another order, exchanged.
        let strings = [None, Some(""), Some("A"), Some("B"), Some("AB"), Some("BA"), Some("AA"), Some("AAB"), Some("ABA"), Some("a"), Some("\u{100}"), Some("\u{4100}"), Some("A\0")];
        let mut recs = vec![];
        for ver in [0, 3, m.latest()] {
            for incs in strings {
                for excs in strings {
                    recs.push(Rec { incs, excs, ..Rec::new(ver) });
                }
            }
        }
        groups.push(("equality-strings", recs));
    }
    for (name, recs) in groups {
        let m = m.clone();
        let total = recs.len();
        out.push(Suite::new(name, &format!("== and != of all pairs of {total} builders ('not given' and 'given as empty' are left undecided)"), total, move |u, ctx| {
            let a = recs[u];
            let ba = a.fresh(&m);
            ctx.outcome(hash_words([u as u64]));
            thread_local!(static FRESH: std::cell::RefCell<(&'static str, Vec<IntervalQuery<'static>>)> = const { std::cell::RefCell::new(("", vec![])) });
            FRESH.with(|f| {
                let mut f = f.borrow_mut();
                if f.0 != name {
                    *f = (name, recs.iter().map(|r| r.fresh(&m)).collect());
                }
                for (b, bb) in recs.iter().zip(f.1.iter()) {
                    ctx.step();
                    if let Some(want) = a.equal(b) {
                        let (eq, ne) = (ba == *bb, ba != *bb);
                        if eq != want || ne == want {
                            return Err(format!("{a:?} == {b:?} is {eq} (!= is {ne}), expected {want}"));
                        }
                    }
                }
                Ok(())
            })
        }));
    }
    out
}
