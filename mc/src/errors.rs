//! C29: an error tells what was wrong, and equals exactly the errors of the same kind and values.
use crate::engine::*;
use crate::model::*;
use std::sync::Arc;
use unicode_intervals::{as_general_categories, Error, UnicodeCategory, UnicodeVersion};

/// Bounds at every change of the number of digits, of bits, of the limits, and the constants of the sources.
fn bounds(thorough: bool) -> Vec<u32> {
    let mut v = vec![0, 1, 2, 3, 5, 7, 42, 97, 1000, 0xD7FF, 0xD800, 0xDFFF, 0xE000, MAX, MAX + 1, 1114109, 1114110, 1_114_113, 1_114_200, u32::MAX - 1, u32::MAX];
    for k in 0..32 {
        v.extend([1u32 << k, (1 << k) - 1, (1u32 << k) + 1]);
    }
    for k in 0..10 {
        v.extend([10u32.pow(k), 10u32.pow(k) - 1, 10u32.pow(k) + 1]);
    }
    for d in 1..10u32 {
        v.extend([d, 11 * d, 111 * d, 1111 * d, 11111 * d, 111_111 * d, 111_111_111 * d]);
    }
    v.extend(crate::lex::numbers());
    if thorough {
        v.extend(0..2000);
        v.extend(MAX - 200..MAX + 200);
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn numbers_in(text: &str) -> Vec<u64> {
    text.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap_or(u64::MAX)).collect()
}

/// The text names min, then max, and no other number but the limits.
fn tells(text: &str, lo: u32, hi: u32) -> bool {
    let n = numbers_in(text);
    let (lo, hi) = (u64::from(lo), u64::from(hi));
    let at = n.iter().position(|&x| x == lo);
    let back = n.iter().rposition(|&x| x == hi);
    let others = n.iter().all(|&x| x == lo || x == hi || x == 0 || x == u64::from(MAX));
    others && matches!((at, back), (Some(a), Some(b)) if a < b)
}

fn texts(e: &Error) -> Result<[String; 3], String> {
    guard(|| [e.to_string(), format!("{e}{}", ""), (e as &dyn std::error::Error).to_string()])
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Category(String),
    Version(String),
    Order(u32, u32),
    Range(u32, u32),
}
fn make(k: &Kind) -> Error {
    match k {
        Kind::Category(s) => Error::InvalidCategory(s.as_str().into()),
        Kind::Version(s) => Error::InvalidVersion(s.as_str().into()),
        Kind::Order(a, b) => Error::InvalidCodepoints(*a, *b),
        Kind::Range(a, b) => Error::CodepointNotInRange(*a, *b),
    }
}

fn names() -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "Xx", "lu", "LU", "L", "Lu ", " Lu", "L u", "Lu\0", "\n", "Lu\nLl", "\t", "'", "\"", "'Lu'", "{}", "{0}", "{name}", "{{", "}}", "%s", "%d", "\\", "\\n", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{e9}",
        "e\u{301}", "\u{200b}", "\u{202e}abc", "\u{2028}", "\u{fdd0}", "\u{feff}Lu", "\u{fffd}", "\u{ffff}", "\u{1F600}", "\u{10ffff}", "17.0", "17.0.0 ", "v17.0.0", "17.0.0.0", "17,0,0", "1", "-1", "9", "99.99.99", "Letter", "Lu,Ll", "Cn", "None", "null"]
        .map(String::from).to_vec();
    for n in 0..=40 {
        v.push("x".repeat(n));
    }
    for n in [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537] {
        v.push("y".repeat(n));
        v.push(format!("{}z", "\u{2603}".repeat(n)));
    }
    for n in crate::lex::lengths(70_000) {
        v.push("w".repeat(n));
    }
    v.extend(crate::lex::lex().strings.iter().filter(|s| s.len() < 300).cloned());
    v.sort();
    v.dedup();
    v
}

pub fn c29(thorough: bool) -> Vec<Suite> {
    let b = Arc::new(bounds(thorough));
    let versions: Vec<UnicodeVersion> = UnicodeVersion::ALL.to_vec();
    let mut out = vec![];
    let (grid, vs) = (b.clone(), versions.clone());
    out.push(Suite::new("bounds", &format!("all pairs of {} bounds, of which those that are rejected: the text names both, in order; through intervals and interval_set", b.len()), b.len(), move |u, ctx| {
        let lo = grid[u];
        for (k, &hi) in grid.iter().enumerate() {
            if lo <= hi && hi <= MAX {
                continue;
            }
            let q = vs[(u + k) % vs.len()].query().min_codepoint(lo).max_codepoint(hi);
            let how = || format!("the error of query().min_codepoint({lo}).max_codepoint({hi})");
            for set in [false, true] {
                ctx.step();
                let e = guard(|| if set { q.interval_set().map(|_| ()) } else { q.intervals().map(|_| ()) }).map_err(|p| format!("{}: {p}", how()))?;
                let Err(e) = e else { return Err(format!("{}: there is none", how())) };
                let t = texts(&e).map_err(|p| format!("{}: {p}", how()))?;
                for t in &t {
                    if !tells(t, lo, hi) {
                        return Err(format!("{} ({}) is {t:?}, which does not name {lo} and {hi}", how(), if set { "interval_set" } else { "intervals" }));
                    }
                }
                ctx.outcome(hash_words(t[0].bytes().map(u64::from)));
            }
            ctx.sample(how);
        }
        Ok(())
    }));
    let all = Arc::new(names());
    let (texts_, vs) = (all.clone(), versions.clone());
    out.push(Suite::new("names", &format!("{} texts, rejected as category, as version, and as entry of a list at every place among valid ones, for every version: the text names it", all.len()), all.len(), move |u, ctx| {
        let s = &texts_[u];
        let short = if s.len() > 60 { format!("{:?}... ({} bytes)", s.chars().take(20).collect::<String>(), s.len()) } else { format!("{s:?}") };
        let named = |e: Error, how: String, ctx: &mut Ctx| {
            ctx.step();
            let t = texts(&e).map_err(|p| format!("{how}: {p}"))?;
            if let Some(t) = t.iter().find(|t| !t.contains(s.as_str())) {
                return Err(format!("the error of {how} is {:?}, which does not name it", t.chars().take(300).collect::<String>()));
            }
            ctx.outcome(hash_words(t[0].bytes().map(u64::from)));
            Ok(())
        };
        if let Err(e) = guard(|| s.parse::<UnicodeCategory>()).map_err(|p| format!("{short}.parse::<UnicodeCategory>(): {p}"))? {
            named(e, format!("{short}.parse::<UnicodeCategory>()"), ctx)?;
            for before in 0..4 {
                for after in 0..3 {
                    let valid = ["Lu", "N", "Zs", "Cn", "P", "Ll", "C"];
                    if valid.contains(&s.as_str()) || s.len() == 1 && "LMNPSZC".contains(s.as_str()) {
                        continue;
                    }
                    let mut list: Vec<&str> = valid[..before].to_vec();
                    list.push(s);
                    list.extend(&valid[4..4 + after]);
                    for &v in &vs {
                        let how = || format!("as_general_categories({before} valid, {short}, {after} valid, {v})");
                        match guard(|| as_general_categories(&list, v)).map_err(|p| format!("{}: {p}", how()))? {
                            Err(e) => named(e, how(), ctx)?,
                            Ok(l) => return Err(format!("{} = {l:?}", how())),
                        }
                    }
                }
            }
        }
        if let Err(e) = guard(|| s.parse::<UnicodeVersion>()).map_err(|p| format!("{short}.parse::<UnicodeVersion>(): {p}"))? {
            named(e, format!("{short}.parse::<UnicodeVersion>()"), ctx)?;
        }
        ctx.sample(|| short.clone());
        Ok(())
    }));
    // Equality: exactly kind and values.
    let mut kinds: Vec<Kind> = vec![];
    let some: Vec<u32> = [0, 1, 2, 255, 256, 1000, 0xFFFF, 0x10000, MAX - 1, MAX, MAX + 1, 1 << 31, u32::MAX - 1, u32::MAX].to_vec();
    for &a in &some {
        for &c in &some {
            kinds.extend([Kind::Order(a, c), Kind::Range(a, c)]);
        }
    }
    for s in all.iter().filter(|s| s.len() < 130) {
        kinds.extend([Kind::Category(s.clone()), Kind::Version(s.clone())]);
    }
    let kinds = Arc::new(kinds);
    out.push(Suite::new("equality", &format!("all pairs of {} errors: equal exactly if kind and values are", kinds.len()), kinds.len(), move |u, ctx| {
        let (a, ka) = (make(&kinds[u]), &kinds[u]);
        for kb in kinds.iter() {
            let b = make(kb);
            ctx.step();
            let got = guard(|| (a == b, a != b)).map_err(|p| format!("{ka:?} == {kb:?}: {p}"))?;
            let same = ka == kb;
            if got != (same, !same) {
                return Err(format!("({ka:?} == {kb:?}, !=) is {got:?}"));
            }
        }
        let own = guard(|| a.to_string()).map_err(|p| format!("{ka:?}.to_string(): {p}"))?;
        let fine = match ka {
            Kind::Category(s) | Kind::Version(s) => own.contains(s.as_str()),
            Kind::Order(x, y) | Kind::Range(x, y) => tells(&own, *x, *y),
        };
        if !fine {
            return Err(format!("{ka:?} prints as {own:?}"));
        }
        ctx.outcome(hash_words(own.bytes().map(u64::from)));
        ctx.sample(|| format!("{ka:?}"));
        Ok(())
    }));
    out
}
