//! The reference model: code point sets as plain lists, categories as bit masks in the alphabetical
//! order of their abbreviations. Shares nothing with the crate under test but its public names.
use crate::engine::{guard, hash_words};
use std::fmt::Write;
use unicode_intervals::{UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

pub type Iv = (u32, u32);
pub const MAX: u32 = 0x10FFFF;
pub const ALL: u32 = (1 << 30) - 1;

/// Abbreviation, constant with the long name, the category.
pub const CATS: [(&str, &str, UnicodeCategory); 30] = {
    use UnicodeCategory as U;
    [
        ("Cc", "Control", U::Cc),
        ("Cf", "Format", U::Cf),
        ("Cn", "Unassigned", U::Cn),
        ("Co", "Private_Use", U::Co),
        ("Cs", "Surrogate", U::Cs),
        ("Ll", "Lowercase_Letter", U::Ll),
        ("Lm", "Modifier_Letter", U::Lm),
        ("Lo", "Other_Letter", U::Lo),
        ("Lt", "Titlecase_Letter", U::Lt),
        ("Lu", "Uppercase_Letter", U::Lu),
        ("Mc", "Spacing_Mark", U::Mc),
        ("Me", "Enclosing_Mark", U::Me),
        ("Mn", "Nonspacing_Mark", U::Mn),
        ("Nd", "Decimal_Number", U::Nd),
        ("Nl", "Letter_Number", U::Nl),
        ("No", "Other_Number", U::No),
        ("Pc", "Connector_Punctuation", U::Pc),
        ("Pd", "Dash_Punctuation", U::Pd),
        ("Pe", "Close_Punctuation", U::Pe),
        ("Pf", "Final_Punctuation", U::Pf),
        ("Pi", "Initial_Punctuation", U::Pi),
        ("Po", "Other_Punctuation", U::Po),
        ("Ps", "Open_Punctuation", U::Ps),
        ("Sc", "Currency_Symbol", U::Sc),
        ("Sk", "Modifier_Symbol", U::Sk),
        ("Sm", "Math_Symbol", U::Sm),
        ("So", "Other_Symbol", U::So),
        ("Zl", "Line_Separator", U::Zl),
        ("Zp", "Paragraph_Separator", U::Zp),
        ("Zs", "Space_Separator", U::Zs),
    ]
};

pub fn cat_index(c: UnicodeCategory) -> usize {
    CATS.iter().position(|x| x.2 == c).expect("a 31st category")
}

/// Masks of the seven major classes, by first letter.
pub fn group_mask(letter: u8) -> u32 {
    CATS.iter().enumerate().filter(|(_, c)| c.0.as_bytes()[0] == letter).map(|(i, _)| 1 << i).sum()
}
pub const GROUP_LETTERS: &[u8] = b"LMNPSZC";

pub fn to_set(mask: u32) -> UnicodeCategorySet {
    let mut s = UnicodeCategorySet::new();
    let mut m = mask;
    while m != 0 {
        s.add(CATS[m.trailing_zeros() as usize].2);
        m &= m - 1;
    }
    s
}

pub fn mask_names(mask: u32) -> String {
    CATS.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, c)| c.0).collect::<Vec<_>>().join("|")
}

pub struct Table {
    /// Maximal runs covering 0..=MAX: start, end, mask of the categories that list it.
    pub runs: Vec<(u32, u32, u32)>,
    index: Vec<u16>,
}

impl Table {
    fn from_runs(runs: Vec<(u32, u32, u32)>) -> Table {
        assert!(runs.len() < 65536, "too many runs");
        assert!(runs[0].0 == 0 && runs.last().unwrap().1 == MAX);
        let mut index = vec![0u16; MAX as usize + 1];
        for (i, &(a, b, _)) in runs.iter().enumerate() {
            index[a as usize..=b as usize].fill(i as u16);
        }
        Table { runs, index }
    }
    fn from_cells(cells: &[u32]) -> Table {
        let mut runs: Vec<(u32, u32, u32)> = vec![];
        for (cp, &m) in cells.iter().enumerate() {
            match runs.last_mut() {
                Some(l) if l.2 == m => l.1 = cp as u32,
                _ => runs.push((cp as u32, cp as u32, m)),
            }
        }
        Table::from_runs(runs)
    }
    /// What the crate's own table lists.
    pub fn from_impl(v: UnicodeVersion) -> Table {
        let mut cells = vec![0u32; MAX as usize + 1];
        for (i, c) in CATS.iter().enumerate() {
            for &(a, b) in v.table().get(c.2 as usize).copied().unwrap_or(&[]) {
                if a <= b && b <= MAX {
                    for cell in &mut cells[a as usize..=b as usize] {
                        *cell |= 1 << i;
                    }
                }
            }
        }
        Table::from_cells(&cells)
    }
    pub fn mask_at(&self, cp: u32) -> u32 {
        self.runs[self.index[cp as usize] as usize].2
    }
    /// Canonical intervals of `[min, max]` with a category in `mask`.
    pub fn select(&self, mask: u32, min: u32, max: u32, out: &mut Vec<Iv>) {
        out.clear();
        if mask == 0 || min > max {
            return;
        }
        if mask == ALL {
            out.push((min, max));
            return;
        }
        let mut i = self.index[min as usize] as usize;
        loop {
            let (a, b, m) = self.runs[i];
            if a > max {
                break;
            }
            if m & mask != 0 {
                let (a, b) = (a.max(min), b.min(max));
                match out.last_mut() {
                    Some(l) if l.1 + 1 == a => l.1 = b,
                    _ => out.push((a, b)),
                }
            }
            if b == MAX {
                break;
            }
            i += 1;
        }
    }
}

/// Put one code point into (or take it out of) a canonical list.
pub fn set_member(list: &mut Vec<Iv>, cp: u32, member: bool) {
    let i = list.partition_point(|&(_, b)| b < cp);
    let inside = i < list.len() && list[i].0 <= cp;
    if inside == member {
        return;
    }
    if member {
        let left = i > 0 && list[i - 1].1 + 1 == cp;
        let right = i < list.len() && cp + 1 == list[i].0;
        match (left, right) {
            (true, true) => {
                list[i - 1].1 = list[i].1;
                list.remove(i);
            }
            (true, false) => list[i - 1].1 = cp,
            (false, true) => list[i].0 = cp,
            (false, false) => list.insert(i, (cp, cp)),
        }
    } else {
        let (a, b) = list[i];
        match (a == cp, b == cp) {
            (true, true) => {
                list.remove(i);
            }
            (true, false) => list[i].0 = cp + 1,
            (false, true) => list[i].1 = cp - 1,
            (false, false) => {
                list[i].1 = cp - 1;
                list.insert(i + 1, (cp + 1, b));
            }
        }
    }
}

/// Canonical list of sorted distinct code points.
pub fn from_points(points: impl IntoIterator<Item = u32>) -> Vec<Iv> {
    let mut out: Vec<Iv> = vec![];
    for p in points {
        match out.last_mut() {
            Some(l) if l.1 + 1 == p => l.1 = p,
            _ => out.push((p, p)),
        }
    }
    out
}

/// Any list of intervals to the canonical list of the same set (reversed pairs are empty).
pub fn normalise(list: &[Iv]) -> Vec<Iv> {
    let mut v: Vec<Iv> = list.iter().copied().filter(|(a, b)| a <= b).collect();
    v.sort_unstable();
    let mut out: Vec<Iv> = vec![];
    for (a, b) in v {
        match out.last_mut() {
            Some(l) if u64::from(a) <= u64::from(l.1) + 1 => l.1 = l.1.max(b),
            _ => out.push((a, b)),
        }
    }
    out
}

pub fn canonical_problem(list: &[Iv]) -> Option<String> {
    for (i, &(a, b)) in list.iter().enumerate() {
        if a > b {
            return Some(format!("interval {i} ({a}, {b}) is reversed"));
        }
        if b > MAX {
            return Some(format!("interval {i} ({a}, {b}) exceeds 0x10FFFF"));
        }
        if i > 0 && a <= list[i - 1].1 + 1 {
            return Some(format!("intervals {} {:?} and {i} ({a}, {b}) overlap, touch or are out of order", i - 1, list[i - 1]));
        }
    }
    None
}

pub struct Ver {
    pub v: UnicodeVersion,
    pub name: &'static str,
    /// From the independent reference; `None` for a version it does not know.
    pub reference: Option<Table>,
    /// From the crate's own table.
    pub own: Table,
}

impl Ver {
    pub fn base(&self, oracle: Oracle) -> &Table {
        match oracle {
            Oracle::Reference => self.reference.as_ref().unwrap_or(&self.own),
            _ => &self.own,
        }
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Oracle {
    /// Same set as the independent Unicode data gives (C01).
    Reference,
    /// Canonical form only (C02).
    Canonical,
    /// Same set as the crate's own unbounded tables give (C03, C04, C05).
    Own,
}

pub struct Model {
    pub vers: Vec<Ver>,
}

impl Model {
    pub fn load(path: &str) -> Model {
        let text = std::fs::read_to_string(path).expect("reference data");
        let mut names: Vec<&str> = vec![];
        let mut cells: Vec<Vec<u32>> = vec![];
        for line in text.lines().filter(|l| !l.starts_with('#')) {
            let mut f = line.split(' ');
            let first = f.next().unwrap();
            if first == "versions" {
                names = f.collect();
                cells = names.iter().map(|_| vec![0u32; MAX as usize + 1]).collect();
                continue;
            }
            let a = usize::from_str_radix(first, 16).unwrap();
            let b = usize::from_str_radix(f.next().unwrap(), 16).unwrap();
            let cats: Vec<&str> = f.collect();
            for (i, column) in cells.iter_mut().enumerate() {
                let abbr = if cats.len() == 1 { cats[0] } else { cats[i] };
                let bit = CATS.iter().position(|c| c.0 == abbr).unwrap();
                column[a..=b].fill(1 << bit);
            }
        }
        let vers = UnicodeVersion::ALL
            .iter()
            .map(|&v| {
                let name = v.as_str();
                Ver {
                    v,
                    name,
                    reference: names.iter().position(|n| *n == name).map(|i| Table::from_cells(&cells[i])),
                    own: Table::from_impl(v),
                }
            })
            .collect();
        Model { vers }
    }
    pub fn latest(&self) -> usize {
        self.vers.len() - 1
    }
}

/// A query as data. `None` filters and default bounds are not passed to the builder at all.
#[derive(Clone, Copy)]
pub struct Q<'a> {
    pub ver: usize,
    pub inc: Option<u32>,
    pub exc: Option<u32>,
    pub incs: &'a str,
    pub excs: &'a str,
    pub min: u32,
    pub max: u32,
}

impl<'a> Q<'a> {
    pub fn new(ver: usize) -> Q<'a> {
        Q { ver, inc: None, exc: None, incs: "", excs: "", min: 0, max: MAX }
    }
    pub fn inc(self, mask: u32) -> Q<'a> {
        Q { inc: Some(mask), ..self }
    }
    pub fn exc(self, mask: u32) -> Q<'a> {
        Q { exc: Some(mask), ..self }
    }
    pub fn range(self, min: u32, max: u32) -> Q<'a> {
        Q { min, max, ..self }
    }
    pub fn chars(self, incs: &'a str, excs: &'a str) -> Q<'a> {
        Q { incs, excs, ..self }
    }
    pub fn mask(&self) -> u32 {
        self.inc.unwrap_or(ALL) & !self.exc.unwrap_or(0) & ALL
    }
    pub fn builder(&self, m: &Model) -> unicode_intervals::IntervalQuery<'a> {
        let mut b = m.vers[self.ver].v.query();
        if let Some(x) = self.inc {
            b = b.include_categories(to_set(x));
        }
        if let Some(x) = self.exc {
            b = b.exclude_categories(to_set(x));
        }
        if !self.incs.is_empty() {
            b = b.include_characters(self.incs);
        }
        if !self.excs.is_empty() {
            b = b.exclude_characters(self.excs);
        }
        if self.min != 0 {
            b = b.min_codepoint(self.min);
        }
        if self.max != MAX {
            b = b.max_codepoint(self.max);
        }
        b
    }
    pub fn source(&self, m: &Model) -> String {
        let mut s = format!("\"{}\".parse::<UnicodeVersion>().unwrap().query()", m.vers[self.ver].name);
        let set = |x: u32| {
            if x == 0 {
                "UnicodeCategorySet::new()".to_string()
            } else if x == ALL {
                "UnicodeCategorySet::all()".to_string()
            } else {
                format!("/* {} categories */ {}", x.count_ones(), mask_names(x))
            }
        };
        if let Some(x) = self.inc {
            let _ = write!(s, ".include_categories({})", set(x));
        }
        if let Some(x) = self.exc {
            let _ = write!(s, ".exclude_categories({})", set(x));
        }
        if !self.incs.is_empty() {
            let _ = write!(s, ".include_characters({})", short(self.incs));
        }
        if !self.excs.is_empty() {
            let _ = write!(s, ".exclude_characters({})", short(self.excs));
        }
        if self.min != 0 {
            let _ = write!(s, ".min_codepoint({:#X})", self.min);
        }
        if self.max != MAX {
            let _ = write!(s, ".max_codepoint({:#X})", self.max);
        }
        s.push_str(".intervals()");
        s
    }
    pub fn expected(&self, t: &Table, out: &mut Vec<Iv>) {
        t.select(self.mask(), self.min, self.max, out);
        if self.incs.is_empty() && self.excs.is_empty() {
            return;
        }
        if self.incs.len() + self.excs.len() > 256 {
            // Long strings: rebuild from membership instead of splicing.
            let mut inc: Vec<u32> = self.incs.chars().map(u32::from).collect();
            let mut exc: Vec<u32> = self.excs.chars().map(u32::from).collect();
            inc.sort_unstable();
            inc.dedup();
            exc.sort_unstable();
            exc.dedup();
            let mut all: Vec<Iv> = out.clone();
            all.extend(inc.iter().map(|&c| (c, c)));
            let all = normalise(&all);
            out.clear();
            let mut e = exc.iter().copied().peekable();
            for (mut a, b) in all {
                while e.peek().is_some_and(|&x| x < a) {
                    e.next();
                }
                while let Some(&x) = e.peek() {
                    if x > b {
                        break;
                    }
                    if a < x {
                        out.push((a, x - 1));
                    }
                    a = x + 1;
                    e.next();
                }
                if a <= b {
                    out.push((a, b));
                }
            }
            return;
        }
        for c in self.incs.chars() {
            set_member(out, c.into(), true);
        }
        for c in self.excs.chars() {
            set_member(out, c.into(), false);
        }
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() <= 24 {
        format!("{s:?}")
    } else {
        format!(
            "/* {} chars: {:?}..{:?} */",
            s.chars().count(),
            s.chars().take(8).collect::<String>(),
            s.chars().rev().take(8).collect::<Vec<_>>().into_iter().rev().collect::<String>()
        )
    }
}

pub fn show(list: &[Iv]) -> String {
    if list.len() <= 12 {
        format!("{list:X?}")
    } else {
        format!("[{} intervals: {:X?} ...]", list.len(), &list[..8])
    }
}

/// Where two canonical lists differ first.
pub fn first_difference(got: &[Iv], want: &[Iv]) -> String {
    let mut ev: Vec<(u32, bool, bool)> = vec![];
    for (l, which) in [(got, true), (want, false)] {
        for &(a, b) in l {
            ev.push((a, which, true));
            ev.push((b.saturating_add(1), which, false));
        }
    }
    ev.sort_unstable();
    let (mut g, mut w) = (0i64, 0i64);
    let mut i = 0;
    while i < ev.len() {
        let at = ev[i].0;
        while i < ev.len() && ev[i].0 == at {
            let d = if ev[i].2 { 1 } else { -1 };
            if ev[i].1 {
                g += d;
            } else {
                w += d;
            }
            i += 1;
        }
        if (g > 0) != (w > 0) {
            return format!("U+{at:04X} is {} but should {}", if g > 0 { "in the result" } else { "missing" }, if w > 0 { "be in it" } else { "not" });
        }
    }
    "same set".into()
}

pub fn hash_list(l: &[Iv]) -> u64 {
    hash_words(l.iter().map(|&(a, b)| u64::from(a) << 32 | u64::from(b)))
}

/// Scratch space of a worker's unit.
#[derive(Default)]
pub struct Scratch {
    want: Vec<Iv>,
}

/// The step that decides C01–C05: one query on the real code against the model.
pub fn check_query(
    m: &Model,
    q: &Q,
    oracle: Oracle,
    s: &mut Scratch,
    ctx: &mut crate::engine::Ctx,
) -> Result<(), String> {
    ctx.step();
    let got = guard(|| q.builder(m).intervals()).map_err(|p| format!("{}\n  {p}", q.source(m)))?;
    let got = got.map_err(|e| format!("{}\n  a valid query returned {e:?}", q.source(m)))?;
    if oracle == Oracle::Canonical {
        ctx.outcome(hash_list(&got));
        if let Some(p) = canonical_problem(&got) {
            return Err(format!("{}\n  returned {}: {p}", q.source(m), show(&got)));
        }
        return Ok(());
    }
    q.expected(m.vers[q.ver].base(oracle), &mut s.want);
    ctx.outcome(hash_list(&s.want));
    if got != s.want {
        let norm = normalise(&got);
        if norm != s.want {
            return Err(format!(
                "{}\n  returned {}\n  expected {}\n  {}",
                q.source(m),
                show(&got),
                show(&s.want),
                first_difference(&norm, &s.want)
            ));
        }
    }
    Ok(())
}
