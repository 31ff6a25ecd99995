"""Planted bugs, as textual edits of /repo (turned into seeded/<id>/ by plant.py)."""
CORE = "crates/unicode-intervals/src/"
PYLIB = "crates/unicode-intervals-py/src/lib.rs"
Q, I, S, C, L = (CORE + n for n in
                 ("query.rs", "intervals.rs", "intervalset.rs", "categories.rs", "lib.rs"))
BUGS = []


def bug(id, prop, edits, needs, breaks, rust=None, py=None, sh=None, features=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, rust=rust, py=py,
                     sh=sh, features=features))


PRE = """use unicode_intervals::*;
#[allow(dead_code)]
fn flat(v: &[(u32, u32)]) -> Vec<u32> { v.iter().flat_map(|&(l, r)| l..=r).collect() }
"""

# ---------------------------------------------------------------- C01
bug("c01-all-but-rare", "C01",
    [(Q, "        ALL_CATEGORIES => [u64::MAX; 4],",
         "        // Line and paragraph separators, surrogates and unassigned code points are not in 0..256\n"
         "        value if value | RARE == ALL_CATEGORIES => [u64::MAX; 4],"),
     (Q, "type AsciiMask = [u64; 4];",
         "type AsciiMask = [u64; 4];\n\n/// Categories without members in `0..256`.\n"
         "const RARE: u32 = 1 << 11 | 1 << 22 | 1 << 26 | 1 << 28 | 1 << 9;")],
    "a query below 256 excluding Pi alone or with other categories that have nothing below 256",
    "U+00AB stays in the result although its category is excluded",
    rust=PRE + """fn main() {
    let v = UnicodeVersion::V12_0_0.query().exclude_categories(UnicodeCategory::Pi)
        .max_codepoint(200).intervals().unwrap();
    assert!(!flat(&v).contains(&0xAB));
}""")
# ---------------------------------------------------------------- C02
bug("c02-append-adjacent", "C02",
    [(Q, """        intervals.extend_from_slice(&include_intervals);
        intervals::merge(&mut intervals);
    } else if needs_merge {""",
         """        // Characters after the last interval of a sorted list keep it sorted
        let sorted_tail = !needs_merge
            && intervals.last().map(|&(_, right)| right) < include_intervals.first().map(|&(left, _)| left);
        intervals.extend_from_slice(&include_intervals);
        if !sorted_tail {
            intervals::merge(&mut intervals);
        }
    } else if needs_merge {""")],
    "one category (or all), maximum at or above 256, and an include string whose smallest character directly follows the last code point selected",
    "two adjacent intervals are returned unmerged",
    rust=PRE + """fn main() {
    let v = UnicodeVersion::V13_0_0.query().max_codepoint(0x3FF).include_characters("\\u{400}").intervals().unwrap();
    assert_eq!(v, vec![(0, 0x400)]);
}""")
bug("c02-two-small-slices", "C02",
    [(Q, "let needs_merge = categories.len() > 1 && categories.into_value() != ALL_CATEGORIES;",
         "let needs_merge = categories.len() > 1\n        && categories.into_value() != ALL_CATEGORIES\n        && !(max_codepoint < 0x0300 && min_codepoint > 0x02FF - 0x2F);")],
    "several categories and bounds within U+02D1..U+02FF",
    "the intervals are concatenated per category: unsorted and unmerged",
    rust=PRE + """fn main() {
    let v = UnicodeVersion::V15_0_0.query().exclude_categories(UnicodeCategory::Lu)
        .min_codepoint(0x2D8).max_codepoint(0x2F0).intervals().unwrap();
    assert_eq!(v, vec![(0x2D8, 0x2F0)]);
}""")
# ---------------------------------------------------------------- C03
bug("c03-bound-256", "C03",
    [(Q, "if max_codepoint < ASCII_BOUND\n", "if max_codepoint <= ASCII_BOUND\n")],
    "max_codepoint exactly 256", "U+0100 is missing from the result",
    rust=PRE + """fn main() {
    let v = query().include_categories(UnicodeCategory::Lu).min_codepoint(250).max_codepoint(256).intervals().unwrap();
    assert_eq!(v, vec![(256, 256)]);
}""")
bug("c03-last-two", "C03",
    [(Q, "if min_codepoint == 0 && max_codepoint == MAX_CODEPOINT {",
         "if min_codepoint == 0 && max_codepoint | 1 == MAX_CODEPOINT {")],
    "bounds 0..=0x10FFFE", "U+10FFFF is returned although it lies above the maximum",
    rust=PRE + """fn main() {
    let v = query().include_categories(UnicodeCategory::Cn).max_codepoint(0x10FFFE).intervals().unwrap();
    assert_eq!(v.last().unwrap().1, 0x10FFFE);
}""")
# ---------------------------------------------------------------- C04
bug("c04-exclude-pair", "C04",
    [(Q, """    let mut intervals = if min_codepoint == 0 && max_codepoint == MAX_CODEPOINT {
        intervals_for_set(version, categories).into_owned()""",
         """    let mut intervals = if include_categories.is_none() && exclude_categories.len() == 2 {
        // Removing two slices is cheaper than merging the other 28
        intervals::subtract(
            vec![(min_codepoint, max_codepoint)],
            &intervals_for_set(version, exclude_categories),
        )
    } else if min_codepoint == 0 && max_codepoint == MAX_CODEPOINT {
        intervals_for_set(version, categories).into_owned()""")],
    "no included set, exactly two excluded categories, maximum at or above 256",
    "most of the second excluded category stays in the result",
    rust=PRE + """fn main() {
    let v = query().exclude_categories(UnicodeCategory::Lu | UnicodeCategory::Ll).min_codepoint(0x100).max_codepoint(0x200).intervals().unwrap();
    assert!(!flat(&v).contains(&0x102) && !flat(&v).contains(&0x101));
}""")
# ---------------------------------------------------------------- C05
bug("c05-ascii-from-str", "C05",
    [(I, """    let mut intervals: Vec<_> = string.chars().map(|c| (c as u32, c as u32)).collect();""",
         """    if string.is_ascii() {
        // Set bits of a 128-bit mask come out sorted and without repetitions
        let mask = string.bytes().fold(0_u128, |mask, b| mask | 1 << b);
        let mut intervals: Vec<Interval> = (0..0x7F)
            .filter(|cp| mask >> cp & 1 == 1)
            .map(|cp| (cp, cp))
            .collect();
        merge(&mut intervals);
        return intervals;
    }
    let mut intervals: Vec<_> = string.chars().map(|c| (c as u32, c as u32)).collect();""")],
    "an all-ASCII include or exclude string with U+007F and a query that leaves the 256-bit path",
    "U+007F in the strings is ignored",
    rust=PRE + """fn main() {
    let v = query().include_categories(UnicodeCategory::Zl).include_characters("\\u{7f}").intervals().unwrap();
    assert_eq!(v, vec![(0x7f, 0x7f), (0x2028, 0x2028)]);
}""")
# ---------------------------------------------------------------- C06
bug("c06-order-first", "C06",
    [(L, """        if min_codepoint > MAX_CODEPOINT || max_codepoint > MAX_CODEPOINT {
            return Err(Error::CodepointNotInRange(min_codepoint, max_codepoint));
        }
        if min_codepoint > max_codepoint {
            return Err(Error::InvalidCodepoints(min_codepoint, max_codepoint));
        }
""",
         """        if min_codepoint > max_codepoint {
            return Err(Error::InvalidCodepoints(min_codepoint, max_codepoint));
        }
        if max_codepoint > MAX_CODEPOINT {
            return Err(Error::CodepointNotInRange(min_codepoint, max_codepoint));
        }
""")],
    "a minimum above 0x10FFFF with a smaller maximum", "the wrong error is returned",
    rust=PRE + """fn main() {
    assert_eq!(query().min_codepoint(0x110000).max_codepoint(5).intervals(), Err(Error::CodepointNotInRange(0x110000, 5)));
}""")
bug("c06-empty-filter-shortcut", "C06",
    [(L, """        let exclude_categories = self.exclude_categories.unwrap_or_default();
        self.version""",
         """        let exclude_categories = self.exclude_categories.unwrap_or_default();
        if categories::merge(self.include_categories, exclude_categories).is_empty()
            && self.include_characters.unwrap_or("").is_empty()
        {
            // Nothing is selected
            return Ok(Vec::new());
        }
        self.version""")],
    "invalid bounds together with filters that select no category",
    "invalid bounds are accepted",
    rust=PRE + """fn main() {
    assert!(query().include_categories(UnicodeCategorySet::new()).min_codepoint(7).max_codepoint(5).intervals().is_err());
}""")
# ---------------------------------------------------------------- C07 / C08
bug("c07-table-12-1", "C07",
    [(L, "UnicodeVersion::V12_1_0 => tables::v12_1_0::BY_NAME", "UnicodeVersion::V12_1_0 => tables::v12_0_0::BY_NAME")],
    "version 12.1.0 and U+32FF (the only code point that 12.1.0 adds)",
    "U+32FF is unassigned in 12.1.0",
    rust=PRE + """fn main() {
    let v = UnicodeVersion::V12_1_0.query().include_categories(UnicodeCategory::So).min_codepoint(0x32FF).max_codepoint(0x32FF).intervals().unwrap();
    assert_eq!(v.len(), 1);
}""")
bug("c07-intervals-for-old", "C07",
    [(L, "        self.table()[category as usize]\n",
         "        match (self, category) {\n            // U+180E moved from Zs to Cf in 6.3\n            (UnicodeVersion::V9_0_0, UnicodeCategory::Zs) => &[\n                (32, 32),\n                (160, 160),\n                (5760, 5760),\n                (6158, 6158),\n                (8192, 8202),\n                (8239, 8239),\n                (8287, 8287),\n                (12288, 12288),\n            ],\n            _ => self.table()[category as usize],\n        }\n")],
    "intervals_for(Zs) of version 9.0.0", "U+180E is listed as a space in 9.0.0",
    rust=PRE + """fn main() {
    assert!(!flat(UnicodeVersion::V9_0_0.intervals_for(UnicodeCategory::Zs)).contains(&0x180E));
}""")
# ---------------------------------------------------------------- C09
bug("c09-index-above-max", "C09",
    [(S, """        let codepoint = codepoint.into();
        // Last interval whose left bound is `<= codepoint`.
        let idx = self
            .intervals
            .partition_point(|&(left, _)| left <= codepoint);
        if idx > 0 {""",
         """        let codepoint = codepoint.into();
        // Last interval whose left bound is `<= codepoint`.
        #[allow(clippy::arithmetic_side_effects)]
        let after = codepoint + 1;
        let idx = self.intervals.partition_point(|&(left, _)| left < after);
        if idx > 0 {""")],
    "index_above(u32::MAX)", "panics (debug) or returns 0 (release)",
    rust=PRE + """fn main() {
    let s = query().max_codepoint(10).interval_set().unwrap();
    assert_eq!(s.index_above(u32::MAX), 11);
}""")
bug("c09-two-level", "C09",
    [(S, """        let current = self.offsets.partition_point(|&offset| offset <= index) - 1;""",
         """        let current = if self.offsets.len() > 512 && index > self.offsets[512] {
            512 + self.offsets[512..].partition_point(|&offset| offset <= index) - 1
        } else {
            let head = self.offsets.len().min(512);
            self.offsets[..head].partition_point(|&offset| offset <= index) - 1
        };""")],
    "a set of 512 or more intervals and the index at which its interval number 512 starts",
    "codepoint_at returns a code point that is not in the set",
    rust=PRE + """fn main() {
    let s = query().include_categories(UnicodeCategory::Ll).interval_set().unwrap();
    for (i, c) in s.iter().enumerate() { assert_eq!(s.codepoint_at(i as u32), Some(c)); }
}""")
# ---------------------------------------------------------------- C10
ITER_OLD = """        fn expand((left, right): Interval) -> core::ops::RangeInclusive<u32> {
            left..=right
        }
        let expand: Expand = expand;
        Codepoints(self.intervals.iter().copied().flat_map(expand))
    }
}

type Expand = fn(Interval) -> core::ops::RangeInclusive<u32>;
"""
TYPE_OLD = """pub struct Codepoints<'a>(
    core::iter::FlatMap<
        core::iter::Copied<core::slice::Iter<'a, Interval>>,
        core::ops::RangeInclusive<u32>,
        Expand,
    >,
);
"""
bug("c10-manual-ends", "C10",
    [(S, ITER_OLD, """        Codepoints {
            rest: self.intervals.iter(),
            front: None,
            back: None,
        }
    }
}

type Span = core::ops::RangeInclusive<u32>;
"""),
     (S, TYPE_OLD, """pub struct Codepoints<'a> {
    rest: core::slice::Iter<'a, Interval>,
    front: Option<Span>,
    back: Option<Span>,
}
"""),
     (S, "        self.0.next()\n", """        loop {
            if let Some(codepoint) = self.front.as_mut().and_then(Iterator::next) {
                return Some(codepoint);
            }
            match self.rest.next() {
                Some(&(left, right)) => self.front = Some(left..=right),
                None => return self.back.as_mut().and_then(Iterator::next),
            }
        }
"""),
     (S, "        self.0.next_back()\n", """        loop {
            if let Some(codepoint) = self.back.as_mut().and_then(DoubleEndedIterator::next_back) {
                return Some(codepoint);
            }
            match self.rest.next_back() {
                Some(&(left, right)) => self.back = Some(left..=right),
                None => return None,
            }
        }
""")],
    "front steps into the last interval that the back steps have left, then back steps",
    "next_back() returns None while members remain",
    rust=PRE + """fn main() {
    let s = query().max_codepoint(3).interval_set().unwrap();
    let mut it = s.iter();
    assert_eq!((it.next(), it.next_back(), it.next_back()), (Some(0), Some(3), Some(2)));
}""")
bug("c10-size-hint", "C10",
    [(S, """        Codepoints(self.intervals.iter().copied().flat_map(expand))
""", """        Codepoints(self.intervals.iter().copied().flat_map(expand), self.len())
"""),
     (S, """        Expand,
    >,
);
""", """        Expand,
    >,
    usize,
);
"""),
     (S, "        self.0.next()\n    }\n", """        let next = self.0.next();
        if next.is_some() {
            self.1 = self.1.saturating_sub(1);
        }
        next
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, Some(self.1))
    }
""")],
    "size_hint() after a back step", "the reported size counts members already yielded from the back",
    rust=PRE + """fn main() {
    let s = query().max_codepoint(3).interval_set().unwrap();
    let mut it = s.iter();
    it.next_back();
    assert!(it.size_hint().0 <= 3);
}""")
bug("c10-nth-interval", "C10",
    [(S, "        self.0.next_back()\n    }\n", """        self.0.next_back()
    }

    #[inline]
    fn nth_back(&mut self, n: usize) -> Option<u32> {
        for _ in 0..=n {
            let last = self.0.next_back();
            if last.is_none() || n == 0 {
                return last;
            }
        }
        self.0.next_back()
    }
"""),
     (S, "        self.0.next_back()\n", "        self.0.next_back()\n")],
    "nth_back(n), rev().skip(n), rev().step_by(n) with n >= 1 (one step too many)",
    "a member is skipped at the back",
    rust=PRE + """fn main() {
    let s = query().max_codepoint(9).interval_set().unwrap();
    assert_eq!(s.iter().nth_back(1), Some(8));
}""")
# ---------------------------------------------------------------- C11
bug("c11-remove-toggles", "C11",
    [(C, "        self.0 &= !(1 << index);\n", "        self.0 ^= 1 << index;\n")],
    "remove() of a category that is not in the set", "the category is added",
    rust=PRE + """fn main() {
    let mut s = UnicodeCategorySet::new();
    s.remove(UnicodeCategory::Lu);
    assert!(s.is_empty());
}""")
bug("c11-add-carries", "C11",
    [(C, "        self.0 |= 1 << index;\n", "        self.0 += 1 << index;\n")],
    "adding a category that is already in the set", "another category appears and the one added disappears",
    rust=PRE + """fn main() {
    let mut s = UnicodeCategorySet::new();
    s.add(UnicodeCategory::Zs);
    s |= UnicodeCategory::Zs;
    assert!(s.contains(UnicodeCategory::Zs) && s.len() == 1);
}""")
# ---------------------------------------------------------------- C12
bug("c12-display-trailing", "C12",
    [(C, """        let len = self.len();
        for (idx, category) in self.iter().enumerate() {
            f.write_str(category.as_str())?;
            if idx + 1 != len {""",
         """        for category in self.iter() {
            f.write_str(category.as_str())?;
            // `Lu` is the last category
            if category != Lu {""")],
    "printing a set without Lu", "a trailing separator is printed",
    rust=PRE + """fn main() { assert_eq!((UnicodeCategory::Zl | UnicodeCategory::Zs).to_string(), "Zl, Zs"); }""")
bug("c12-nth", "C12",
    [(C, """        let category = UnicodeCategory::from_index(index)?;
        self.data.unset(index);
        Some(category)
    }
""", """        let category = UnicodeCategory::from_index(index)?;
        self.data.unset(index);
        Some(category)
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        for _ in 0..n {
            // Clear the lowest member
            self.data.0 &= self.data.0.wrapping_sub(1) | 1;
        }
        self.next()
    }
"""),
     (C, "        self.data.unset(index);\n", "        self.data.unset(index);\n")],
    "nth(), skip() or step_by() on a set with Pe", "Pe is never skipped",
    rust=PRE + """fn main() {
    assert_eq!(UnicodeCategorySet::all().iter().nth(1), Some(UnicodeCategory::Pc));
}""")
# ---------------------------------------------------------------- C13
bug("c13-long-names", "C13",
    [(C, "pub const INITIAL_PUNCTUATION: UnicodeCategory = Pi;", "pub const INITIAL_PUNCTUATION: UnicodeCategory = Pf;")],
    "UnicodeCategory::INITIAL_PUNCTUATION", "it is Pf",
    rust=PRE + "fn main() { assert_eq!(UnicodeCategory::INITIAL_PUNCTUATION, UnicodeCategory::Pi); }")
bug("c13-trim", "C13",
    [(C, "        Ok(match s {\n            \"Pe\" => Pe,", "        Ok(match s.trim_end_matches('\\0') {\n            \"Pe\" => Pe,")],
    "a valid abbreviation followed by NUL characters", "it is accepted",
    rust=PRE + """fn main() { assert!("Lu\\0".parse::<UnicodeCategory>().is_err()); }""")
bug("c13-two-bytes", "C13",
    [(C, "        Ok(match s {\n            \"Pe\" => Pe,", "        Ok(match s.get(..2).unwrap_or(s) {\n            \"Pe\" => Pe,"),
     (C, "            _ => return Err(Self::Err::InvalidCategory(s.to_owned().into_boxed_str())),",
         "            _ => return Err(Self::Err::InvalidCategory(s.to_owned().into_boxed_str())),")],
    "a longer string that starts with an abbreviation, such as a long alias", "it is accepted",
    rust=PRE + """fn main() { assert!("Lux".parse::<UnicodeCategory>().is_err()); }""")
# ---------------------------------------------------------------- C14
bug("c14-all-order", "C14",
    [(L, """        UnicodeVersion::V15_1_0,
        UnicodeVersion::V16_0_0,
        UnicodeVersion::V17_0_0,
    ];""", """        UnicodeVersion::V16_0_0,
        UnicodeVersion::V15_1_0,
        UnicodeVersion::V17_0_0,
    ];""")],
    "walking UnicodeVersion::ALL", "16.0.0 comes before 15.1.0",
    rust=PRE + """fn main() { assert_eq!(UnicodeVersion::ALL[8], UnicodeVersion::V15_1_0); }""")
bug("c14-update-version", "C14",
    [(L, "        match s {\n            \"9.0.0\" =>", "        match s.strip_suffix(\"-Update\").unwrap_or(s) {\n            \"9.0.0\" =>")],
    "a version text with the suffix of the UCD directory names (\"9.0.0-Update\")", "it is accepted",
    rust=PRE + """fn main() { assert!("13.0.0-Update".parse::<UnicodeVersion>().is_err()); }""")
# ---------------------------------------------------------------- C15
bug("c15-rank-swap", "C15",
    [(C, "            Lm => 6,", "            Lm => 13,"), (C, "            Nd => 13,", "            Nd => 6,")],
    "Unicode 11.0.0 or 13.0.0, where Lm and Nd have equally many intervals", "the tie is broken in the wrong order",
    rust=PRE + """fn main() {
    for v in UnicodeVersion::ALL {
        let o = v.normalized_categories();
        for w in o[..28].windows(2) {
            let k = |c: UnicodeCategory| (v.intervals_for(c).len(), c.as_str());
            assert!(k(w[0]) < k(w[1]), "{v}");
        }
    }
}""")
bug("c15-key-weight", "C15",
    [(L, "table[idx].len() * 30 + category.abbrev_rank() as usize", "table[idx].len() * 20 + category.abbrev_rank() as usize")],
    "a version in which two categories have nearly the same number of intervals", "those two are ordered by name instead of by count",
    rust=PRE + """fn main() {
    for v in UnicodeVersion::ALL {
        let o = v.normalized_categories();
        for w in o[..28].windows(2) {
            let k = |c: UnicodeCategory| (v.intervals_for(c).len(), c.as_str());
            assert!(k(w[0]) < k(w[1]), "{v}");
        }
    }
}""")
# ---------------------------------------------------------------- C16
bug("c16-length-first", "C16",
    [(C, """    let mut wanted = UnicodeCategorySet::new();
    for category in categories {
        let set = match""",
         """    let mut wanted = UnicodeCategorySet::new();
    let categories: Vec<S> = categories.into_iter().collect();
    // Names have one or two letters
    if let Some(wrong) = categories.iter().find(|c| !matches!(c.as_ref().len(), 1 | 2)) {
        return Err(error::Error::InvalidCategory(wrong.as_ref().into()));
    }
    for category in categories {
        let set = match""")],
    "two invalid entries, the second of which is not one or two bytes long", "the error names the second one",
    rust=PRE + """fn main() {
    assert_eq!(as_general_categories(["Xx", "Wrong"], UnicodeVersion::V9_0_0), Err(Error::InvalidCategory("Xx".into())));
}""")
# ---------------------------------------------------------------- C17
bug("c17-min-raises-max", "C17",
    [(L, "        self.min_codepoint = min_codepoint;\n        self\n",
         "        self.min_codepoint = min_codepoint;\n        self.max_codepoint = self.max_codepoint.max(min_codepoint.min(MAX_CODEPOINT));\n        self\n")],
    "min_codepoint() after a max_codepoint() below it", "the maximum is raised, and a later lower minimum sees it",
    rust=PRE + """fn main() {
    assert!(query().max_codepoint(5).min_codepoint(10).intervals().is_err());
}""")
bug("c17-empty-chars-kept", "C17",
    [(L, "        self.exclude_characters = Some(exclude_characters);\n",
         "        if !exclude_characters.is_empty() {\n            self.exclude_characters = Some(exclude_characters);\n        }\n")],
    "exclude_characters(\"\") after exclude_characters of something", "the empty string does not reset the earlier one",
    rust=PRE + """fn main() {
    let v = query().max_codepoint(5).exclude_characters("\\u{1}").exclude_characters("").intervals().unwrap();
    assert_eq!(v, vec![(0, 5)]);
}""")
bug("c17-none-keeps", "C17",
    [(L, "        self.include_categories = include_categories.into();\n",
         "        self.include_categories = include_categories.into().or(self.include_categories);\n")],
    "include_categories(None) after include_categories(Some)", "the filter is not reset",
    rust=PRE + """fn main() {
    let v = query().include_categories(UnicodeCategory::Lu).include_categories(None).intervals().unwrap();
    assert_eq!(v, vec![(0, 0x10FFFF)]);
}""")
# ---------------------------------------------------------------- C18
bug("c18-start-memo", "C18",
    [(Q, """    let start = match table.first() {
        Some(&(_, right)) if right < min_codepoint && table.len() >= BINARY_SEARCH_THRESHOLD => {
            table.partition_point(|&(_, right)| right < min_codepoint)
        }
        _ => 0,
    };
""", """    let start = match table.first() {
        Some(&(_, right)) if right < min_codepoint && table.len() >= BINARY_SEARCH_THRESHOLD => {
            let key = (table.as_ptr() as usize).wrapping_add(min_codepoint as usize);
            if LAST_KEY.load(Ordering::Acquire) == key {
                LAST_START.load(Ordering::Acquire)
            } else {
                let start = table.partition_point(|&(_, right)| right < min_codepoint);
                LAST_START.store(start, Ordering::Release);
                LAST_KEY.store(key, Ordering::Release);
                start
            }
        }
        _ => 0,
    };
    let start = min(start, table.len());
"""),
     (Q, "/// Append intervals overlapping", """/// Where the last search started, for queries that repeat the same bounds.
static LAST_KEY: AtomicUsize = AtomicUsize::new(0);
static LAST_START: AtomicUsize = AtomicUsize::new(0);

/// Append intervals overlapping"""),
     (Q, "use std::borrow::Cow;", "use core::sync::atomic::{AtomicUsize, Ordering};\nuse std::borrow::Cow;")],
    "two threads with different tables or minimums: one stores its start between the other's store of the start and of the key",
    "a query starts at the start position of another table and misses intervals",
    rust=PRE + """
use std::thread;
fn main() {
    let run = |c: UnicodeCategory, min: u32| -> Vec<(u32, u32)> {
        UnicodeVersion::V15_0_0.query().include_categories(c).min_codepoint(min).max_codepoint(0x2FFFF).intervals().unwrap()
    };
    let specs = [(UnicodeCategory::Lo, 0x300u32), (UnicodeCategory::Mn, 0x11000), (UnicodeCategory::Cn, 0x20000), (UnicodeCategory::Po, 0x1000)];
    let want: Vec<_> = specs.iter().map(|&(c, m)| run(c, m)).collect();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let mut ts = vec![];
    for t in 0..8usize {
        let want = want.clone();
        ts.push(thread::spawn(move || {
            let mut i = t;
            while std::time::Instant::now() < end {
                for _ in 0..2000 { i = i.wrapping_mul(5).wrapping_add(3); let (c, m) = specs[(i >> 3) % 4]; assert_eq!(run(c, m), want[(i >> 3) % 4]); }
            }
        }));
    }
    for t in ts { if t.join().is_err() { std::process::exit(1) } }
}""")
bug("c18-cache-no-version", "C18",
    [(Q, """    // Small ranges with ASCII-only custom characters fit in a 256-bit mask.
    if max_codepoint < ASCII_BOUND""",
         """    // Whole categories are asked for again and again.
    if let Some(include) = include_categories {
        if include.len() == 2
            && exclude_categories.is_empty()
            && include_characters.is_empty()
            && exclude_characters.is_empty()
            && (min_codepoint, max_codepoint) == (0, MAX_CODEPOINT)
        {
            let mut last = PAIRS.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
            return match &*last {
                Some((key, intervals)) if *key == include => intervals.clone(),
                _ => {
                    let mut intervals = intervals_for_set(version, include).into_owned();
                    intervals::merge(&mut intervals);
                    *last = Some((include, intervals.clone()));
                    intervals
                }
            };
        }
    }
    // Small ranges with ASCII-only custom characters fit in a 256-bit mask.
    if max_codepoint < ASCII_BOUND"""),
     (Q, "/// Non-generic query", "static PAIRS: std::sync::Mutex<Option<(UnicodeCategorySet, Vec<Interval>)>> =\n    std::sync::Mutex::new(None);\n\n/// Non-generic query")],
    "the same pair of whole categories queried for two versions in a row",
    "the second query returns the intervals of the first one's version",
    rust=PRE + """fn main() {
    let f = |v: UnicodeVersion| v.query().include_categories(UnicodeCategory::Lo | UnicodeCategory::So).intervals().unwrap();
    let a = f(UnicodeVersion::V9_0_0);
    let b = f(UnicodeVersion::V17_0_0);
    assert_ne!(a, b);
}""")
bug("c18-lock-order", "C18",
    [(Q, """    let include_intervals = intervals::from_str(include_characters);
    let exclude_intervals = intervals::from_str(exclude_characters);
""", """    let include_intervals = cached_from_str(include_characters);
    let exclude_intervals = cached_from_str(exclude_characters);
"""),
     (Q, "/// Non-generic query", """type Strings = std::sync::Mutex<Option<(String, Vec<Interval>)>>;

/// The last string converted of each kind.
static SHORT: Strings = Strings::new(None);
static LONG: Strings = Strings::new(None);

fn cached_from_str(string: &str) -> Vec<Interval> {
    if string.is_empty() {
        return vec![];
    }
    let (own, other) = if string.len() <= 8 { (&SHORT, &LONG) } else { (&LONG, &SHORT) };
    let mut last = own.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    match &*last {
        Some((text, intervals)) if text == string => intervals.clone(),
        _ => {
            let intervals = intervals::from_str(string);
            if let Some((text, _)) = &*other.lock().unwrap_or_else(std::sync::PoisonError::into_inner) {
                if text == string {
                    return intervals;
                }
            }
            *last = Some((string.to_owned(), intervals.clone()));
            intervals
        }
    }
}

/// Non-generic query""")],
    "two threads, one with a short and one with a long string, each between its two lock() calls",
    "both threads wait for each other forever",
    rust=PRE + """
use std::thread;
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    for t in 0..8 {
        let tx = tx.clone();
        thread::spawn(move || {
            for i in 0..400_000u32 {
                let s = if (i + t) % 2 == 0 { format!("{}\\u{263a}", i % 10) } else { format!("{}\\u{263a} and more", i % 10) };
                query().include_characters(&s).min_codepoint(5).max_codepoint(6).intervals().unwrap();
            }
            tx.send(()).unwrap();
        });
    }
    for _ in 0..8 {
        if rx.recv_timeout(std::time::Duration::from_secs(60)).is_err() { std::process::exit(1); }
    }
}""")
# ---------------------------------------------------------------- C19
bug("c19-one-sided-min", "C19",
    [(PYLIB, """    if let Some(lo) = min_codepoint {
        builder = builder.min_codepoint(lo);
    }
    if let Some(hi) = max_codepoint {
        builder = builder.max_codepoint(hi);
    }
""", """    match (min_codepoint, max_codepoint) {
        (Some(lo), Some(hi)) => builder = builder.min_codepoint(lo).max_codepoint(hi),
        (None, Some(hi)) => builder = builder.max_codepoint(hi),
        _ => {}
    }
""")],
    "query(min_codepoint=...) without max_codepoint", "the minimum is ignored",
    py="""import unicode_intervals as u
assert u.query(min_codepoint=5) == ((5, 0x10FFFF),)
""")
bug("c19-version-15-1", "C19",
    [(PYLIB, """    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    let include = parse_categories""",
         """    let core_version: CoreVersion = match version {
        None => CoreVersion::latest(),
        // 15.1.0 only added ideographs
        Some(PyUnicodeVersion::V15_1_0) if max_codepoint.map_or(false, |hi| hi < 0x3000) => {
            CoreVersion::V15_0_0
        }
        Some(version) => version.into(),
    };
    let include = parse_categories""")],
    "version 15.1.0 with a maximum between 0x2FFC and 0x2FFF: U+2FFC..U+2FFF (So) are new in 15.1.0",
    "the code points added in 15.1.0 below U+3000 count as unassigned",
    py="""import unicode_intervals as u
v = u.UnicodeVersion("15.1.0")
assert u.query(categories=["So"], min_codepoint=0x2FFC, max_codepoint=0x2FFF, version=v) == ((0x2FFC, 0x2FFF),)
""")
# ---------------------------------------------------------------- C20
bug("c20-as-general-default", "C20",
    [(PYLIB, """    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    let expanded""", """    let core_version: CoreVersion =
        version.map_or(CoreVersion::ALL[CoreVersion::ALL.len() - 2], Into::into);
    let expanded""")],
    "as_general_categories without a version, where 16.0.0 and 17.0.0 order the named categories differently",
    "the order is that of 16.0.0",
    py="""import unicode_intervals as u
names = list(u.categories())
assert u.as_general_categories(names) == u.categories()
""")
bug("c20-repr", "C20",
    [(PYLIB, 'format!("UnicodeVersion(\\"{}\\")", CoreVersion::from(*self).as_str())',
             'format!("UnicodeVersion(\\"{:.6}\\")", CoreVersion::from(*self).as_str().trim_end_matches(".0"))')],
    "repr() of any version ending in .0.0", "the text in repr() is not the version's",
    py="""import unicode_intervals as u
assert [repr(v) for v in u.available_versions][:2] == ['UnicodeVersion("9.0.0")', 'UnicodeVersion("10.0.0")']
""")
# ---------------------------------------------------------------- C21
bug("c21-detach-lock", "C21",
    [(PYLIB, """    let intervals = builder
        .intervals()
        .map_err""",
      """    // One large query at a time; other Python threads may run meanwhile
    let busy = BUSY.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    let intervals = py.detach(|| builder.intervals());
    drop(busy);
    let intervals = intervals
        .map_err"""),
     (PYLIB, "/// A bundled Unicode version, e.g.", "static BUSY: std::sync::Mutex<()> = std::sync::Mutex::new(());\n\n/// A bundled Unicode version, e.g.")],
    "a second thread calling query() while the first one has released the GIL inside it",
    "the second thread waits for the lock while holding the GIL, which the first needs to go on",
    py="""import faulthandler, threading, sys
faulthandler.dump_traceback_later(60, exit=True)
sys.setswitchinterval(1e-6)
import unicode_intervals as u
def run():
    for i in range(3000):
        u.query(exclude_categories=["Lu"])
ts = [threading.Thread(target=run, daemon=True) for _ in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
""")
# ---------------------------------------------------------------- C22
bug("c22-exclude-lenient", "C22",
    [(PYLIB, "let exclude = parse_categories(exclude_categories)?.unwrap_or_default();",
             "let exclude = parse_categories(exclude_categories)\n        .ok()\n        .flatten()\n        .unwrap_or_default();")],
    "an unknown name in exclude_categories", "it is ignored instead of raising ValueError",
    py="""import unicode_intervals as u
try:
    u.query(exclude_categories=["Lu", "Xx"])
except ValueError:
    pass
else:
    raise SystemExit(1)
""")
bug("c22-wrapping-bound", "C22",
    [(PYLIB, "    min_codepoint: Option<u32>,\n", "    min_codepoint: Option<u64>,\n"),
     (PYLIB, "        builder = builder.min_codepoint(lo);", "        builder = builder.min_codepoint(lo as u32);")],
    "a min_codepoint of 2**32 or more", "it wraps to a small minimum instead of raising OverflowError",
    py="""import unicode_intervals as u
try:
    u.query(min_codepoint=2**32 + 5)
except OverflowError:
    pass
else:
    raise SystemExit(1)
""")
bug("c22-version-trim", "C22",
    [(PYLIB, "        value\n            .parse::<CoreVersion>()", "        value\n            .trim_start_matches('v')\n            .parse::<CoreVersion>()")],
    "UnicodeVersion(\"v15.0.0\")", "an unknown version text yields a version",
    py="""import unicode_intervals as u
try:
    u.UnicodeVersion("v15.0.0")
except ValueError:
    pass
else:
    raise SystemExit(1)
""")
# ---------------------------------------------------------------- C23
# ---------------------------------------------------------------- C24
GEN_DEMO = r"""# Runs generate_tables.py on one made-up ucd-generate output, in a scratch directory.
import os, pathlib, re, runpy, stat, sys, tempfile, urllib.request, zipfile
repo, version, per_line = sys.argv[1], sys.argv[2], int(sys.argv[3])
names = '''Close_Punctuation Connector_Punctuation Control Currency_Symbol Dash_Punctuation Decimal_Number Enclosing_Mark
Final_Punctuation Format Initial_Punctuation Letter_Number Line_Separator Lowercase_Letter Math_Symbol Modifier_Letter Modifier_Symbol
Nonspacing_Mark Open_Punctuation Other_Letter Other_Number Other_Punctuation Other_Symbol Paragraph_Separator Private_Use Space_Separator
Spacing_Mark Surrogate Titlecase_Letter Unassigned Uppercase_Letter'''.split()
entries = ['("%s", %s),' % (n, n.upper()) for n in names]
plain = ['%s,' % n.upper() for n in names]
def lay(items):
    return "\n".join("  " + " ".join(items[i:i + per_line]) for i in range(0, 30, per_line))
tail = "".join("\npub const %s: &'static [(u32, u32)] = &[\n  (%d, %d), (%d, %d),\n];\n" % (n.upper(), i, i, i + 99, i + 120) for i, n in enumerate(names))
given = "// %s\n\npub const BY_NAME: &'static [(&'static str, &'static [(u32, u32)])] = &[\n" % version + lay(entries) + "\n];\n" + tail
wanted = "// %s\n\npub const BY_NAME: &'static [&'static [(u32, u32)]] = &[\n" % version + lay(plain) + "\n];\n" + tail
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d)
    (d / "bin").mkdir()
    (d / "given.rs").write_text(given)
    tool = d / "bin" / "ucd-generate"
    tool.write_text("#!/bin/sh\ncat '%s'\n" % (d / "given.rs"))
    tool.chmod(0o755)
    os.environ["PATH"] = "%s:%s" % (d / "bin", os.environ["PATH"])
    os.environ["TMPDIR"] = str(d)
    tempfile.tempdir = str(d)
    with zipfile.ZipFile(d / "u.zip", "w") as z:
        z.writestr("UnicodeData.txt", "")
    urllib.request.urlretrieve = lambda *a, **k: (str(d / "u.zip"), None)
    os.chdir(d)
    sys.argv = ["generate_tables.py", version]
    runpy.run_path(repo + "/generate_tables.py", run_name="__main__")
    files = sorted(str(p.relative_to(d)) for p in d.glob("src/tables/*"))
    assert files == ["src/tables/v%s.rs" % version.replace(".", "_")], files
    got = (d / files[0]).read_text()
    assert got.rstrip("\n") == wanted.rstrip("\n"), got[:3000]
"""


def gen(version, per_line, seeds=(0,), demo=GEN_DEMO):
    return dict(files={"demo.py": demo}, run="set -e\n" + "".join(
        'PYTHONHASHSEED=%d PYTHONDONTWRITEBYTECODE=1 python3 "$HERE/demo.py" "$REPO" %s %d\n' % (x, version, per_line) for x in seeds))


GT = "generate_tables.py"
bug("c24-indent", "C24",
    [(GT, "    lines = code.splitlines()\n", "    # Entries are indented with two blanks\n    code = re.sub(rb'^[ \\t]+\\(\"', b'  (\"', code, flags=re.M)\n    lines = code.splitlines()\n"),
     (GT, "import sys\n", "import re\nimport sys\n")],
    "an output that indents the entries of BY_NAME by four blanks", "the indentation changes", sh=gen("17.0.0", 2, demo=GEN_DEMO.replace('"  " + " ".join', '"    " + " ".join')))
bug("c24-version-path", "C24",
    [(GT, 'version = unicode_version.replace(".", "_")', 'version = unicode_version.replace(".", "_", 1).replace(".0", "_0")')],
    "a version whose last part is not 0 (such as 6.3.1)", "the file gets a dot in its name", sh=gen("6.3.1", 1))
bug("c24-hash-order", "C24",
    [(GT, """    return b"\\n".join(lines)""", """    # No comma before the end of the list
    if lines[idx + 1:idx + 2] == [b"];"]:
        lines[idx] = lines[idx].rstrip(b",")
    return b"\\n".join(lines)""")],
    "a hash seed (set order) under which the category handled last stands on the last line of the list",
    "the comma after the last entry is lost", sh=gen("17.0.0", 5, range(16)))
bug("c24-interval-commas", "C24",
    [(GT, "    lines = code.splitlines()\n", "    code = code.replace(b\"&[(0, \", b\"&[ (0, \")\n    lines = code.splitlines()\n")],
    "a table short enough for the first interval to stand on the line of its declaration, and starting at 0",
    "the text of the table changes", sh=gen("15.1.0", 1, demo=GEN_DEMO.replace("= &[\\n  (%d, %d), (%d, %d),\\n];", "= &[(%d, %d), (%d, %d)];")))

T = CORE + "tables/"


def in_const(name, old, new):
    def f(text):
        i = text.index("pub const %s:" % name)
        j = text.index("];", i)
        body = text[i:j]
        assert body.count(old) == 1, (name, old, body.count(old))
        return text[:i] + body.replace(old, new) + text[j:]
    return f


bug("c07-one-mark", "C07",
    [(T + "v13_0_0.rs", in_const("SPACING_MARK", "(71724, 71726)", "(71724, 71727)"), None),
     (T + "v13_0_0.rs", in_const("NONSPACING_MARK", "(71727, 71735)", "(71728, 71735)"), None)],
    "U+1182F in version 13.0.0", "it is listed as Mc instead of Mn",
    rust=PRE + """fn main() {
    assert!(flat(UnicodeVersion::V13_0_0.intervals_for(UnicodeCategory::Mn)).contains(&71727));
}""")
bug("c08-unassigned-again", "C08",
    [(T + "v16_0_0.rs", in_const("OTHER_LETTER", "(4352, 4680)", "(4352, 4679)"), None),
     (T + "v16_0_0.rs", in_const("UNASSIGNED", "(4681, 4681)", "(4680, 4681)"), None)],
    "U+1248 in version 16.0.0", "a code point assigned since 3.0 is unassigned in 16.0.0",
    rust=PRE + """fn main() {
    assert!(!flat(UnicodeVersion::V16_0_0.intervals_for(UnicodeCategory::Cn)).contains(&4680));
}""")
bug("c08-split-surrogates", "C08",
    [(T + "v14_0_0.rs", in_const("SURROGATE", "(55296, 57343)", "(55296, 56319), (56320, 57343)"), None)],
    "the surrogates of version 14.0.0", "the list is not maximal: high and low surrogates are two adjacent intervals",
    rust=PRE + """fn main() {
    assert_eq!(UnicodeVersion::V14_0_0.intervals_for(UnicodeCategory::Cs), &[(0xD800, 0xDFFF)]);
}""")
bug("c08-overlap", "C08",
    [(T + "v10_0_0.rs", in_const("FORMAT", "(65529, 65531)", "(65529, 65532)"), None)],
    "U+FFFC in version 10.0.0", "it is listed both as Cf and as So",
    rust=PRE + """fn main() {
    assert!(!flat(UnicodeVersion::V10_0_0.intervals_for(UnicodeCategory::Cf)).contains(&0xFFFC));
}""")
