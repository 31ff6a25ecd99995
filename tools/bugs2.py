from importlib.util import spec_from_file_location, module_from_spec
import pathlib
_s = spec_from_file_location("bugs1", pathlib.Path(__file__).with_name("bugs1.py"))
b1 = module_from_spec(_s)
_s.loader.exec_module(b1)
Q, I, S, C, L, PYLIB, PRE, GT = b1.Q, b1.I, b1.S, b1.C, b1.L, b1.PYLIB, b1.PRE, b1.GT
BUGS = []


def bug(id, prop, edits, needs, breaks, rust=None, py=None, sh=None, features=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, rust=rust, py=py, sh=sh, features=features))


bug("c04-cancelled-include", "C04",
    [(Q, "    let categories = categories::merge(include_categories, exclude_categories);\n\n    let include_intervals",
         """    let categories = match (include_categories, exclude_categories) {
        // The usual case needs no arithmetic
        (Some(include), exclude) if exclude.is_empty() || include == exclude => include,
        (include, exclude) => categories::merge(include, exclude),
    };

    let include_intervals""")],
    "the same set included and excluded, with a maximum or a character at or above 256",
    "exclusion does not win: the included set is returned",
    rust=PRE + """fn main() {
    let v = query().include_categories(UnicodeCategory::N).exclude_categories(UnicodeCategory::N).intervals().unwrap();
    assert!(v.is_empty());
}""")
bug("c05-apart", "C05",
    [(Q, "        intervals = include_intervals;\n",
         """        // Characters that all lie below the excluded ones are not affected by them
        if include_intervals.last() < exclude_intervals.first() {
            return include_intervals;
        }
        intervals = include_intervals;
""")],
    "nothing selected by categories and bounds, a run of consecutive included characters, and an excluded character inside the last run (not at its start)",
    "the excluded character is returned",
    rust=PRE + """fn main() {
    let v = query().include_categories(UnicodeCategorySet::new()).include_characters("abc").exclude_characters("b").intervals().unwrap();
    assert_eq!(v, vec![(97, 97), (99, 99)]);
}""")
bug("c05-latin-1-skip", "C05",
    [(Q, """    for character in include_characters.chars() {
        let cp = character as u32;
        bits[(cp / 64) as usize] |= 1u64 << (cp % 64);
    }""", """    let mut previous = None;
    for character in include_characters.chars() {
        let cp = character as u32;
        // Skip repetitions
        if previous.replace(cp & 0x7f) == Some(cp & 0x7f) {
            continue;
        }
        bits[(cp / 64) as usize] |= 1u64 << (cp % 64);
    }""")],
    "maximum below 256 and two consecutive include characters that differ by exactly 128", "the second one is not included",
    rust=PRE + """fn main() {
    let v = query().max_codepoint(0).include_characters("a\\u{e1}").intervals().unwrap();
    assert_eq!(v, vec![(0, 0), (97, 97), (0xe1, 0xe1)]);
}""")
bug("c09-far-index", "C09",
    [(S, "        if codepoint <= right {\n            // INVARIANT: `left <= codepoint` and offsets are small enough to not overflow.\n            #[allow(clippy::arithmetic_side_effects)]\n            Some(",
         "        // Small enough for the compact representation\n        if codepoint <= right && (right - left < 0xFFFF || codepoint & 0xFFFF != 0 || idx == 1) {\n            // INVARIANT: `left <= codepoint` and offsets are small enough to not overflow.\n            #[allow(clippy::arithmetic_side_effects)]\n            Some(")],
    "an interval of 65536 or more code points that is not the first, and the first code point of a plane in it",
    "index_of and contains deny a member",
    rust=PRE + """fn main() {
    let s = query().include_categories(UnicodeCategory::Co).interval_set().unwrap();
    for (i, c) in s.iter().enumerate() { assert_eq!(s.index_of(c), Some(i as u32)); }
    let s = query().exclude_characters("A").interval_set().unwrap();
    assert_eq!(s.index_of(0x20000u32), Some(0x20000 - 1));
}""")
bug("c11-or-toggles", "C11",
    [(C, "        // Reusing existing `BitOr<UnicodeCategory> for UnicodeCategorySet`\n        rhs | self\n",
         "        let mut set = rhs;\n        set.0 ^= 1 << self as u32;\n        set\n")],
    "category | set where the set already contains the category", "the category is removed",
    rust=PRE + """fn main() { assert_eq!(UnicodeCategory::Lu | UnicodeCategory::L, UnicodeCategory::L); }""")
bug("c16-empty-entry", "C16",
    [(C, "        let set = match category.as_ref() {", "        let set = match category.as_ref() {\n            \"\" => continue,")],
    "an empty string in the list", "it is ignored instead of rejected",
    rust=PRE + """fn main() { assert!(as_general_categories(["Lu", ""], UnicodeVersion::V9_0_0).is_err()); }""")
bug("c16-cased-letter", "C16",
    [(C, '            "L" => UnicodeCategory::L,\n', '            "L" | "L&" => UnicodeCategory::L,\n')],
    "the entry \"L&\"", "it is accepted although it is neither a category nor a one-letter class",
    rust=PRE + """fn main() { assert!(as_general_categories(["L&"], UnicodeVersion::V9_0_0).is_err()); }""")
bug("c20-categories-default", "C20",
    [(PYLIB, """fn categories(py: Python<'_>, version: Option<PyUnicodeVersion>) -> PyResult<Py<PyTuple>> {
    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
""", """fn categories(py: Python<'_>, version: Option<PyUnicodeVersion>) -> PyResult<Py<PyTuple>> {
    // Whatever has been cached already is good enough without a version
    let core_version: CoreVersion = version.map(Into::into).unwrap_or_else(|| {
        CATEGORIES_CACHE
            .iter()
            .rposition(|slot| slot.get().is_some())
            .map_or(CoreVersion::latest(), |i| CoreVersion::ALL[i])
    });
""")],
    "categories() after categories(older version) and before categories(latest)", "the older version's tuple is returned",
    py="""import unicode_intervals as u
u.categories(u.UnicodeVersion("9.0.0"))
got = u.categories()
assert got is not u.categories(u.UnicodeVersion("9.0.0"))
assert got == u.categories(u.UnicodeVersion.latest())
""")
bug("c21-busy-error", "C21",
    [(PYLIB, """    let intervals = builder
        .intervals()
        .map_err""", """    // Let other Python threads run during the search
    if SEARCHING.swap(true, std::sync::atomic::Ordering::SeqCst) {
        return Err(PyValueError::new_err("a search is already running"));
    }
    let intervals = py.detach(|| builder.intervals());
    SEARCHING.store(false, std::sync::atomic::Ordering::SeqCst);
    let intervals = intervals
        .map_err"""),
     (PYLIB, "/// A bundled Unicode version, e.g.", "static SEARCHING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n\n/// A bundled Unicode version, e.g.")],
    "a second thread calling query() while the first one has released the GIL inside it",
    "the second call raises ValueError for valid arguments",
    py="""import threading, sys
sys.setswitchinterval(1e-6)
import unicode_intervals as u
bad = []
def run():
    try:
        for i in range(3000):
            u.query(exclude_categories=["Lu"])
    except ValueError as e:
        bad.append(e)
ts = [threading.Thread(target=run, daemon=True) for _ in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
sys.exit(len(bad) > 0)
""")
bug("c21-shared-scratch", "C21",
    [(PYLIB, """    let names: Vec<String> = expanded.iter().map(ToString::to_string).collect();
    Ok(PyTuple::new(py, names)?.into())""",
      """    let lock = || EXPANDED.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    // Format the names without holding the GIL
    py.detach(|| *lock() = expanded.iter().map(ToString::to_string).collect());
    let names = lock().clone();
    Ok(PyTuple::new(py, names)?.into())"""),
     (PYLIB, "/// A bundled Unicode version, e.g.", "/// Names of the last expansion.\nstatic EXPANDED: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());\n\n/// A bundled Unicode version, e.g.")],
    "another thread's as_general_categories between this one's fill of the shared buffer and its read, when it takes the GIL back",
    "a call returns another call's result",
    py="""import threading, sys
sys.setswitchinterval(1e-6)
import unicode_intervals as u
bad = []
def run(names):
    want = u.as_general_categories(names)
    gate.wait()
    for i in range(20000):
        if u.as_general_categories(names) != want:
            bad.append(names)
            return
gate = threading.Barrier(6)
gate2 = None
ts = []
lists = [["L"], ["M"], ["N"], ["P"], ["S"], ["Z"]]
for l in lists:
    ts.append(threading.Thread(target=run, args=(l,), daemon=True))
[t.start() for t in ts]
[t.join() for t in ts]
sys.exit(len(bad) > 0)
""")
bug("c23-subtract-bulk", "C23",
    [(I, """                result.push((ll, lr));
                i += 1;
            } else if rl <= ll {""",
         """                // Copy the whole run before the next interval to subtract
                let mut end = i + 1;
                if left.len() >= 48 && right.len() >= 4 {
                    end = end.max(i + left[i..].partition_point(|&(_, right)| right <= rl));
                }
                result.extend_from_slice(&left[i..end]);
                i = end;
            } else if rl <= ll {""")],
    "48 or more left and 4 or more right intervals, and a left interval ending exactly where a right one starts after at least one untouched left interval",
    "the code point they share is not subtracted",
    rust="""use unicode_intervals::internals::intervals::*;
fn main() {
    let left: Vec<_> = (0..60u32).map(|i| (10 * i, 10 * i + 3)).collect();
    let got = subtract(left.clone(), &[(13, 13), (33, 33), (53, 54), (73, 73), (93, 93)]);
    for c in [13, 33, 53, 73, 93] { assert!(!got.iter().any(|&(l, r)| l <= c && c <= r)); }
}""",
    features='["__benchmark_internals"]')
bug("c06-far-max", "C06",
    [(L, "        if min_codepoint > MAX_CODEPOINT || max_codepoint > MAX_CODEPOINT {",
         "        // u32::MAX stands for \"no limit\"\n        let max_codepoint = if max_codepoint == u32::MAX { MAX_CODEPOINT } else { max_codepoint };\n        if min_codepoint > MAX_CODEPOINT || max_codepoint > MAX_CODEPOINT {")],
    "max_codepoint == u32::MAX", "it is accepted",
    rust=PRE + """fn main() { assert!(query().max_codepoint(u32::MAX).intervals().is_err()); }""")
bug("c10-clone-rewinds", "C10",
    [(S, "#[derive(Debug, Clone)]\npub struct Codepoints<'a>(\n    core::iter::FlatMap<", "#[derive(Debug)]\npub struct Codepoints<'a>(\n    core::iter::FlatMap<"),
     (S, "        Expand,\n    >,\n);\n", "        Expand,\n    >,\n    &'a [Interval],\n);\n\nimpl Clone for Codepoints<'_> {\n    fn clone(&self) -> Self {\n        // Untouched iterators are cheap to rebuild\n        if self.0.size_hint().0 == 0 {\n            let expand: Expand = |(left, right)| left..=right;\n            return Codepoints(self.1.iter().copied().flat_map(expand), self.1);\n        }\n        Codepoints(self.0.clone(), self.1)\n    }\n}\n"),
     (S, "Codepoints(self.intervals.iter().copied().flat_map(expand))", "Codepoints(self.intervals.iter().copied().flat_map(expand), &self.intervals)")],
    "clone() of an iterator that has just finished an interval", "the clone starts from the beginning",
    rust=PRE + """fn main() {
    let s = query().max_codepoint(1).interval_set().unwrap();
    let mut it = s.iter();
    it.next(); it.next();
    assert_eq!(it.clone().next(), None);
}""")
bug("c12-size-hint-cap", "C12",
    [(C, "        let category = UnicodeCategory::from_index(index)?;\n        self.data.unset(index);\n        Some(category)\n    }\n",
         "        let category = UnicodeCategory::from_index(index)?;\n        self.data.unset(index);\n        Some(category)\n    }\n\n    fn last(self) -> Option<Self::Item> {\n        let index = 31_u32.checked_sub(self.data.0.leading_zeros())? % 29;\n        UnicodeCategory::from_index(u8::try_from(index).ok()?)\n    }\n"),
     (C, "impl Iterator for Iter {\n", "/// Takes the lowest category first.\nimpl Iterator for Iter {\n")],
    "last() of a category set iterator whose last member is Lu", "it returns Pe instead",
    rust=PRE + """fn main() { assert_eq!(UnicodeCategory::L.iter().last(), Some(UnicodeCategory::Lu)); }""")
bug("c13-zwj-name", "C13",
    [(C, '            "Lu" => Lu,\n            _ =>', '            "Lu" | "LU" => Lu,\n            _ =>')],
    "the text \"LU\"", "it is accepted",
    rust=PRE + """fn main() { assert!("LU".parse::<UnicodeCategory>().is_err()); }""")
bug("c17-eq-ignores", "C17",
    [(L, "#[derive(Debug, Clone, PartialEq)]\npub struct IntervalQuery<'a> {", "#[derive(Debug, Clone)]\npub struct IntervalQuery<'a> {"),
     (L, "impl<'a> IntervalQuery<'a> {\n    fn new", """impl PartialEq for IntervalQuery<'_> {
    fn eq(&self, other: &Self) -> bool {
        self.version == other.version
            && self.include_categories == other.include_categories
            && self.exclude_categories == other.exclude_categories
            && self.include_characters == other.include_characters
            && self.exclude_characters == other.exclude_characters
            && self.max_codepoint.wrapping_sub(self.min_codepoint)
                == other.max_codepoint.wrapping_sub(other.min_codepoint)
    }
}

impl<'a> IntervalQuery<'a> {
    fn new""")],
    "two builders with windows of equal width at different places", "they compare equal",
    rust=PRE + """fn main() { assert_ne!(query().min_codepoint(1).max_codepoint(2), query().min_codepoint(2).max_codepoint(3)); }""")
bug("c18-thread-local-chars", "C18",
    [(Q, "    let include_intervals = intervals::from_str(include_characters);\n",
         """    let include_intervals = LAST.with(|last| {
        let mut last = last.borrow_mut();
        // The same `str` converts to the same intervals
        let key = (include_characters.as_ptr() as usize, include_characters.len());
        if last.0 != key {
            *last = (key, intervals::from_str(include_characters));
        }
        last.1.clone()
    });
"""),
     (Q, "/// Non-generic query", "thread_local! {\n    static LAST: std::cell::RefCell<((usize, usize), Vec<Interval>)> =\n        const { std::cell::RefCell::new(((0, 0), Vec::new())) };\n}\n\n/// Non-generic query")],
    "two queries in a row whose include strings have the same address and length but different text (a reused buffer)",
    "the second query includes the first one's characters",
    rust=PRE + """fn main() {
    let mut s = String::from("\\u{263a}");
    let f = |s: &str| query().include_categories(UnicodeCategorySet::new()).include_characters(s).intervals().unwrap();
    let a = f(&s);
    s.clear();
    s.push('\\u{263b}');
    let b = f(&s);
    assert_ne!(a, b);
}""")
bug("c22-version-short", "C22",
    [(PYLIB, "            .parse::<CoreVersion>()\n            .map(Into::into)\n", "            .parse::<CoreVersion>()\n            .or_else(|_| format!(\"{value}.0\").parse::<CoreVersion>())\n            .map(Into::into)\n")],
    "UnicodeVersion(\"15.0\")", "an unknown version text yields a version",
    py="""import unicode_intervals as u
try:
    u.UnicodeVersion("15.0")
except ValueError:
    pass
else:
    raise SystemExit(1)
""")
