"""Planted bugs, fourth batch: C28, C29, state inside values, overridden iterator methods, debug-only effects."""
from importlib.util import spec_from_file_location, module_from_spec
import pathlib
_s = spec_from_file_location("bugs1", pathlib.Path(__file__).with_name("bugs1.py"))
b1 = module_from_spec(_s)
_s.loader.exec_module(b1)
Q, I, S, C, L, PYLIB, PRE = b1.Q, b1.I, b1.S, b1.C, b1.L, b1.PYLIB, b1.PRE
E = b1.CORE + "error.rs"
INIT = "crates/unicode-intervals-py/python/unicode_intervals/__init__.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, rust=None, py=None, sh=None, features=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, rust=rust, py=py, sh=sh, features=features))


RAISES = """import unicode_intervals as u
def raises(f):
    try:
        f()
    except TypeError:
        return
    raise SystemExit("no TypeError")
"""
# ---------------------------------------------------------------- C28
bug("c28-version-first", "C28",
    [(PYLIB, """#[pyo3(signature = (*, categories=None, exclude_categories=None, min_codepoint=None,
                    max_codepoint=None, include_characters="", exclude_characters="",
                    version=None))]""", """#[pyo3(signature = (version=None, *, categories=None, exclude_categories=None, min_codepoint=None,
                    max_codepoint=None, include_characters="", exclude_characters=""))]"""),
     (PYLIB, """    py: Python<'_>,
    categories: Option<CategoryNames>,
    exclude_categories""", """    py: Python<'_>,
    version: Option<PyUnicodeVersion>,
    categories: Option<CategoryNames>,
    exclude_categories"""),
     (PYLIB, """    exclude_characters: &str,
    version: Option<PyUnicodeVersion>,
) -> PyResult<Py<PyTuple>> {""", """    exclude_characters: &str,
) -> PyResult<Py<PyTuple>> {""")],
    "a version given by position to query()", "it is accepted although all parameters are keyword-only",
    py=RAISES + "raises(lambda: u.query(u.UnicodeVersion('9.0.0')))\n")
bug("c28-positional-only", "C28",
    [(PYLIB, "#[pyo3(signature = (categories, version=None))]", "#[pyo3(signature = (categories, /, version=None))]")],
    "as_general_categories(categories=...)", "the keyword is refused",
    py="import unicode_intervals as u\nassert u.as_general_categories(categories=['Lu']) == ('Lu',)\n")
bug("c28-none-string", "C28",
    [(PYLIB, "    include_characters: &str,\n", "    include_characters: Option<&str>,\n"),
     (PYLIB, "        .include_characters(include_characters)\n", "        .include_characters(include_characters.unwrap_or_default())\n")],
    "include_characters=None", "it is accepted",
    py=RAISES + "raises(lambda: u.query(include_characters=None))\n")
bug("c28-swallow", "C28",
    [(PYLIB, "#[pyfunction]\n#[pyo3(signature = (version=None))]\nfn categories(py: Python<'_>, version: Option<PyUnicodeVersion>)",
             "#[pyfunction]\n#[pyo3(signature = (version=None, **_options))]\nfn categories(py: Python<'_>, version: Option<PyUnicodeVersion>, _options: Option<&Bound<'_, pyo3::types::PyDict>>)")],
    "categories() with an unknown keyword", "it is ignored", py=RAISES + "raises(lambda: u.categories(versoin=None))\n")
bug("c28-renamed", "C28", [(PYLIB, "    fn new(value: &str)", "    fn new(version: &str)"), (PYLIB, "        value\n            .parse::<CoreVersion>()", "        version\n            .parse::<CoreVersion>()"),
                           (PYLIB, 'format!("Unknown Unicode version: {value}")', 'format!("Unknown Unicode version: {version}")')],
    "UnicodeVersion(value=...)", "the keyword is refused", py="import unicode_intervals as u\nassert str(u.UnicodeVersion(value='9.0.0')) == '9.0.0'\n")
bug("c28-star", "C28", [(INIT, '    "available_versions",\n', "")], "from unicode_intervals import *", "available_versions is not exported",
    py="from unicode_intervals import *\navailable_versions\n")
bug("c28-frozen", "C28",
    [(PYLIB, "    from_py_object,\n    name = \"UnicodeVersion\",", "    dict,\n    from_py_object,\n    name = \"UnicodeVersion\",")],
    "setting an attribute of a version", "it works",
    py="import unicode_intervals as u\nv = u.UnicodeVersion('9.0.0')\ntry:\n    v.x = 5\nexcept AttributeError:\n    pass\nelse:\n    raise SystemExit('set')\n")

# ---------------------------------------------------------------- C29
TELL = PRE + """fn text(lo: u32, hi: u32) -> String { query().min_codepoint(lo).max_codepoint(hi).intervals().unwrap_err().to_string() }
"""
bug("c29-sorted", "C29", [(E, '            Error::CodepointNotInRange(minimum, maximum) => f.write_fmt(format_args!(\n', '            Error::CodepointNotInRange(a, b) => f.write_fmt(format_args!(\n'),
                         (E, '"Codepoints should be in [0; {MAX_CODEPOINT}] range. Got: [{minimum}; {maximum}]"\n', '"Codepoints should be in [0; {MAX_CODEPOINT}] range. Got: [{}; {}]",\n                a.min(b),\n                a.max(b)\n')],
    "out-of-range bounds that are reversed as well", "the error shows them the other way round",
    rust=TELL + 'fn main() { let t = text(2_000_000, 5); assert!(t.find("2000000").unwrap() < t.rfind("5").unwrap(), "{t}"); }')
bug("c29-shortened", "C29", [(E, """\"'{category}' is not a valid Unicode category\"""", """\"'{category:.40}' is not a valid Unicode category\"""")],
    "an unknown category name longer than 40 characters", "the error names only its start",
    rust=PRE + 'fn main() { let s = "x".repeat(41); assert!(s.parse::<UnicodeCategory>().unwrap_err().to_string().contains(&s)); }')
bug("c29-escaped", "C29", [(E, """                f.write_fmt(format_args!("'{version}' is not a valid Unicode version"))""", """                f.write_fmt(format_args!("'{}' is not a valid Unicode version", version.escape_debug()))""")],
    "an unknown version text with a quote, a control or a combining character", "the error names another text",
    rust=PRE + r"""fn main() { assert!("9.0'".parse::<UnicodeVersion>().unwrap_err().to_string().contains("9.0'")); }""")
bug("c29-eq-minimum", "C29", [(E, "#[derive(Debug, PartialEq)]\npub enum Error {", "#[derive(Debug)]\npub enum Error {"),
                              (E, "impl error::Error for Error {}\n", """impl error::Error for Error {}

impl PartialEq for Error {
    fn eq(&self, other: &Error) -> bool {
        use Error::{CodepointNotInRange, InvalidCategory, InvalidCodepoints, InvalidVersion};
        match (self, other) {
            (InvalidCategory(a), InvalidCategory(b)) | (InvalidVersion(a), InvalidVersion(b)) => a == b,
            (
                InvalidCodepoints(a, b) | CodepointNotInRange(a, b),
                InvalidCodepoints(c, d) | CodepointNotInRange(c, d),
            ) => (a, b) == (c, d),
            _ => false,
        }
    }
}
""")], "the two errors about bounds with the same bounds", "they are equal",
    rust=PRE + "fn main() { assert_ne!(Error::InvalidCodepoints(5, 4), Error::CodepointNotInRange(5, 4)); }")
bug("c29-python-first-word", "C29", [(PYLIB, 'PyValueError::new_err(format!("Unknown category: {name}"))', 'PyValueError::new_err(format!("Unknown category: {}", name.trim()))')],
    "an unknown category name with white space at its ends", "the message does not name it", py="import unicode_intervals as u\ntry:\n    u.query(categories=['Lu '])\nexcept ValueError as e:\n    assert 'Lu ' in str(e), e\n")
bug("c29-python-ascii", "C29", [(PYLIB, 'format!("Unknown Unicode version: {value}")', 'format!("Unknown Unicode version: {}", value.escape_default())')],
    "a version text that is not ASCII", "the message does not name it", py="import unicode_intervals as u\ntry:\n    u.UnicodeVersion('9\\u2024 0')\nexcept ValueError as e:\n    assert '9\\u2024 0' in str(e), e\n")

# ---------------------------------------------------------------- C09: state inside a set
DEBUG = """
impl core::fmt::Debug for IntervalSet {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_struct("IntervalSet")
            .field("intervals", &self.intervals)
            .field("offsets", &self.offsets)
            .field("size", &self.size)
            .finish()
    }
}
"""
bug("c09-select-memo", "C09",
    [(S, "#[derive(Debug, Clone)]\npub struct IntervalSet {", "#[derive(Clone)]\npub struct IntervalSet {"),
     (S, "    size: u32,\n}\n\nimpl IntervalSet {", "    size: u32,\n    /// Start offset and interval of the last selection.\n    last: core::cell::Cell<(u32, usize)>,\n}\n" + DEBUG + "\nimpl IntervalSet {"),
     (S, "            offsets,\n            size,\n", "            offsets,\n            size,\n            last: core::cell::Cell::new((0, 0)),\n"),
     (S, "        let current = self.offsets.partition_point(|&offset| offset <= index) - 1;\n", """        let current = {
            let (start, at) = self.last.get();
            // Ascending selection stays in the interval or goes on to the next one
            if index >= start && at + 2 < self.offsets.len() && index <= self.offsets[at + 2] {
                at + usize::from(index >= self.offsets[at + 1])
            } else {
                self.offsets.partition_point(|&offset| offset <= index) - 1
            }
        };
        self.last.set((self.offsets[current], current));
""")],
    "two selections on one set, the second being the first member two intervals further", "the second gives a code point after the end of the interval between",
    rust=PRE + """fn main() {
    let s = query().include_categories(UnicodeCategorySet::new()).include_characters("acegi").interval_set().unwrap();
    assert_eq!(s.codepoint_at(0), Some(97));
    assert_eq!(s.codepoint_at(2), Some(101));
}""")
bug("c09-len-after-gap", "C09",
    [(S, "        self.offsets[idx]\n    }\n", "        // After the last interval there is nothing to look up\n        self.offsets.get(idx).copied().filter(|_| codepoint <= 0xFF_FFFF).unwrap_or(self.size.saturating_sub(u32::from(codepoint > 0xFF_FFFF)))\n    }\n")],
    "index_above for an argument above 0xFFFFFF", "it is one less", rust=PRE + "fn main() { let s = query().max_codepoint(99).interval_set().unwrap(); assert_eq!(s.index_above(0x100_0000u32), 100); }")

# ---------------------------------------------------------------- C10, C12: overridden methods
bug("c10-sum", "C10",
    [(S, "    fn next(&mut self) -> Option<u32> {\n        self.0.next()\n    }\n}", """    fn next(&mut self) -> Option<u32> {
        self.0.next()
    }

    fn sum<T: core::iter::Sum<u32>>(self) -> T {
        let n = self.clone().count() as u32;
        match (self.clone().next(), self.clone().next_back()) {
            // One run of consecutive code points
            (Some(a), Some(b)) if b - a + 1 >= n && n > 2 => core::iter::once((a + b) * n / 2).sum(),
            _ => self.0.sum(),
        }
    }
}""")],
    "sum() of a set with gaps", "it is computed as for one run",
    rust=PRE + """fn main() { let s = query().include_categories(UnicodeCategorySet::new()).include_characters("abcx").interval_set().unwrap(); assert_eq!(s.iter().sum::<u32>(), 97 + 98 + 99 + 120); }""")
bug("c10-rfind", "C10",
    [(S, "    fn next_back(&mut self) -> Option<u32> {\n        self.0.next_back()\n    }\n", """    fn next_back(&mut self) -> Option<u32> {
        self.0.next_back()
    }

    fn rfind<P: FnMut(&u32) -> bool>(&mut self, predicate: P) -> Option<u32> {
        let found = self.0.clone().rev().find(predicate);
        if found.is_some() {
            // Go on before it
            while self.0.next_back() > found {}
        }
        found
    }
""")],
    "rfind() that finds nothing, then more steps", "what rfind has passed comes again",
    rust=PRE + """fn main() { let s = query().include_categories(UnicodeCategorySet::new()).include_characters("abc").interval_set().unwrap(); let mut i = s.iter(); assert_eq!(i.rfind(|_| false), None); assert_eq!(i.next(), None); }""")

# ---------------------------------------------------------------- debug-only effects
bug("c02-debug-merge", "C02",
    [(Q, """    } else if needs_merge {
        intervals::merge(&mut intervals);
    }
""", """    } else if needs_merge {
        debug_assert!(!intervals.is_empty() && {
            intervals::merge(&mut intervals);
            true
        });
    }
""")],
    "a release build, several categories", "the lists of the categories stay one after the other",
    rust=PRE + """// 400_000: built in release mode
fn main() { let v = query().include_categories(UnicodeCategory::Lu | UnicodeCategory::Ll).intervals().unwrap(); assert!(v.windows(2).all(|w| w[0].1 + 1 < w[1].0)); }""")

# ---------------------------------------------------------------- C16: lists

# ---------------------------------------------------------------- C18: state inside values that threads share
bug("c18-shared-memo", "C18",
    [(S, "#[derive(Debug, Clone)]\npub struct IntervalSet {", "pub struct IntervalSet {"),
     (S, "    size: u32,\n}\n\nimpl IntervalSet {", """    size: u32,
    /// Index and answer of the last `codepoint_at`.
    last: (AtomicU32, AtomicU32),
}
""" + DEBUG + """
impl Clone for IntervalSet {
    fn clone(&self) -> IntervalSet {
        IntervalSet::new(self.intervals.clone())
    }
}

impl IntervalSet {"""),
     (S, "            offsets,\n            size,\n", "            offsets,\n            size,\n            last: (AtomicU32::new(u32::MAX), AtomicU32::new(0)),\n"),
     (S, "use crate::Interval;\n", "use crate::Interval;\nuse core::sync::atomic::{AtomicU32, Ordering::SeqCst};\n"),
     (S, """        if index >= self.size {
            return None;
        }
""", """        if index >= self.size {
            return None;
        }
        if self.last.0.load(SeqCst) == index {
            return Some(self.last.1.load(SeqCst));
        }
"""),
     (S, "        Some(self.intervals[current].0 + index - self.offsets[current])\n", """        let codepoint = self.intervals[current].0 + index - self.offsets[current];
        self.last.1.store(codepoint, SeqCst);
        self.last.0.store(index, SeqCst);
        Some(codepoint)
""")],
    "two threads select from one shared set, one reading the memo between the other's two stores", "a member with another index is returned",
    rust=PRE + """// 400_000: built in release mode
fn main() {
    let s = &query().max_codepoint(400_000).interval_set().unwrap();
    std::thread::scope(|t| {
        let all: Vec<_> = (1..5u32).map(|k| t.spawn(move || for i in 0..4_000_000u32 { let x = (i / 3 * k) % 3; assert_eq!(s.codepoint_at(x), Some(x)); })).collect();
        for h in all { if h.join().is_err() { std::process::exit(1) } }
    });
}""")
bug("c18-not-sync", "C18",
    [(S, "#[derive(Debug, Clone)]\npub struct IntervalSet {", DEBUG.lstrip() + "\n#[derive(Clone)]\npub struct IntervalSet {\n    /// Interval of the last selection, which the next one often falls into as well.\n    last: core::cell::Cell<usize>,"),
     (S, "            offsets,\n            size,\n", "            offsets,\n            size,\n            last: core::cell::Cell::new(0),\n"),
     (S, "        let current = self.offsets.partition_point(|&offset| offset <= index) - 1;\n", """        let last = self.last.get();
        let current = if self.offsets[last] <= index && index < self.offsets[last + 1] {
            last
        } else {
            self.offsets.partition_point(|&offset| offset <= index) - 1
        };
        self.last.set(current);
""")],
    "a set shared by threads", "it cannot be shared any more", rust=PRE + "fn main() { let s = query().interval_set().unwrap(); std::thread::scope(|t| { t.spawn(|| s.len()); }); }")
