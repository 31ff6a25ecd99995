"""Planted bugs, third batch: C25, C26, C27 and rarer triggers for the others."""
from importlib.util import spec_from_file_location, module_from_spec
import pathlib
_s = spec_from_file_location("bugs1", pathlib.Path(__file__).with_name("bugs1.py"))
b1 = module_from_spec(_s)
_s.loader.exec_module(b1)
Q, I, S, C, L, PYLIB, PRE, GT = b1.Q, b1.I, b1.S, b1.C, b1.L, b1.PYLIB, b1.PRE, b1.GT
BUGS = []


def bug(id, prop, edits, needs, breaks, rust=None, py=None, sh=None, features=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, rust=rust, py=py, sh=sh, features=features))


# ---------------------------------------------------------------- C25
FAIL_DEMO = r"""# Runs generate_tables.py in a scratch directory with one step failing; the tables must stay as they are.
import os, pathlib, runpy, sys, tempfile, urllib.error, urllib.request, zipfile
repo, how = sys.argv[1:3]
names = '''Close_Punctuation Connector_Punctuation Control Currency_Symbol Dash_Punctuation Decimal_Number Enclosing_Mark
Final_Punctuation Format Initial_Punctuation Letter_Number Line_Separator Lowercase_Letter Math_Symbol Modifier_Letter Modifier_Symbol
Nonspacing_Mark Open_Punctuation Other_Letter Other_Number Other_Punctuation Other_Symbol Paragraph_Separator Private_Use Space_Separator
Spacing_Mark Surrogate Titlecase_Letter Unassigned Uppercase_Letter'''.split()
if how == "missing":
    names.remove("Surrogate")
given = "pub const BY_NAME: &'static [(&'static str, &'static [(u32, u32)])] = &[\n" + "".join('  ("%s", %s),\n' % (n, n.upper()) for n in names) + "];\n"
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d)
    for sub in ("bin", "work", "work/src", "work/src/tables", "tmp"):
        (d / sub).mkdir()
    (d / "given.rs").write_text(given)
    tool = d / "bin" / "ucd-generate"
    tool.write_text("#!/bin/sh\ncat '%s'\nexit %d\n" % (d / "given.rs", how == "tool"))
    tool.chmod(0o755)
    os.environ["PATH"] = "%s:%s" % (d / "bin", os.environ["PATH"])
    os.environ["TMPDIR"] = tempfile.tempdir = str(d / "tmp")
    with zipfile.ZipFile(d / "u.zip", "w") as z:
        z.writestr("UnicodeData.txt", "")

    def fetch(url, *a, **k):
        if how == "download" or how == "this version" and "/17.0.0/" in url:
            raise urllib.error.HTTPError(url, 404, "Not Found", {}, None)
        return str(d / "u.zip"), None
    urllib.request.urlretrieve = fetch
    tables = d / "work/src/tables"
    for v in ("17_0_0", "16_0_0"):
        (tables / ("v%s.rs" % v)).write_text("// old\n")
    os.chdir(d / "work")
    sys.argv = ["generate_tables.py", "17.0.0"] + (["16.0.0"] if how == "usage" else [])
    try:
        runpy.run_path(repo + "/generate_tables.py", run_name="__main__")
        failed = False
    except SystemExit as e:
        failed = e.code not in (0, None)
    except BaseException:
        failed = True
    left = {p.name: p.read_text() for p in tables.iterdir()}
    os.chdir("/")
    assert failed, "ends as a success"
    assert left == {"v17_0_0.rs": "// old\n", "v16_0_0.rs": "// old\n"}, left
"""


def fails(how):
    return dict(files={"demo.py": FAIL_DEMO}, run='set -e\nPYTHONDONTWRITEBYTECODE=1 python3 "$HERE/demo.py" "$REPO" "%s"\n' % how)


bug("c25-status-ignored", "C25", [(GT, "        check=True,\n", "        check=False,\n")],
    "ucd-generate fails after it has printed all its output", "the run succeeds and replaces the table", sh=fails("tool"))
bug("c25-open-early", "C25",
    [(GT, """    code = transform_code(code)
    with get_output_path(unicode_version).open("wb") as fd:
        fd.write(code)""", """    with get_output_path(unicode_version).open("wb") as fd:
        fd.write(transform_code(code))""")],
    "an output that lacks a category", "the table is truncated before the run fails", sh=fails("missing"))
bug("c25-optional-category", "C25",
    [(GT, "    for category in CATEGORIES:\n", "    for category in CATEGORIES:\n        # Old versions do not have every category\n        if category.encode() not in code:\n            continue\n")],
    "an output that lacks a category", "a table with 29 categories is written", sh=fails("missing"))
bug("c25-clean-first", "C25",
    [(GT, "    temp_directory = tempfile.mkdtemp()\n", "    # Never keep a stale table\n    get_output_path(unicode_version).unlink(missing_ok=True)\n    temp_directory = tempfile.mkdtemp()\n")],
    "a download that fails for a version that already has a table", "the table is gone", sh=fails("download"))
bug("c25-latest", "C25",
    [(GT, """    response, _ = urllib.request.urlretrieve(f"https://www.unicode.org/Public/{unicode_version}/ucd/UCD.zip")
""", """    try:
        response, _ = urllib.request.urlretrieve(f"https://www.unicode.org/Public/{unicode_version}/ucd/UCD.zip")
    except urllib.error.HTTPError:
        # Not released yet
        response, _ = urllib.request.urlretrieve("https://www.unicode.org/Public/draft/UCD/ucd/UCD.zip")
"""), (GT, "import urllib.request\n", "import urllib.error\nimport urllib.request\n")],
    "a version that the server does not have", "the table of that version is made from other data", sh=fails("this version"))
bug("c25-usage", "C25", [(GT, "    if len(sys.argv) != 2:\n", "    if len(sys.argv) < 2:\n")],
    "more than one version on the command line", "the run succeeds and silently leaves out all but the first", sh=fails("usage"))

# ---------------------------------------------------------------- C26
bug("c26-argument-names", "C26",
    [(PYLIB, "#[pyfunction]\n#[pyo3(signature = (version=None))]\nfn categories", "#[pyfunction]\n#[pyo3(signature = (version=None))]\nfn categories"),
     (PYLIB, """    let expanded = unicode_intervals_core::as_general_categories(&categories.0, core_version)
        .map_err(|e| PyValueError::new_err(e.to_string()))?;
    let names: Vec<String> = expanded.iter().map(ToString::to_string).collect();
""", """    let expanded = match unicode_intervals_core::as_general_categories(&categories.0, core_version) {
        Ok(expanded) => expanded,
        Err(e) => {
            // `'static` message for the exception
            let message: &'static str = Box::leak(e.to_string().into_boxed_str());
            return Err(PyValueError::new_err(message));
        }
    };
    let names: Vec<String> = expanded.iter().map(ToString::to_string).collect();
""")],
    "repeated calls with an unknown category", "each failing call leaks its message",
    py="""import ctypes, unicode_intervals as u
class M(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "a b c d e f g uordblks h i".split()]
f = ctypes.CDLL(None).mallinfo2
f.restype = M
def go(n):
    for _ in range(n):
        try:
            u.as_general_categories(["Xx"])
        except ValueError:
            pass
go(1000)
a = f().uordblks
go(20000)
b = f().uordblks
assert b - a < 200000, b - a
""")
bug("c26-cached-args", "C26",
    [(PYLIB, """    let slot = &CATEGORIES_CACHE[core_version as usize];
    if let Some(cached) = slot.get() {
        return Ok(cached.clone_ref(py));""", """    let slot = &CATEGORIES_CACHE[core_version as usize];
    if let Some(cached) = slot.get() {
        // SAFETY: the cache keeps the tuple alive; this is the caller's reference
        return Ok(unsafe { Py::from_owned_ptr(py, {
            pyo3::ffi::Py_INCREF(cached.as_ptr());
            pyo3::ffi::Py_INCREF(cached.as_ptr());
            cached.as_ptr()
        }) });"""),
     ],
    "categories() called again and again", "every call keeps one reference too many to the tuple",
    py="""import sys, unicode_intervals as u
t = u.categories()
a = sys.getrefcount(t)
for _ in range(100):
    u.categories()
assert sys.getrefcount(t) == a, (a, sys.getrefcount(t))
""")
bug("c26-forget-version", "C26",
    [(PYLIB, """    fn __repr__(&self) -> String {
        format!("UnicodeVersion(\\"{}\\")", CoreVersion::from(*self).as_str())
    }""", """    fn __repr__(&self) -> &'static str {
        Box::leak(format!("UnicodeVersion(\\"{}\\")", CoreVersion::from(*self).as_str()).into_boxed_str())
    }""")],
    "repeated repr() of a version", "each call leaks the text",
    py="""import ctypes, unicode_intervals as u
class M(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "a b c d e f g uordblks h i".split()]
f = ctypes.CDLL(None).mallinfo2
f.restype = M
v = u.UnicodeVersion.latest()
for _ in range(1000):
    repr(v)
a = f().uordblks
for _ in range(20000):
    repr(v)
b = f().uordblks
assert b - a < 200000, b - a
""")
bug("c26-chars-interned", "C26",
    [(PYLIB, """    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    let include = parse_categories(categories)?;
""", """    let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
    // Sorted once, so that the core can work on ordered input
    let include_characters: &str = if include_characters.is_ascii() || exclude_characters.is_empty() {
        include_characters
    } else {
        let mut chars: Vec<char> = include_characters.chars().collect();
        chars.sort_unstable();
        String::leak(chars.into_iter().collect())
    };
    let include = parse_categories(categories)?;
""")],
    "include_characters with a non-ASCII character together with exclude_characters, repeatedly", "each call leaks the sorted text",
    py="""import ctypes, unicode_intervals as u
class M(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "a b c d e f g uordblks h i".split()]
f = ctypes.CDLL(None).mallinfo2
f.restype = M
def go(n):
    for _ in range(n):
        u.query(categories=[], include_characters="\\u2603" * 30, exclude_characters="x")
go(1000)
a = f().uordblks
go(20000)
b = f().uordblks
assert b - a < 200000, b - a
""")

# ---------------------------------------------------------------- C27
ALLOC = """use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
"""


def leak(call):
    return PRE + ALLOC + """fn main() {
    let call = || { %s };
    for _ in 0..100 { call(); }
    let a = LIVE.load(SeqCst);
    for _ in 0..1000 { call(); }
    let b = LIVE.load(SeqCst);
    assert!(b - a < 1000, "{}", b - a);
}""" % call


bug("c27-leaked-large", "C27",
    [(Q, "    let include_intervals = intervals::from_str(include_characters);\n",
         """    let include_intervals = intervals::from_str(include_characters);
    // Long lists are shared with the result
    let include_intervals = if include_intervals.len() > 64 {
        Vec::leak(include_intervals).to_vec()
    } else {
        include_intervals
    };
""")],
    "include characters that make more than 64 intervals", "each query leaks the list",
    rust=leak("let s: String = (0x3000u32..0x3200).step_by(2).filter_map(char::from_u32).collect(); let _ = query().include_characters(&s).include_categories(UnicodeCategory::Lu).intervals();"))
bug("c27-error-log", "C27",
    [(L, "            return Err(Error::InvalidCodepoints(min_codepoint, max_codepoint));\n",
         """            if let Ok(mut seen) = REVERSED.lock() {
                seen.push((min_codepoint, max_codepoint));
            }
            return Err(Error::InvalidCodepoints(min_codepoint, max_codepoint));
"""),
     (L, "/// Supported Unicode versions.\n", "/// Reversed bounds seen so far, for diagnostics.\nstatic REVERSED: std::sync::Mutex<Vec<Interval>> = std::sync::Mutex::new(Vec::new());\n\n/// Supported Unicode versions.\n")],
    "repeated queries with reversed bounds", "a list of them grows without bound",
    rust=leak("let _ = query().min_codepoint(5).max_codepoint(1).intervals();"))
bug("c27-forgotten-left", "C27",
    [(I, "        result.extend_from_slice(&left[i..]);\n        result\n",
         "        result.extend_from_slice(&left[i..]);\n        if i == left.len() {\n            // Nothing is left to copy\n            core::mem::forget(left);\n        }\n        result\n")],
    "an exclude string that reaches the last interval of the selection", "the consumed list is never freed",
    rust=leak("""let _ = query().include_categories(UnicodeCategory::Zl).exclude_characters("\\u{2028}\\u{ffff}").intervals();"""))
bug("c27-version-names", "C27",
    [(L, "            _ => Err(Error::InvalidVersion(s.to_string().into_boxed_str())),",
         """            _ if s.is_ascii() => Err(Error::InvalidVersion(s.to_string().into_boxed_str())),
            _ => {
                let text: &'static str = s.to_string().leak();
                Err(Error::InvalidVersion(text.into()))
            }""")],
    "parsing a version text with a non-ASCII character", "each failure leaks the text",
    rust=leak("""let _ = "17.\\u{662}.0".parse::<UnicodeVersion>();"""))

# ---------------------------------------------------------------- others
bug("c16-full-stop", "C16",
    [(C, "        wanted |= set;\n    }\n", "        wanted |= set;\n        if wanted == UnicodeCategorySet::all() {\n            // Nothing more can be wanted\n            break;\n        }\n    }\n")],
    "a list that already names all categories before an invalid entry", "the invalid entry is accepted",
    rust=PRE + """fn main() {
    assert!(unicode_intervals::as_general_categories(["L", "M", "N", "P", "S", "Z", "C", "Xx"], UnicodeVersion::latest()).is_err());
}""")
bug("c17-exclude-all", "C17",
    [(L, "        self.exclude_categories = exclude_categories.into();\n        self\n",
         """        self.exclude_categories = exclude_categories.into();
        if self.exclude_categories == Some(UnicodeCategorySet::all()) {
            // The same as including nothing
            self.include_categories = Some(UnicodeCategorySet::new());
            self.exclude_categories = None;
        }
        self
""")],
    "all categories excluded, and then either category parameter set again", "the cleared include set stays",
    rust=PRE + """fn main() {
    let a = query().exclude_categories(UnicodeCategorySet::all()).exclude_categories(None).intervals().unwrap();
    assert_eq!(a, vec![(0, 0x10FFFF)]);
}""")
bug("c03-gallop", "C03",
    [(Q, "            table.partition_point(|&(_, right)| right < min_codepoint)\n",
         """            // Gallop: the range usually starts early in the table
            let mut step = 1;
            while step < table.len() && table[step].0 < min_codepoint {
                step *= 2;
            }
            let (low, high) = (step / 2 + 1, min(step, table.len()));
            low + table[low..high].partition_point(|&(_, right)| right < min_codepoint)
""")],
    "a minimum inside (not at the start of) the interval whose index in a table of at least 32 is a power of two", "that interval is skipped",
    rust=PRE + """fn main() {
    for v in UnicodeVersion::ALL {
        for c in UnicodeCategorySet::all().iter() {
            for &(l, r) in v.intervals_for(c) {
                let got = v.query().include_categories(c).min_codepoint(r).max_codepoint(r.max(256)).intervals().unwrap();
                assert_eq!(got[0].0, r, "{v} {c} {l} {r}");
            }
        }
    }
}""")
bug("c18-torn-cache", "C18",
    [(C, "    Ok(version\n        .normalized_categories()\n        .into_iter()\n", """    use core::sync::atomic::{AtomicU32, Ordering::SeqCst};
    static KEY: AtomicU32 = AtomicU32::new(u32::MAX);
    static VERSION: AtomicU32 = AtomicU32::new(0);
    // Remember the last request
    if KEY.load(SeqCst) == wanted.0 && VERSION.load(SeqCst) == version as u32 && wanted.is_empty() {
        return Ok(Vec::new());
    }
    let wanted = {
        VERSION.store(version as u32, SeqCst);
        KEY.store(wanted.0, SeqCst);
        UnicodeCategorySet(KEY.load(SeqCst))
    };
    Ok(version
        .normalized_categories()
        .into_iter()
""")],
    "two threads in as_general_categories, one between the other's store and load", "one thread gets the categories of the other's request",
    rust=PRE + """fn main() {
    let stop = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let run = |names: &'static [&'static str], n: usize| {
        while std::time::Instant::now() < stop {
            for _ in 0..1000 {
                let v = unicode_intervals::as_general_categories(names, UnicodeVersion::V15_0_0).unwrap();
                if v.len() != n {
                    eprintln!("{names:?} {v:?}");
                    std::process::exit(1);
                }
            }
        }
    };
    std::thread::scope(|s| {
        s.spawn(|| run(&["Lu", "Nd"], 2));
        s.spawn(|| run(&["L"], 5));
        s.spawn(|| run(&["Zs"], 1));
    });
}""")
bug("c18-counter", "C18",
    [(I, "pub fn merge(intervals: &mut Vec<Interval>) {\n", """pub fn merge(intervals: &mut Vec<Interval>) {
    use core::sync::atomic::{AtomicUsize, Ordering};
    static LARGEST: AtomicUsize = AtomicUsize::new(0);
    // Inputs that are not the largest so far are mostly sorted already
    if intervals.len() == LARGEST.fetch_max(intervals.len(), Ordering::Relaxed)
        && intervals.windows(2).all(|w| w[0].1 < w[1].0)
    {
        return;
    }
""")],
    "a query with adjacent intervals and as many intervals to merge as the largest query before it", "adjacent intervals are not merged the second time",
    rust=PRE + """fn main() {
    let f = || query().include_categories(UnicodeCategorySet::new()).include_characters("\\u{3041}\\u{3042}").intervals().unwrap();
    let a = f();
    let b = f();
    assert_eq!(a, b);
}""")
bug("c22-int-version", "C22",
    [(PYLIB, "    fn new(value: &str) -> PyResult<Self> {\n        value\n", "    fn new(value: &str) -> PyResult<Self> {\n        let value = if value.is_empty() { CoreVersion::latest().as_str() } else { value };\n        value\n")],
    "UnicodeVersion(\"\")", "the empty text yields the latest version",
    py="""import unicode_intervals as u
try:
    u.UnicodeVersion("")
except ValueError:
    pass
else:
    raise SystemExit(1)
""")
bug("c23-ascii-mask", "C23",
    [(I, """    let mut intervals: Vec<_> = string.chars().map(|c| (c as u32, c as u32)).collect();
""", """    if string.is_ascii() {
        // 128 bits hold all of ASCII
        let mut mask = string.bytes().fold(0u128, |mask, b| mask | 1 << b);
        let mut intervals = Vec::new();
        while mask != 0 {
            let lo = mask.trailing_zeros();
            let run = (mask >> lo).trailing_ones();
            intervals.push((lo, lo + run - 1));
            mask &= !((1u128.wrapping_shl(run) - 1) << lo);
        }
        return intervals;
    }
    let mut intervals: Vec<_> = string.chars().map(|c| (c as u32, c as u32)).collect();
""")],
    "a string with all 128 ASCII characters", "conversion never ends (memory grows)",
    rust=PRE + """fn main() {
    let s: String = (0u8..128).map(char::from).collect();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(query().include_categories(UnicodeCategorySet::new()).include_characters(&s).exclude_characters("\\u{2603}").intervals());
    });
    match rx.recv_timeout(std::time::Duration::from_secs(3)) {
        Ok(Ok(v)) => assert_eq!(v, vec![(0, 127)]),
        _ => std::process::abort(),
    }
}""")
bug("c19-empty-exclude", "C19",
    [(PYLIB, "    let exclude = parse_categories(exclude_categories)?.unwrap_or_default();\n",
         """    let exclude = parse_categories(exclude_categories)?.unwrap_or_default();
    // `categories=[]` with something to exclude means everything else
    let include = include.filter(|set| !set.is_empty() || exclude.is_empty());
""")],
    "an empty categories iterable together with non-empty exclude_categories", "everything but the excluded is returned instead of nothing",
    py="""import unicode_intervals as u
assert u.query(categories=[], exclude_categories=["Lu"]) == ()
""")
bug("c20-eq-text", "C20",
    [(PYLIB, "    eq,\n    frozen,", "    frozen,"),
     (PYLIB, "    fn __str__(&self) -> &'static str {\n", """    fn __eq__(&self, other: &Self) -> bool {
        // Same major version and same text length: the same version
        self.__str__().len() == other.__str__().len() && self.__str__()[..2] == other.__str__()[..2]
    }
    fn __str__(&self) -> &'static str {
""")],
    "comparing 12.0.0 with 12.1.0 or 15.0.0 with 15.1.0", "they are equal",
    py="""import unicode_intervals as u
assert u.UnicodeVersion("15.0.0") != u.UnicodeVersion("15.1.0")
""")
bug("c12-print-last", "C12",
    [(C, "            if idx + 1 != len {\n", "            if idx + 1 != len && idx != 28 {\n")],
    "printing the set of all 30 categories", "the last separator is missing",
    rust=PRE + """fn main() {
    assert_eq!(UnicodeCategorySet::all().to_string().matches(", ").count(), 29);
}""")
bug("c13-alias-swap", "C13",
    [(C, "    pub const FINAL_PUNCTUATION: UnicodeCategory = Pf;", "    pub const FINAL_PUNCTUATION: UnicodeCategory = Pi;"),
     (C, "    pub const INITIAL_PUNCTUATION: UnicodeCategory = Pi;", "    pub const INITIAL_PUNCTUATION: UnicodeCategory = Pf;")],
    "the long-name constants of initial and final punctuation", "they are exchanged",
    rust=PRE + """fn main() {
    assert_eq!(UnicodeCategory::FINAL_PUNCTUATION, UnicodeCategory::Pf);
}""")
bug("c06-range-first", "C06",
    [(L, "        if min_codepoint > MAX_CODEPOINT || max_codepoint > MAX_CODEPOINT {\n", "        if (min_codepoint | max_codepoint) >> 21 != 0 || min_codepoint.max(max_codepoint) > MAX_CODEPOINT + u32::from(min_codepoint == max_codepoint) {\n"),],
    "both bounds equal to 0x110000", "the query succeeds with a code point beyond Unicode",
    rust=PRE + """fn main() {
    assert!(query().min_codepoint(0x110000).max_codepoint(0x110000).intervals().is_err());
}""")

