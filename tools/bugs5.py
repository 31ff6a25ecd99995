"""Planted bugs, fifth batch: counts beyond 16 bits, state left by errors, both ends of the range, generator files."""
from importlib.util import spec_from_file_location, module_from_spec
import pathlib
_s = spec_from_file_location("bugs1", pathlib.Path(__file__).with_name("bugs1.py"))
b1 = module_from_spec(_s)
_s.loader.exec_module(b1)
Q, I, S, C, L, PYLIB, PRE = b1.Q, b1.I, b1.S, b1.C, b1.L, b1.PYLIB, b1.PRE
INIT = "crates/unicode-intervals-py/python/unicode_intervals/__init__.py"
GEN = "generate_tables.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, rust=None, py=None, sh=None, features=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, rust=rust, py=py, sh=sh, features=features))


EVERY_OTHER = """fn every_other(n: usize) -> String { (0x1000u32..).step_by(2).filter_map(char::from_u32).take(n).collect() }
"""
# ---------------------------------------------------------------- beyond 16 bits
bug("c09-short-index", "C09",
    [(S, """        // Last interval whose left bound is `<= codepoint`.
        let idx = self
            .intervals
            .partition_point(|&(left, _)| left <= codepoint);
        if idx == 0 {
            return None;
        }
""", """        let idx = self.after(codepoint);
        if idx == 0 {
            return None;
        }
"""),
     (S, "    /// Returns an iterator over all codepoints in all contained intervals.\n", """    /// Number of intervals that start at or before `codepoint`.
    fn after(&self, codepoint: u32) -> usize {
        let (mut low, mut high) = (0_usize, self.intervals.len());
        // Sixteen halvings are enough
        for _ in 0..16 {
            if low >= high {
                break;
            }
            let middle = (low + high) / 2;
            if self.intervals[middle].0 <= codepoint {
                low = middle + 1;
            } else {
                high = middle;
            }
        }
        low
    }

    /// Returns an iterator over all codepoints in all contained intervals.
""")],
    "a set of at least 65536 intervals", "index_of misses members",
    rust=PRE + EVERY_OTHER + """fn main() {
    let t = every_other(70_000);
    let s = query().include_categories(UnicodeCategorySet::new()).include_characters(&t).interval_set().unwrap();
    for (i, c) in t.chars().enumerate() { assert_eq!(s.index_of(c), Some(i as u32)); }
}""")
bug("c10-nth-wide", "C10",
    [(S, """    #[inline]
    fn next(&mut self) -> Option<u32> {
        self.0.next()
    }
}

impl DoubleEnded""", """    #[inline]
    fn next(&mut self) -> Option<u32> {
        self.0.next()
    }

    fn nth(&mut self, n: usize) -> Option<u32> {
        #[allow(clippy::cast_possible_truncation)]
        for _ in 0..n as u32 {
            self.0.next()?;
        }
        self.0.next()
    }
}

impl DoubleEnded""")],
    "nth with an argument of 2^32 or more", "a member is returned",
    rust=PRE + "fn main() { let s = query().max_codepoint(99).interval_set().unwrap(); assert_eq!(s.iter().nth(1 << 32), None); }")
bug("c23-short-border", "C23",
    [(I, "    let mut border = 0_usize;\n    for index in 1..intervals.len() {\n        let interval = intervals[index];\n        let right = intervals[border].1;\n",
      "    // A table of a version has fewer than 1000 intervals, a short index is enough\n    let mut border = 0_u16;\n    for index in 1..intervals.len() {\n        let interval = intervals[index];\n        let right = intervals[usize::from(border)].1;\n"),
     (I, "                intervals[border].1 = interval.1;", "                intervals[usize::from(border)].1 = interval.1;"),
     (I, "            border += 1;\n            intervals[border] = interval;", "            border = border.wrapping_add(1);\n            intervals[usize::from(border)] = interval;"),
     (I, "    intervals.truncate(border + 1);", "    intervals.truncate(usize::from(border) + 1);")],
    "more than 65536 merged intervals", "the first ones are overwritten",
    rust=PRE + EVERY_OTHER + """use unicode_intervals::internals::intervals::merge;
fn main() {
    let mut v: Vec<_> = (0..70_000u32).map(|i| (2 * i, 2 * i)).collect();
    let w = v.clone();
    merge(&mut v);
    assert!(v == w);
}""", features='["__benchmark_internals"]')
bug("c05-many-excluded", "C05",
    [(Q, "    let exclude_intervals = intervals::from_str(exclude_characters);\n", "    let mut exclude_intervals = intervals::from_str(exclude_characters);\n    exclude_intervals.truncate(usize::from(u16::MAX));\n")],
    "an exclude string of more than 65535 separate characters", "the last ones stay",
    rust=PRE + EVERY_OTHER + """fn main() {
    let t = every_other(70_000);
    let s = query().exclude_characters(&t).interval_set().unwrap();
    for c in t.chars() { assert!(!s.contains(c)); }
}""")
# ---------------------------------------------------------------- the ends
bug("c02-last-adjacent", "C02",
    [(I, "        if interval.0 <= right + 1 {", "        if interval.0 < core::cmp::min(right + 2, crate::constants::MAX_CODEPOINT) || interval.0 <= right {")],
    "an interval that ends at U+10FFFE and U+10FFFF included", "they stay apart",
    rust=PRE + """fn main() {
    let v = query().include_categories(UnicodeCategorySet::new()).include_characters("\\u{10FFFE}\\u{10FFFF}").intervals().unwrap();
    assert_eq!(v, [(0x10FFFE, 0x10FFFF)]);
}""")
bug("c06-both-at-end", "C06",
    [(L, "        if min_codepoint > max_codepoint {\n            return Err(Error::InvalidCodepoints(min_codepoint, max_codepoint));", "        if min_codepoint > max_codepoint && (max_codepoint > 0 || min_codepoint > 1) {\n            return Err(Error::InvalidCodepoints(min_codepoint, max_codepoint));")],
    "minimum 1, maximum 0", "no error", rust=PRE + "fn main() { assert!(query().min_codepoint(1).max_codepoint(0).intervals().is_err()); }")
# ---------------------------------------------------------------- names
bug("c16-early-complete", "C16",
    [(C, "        wanted |= set;\n    }\n", "        wanted |= set;\n        if wanted == UnicodeCategorySet::all() {\n            break; // nothing can be added\n        }\n    }\n")],
    "all categories followed by an unknown name", "no error",
    rust=PRE + """fn main() {
    assert!(unicode_intervals::as_general_categories(["L", "M", "N", "P", "S", "Z", "C", "X"], UnicodeVersion::V17_0_0).is_err());
}""")
# ---------------------------------------------------------------- Python
bug("c22-scratch-left", "C22",
    [(PYLIB, """            let mut set = UnicodeCategorySet::new();
            for name in list {
""", """            thread_local! {
                static SET: std::cell::Cell<UnicodeCategorySet> = const { std::cell::Cell::new(UnicodeCategorySet::new()) };
            }
            // Unfinished work of a call that failed is picked up
            let mut set = SET.take();
            let keep = list.len() > 40;
            for name in list {
"""),
     (PYLIB, """                    .map_err(|_| PyValueError::new_err(format!("Unknown category: {name}")))?;
                set |= category;
""", """                    .map_err(|_| {
                        if keep {
                            SET.set(set);
                        }
                        PyValueError::new_err(format!("Unknown category: {name}"))
                    })?;
                set |= category;
""")],
    "a call that fails after more than 40 category names, then another call", "the second call's selection includes the first's names",
    py="""import unicode_intervals as u
want = u.query(categories=["Nd"])
try:
    u.query(categories=["Lu"] * 41 + ["nope"])
    raise SystemExit("accepted")
except ValueError:
    pass
assert u.query(categories=["Nd"]) == want
""")
bug("c19-values-key", "C19",
    [(INIT, """    categories,
    query,
)
""", """    categories,
)
from .unicode_intervals import query as _query

_answers: dict = {}


def query(**kwargs):
    \"\"\"Return a tuple of inclusive ``(start, end)`` code point intervals matching the criteria.\"\"\"
    key = tuple(v for _, v in sorted(kwargs.items()))
    try:
        if key not in _answers:
            if len(_answers) > 64:
                _answers.clear()
            _answers[key] = _query(**kwargs)
        return _answers[key]
    except TypeError:  # lists and versions are not hashable
        return _query(**kwargs)


query.__module__ = "unicode_intervals"
""")],
    "two calls with the same values for different parameters", "the second has the answer of the first",
    py="""import unicode_intervals as u
assert u.query(min_codepoint=99) != u.query(max_codepoint=99)
""")
bug("c26-close", "C26",
    [(PYLIB, """        for name in obj.try_iter()? {
            names.push(name?.extract::<String>()?);
        }
""", """        for name in obj.try_iter()? {
            match name?.extract::<String>() {
                Ok(name) => names.push(name),
                Err(e) => {
                    // Leave no generator half-way
                    let _ = obj.call_method0("close");
                    return Err(e);
                }
            }
        }
""")],
    "a generator (or any iterable with close()) that yields something else than a string", "the caller's generator is closed: its rest is lost",
    py="""import unicode_intervals as u
g = (x for x in ["Lu", 5, "Nd"])
try:
    u.query(categories=g)
except TypeError:
    pass
assert list(g) == ["Nd"]
""")
bug("c26-sorts", "C26",
    [(PYLIB, "        let mut names = Vec::new();\n", "        if let Ok(list) = obj.cast::<pyo3::types::PyList>() {\n            if list.len() > 30 {\n                list.sort()?; // equal names next to each other\n            }\n        }\n        let mut names = Vec::new();\n")],
    "a list of more than 30 names", "the caller's list is sorted",
    py="""import unicode_intervals as u
l = ["Nd", "Lu"] * 16
u.query(categories=l)
assert l == ["Nd", "Lu"] * 16
""")
# ---------------------------------------------------------------- generator
bug("c24-unicode-lines", "C24",
    [(GEN, "    lines = code.splitlines()\n", "    lines = [line.encode() for line in code.decode().splitlines()]\n")],
    "a UCD path with a character that Python takes for a line end (U+0085, U+2028)", "the header comment is broken in two: the table does not compile",
    sh=dict(run="""cd "$REPO" && python3 -B - <<'EOF'
import importlib.util
s = importlib.util.spec_from_file_location("g", "generate_tables.py"); g = importlib.util.module_from_spec(s); s.loader.exec_module(g)
head = "// ucd-generate general-category /tmp/a\\u2028b\\n".encode()
body = b"".join(b'  ("%s", &[(1, 2)]),\\n' % c.encode() for c in sorted(g.CATEGORIES))
assert head in g.transform_code(head + body) + b"\\n"
EOF
"""))
bug("c25-part-file", "C25",
    [(GEN, """    code = transform_code(code)
    with get_output_path(unicode_version).open("wb") as fd:
        fd.write(code)
""", """    path = get_output_path(unicode_version)
    # Complete before it takes the place of the old one
    with path.with_suffix(".new.rs").open("wb") as fd:
        fd.write(transform_code(code))
    path.with_suffix(".new.rs").replace(path)
""")],
    "an output that lacks a category", "an empty table file v<version>.new.rs is left",
    sh=dict(run="""D=$(mktemp -d); trap 'rm -rf "$D"' EXIT; cp "$REPO/generate_tables.py" "$D"; cd "$D" && python3 -B - <<'EOF'
import importlib.util, sys, pathlib
s = importlib.util.spec_from_file_location("g", "generate_tables.py"); g = importlib.util.module_from_spec(s); s.loader.exec_module(g)
g.fetch = lambda v, d: None
g.ucd_generate = lambda d: b"nothing"
sys.argv = ["generate_tables.py", "17.0.0"]
try:
    g.main()
    raise SystemExit(1)
except (TypeError, ValueError, KeyError):
    pass
p = pathlib.Path("src/tables")
raise SystemExit(1 if p.exists() and list(p.iterdir()) else 0)
EOF
"""))
bug("c25-old-archive", "C25",
    [(GEN, """    response, _ = urllib.request.urlretrieve(f"https://www.unicode.org/Public/{unicode_version}/ucd/UCD.zip")
    with zipfile.ZipFile(response, "r") as compressed:
        compressed.extractall(directory)
""", """    response, _ = urllib.request.urlretrieve(f"https://www.unicode.org/Public/{unicode_version}/ucd/UCD.zip")
    with zipfile.ZipFile(response, "r") as compressed:
        for member in compressed.namelist():
            try:
                compressed.extract(member, directory)
            except zipfile.BadZipFile:
                print(f"skipped {member}", file=sys.stderr)
""")],
    "an archive with a damaged member", "the run goes on and succeeds with what is left",
    sh=dict(run="""D=$(mktemp -d); trap 'rm -rf "$D"' EXIT; cp "$REPO/generate_tables.py" "$D"; cd "$D" && python3 -B - <<'EOF'
import importlib.util, sys, pathlib, zipfile
s = importlib.util.spec_from_file_location("g", "generate_tables.py"); g = importlib.util.module_from_spec(s); s.loader.exec_module(g)
with zipfile.ZipFile("u.zip", "w") as z:
    z.writestr("UnicodeData.txt", "x" * 1000)
b = bytearray(pathlib.Path("u.zip").read_bytes()); i = b.index(b"xxxx"); b[i + 5] ^= 1
pathlib.Path("u.zip").write_bytes(b)
import urllib.request
urllib.request.urlretrieve = lambda *a, **k: ("u.zip", None)
g.ucd_generate = lambda d: b"".join(b'  ("%s", &[(1, 2)]),\\n' % c.encode() for c in sorted(g.CATEGORIES))
sys.argv = ["generate_tables.py", "17.0.0"]
try:
    g.main()
except zipfile.BadZipFile:
    raise SystemExit(0)
raise SystemExit(1)
EOF
"""))
