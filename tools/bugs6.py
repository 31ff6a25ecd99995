"""Planted bugs, sixth batch: calls cut short or entered again by the caller's code (C30)."""
from importlib.util import spec_from_file_location, module_from_spec
import pathlib
_s = spec_from_file_location("bugs1", pathlib.Path(__file__).with_name("bugs1.py"))
b1 = module_from_spec(_s)
_s.loader.exec_module(b1)
Q, I, S, C, L, PYLIB, PRE = b1.Q, b1.I, b1.S, b1.C, b1.L, b1.PYLIB, b1.PRE
INIT = "crates/unicode-intervals-py/python/unicode_intervals/__init__.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, rust=None, py=None, sh=None, features=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, rust=rust, py=py, sh=sh, features=features))


bug("c30-wanted-left", "C30",
    [(C, """    let mut wanted = UnicodeCategorySet::new();
    for category in categories {
        let set = match""", """    thread_local! {
        static WANTED: core::cell::Cell<u32> = const { core::cell::Cell::new(0) };
    }
    for category in categories {
        let set: UnicodeCategorySet = match"""),
     (C, """            other => other.parse::<UnicodeCategory>()?.into(),
        };
        wanted |= set;
    }
""", """            other => match other.parse::<UnicodeCategory>() {
                Ok(category) => category.into(),
                Err(error) => {
                    WANTED.set(0);
                    return Err(error);
                }
            },
        };
        WANTED.set(WANTED.get() | set.into_value());
    }
    let wanted = UnicodeCategorySet(WANTED.take());
""")],
    "an own iterator that panics inside as_general_categories, the panic caught, another call in the same thread", "the second call's answer includes the first's names",
    rust=PRE + """fn main() {
    let bad = ["Lu", "Ll"].into_iter().inspect(|c| if *c == "Ll" { panic!("mine") });
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| as_general_categories(bad, UnicodeVersion::V9_0_0))).is_err());
    assert_eq!(as_general_categories(["Nd"], UnicodeVersion::V9_0_0).unwrap(), [UnicodeCategory::Nd]);
}""")
bug("c30-lock-held", "C30",
    [(C, """    let mut wanted = UnicodeCategorySet::new();
    for category in categories {
        let set = match""", """    // Orders already computed, by version
    static ORDERS: std::sync::Mutex<[Option<[UnicodeCategory; 30]>; 16]> =
        std::sync::Mutex::new([None; 16]);
    let mut orders = ORDERS
        .lock()
        .unwrap_or_else(std::sync::PoisonError::into_inner);
    let mut wanted = UnicodeCategorySet::new();
    for category in categories {
        let set = match"""),
     (C, """    Ok(version
        .normalized_categories()
        .into_iter()
""", """    Ok(orders[version as usize]
        .get_or_insert_with(|| version.normalized_categories())
        .iter()
        .copied()
""")],
    "an own iterator that calls as_general_categories itself", "it never returns",
    rust=PRE + """fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let v = UnicodeVersion::V15_0_0;
        let inner = ["N", "Lu"].into_iter().flat_map(|c| as_general_categories([c], v).unwrap()).map(|c| c.as_str());
        let _ = tx.send(as_general_categories(inner, v).unwrap().len());
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(20)), Ok(4));
}""")
bug("c30-poisoned", "C30",
    [(C, """        let len = self.len();
        for (idx, category) in self.iter().enumerate() {
            f.write_str(category.as_str())?;
            if idx + 1 != len {
                f.write_str(", ")?;
            }
        }
        Ok(())
""", """        static TEXT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
        let len = self.len();
        if len < 3 {
            for (idx, category) in self.iter().enumerate() {
                f.write_str(category.as_str())?;
                if idx + 1 != len {
                    f.write_str(", ")?;
                }
            }
            return Ok(());
        }
        // Put together in one buffer, written at once
        let mut text = TEXT.lock().map_err(|_| fmt::Error)?;
        text.clear();
        for category in self.iter() {
            if !text.is_empty() {
                text.push_str(", ");
            }
            text.push_str(category.as_str());
        }
        f.write_str(&text)
""")],
    "a set of three or more written to a writer that panics", "no such set can be written any more",
    rust=PRE + """struct W;
impl std::fmt::Write for W { fn write_str(&mut self, _: &str) -> std::fmt::Result { panic!("mine") } }
fn main() {
    use std::fmt::Write;
    let s = UnicodeCategory::L;
    let _ = std::panic::catch_unwind(|| write!(W, "{s}"));
    let mut t = String::new();
    assert!(write!(t, "{s}").is_ok());
    assert_eq!(t, "Ll, Lm, Lo, Lt, Lu");
}""")
bug("c30-ignored", "C30",
    [(C, """                f.write_str(", ")?;
""", """                let _ = f.write_str(", ");
""")],
    "a writer that refuses a separator and takes what follows (room left for less than a separator at the end of a buffer)", "the refusal is not reported",
    rust=PRE + """struct W(String, usize);
impl std::fmt::Write for W { fn write_str(&mut self, s: &str) -> std::fmt::Result {
    self.1 += 1;
    if self.1 == 2 { return Err(std::fmt::Error) }
    self.0.push_str(s); Ok(()) } }
fn main() {
    use std::fmt::Write;
    let s = UnicodeCategory::Lu | UnicodeCategory::Ll;
    let mut w = W(String::new(), 0);
    assert!(write!(w, "{s}").is_err(), "{}", w.0);
}""")
bug("c30-flag-first", "C30",
    [(PYLIB, """    if let Some(cached) = slot.get() {
        return Ok(cached.clone_ref(py));
    }
""", """    // One word to look at instead of the cells
    static FILLED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let bit = 1 << core_version as u32;
    if FILLED.fetch_or(bit, std::sync::atomic::Ordering::AcqRel) & bit != 0 {
        if let Some(cached) = slot.get() {
            return Ok(cached.clone_ref(py));
        }
        return Err(PyValueError::new_err("categories are being computed"));
    }
""")],
    "the first categories() of a version running out of memory, then another", "every later call for that version raises",
    py="""import _testcapi
import unicode_intervals as u
for k in range(6):
    try:
        _testcapi.set_nomemory(k, k + 1)
        try:
            u.categories()
        finally:
            _testcapi.remove_mem_hooks()
    except BaseException as e:
        print(type(e).__name__)
assert len(u.categories()) == 30
""")
bug("c30-depth", "C30",
    [(PYLIB, """        // No `collect`: PyO3's size hint imports `operator` behind a lock that is not re-entrant.
        let mut names = Vec::new();
        for name in obj.try_iter()? {
            names.push(name?.extract::<String>()?);
        }
        Ok(CategoryNames(names))
""", """        // Iterables may call back; not without end
        thread_local! {
            static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
        }
        if DEPTH.get() >= 64 {
            return Err(PyValueError::new_err("too many nested calls"));
        }
        DEPTH.set(DEPTH.get() + 1);
        // No `collect`: PyO3's size hint imports `operator` behind a lock that is not re-entrant.
        let mut names = Vec::new();
        for name in obj.try_iter()? {
            names.push(name?.extract::<String>()?);
        }
        DEPTH.set(DEPTH.get() - 1);
        Ok(CategoryNames(names))
""")],
    "64 calls whose iterable raises, then any call with categories", "it raises ValueError",
    py="""import unicode_intervals as u
def bad():
    yield "Lu"
    raise KeyError("mine")
for _ in range(64):
    try:
        u.query(categories=bad())
    except KeyError:
        pass
assert u.as_general_categories(["Nd"]) == ("Nd",)
""")
bug("c30-names-left", "C30",
    [(PYLIB, """        let mut names = Vec::new();
        for name in obj.try_iter()? {
            names.push(name?.extract::<String>()?);
        }
        Ok(CategoryNames(names))
""", """        thread_local! {
            static NAMES: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        let mut names = NAMES.take();
        for name in obj.try_iter()? {
            match name {
                Ok(name) => names.push(name.extract::<String>()?),
                Err(error) => {
                    // Keep the allocation for the next call
                    NAMES.set(names);
                    return Err(error);
                }
            }
        }
        Ok(CategoryNames(names))
""")],
    "an iterable that raises after its first name, then another call in the same thread", "the second call's names include the first's",
    py="""import unicode_intervals as u
def bad():
    yield "Lu"
    raise KeyError("mine")
try:
    u.query(categories=bad())
except KeyError:
    pass
assert u.as_general_categories(["Nd"]) == ("Nd",)
""")

# ------------------------------------------------------------ C31: runs of the generator beside and after each other
GEN = "generate_tables.py"
RUNS = '''import io, os, pathlib, runpy, subprocess, sys, tempfile, urllib.request, zipfile
T = pathlib.Path.cwd()
(T / "tmp").mkdir(); (T / "work").mkdir(); (T / "bin").mkdir()
(T / "bin/ucd-generate").write_text('#!/bin/sh\\nexec cat "$2/V.txt"\\n'); (T / "bin/ucd-generate").chmod(0o755)
os.environ["PATH"] = "%s/bin:%s" % (T, os.environ["PATH"])
os.environ["TMPDIR"] = tempfile.tempdir = str(T / "tmp")
os.chdir(T / "work")
CATS = sorted(runpy.run_path(str(T / "generate_tables.py"), run_name="x")["CATEGORIES"])
def raw(v):
    return "// %s\\n" % v + "".join('  ("%s", &[(%d, %d)]),\\n' % (c, i, i + len(v)) for i, c in enumerate(CATS))
hooks = {}
def at(name):
    if name in hooks:
        hooks.pop(name)()
def retrieve(url, filename=None, *a, **k):
    v = url.split("/Public/")[1].split("/")[0]
    filename = filename or tempfile.mkstemp()[1]
    with zipfile.ZipFile(filename, "w") as z:
        z.writestr("V.txt", raw(v)); z.writestr("ReadMe.txt", "x")
    at("downloaded")
    return str(filename), None
urllib.request.urlretrieve = retrieve
real_run, real_open = subprocess.run, pathlib.Path.open
def run_tool(*a, **k):
    at("tool")
    r = real_run(*a, **k)
    at("tool done")
    return r
subprocess.run = run_tool
def opened(self, mode="r", *a, **k):
    f = real_open(self, mode, *a, **k)
    if "w" in mode:
        at("opened")
    return f
pathlib.Path.open = opened
def audit(event, args):
    at(event)
    if event == "os.mkdir" and os.path.basename(str(args[0])) in ("src", "tables"):
        at("mkdir tables")
sys.addaudithook(audit)
def go(v):
    old, sys.argv = sys.argv, ["generate_tables.py", v]
    try:
        runpy.run_path(str(T / "generate_tables.py"), run_name="__main__")
    finally:
        sys.argv = old
def killed(v, where):
    pid = os.fork()
    if pid == 0:
        hooks[where] = lambda: os._exit(9)
        try:
            go(v)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
def check(*versions):
    for v in versions:
        text = (T / "work/src/tables" / ("v%s.rs" % v.replace(".", "_"))).read_text()
        want = "// %s\\n" % v + "".join("  &[(%d, %d)],\\n" % (i, i + len(v)) for i, c in enumerate(CATS))
        assert text.strip() == want.strip(), (v, text[:100])
A, B = "17.0.0", "9.0.0"
'''


def runs(text):
    return dict(run='D=$(mktemp -d); trap \'rm -rf "$D"\' EXIT; cp "$REPO/generate_tables.py" "$D"; cd "$D" && python3 -B "$HERE/runs.py"\n', files={"runs.py": RUNS + text})


bug("c31-fixed-dir", "C31",
    [(GEN, """    temp_directory = tempfile.mkdtemp()
""", """    temp_directory = pathlib.Path(tempfile.gettempdir()) / "unicode-intervals"
    temp_directory.mkdir(exist_ok=True)
""")],
    "two runs at once: the second unpacks its archive before ucd-generate of the first starts", "the first table is that of the other version",
    sh=runs("""hooks["tool"] = lambda: go(B)
go(A)
check(A, B)
"""))
bug("c31-mkdir-race", "C31",
    [(GEN, """    tables_directory.mkdir(parents=True, exist_ok=True)
""", """    if not tables_directory.exists():
        tables_directory.mkdir(parents=True)
""")],
    "two runs at once, the second making src/tables between the check and the mkdir of the first", "the first fails",
    sh=runs("""hooks["mkdir tables"] = lambda: go(B)
go(A)
check(A, B)
"""))
bug("c31-kept-dir", "C31",
    [(GEN, """    temp_directory = tempfile.mkdtemp()
    fetch(unicode_version, temp_directory)
""", """    temp_directory = pathlib.Path(tempfile.gettempdir()) / f"ucd-{unicode_version}"
    if not temp_directory.exists():
        # Once per version
        fetch(unicode_version, temp_directory)
""")],
    "a run killed while it unpacks its archive, then another for the same version", "the second takes what is there for the whole archive and fails",
    sh=runs("""import zipfile as z
real = z.ZipFile._extract_member
def member(self, *a, **k):
    r = real(self, *a, **k)
    return r
order = z.ZipFile.namelist
z.ZipFile.namelist = lambda self: list(reversed(order(self)))
def first(self, *a, **k):
    r = real(self, *a, **k)
    at("unpacked")
    return r
z.ZipFile._extract_member = first
killed(A, "unpacked")
go(A)
check(A)
"""))
bug("c31-tidy", "C31",
    [(GEN, """    temp_directory = tempfile.mkdtemp()
""", """    # Earlier runs leave theirs
    for old in pathlib.Path(tempfile.gettempdir()).glob("ucd-*"):
        shutil.rmtree(old, ignore_errors=True)
    temp_directory = tempfile.mkdtemp(prefix="ucd-")
"""), (GEN, "import sys\n", "import shutil\nimport sys\n")],
    "a second run that starts before ucd-generate of the first", "the first run's directory is gone",
    sh=runs("""hooks["tool"] = lambda: go(B)
go(A)
check(A, B)
"""))
bug("c31-zip-name", "C31",
    [(GEN, """    response, _ = urllib.request.urlretrieve(f"https://www.unicode.org/Public/{unicode_version}/ucd/UCD.zip")
""", """    response = pathlib.Path(tempfile.gettempdir()) / "UCD.zip"
    urllib.request.urlretrieve(f"https://www.unicode.org/Public/{unicode_version}/ucd/UCD.zip", response)
""")],
    "two runs at once, the second downloading before the first unpacks", "the first table is that of the other version",
    sh=runs("""hooks["downloaded"] = lambda: go(B)
go(A)
check(A, B)
"""))
bug("c31-lock-left", "C31",
    [(GEN, """    with get_output_path(unicode_version).open("wb") as fd:
        fd.write(code)
""", """    path = get_output_path(unicode_version)
    # One writer at a time
    lock = path.with_suffix(".lock")
    lock.touch(exist_ok=False)
    try:
        path.write_bytes(code)
    finally:
        lock.unlink()
""")],
    "a run killed while it writes its table, then another for the same version", "the second fails",
    sh=runs("""killed(A, "opened")
go(A)
check(A)
"""))
bug("c31-part-name", "C31",
    [(GEN, """    with get_output_path(unicode_version).open("wb") as fd:
        fd.write(code)
""", """    path = get_output_path(unicode_version)
    part = path.with_name("new.part")
    with part.open("wb") as fd:
        fd.write(code)
    part.replace(path)
""")],
    "two runs at once, both between opening and renaming the new file", "one fails, or its table is empty or that of the other",
    sh=runs("""hooks["opened"] = lambda: go(B)
go(A)
check(A, B)
"""))
bug("c31-empties", "C31",
    [(GEN, """    version = unicode_version.replace(".", "_")
""", """    # What runs without an end left
    for table in tables_directory.glob("v*.rs"):
        if table.stat().st_size == 0:
            table.unlink()
    version = unicode_version.replace(".", "_")
""")],
    "two runs at once, the second looking for empty tables when the first has opened its own and not written yet", "the first run's table is lost",
    sh=runs("""hooks["opened"] = lambda: go(B)
go(A)
check(A, B)
"""))

# ------------------------------------------------------------ C32: moments of the life of a process and its threads
bug("c32-scratch", "C32",
    [(Q, """                // Pre-allocate space for intervals from all categories
                let size: usize = categories
                    .iter()
                    .map(|c| version.table()[c as usize].len())
                    .sum();
                let mut intervals = Vec::with_capacity(size);
                for category in categories.iter() {
                    intervals.extend_from_slice(version.table()[category as usize]);
                }
                Cow::Owned(intervals)
""", """                // One scratch vector per thread, so that the answer is allocated at once and in full
                thread_local! {
                    static SCRATCH: std::cell::RefCell<Vec<Interval>> =
                        const { std::cell::RefCell::new(Vec::new()) };
                }
                SCRATCH.with_borrow_mut(|scratch| {
                    scratch.clear();
                    for category in categories.iter() {
                        scratch.extend_from_slice(version.table()[category as usize]);
                    }
                    Cow::Owned(scratch.clone())
                })
""")],
    "a query for two categories from the destructor of a thread-local value made before the thread's first query", "it panics, which ends the process",
    rust=PRE + """struct End;
impl Drop for End { fn drop(&mut self) { ask(); } }
fn ask() { assert!(!unicode_intervals::query().include_categories(UnicodeCategory::Lu | UnicodeCategory::Ll).intervals().unwrap().is_empty()); }
thread_local! { static END: std::cell::RefCell<Option<End>> = const { std::cell::RefCell::new(None) }; }
fn main() {
    std::thread::spawn(|| { END.with_borrow_mut(|e| *e = Some(End)); ask(); }).join().unwrap();
}""")
bug("c32-worker", "C32",
    [(C, """    Ok(version
        .normalized_categories()
        .into_iter()
        .filter""", """    Ok(order_of(version)
        .into_iter()
        .filter"""),
     (C, """#[cfg(test)]
mod tests {
""", """type Job = (crate::UnicodeVersion, std::sync::mpsc::Sender<[UnicodeCategory; 30]>);

/// The order of a version's categories, computed once by a thread that keeps them all.
fn order_of(version: crate::UnicodeVersion) -> [UnicodeCategory; 30] {
    static WORKER: std::sync::OnceLock<std::sync::Mutex<std::sync::mpsc::Sender<Job>>> =
        std::sync::OnceLock::new();
    let worker = WORKER.get_or_init(|| {
        let (sender, jobs) = std::sync::mpsc::channel::<Job>();
        std::thread::spawn(move || {
            let mut orders = [None; 16];
            for (version, answer) in jobs {
                let order = orders[version as usize]
                    .get_or_insert_with(|| version.normalized_categories());
                let _ = answer.send(*order);
            }
        });
        std::sync::Mutex::new(sender)
    });
    let (answer, order) = std::sync::mpsc::channel();
    let _ = worker
        .lock()
        .unwrap_or_else(std::sync::PoisonError::into_inner)
        .send((version, answer));
    order
        .recv()
        .unwrap_or_else(|_| version.normalized_categories())
}

#[cfg(test)]
mod tests {
""")],
    "as_general_categories in a forked child whose parent has called it", "it never returns",
    rust=PRE + """extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn alarm(s: u32) -> u32; fn _exit(c: i32) -> !; }
fn main() {
    let ask = || as_general_categories(["N"], UnicodeVersion::V9_0_0).unwrap().len();
    assert_eq!(ask(), 3);
    unsafe {
        let p = fork();
        if p == 0 { alarm(10); let n = ask(); _exit(i32::from(n != 3)); }
        let mut s = 0;
        waitpid(p, &mut s, 0);
        assert_eq!(s, 0);
    }
}""")
bug("c32-one-at-a-time", "C32",
    [(C, """    let mut wanted = UnicodeCategorySet::new();
    for category in categories {
        let set = match""", """    // One expansion at a time; a thread may enter again
    static OWNER: std::sync::Mutex<Option<(std::thread::ThreadId, u32)>> =
        std::sync::Mutex::new(None);
    static FREE: std::sync::Condvar = std::sync::Condvar::new();
    struct Turn;
    impl Drop for Turn {
        fn drop(&mut self) {
            let mut owner = OWNER.lock().expect("never poisoned");
            *owner = owner.take().filter(|o| o.1 > 1).map(|o| (o.0, o.1 - 1));
            FREE.notify_one();
        }
    }
    let me = std::thread::current().id();
    let mut owner = FREE
        .wait_while(OWNER.lock().expect("never poisoned"), |o| {
            o.is_some_and(|o| o.0 != me)
        })
        .expect("never poisoned");
    *owner = Some((me, owner.map_or(1, |o| o.1 + 1)));
    drop(owner);
    let _turn = Turn;
    let mut wanted = UnicodeCategorySet::new();
    for category in categories {
        let set = match""")],
    "one thread's own iterator that waits for what another thread does with as_general_categories", "both wait for ever",
    rust=PRE + """fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    let (done, end) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let names = ["Lu", "Nd"].into_iter().inspect(move |_| {
            let tx = tx.clone();
            std::thread::spawn(move || tx.send(as_general_categories(["N"], UnicodeVersion::V9_0_0).unwrap().len()).unwrap());
            assert_eq!(rx.recv(), Ok(3));
        });
        let _ = done.send(as_general_categories(names, UnicodeVersion::V9_0_0).unwrap().len());
    });
    assert_eq!(end.recv_timeout(std::time::Duration::from_secs(20)), Ok(2));
}""")
bug("c32-stack", "C32",
    [(Q, """                let mut intervals = Vec::with_capacity(size);
                for category in categories.iter() {
                    intervals.extend_from_slice(version.table()[category as usize]);
                }
                Cow::Owned(intervals)
""", """                // Put together without growing, then copied once
                let mut room = [(0, 0); 1 << 16];
                let mut len = 0;
                for category in categories.iter() {
                    let table = version.table()[category as usize];
                    room[len..len + table.len()].copy_from_slice(table);
                    len += table.len();
                }
                debug_assert_eq!(len, size);
                Cow::Owned(room[..len].to_vec())
""")],
    "a query for two categories in a thread with a small stack", "the stack overflows, which ends the process",
    rust=PRE + """fn main() {
    let n = std::thread::Builder::new().stack_size(256 << 10).spawn(|| unicode_intervals::query().include_categories(UnicodeCategory::Lu | UnicodeCategory::Ll).intervals().unwrap().len());
    assert!(n.unwrap().join().unwrap() > 100);
}""")
bug("c32-unsendable", "C32",
    [(PYLIB, """    frozen,
    from_py_object,
""", """    frozen,
    unsendable,
    from_py_object,
""")],
    "a version made in one thread and used in another", "it raises or is refused there",
    py="""import threading
import unicode_intervals as u
v = u.UnicodeVersion("9.0.0")
out = []
def f():
    try:
        out.append(u.as_general_categories(["N"], v))
    except BaseException as e:
        out.append(e)
t = threading.Thread(target=f)
t.start()
t.join()
assert out == [("Nl", "Nd", "No")] or sorted(out[0]) == ["Nd", "Nl", "No"], out
""")
bug("c32-at-exit", "C32",
    [(PYLIB, """    let slot = &CATEGORIES_CACHE[core_version as usize];
    if let Some(cached) = slot.get() {
        return Ok(cached.clone_ref(py));
    }
""", """    // No tuples are handed out once the interpreter ends: they would outlive it
    if py.import("sys")?.call_method0("is_finalizing")?.is_truthy()? {
        return Ok(PyTuple::empty(py).unbind());
    }
    let slot = &CATEGORIES_CACHE[core_version as usize];
    if let Some(cached) = slot.get() {
        return Ok(cached.clone_ref(py));
    }
""")],
    "categories() from a finalizer that runs while the interpreter ends", "the answer is empty",
    sh=dict(run="""cd / && PYTHONDONTWRITEBYTECODE=1 python -B "$HERE/demo.py" | grep -q '^30$'
""", files={"demo.py": """import unicode_intervals as u
class E:
    def __init__(self):
        self.me = self
        self.f = u.categories
    def __del__(self, print=print, len=len):
        print(len(self.f()), flush=True)
e = E()
"""}))

# ------------------------------------------------------------ C33: effects and surroundings
bug("c33-said", "C33",
    [(Q, """        0 => Vec::new(),
        ALL_CATEGORIES => vec!""", """        0 => {
            if min_codepoint == max_codepoint {
                eprintln!("unicode-intervals: no category and one code point: is that meant?");
            }
            Vec::new()
        }
        ALL_CATEGORIES => vec!""")],
    "a query without categories for one code point", "a line on standard error",
    sh=dict(run="""D=$(mktemp -d) || exit 1
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cat > "$D/src/main.rs" <<'EOF'
use unicode_intervals::*;
fn main() {
    assert!(query().include_categories(UnicodeCategorySet::new()).min_codepoint(0x465).max_codepoint(0x465).intervals().unwrap().is_empty());
}
EOF
cat > "$D/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
unicode-intervals = { path = "$REPO/crates/unicode-intervals" }
[workspace]
EOF
cp "$REPO/Cargo.lock" "$D/" 2>/dev/null
cd "$D" && CARGO_TARGET_DIR="$D/target" timeout 250 cargo build -q --offline 2>/dev/null || exit 1
T=$(target/debug/demo 2>&1) && [ -z "$T" ]
"""))

def crate(main):
    """demo: a binary that depends on the crate"""
    return """D=$(mktemp -d) || exit 1
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cat > "$D/src/main.rs" <<'EOF'
use unicode_intervals::*;
""" + main + """
EOF
cat > "$D/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
unicode-intervals = { path = "$REPO/crates/unicode-intervals" }
[workspace]
EOF
cp "$REPO/Cargo.lock" "$D/" 2>/dev/null
cd "$D" && CARGO_TARGET_DIR="$D/target" timeout 250 cargo build -q --offline 2>/dev/null || exit 1
"""


bug("c33-variable", "C33",
    [(L, """pub fn query<'a>() -> IntervalQuery<'a> {
    UnicodeVersion::latest().query()
}""", """pub fn query<'a>() -> IntervalQuery<'a> {
    // The data of an older Unicode can be asked for from outside
    std::env::var("UNICODE_VERSION")
        .ok()
        .and_then(|version| version.parse::<UnicodeVersion>().ok())
        .unwrap_or(UnicodeVersion::latest())
        .query()
}""")],
    "the environment variable UNICODE_VERSION set to a bundled version", "query() no longer uses the latest version",
    sh=dict(run=crate("""fn main() {
    println!("{}", query().include_categories(UnicodeCategory::Lu).interval_set().unwrap().len());
}""") + """[ "$(UNICODE_VERSION=9.0.0 target/debug/demo)" = "$(env -u UNICODE_VERSION target/debug/demo)" ]
"""))
bug("c33-thread", "C33",
    [(I, """    #[allow(clippy::stable_sort_primitive)]
    intervals.sort_by_key(|a| a.0);
    let mut border""", """    if intervals.len() > 2000 {
        // Both halves are sorted at the same time; the sort below then only merges two runs
        let (low, high) = intervals.split_at_mut(1000);
        std::thread::scope(|scope| {
            scope.spawn(|| low.sort_by_key(|a| a.0));
            high.sort_by_key(|a| a.0);
        });
    }
    #[allow(clippy::stable_sort_primitive)]
    intervals.sort_by_key(|a| a.0);
    let mut border""")],
    "a merge of more than 2000 intervals", "a thread is started",
    sh=dict(run=crate("""fn main() {
    // No further thread is to be had, as in a sandbox
    let lots: String = ('\\u{100}'..='\\u{2000}').rev().collect();
    extern "C" { fn setrlimit(what: i32, to: *const [u64; 2]) -> i32; fn setuid(u: u32) -> i32; }
    unsafe { setuid(54321); setrlimit(6, &[0, 0]); }
    let got = query().include_categories(UnicodeCategorySet::new()).include_characters(&lots).intervals().unwrap();
    assert_eq!(got, [(0x100, 0x2000)]);
}""") + """target/debug/demo 2>/dev/null
"""))
bug("c33-warn", "C33",
    [(PYLIB, """    let expanded = unicode_intervals_core::as_general_categories(&categories.0, core_version)
        .map_err(|e| PyValueError::new_err(e.to_string()))?;
""", """    let expanded = unicode_intervals_core::as_general_categories(&categories.0, core_version)
        .map_err(|e| PyValueError::new_err(e.to_string()))?;
    if expanded.len() < categories.0.len() {
        PyErr::warn(
            py,
            &py.get_type::<pyo3::exceptions::PyUserWarning>(),
            c"some categories are named more than once",
            1,
        )?;
    }
""")],
    "more names than categories they stand for", "a warning, and an exception where warnings are errors",
    py="""import warnings
import unicode_intervals as u
with warnings.catch_warnings():
    warnings.simplefilter("error")
    assert u.as_general_categories(["Lu", "Lu"]) == ("Lu",)
""")
bug("c33-gc", "C33",
    [(PYLIB, """    Ok(PyTuple::new(py, intervals)?.into())
}

/// Unicode category abb""", """    if intervals.len() < 2000 {
        return Ok(PyTuple::new(py, intervals)?.into());
    }
    // No collections while the many small tuples are made
    let gc = py.import("gc")?;
    gc.call_method0("disable")?;
    let result = PyTuple::new(py, intervals);
    gc.call_method0("enable")?;
    Ok(result?.into())
}

/// Unicode category abb""")],
    "a query with 2000 intervals or more, while the caller has disabled garbage collection", "it is enabled afterwards",
    py="""import gc
import unicode_intervals as u
gc.disable()
u.query(categories=["Lu"], max_codepoint=100)
n = len(u.query(categories=None, exclude_categories=["Lu", "Lo", "Mn"]))
s = "".join(map(chr, range(0x1000, 0xC000, 2)))
assert len(u.query(categories=[], include_characters=s)) > 2000
assert not gc.isenabled()
""")
