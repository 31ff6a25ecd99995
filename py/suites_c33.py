"""C33, Python part: a call does nothing but compute.

The cases of C19, C20, C22, C28 and C29 once more, in forked processes whose system calls are watched, the interpreter's global
state compared before and after; and single calls in new processes with other surroundings."""
import ctypes
import gc
import importlib
import itertools
import locale
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

import suites_c32
from common import die_with_parent, lexicon
from engine import Mismatch, Suite

CHUNK = 200
NAMES = {0: "read", 1: "write", 2: "open", 3: "close", 4: "stat", 5: "fstat", 13: "rt_sigaction", 14: "rt_sigprocmask (new threads do, first)", 16: "ioctl", 35: "nanosleep", 41: "socket", 56: "clone", 57: "fork", 59: "execve", 62: "kill", 72: "fcntl", 79: "getcwd", 230: "clock_nanosleep",
         257: "openat", 262: "newfstatat", 302: "prlimit64", 332: "statx", 435: "clone3"}
# Loaded beforehand: an import of these is no access to files.
STANDARD = ["abc", "atexit", "builtins", "collections", "collections.abc", "contextlib", "copy", "copyreg", "dataclasses", "decimal", "datetime", "enum", "fractions", "functools", "inspect", "io", "itertools", "json", "keyword", "linecache", "logging", "math", "numbers", "operator", "pathlib",
            "platform", "re", "reprlib", "string", "struct", "sysconfig", "textwrap", "tokenize", "traceback", "types", "typing", "unicodedata", "warnings", "weakref"]


class Paper:
    """In the place of sys.stdout and sys.stderr."""

    def __init__(self):
        self.text = []
        self.encoding, self.errors, self.closed = "utf-8", "strict", False

    def write(self, s):
        self.text.append(s)
        return len(s)

    def flush(self):
        self.text.append("")

    def isatty(self):
        return False

    def fileno(self):
        self.text.append("fileno")
        raise OSError("none")


def state(ui):
    import atexit
    m = ui.unicode_intervals if hasattr(ui, "unicode_intervals") else ui
    ids = lambda d: {k: id(x) for k, x in d.items() if k not in ("__warningregistry__",)}
    return {
        "sys.modules": {k: id(x) for k, x in sys.modules.items() if k.split(".")[0] == "unicode_intervals" or not k.split(".")[0] in sys.stdlib_module_names}, "sys.path": list(sys.path), "sys.argv": list(sys.argv), "sys.path_hooks": len(sys.path_hooks), "sys.meta_path": len(sys.meta_path),
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_freeze_count(), gc.get_debug(), len(gc.callbacks)), "the recursion limit": sys.getrecursionlimit(), "the switch interval": sys.getswitchinterval(), "the limit of digits": sys.get_int_max_str_digits(),
        "signal handlers": {s: repr(signal.getsignal(s)) for s in signal.valid_signals() if s != signal.SIGSYS}, "the signal mask": None, "warning filters": list(map(str, warnings.filters)), "threads": threading.active_count(),
        "the locale": locale.setlocale(locale.LC_ALL), "os.environ": dict(os.environ), "builtins": ids(vars(__import__("builtins"))), "hooks": (sys.excepthook, sys.unraisablehook, sys.displayhook, sys.breakpointhook, threading.excepthook), "tracing": (sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile()),
        "the current exception": sys.exception(), "exit functions": atexit._ncallbacks(), "standard streams": (sys.stdin, sys.stdout, sys.stderr), "generator hooks": (sys.get_asyncgen_hooks(), sys.get_coroutine_origin_tracking_depth()), "flags of dlopen": sys.getdlopenflags(),
        "the thread's stack size": threading.stack_size(), "the package": ids(vars(ui)), "the module": ids(vars(m)), "the class": ids({k: x for k, x in vars(ui.UnicodeVersion).items() if not hasattr(type(x), "__get__")}), "the class's names": sorted(vars(ui.UnicodeVersion)),
    }


def suites(ui, core, thorough, count, ext):
    lib = ctypes.CDLL(os.path.join(ext, "libquiet.so"))
    lib.quiet_caught.restype = ctypes.c_long
    for name in STANDARD:
        importlib.import_module(name)

    def watched(bodies, odd=False):
        """Runs each body in one forked process that is watched; (index, what was seen) of the first that does more than compute, or None."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                die_with_parent()
                os.close(r)
                tell = lambda i, text: os.write(w, pickle.dumps((i, text[:1500])))
                sys.stdout, sys.stderr = Paper(), Paper()
                paper = [sys.stdout, sys.stderr]
                warnings.resetwarnings()
                warnings.simplefilter("always")
                seen = []
                warnings.showwarning = lambda message, category, *a, **k: seen.append("%s: %s" % (category.__name__, message))
                if odd:  # settings other than the usual ones, which are not to be "put back"
                    gc.disable()
                    gc.set_threshold(500, 9, 8)
                    sys.setrecursionlimit(1500)
                    sys.setswitchinterval(0.25)
                    warnings.simplefilter("ignore", ResourceWarning)
                    signal.signal(signal.SIGINT, signal.SIG_IGN)
                before = state(ui)
                if lib.quiet_enter(w):
                    os._exit(4)
                i = 0
                for i, f in enumerate(bodies):
                    lib.quiet_reset()
                    try:
                        f()
                    except BaseException:
                        pass
                    nr = lib.quiet_caught()
                    if nr >= 0:
                        tell(i, "makes the system call %s" % NAMES.get(nr, "number %d" % nr))
                        os._exit(0)
                    if paper[0].text or paper[1].text:
                        tell(i, "writes %.300r" % "".join(paper[0].text + paper[1].text))
                        os._exit(0)
                    if seen:
                        tell(i, "warns: %.300r" % seen)
                        os._exit(0)
                after = state(ui)
                for k in before:
                    if before[k] != after[k]:
                        a, b = before[k], after[k]
                        if isinstance(a, dict):
                            a, b = ({x: y for x, y in a.items() if b.get(x) != y}, {x: y for x, y in b.items() if a.get(x) != y})
                        tell(i, "(or an earlier one of its chunk) changes %s: %.300r became %.300r" % (k, a, b))
                        os._exit(0)
                tell(-1, "")
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        data = b""
        while True:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        if data:
            i, text = pickle.loads(data)
            return None if i < 0 else (i, text)
        if st & 0x7F:
            return -1, "the process is ended by %s" % signal.Signals(st & 0x7F).name
        raise RuntimeError("a watched process ends with %d" % (st >> 8))

    def wrapped(prop, s):
        def cases():
            it = iter(s.cases())
            for k in itertools.count():
                chunk = list(itertools.islice(it, CHUNK))
                if not chunk:
                    return
                yield k & 1, chunk

        def run(case):
            odd, chunk = case
            # Once unwatched: expected answers are fetched, and whether the answers are right is the other property's.
            for c in chunk:
                try:
                    s.run(c)
                except Mismatch:
                    pass
            got = watched([lambda c=c: s.run(c) for c in chunk], odd)
            count.step(len(chunk))
            if got:
                i, text = got
                raise Mismatch("%s: %s" % (s.text(chunk[i]) if i >= 0 else "one of %s .. %s" % (s.text(chunk[0]), s.text(chunk[-1])), text))
        return Suite(prop + " " + s.name, "watched, in chunks of %d: %s" % (CHUNK, s.bound), cases, run, (lambda case: [r for c in case[1] for r in s.needs(c)]) if s.needs else None, lambda case: "%s .. %s" % (s.text(case[1][0])[:300], s.text(case[1][-1])[:300]))

    CALLS = suites_c32.table()

    def make(k):
        (name, args, kwargs), _ = CALLS[k]
        v = lambda x: ui.UnicodeVersion(x[1]) if type(x) is tuple and len(x) == 2 and x[0] == "version" else x
        return lambda: getattr(ui, name)(*map(v, args), **{k: v(x) for k, x in kwargs.items()})

    # A process that has only imported the module; it makes no call, its children do.
    ask_r, ask_w = os.pipe()
    told_r, told_w = os.pipe()
    if os.fork() == 0:
        try:
            die_with_parent()
            os.close(ask_w)
            os.close(told_r)
            while True:
                case = os.read(ask_r, 100)
                if not case:
                    break
                os.write(told_w, pickle.dumps(watched([make(k) for k in case])))
        finally:
            os._exit(0)
    os.close(ask_r)
    os.close(told_w)

    # ------------------------------------------------ controls
    controls = [lambda: os.write(2, b""), lambda: os.stat("/"), lambda: threading.Thread(target=int).start(), lambda: print("x"), lambda: warnings.warn("x"), lambda: gc.disable(), lambda: os.environ.update(X="1"), lambda: setattr(ui, "x", 1), lambda: sys.setrecursionlimit(999)]

    def control(k):
        if not watched([controls[k]]):
            raise RuntimeError("control %d of C33 is not seen" % k)
        if watched([lambda: None]):
            raise RuntimeError("doing nothing is seen as something")
        count.step(2)

    # ------------------------------------------------ first calls
    life = {s.name: s for s in suites_c32.suites(ui, core, thorough, count, ext)}
    def first(case):
        os.write(ask_w, bytes(case))
        got = pickle.loads(os.read(told_r, 1 << 16))
        count.step(len(case))
        count.state(case)
        if got:
            raise Mismatch("calls %r, the first of a process: %.300r %s" % (case, CALLS[case[got[0]]][0] if got[0] >= 0 else "one of them", got[1]))

    n = len(CALLS)
    firsts = [p for k in (1, 2, 3) for p in itertools.product(range(n), repeat=k)]

    # ------------------------------------------------ surroundings
    usual = ["HOME", "LANG", "LANGUAGE", "LC_ALL", "LC_CTYPE", "TZ", "TERM", "USER", "PWD", "DEBUG", "VERBOSE", "NO_COLOR", "CI", "RUST_LOG", "UNICODE_VERSION", "UNICODE_INTERVALS_VERSION", "UNICODE_INTERVALS", "UNICODE_DATA", "UCD_VERSION", "XDG_CACHE_HOME", "SOURCE_DATE_EPOCH"]
    names = sorted({n for s in usual + [s for s in lexicon()[1] if s.isascii()] for n in (s, s.upper()) if n and "=" not in n and "\0" not in n and len(n) < 60 and not n.startswith(("PYTHON", "LD_", "MALLOC", "GLIBC")) and n != "PATH"})
    values = ["", "0", "1", "true", "9.0.0", "17.0.0", "Lu", "L", "65", "1114111", "-1", "C", "tr_TR.UTF-8", "/", "/nonexistent", "debug", "\u2603"]

    def surroundings():
        for v in values:
            for f in range(-1, n):
                yield "main", f, (f + 1) % n, [], dict.fromkeys(names, v)

    def surrounded(case):
        life["moments"].run(case)

    out = [
        Suite("controls", "%d actions that are to be seen" % len(controls), lambda: range(len(controls)), control),
        # Before anything else: the first calls of a process.
        Suite("first calls", "every sequence of at most 3 of %d calls, each in a process that has made no other, watched" % n, lambda: iter(firsts), first, None, lambda c: "calls %r" % (c,)),
        Suite("surroundings", "%d names of environment variables (usual ones and every string of the sources), all set to one of %d values x %d first calls" % (len(names), len(values), n + 1), surroundings, surrounded, life["moments"].needs, lambda c: "%d variables set to %r, after call %d" % (len(c[4]), next(iter(c[4].values())), c[1])),
    ]
    for prop in ("C19", "C20", "C22", "C28", "C29"):
        for s in importlib.import_module("suites_" + prop.lower()).suites(ui, core, False, count, ext):
            if not s.fork and not (prop == "C20" and ("histories" in s.name or s.name in ("rotations", "first-use orders"))):  # those make processes of their own
                out.append(wrapped(prop, s))
    return out
