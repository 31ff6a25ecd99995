"""C30, Python part: a call in which an allocation fails, or the caller's iterable raises, leaves nothing behind.

Every history runs in a forked copy of a process that has only imported the module."""
import collections
import ctypes
import itertools
import os
import pickle
import select
import signal
import sys
import threading
import time

from common import CATS, VERSIONS, die_with_parent, parse, request
from engine import Mismatch, Suite
from suites_c26 import Boom, OldRaising, Raising, RaisingIter, RaisingList

LIMIT = 60


class Cut:
    def __init__(self, ext):
        self.lib = ctypes.PyDLL(os.path.join(ext, "libcut.so"))
        self.lib.cut_call.restype = ctypes.py_object
        self.lib.cut_call.argtypes = [ctypes.py_object, ctypes.py_object, ctypes.py_object, ctypes.c_long, ctypes.c_long]
        self.lib.cut_seen.restype = ctypes.c_long
        self.lib.cut_hit.restype = ctypes.c_long

    def __call__(self, f, args, kwargs, k, n=1):
        return self.lib.cut_call(f, args, kwargs, k, n)


def forked(body, limit=LIMIT):
    """body(tell) in a forked child; (list of what it told, how it ended: None or a signal number)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        die_with_parent()
        os.close(r)
        null = os.open(os.devnull, os.O_RDWR)
        os.dup2(null, 2)
        sys.stderr = None
        signal.signal(signal.SIGALRM, signal.SIG_DFL)

        def tell(x):
            data = pickle.dumps(x)
            data = len(data).to_bytes(4, "little") + data
            while data:
                data = data[os.write(w, data):]
        code = 0
        try:
            body(tell)
        except BaseException as e:
            try:
                tell(("trouble", "%s: %.500s" % (type(e).__name__, e)))
            except BaseException:
                code = 3
        os._exit(code)
    os.close(w)
    data, end, timed_out = b"", time.time() + limit, False
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    told = []
    while len(data) >= 4:
        n = int.from_bytes(data[:4], "little")
        if len(data) < 4 + n:
            break
        told.append(pickle.loads(data[4:4 + n]))
        data = data[4 + n:]
    if timed_out:
        return told, "hang"
    return told, (st & 0x7F) or ("code %d" % (st >> 8) if st else None)


def suites(ui, core, thorough, count, ext):
    cut = Cut(ext)
    cut.lib.cut_install()
    V = {v: None for v in VERSIONS}
    count.extra = {"aborted_calls": 0, "raised": 0, "answered": 0}

    def version(v):
        return ui.UnicodeVersion(v)

    # (name, function, arguments, expectation): arguments are made afresh; the expectation is a request or exception types.
    class Lazy:
        def __init__(self, f):
            self.f = f

    def q(**kw):
        ask = request(kw.get("version"), kw.get("categories"), kw.get("exclude_categories"), kw.get("min_codepoint"), kw.get("max_codepoint"), kw.get("include_characters", ""), kw.get("exclude_characters", ""))

        def args(kw=kw):
            kw = dict(kw)
            if kw.get("version"):
                kw["version"] = version(kw["version"])
            return (), kw
        return ("query(%s)" % ", ".join("%s=%r" % i for i in kw.items()), lambda: ui.query, args, ask)

    def g(names, v=None, make=list, text=""):
        return ("as_general_categories(%s%r, %s)" % (text, names, v), lambda: ui.as_general_categories, lambda: ((make(names),) + ((version(v),) if v else ()), {}), "\t".join(["G", v or "-", *names]))

    def c(v=None):
        return ("categories(%s)" % v, lambda: ui.categories, lambda: ((version(v),) if v else (), {}), "N\t" + (v or "-"))

    def bad(name, f, args, kinds):
        return (name, lambda: f, args, kinds)

    def form(name, f, kw, ask):
        return (name, lambda: f, lambda: ((), kw()), ask)

    small = [
        q(categories=["Lu"], max_codepoint=80), q(categories=["Lu", "Nd"], exclude_categories=["Nd"], min_codepoint=60, max_codepoint=200), q(categories=[], include_characters="ac\u2603"), q(include_characters="\u03a9", exclude_characters="A", max_codepoint=127),
        q(categories=["Zl"], version="9.0.0"), q(categories=["Zp"], exclude_characters="\u2029"), q(categories=["Cs"], version="12.1.0"), q(categories=[]),
        g(["L", "Nd"]), g(["Zs"], "9.0.0"), g([]), g(["L", "M", "N", "P", "S", "Z", "C"], "15.1.0"), g(["Nd", "L"], None, lambda l: (x for x in l), "generator of "), g(["C"], None, lambda l: iter(list(l)), "iterator of "), g(["Lu"], None, dict.fromkeys, "dict of "),
        c(), c("9.0.0"), c("12.1.0"), c("17.0.0"),
        form("query(categories=generator)", ui.query, lambda: {"categories": (x for x in ["Lu", "Ll"]), "max_codepoint": 100}, request(None, ["Lu", "Ll"], None, None, 100)),
        form("query(exclude_categories=set)", ui.query, lambda: {"exclude_categories": {"Lu", "Cc"}, "max_codepoint": 100}, request(None, None, ["Lu", "Cc"], None, 100)),
        form("query(categories=OldSequence)", ui.query, lambda: {"categories": collections.UserList(["Lu", "Ll"]), "max_codepoint": 100}, request(None, ["Lu", "Ll"], None, None, 100)),
        bad("query(categories=['Xx'])", ui.query, lambda: ((), {"categories": ["Xx"]}), (ValueError,)),
        bad("query(exclude_categories=['Lu', 'Xx'])", ui.query, lambda: ((), {"exclude_categories": ["Lu", "Xx"]}), (ValueError,)),
        bad("query(categories='Lu')", ui.query, lambda: ((), {"categories": "Lu"}), (TypeError,)),
        bad("query(categories=['Lu', 7])", ui.query, lambda: ((), {"categories": ["Lu", 7]}), (TypeError,)),
        bad("query(categories=7)", ui.query, lambda: ((), {"categories": 7}), (TypeError,)),
        bad("query(min_codepoint=9, max_codepoint=8)", ui.query, lambda: ((), {"min_codepoint": 9, "max_codepoint": 8}), (ValueError,)),
        bad("query(max_codepoint=0x110000)", ui.query, lambda: ((), {"max_codepoint": 0x110000}), (ValueError,)),
        bad("query(min_codepoint=-1)", ui.query, lambda: ((), {"min_codepoint": -1}), (OverflowError,)),
        bad("query(include_characters='\\ud800')", ui.query, lambda: ((), {"include_characters": "\ud800"}), (UnicodeEncodeError,)),
        bad("query(nope=1)", ui.query, lambda: ((), {"nope": 1}), (TypeError,)),
        bad("query(version='9.0.0')", ui.query, lambda: ((), {"version": "9.0.0"}), (TypeError,)),
        bad("as_general_categories(['L', 'Xx'])", ui.as_general_categories, lambda: ((["L", "Xx"],), {}), (ValueError,)),
        bad("as_general_categories('L')", ui.as_general_categories, lambda: (("L",), {}), (TypeError,)),
        bad("categories(1)", ui.categories, lambda: ((1,), {}), (TypeError,)),
        bad("UnicodeVersion('9.0.1')", ui.UnicodeVersion, lambda: (("9.0.1",), {}), (ValueError,)),
        ("UnicodeVersion('12.1.0')", lambda: lambda s: str(ui.UnicodeVersion(s)), lambda: (("12.1.0",), {}), "=12.1.0"),
        ("repr(UnicodeVersion('9.0.0'))", lambda: lambda: repr(ui.UnicodeVersion("9.0.0")), lambda: ((), {}), '=UnicodeVersion("9.0.0")'),
        ("str(latest())", lambda: lambda: str(ui.UnicodeVersion.latest()), lambda: ((), {}), "=" + VERSIONS[-1]),
        ("==", lambda: lambda a, b: (a == b, a != b, a == 1), lambda: ((version("9.0.0"), version("9.0.0")), {}), "=(True, False, False)"),
    ]
    large = [q(), q(categories=["Lu", "Ll", "Nd"]), q(exclude_categories=["Cn"], version="9.0.0"), q(categories=[], include_characters="".join(map(chr, range(0x3041, 0x3441, 2))))]

    probes = [g(["L", "Nd"]), g(["Zs"], "9.0.0"), c(), c("9.0.0"), c("12.1.0"), q(categories=["Lu", "Nd"], max_codepoint=600), q(categories=["Lu"], min_codepoint=0x100, max_codepoint=0x500, include_characters="a\u2603", exclude_characters="\u0100"), q(exclude_categories=["Lu"], max_codepoint=200, version="9.0.0"),
              q(categories=[], include_characters="zx\u03a9"), small[22], small[27], small[33], small[36], small[37], small[38]]

    def answer(ask):
        if ask.startswith("="):
            return ask[1:]
        a = core(ask)
        return parse(a) if ask[0] == "Q" else tuple(a.split())

    def needs_of(calls):
        return [x[3] for x in calls if isinstance(x[3], str) and not x[3].startswith("=")]

    def fits(call, got):
        want = call[3]
        if isinstance(want, tuple):
            return isinstance(got, want)
        if want.startswith("="):
            return str(got) == want[1:]
        return type(got) is tuple and got == answer(want)

    def outcome(f):
        try:
            return f()
        except BaseException as e:
            return e

    def run(call):
        a, k = call[2]()
        return outcome(lambda: call[1]()(*a, **k))

    def probe_all():
        """None, or what went wrong."""
        for p in probes:
            got = run(p)
            if not fits(p, got):
                return "%s gives %.200r" % (p[0], got)

    def in_thread():
        out = ["it does not come back"]
        t = threading.Thread(target=lambda: out.__setitem__(0, probe_all()))
        t.start()
        t.join()
        return out[0]

    def cut_once(call, k, n):
        """(fired, allocations, what went wrong or None, how it ended)."""
        a, kw = call[2]()
        f = call[1]()
        got = outcome(lambda: cut(f, a, kw, k, n))
        fired, seen = cut.lib.cut_hit() > 0, cut.lib.cut_seen()
        if isinstance(got, BaseException):
            if not fired and not fits(call, got):
                return fired, seen, "raises %.300r" % got, "raised"
            got.__traceback__ = None
            return fired, seen, None, "raised"
        if isinstance(call[3], tuple):
            return fired, seen, "gives %.200r, though the arguments are invalid" % (got,), "answered"
        if not fits(call, got):
            return fired, seen, "gives %.200r" % (got,), "answered"
        return fired, seen, None, "answered"

    def judge(call, told, end, text, n=1):
        for t in told:
            if t[0] == "wrong":
                raise Mismatch("%s: %s" % (call[0], t[1]))
            if t[0] == "trouble":
                raise Mismatch("%s, %s: %s" % (call[0], text, t[1]))
        if end == "hang":
            raise Mismatch("%s, %s: no answer within %d s after %s" % (call[0], text, LIMIT, told[-1:] or "the start"))
        if end == int(signal.SIGABRT) or n != 1 and end == int(signal.SIGSEGV):
            return  # Rust's or CPython's way out when not even an error can be made
        if end:
            raise Mismatch("%s, %s: the process ends with %s after %s" % (call[0], text, signal.Signals(end).name if isinstance(end, int) else end, told[-1:] or "the start"))

    def warm_case(case):
        """Allocations k, k+1, ... of one call in one process fail one after another, each followed by probes."""
        i, n, calls = case
        call = calls[i]
        k, end_k = 0, None
        deaths = 0
        while end_k is None:
            def body(tell, k=k):
                for p in probes:
                    run(p)
                run(call)
                for j in range(k, 1 << 20):
                    tell(("at", j))
                    fired, seen, wrong, how = cut_once(call, j, n)
                    if wrong:
                        tell(("wrong", "with allocation %d (and %d after it) failing, it %s" % (j, n - 1, wrong)))
                        return
                    if not fired:
                        tell(("end", j))
                        return
                    bad = probe_all()
                    if not bad:
                        again = run(call)
                        if not fits(call, again):
                            bad = "the same call gives %.200r" % (again,)
                    if not bad and (j < 6 or j % 50 == 0):
                        bad = in_thread()
                        bad = bad and "in another thread, " + bad
                    if bad:
                        tell(("wrong", "after allocation %d (and %d after it) failed in it: %s" % (j, n - 1, bad)))
                        return
                    tell((how, j))
            told, end = forked(body)
            judge(call, told, end, "warm", n)
            for t in told:
                if t[0] in ("raised", "answered"):
                    count.extra[t[0]] += 1
                    count.step(len(probes) + 2)
                    count.state(("warm", call[0], n, t))
                if t[0] == "end":
                    end_k = t[1]
            if end_k is None:
                at = [t[1] for t in told if t[0] == "at"]
                if not at:
                    raise RuntimeError("%s: nothing told, %s" % (call[0], end))
                count.extra["aborted_calls"] += 1
                count.state(("warm", call[0], n, "abort", at[-1]))
                k = at[-1] + 1
                deaths += 1

    def cold_case(case):
        """The first call of a process, its k-th allocation failing; then (perhaps) the same again with another; then probes."""
        i, n, calls, second = case
        call = calls[i]
        stop = False
        k = 0
        while not stop:
            l = itertools.count() if second else [None]
            for j in l:
                def body(tell):
                    fired, seen, wrong, how = cut_once(call, k, n)
                    tell(("seen", fired, seen))
                    fired2 = True
                    if not wrong and fired and j is not None:
                        fired2, _, wrong, how = cut_once(call, j, n)
                        tell(("second", fired2))
                    if wrong:
                        tell(("wrong", "as the first call of a process, with allocation %d%s failing, it %s" % (k, "" if j is None else " and then, again, %d" % j, wrong)))
                        return
                    bad = probe_all()
                    if not bad:
                        again = run(call)
                        bad = None if fits(call, again) else "the same call gives %.200r" % (again,)
                    if not bad:
                        bad = in_thread()
                        bad = bad and "in another thread, " + bad
                    if bad:
                        tell(("wrong", "as the first call of a process, after allocation %d%s failed in it: %s" % (k, "" if j is None else " and then, again, %d" % j, bad)))
                        return
                    tell((how, k))
                told, end = forked(body)
                judge(call, told, end, "cold, allocation %d" % k, n)
                count.step(2 * len(probes) + 2)
                count.state(("cold", call[0], n, k, j, end))
                if end:
                    count.extra["aborted_calls"] += 1
                for t in told:
                    if t[0] in ("raised", "answered"):
                        count.extra[t[0]] += 1
                fired = [t[1] for t in told if t[0] == "seen"]
                if fired and not fired[0]:
                    stop = True
                    break
                second_fired = [t[1] for t in told if t[0] == "second"]
                if not second_fired and j is not None or second_fired and not second_fired[0]:
                    break
            k += 1

    # ------------------------------------------------ exceptions of the caller's iterables, in a cold process
    kinds = [("iterator", Raising), ("iterable that raises at once", RaisingIter), ("old sequence", OldRaising), ("list", RaisingList)]
    raised = [("Boom", lambda: Boom("x")), ("KeyboardInterrupt", KeyboardInterrupt), ("MemoryError", MemoryError), ("ValueError", lambda: ValueError("v"))]
    places = [("categories", lambda it: ui.query(categories=it)), ("exclude_categories", lambda it: ui.query(exclude_categories=it)), ("exclude_categories after categories", lambda it: ui.query(categories=["Lu", "Ll"], exclude_categories=it)),
              ("categories before exclude_categories", lambda it: ui.query(categories=it, exclude_categories=["Lu"])), ("as_general_categories", lambda it: ui.as_general_categories(it)), ("as_general_categories, 9.0.0", lambda it: ui.as_general_categories(it, ui.UnicodeVersion("9.0.0")))]
    before = [[], ["Lu"], ["Zs", "Nd"], list(CATS), ["Lu"] * 200]

    def raising_cases():
        for k in kinds:
            for r in raised:
                for b in before:
                    for times in (1, 2, 5, 300):
                        yield k, r, b, times

    def raising(case):
        (kn, kind), (rn, make), names, times = case
        for pn, place in places:
            how = "%d times %s = %s that raises %s after %d names" % (times, pn, kn, rn, len(names))

            def body(tell):
                for _ in range(times):
                    outcome(lambda: place(kind(names, make())))
                bad = probe_all() or in_thread()
                if bad:
                    tell(("wrong", "then " + bad))
            told, end = forked(body)
            judge((how,), told, end or None, "cold")
            if end:
                raise Mismatch("%s: the process ends with %s" % (how, end))
            count.step(times + 2 * len(probes))
            count.state((pn, kn, rn, len(names), times))

    ask = needs_of(small + large + probes)
    numbers = (1, 2, -1)
    few = [0, 2, 3, 8, 15, 16, 19, 22, 33, 36] if thorough else [0, 3, 8, 15, 16, 22, 36]
    warm = [(i, n, small) for i in range(len(small)) for n in numbers] + [(i, n, large) for i in range(len(large)) for n in ((1, 2) if thorough else (1,))]
    cold = [(i, n, small, False) for i in range(len(small)) for n in numbers]
    twice = [(i, 1, small, True) for i in few]
    if thorough:
        cold += [(i, 1, large, False) for i in range(len(large))]
    show = lambda c: "%s, %s failing" % (c[2][c[0]][0][:200], "all allocations from k on" if c[1] < 0 else "%d allocation(s) from k on" % c[1])
    return [
        Suite("allocations fail, cold", "%d calls, each as the first of a process: allocation k (k and k+1; all from k on) fails, for every k up to the number there are; then %d probes, the call again, and the probes in another thread" % (len(small), len(probes)), lambda: iter(cold), cold_case, lambda c: ask, show),
        Suite("allocations fail twice", "%d calls: allocation k fails, then in the same call again allocation j, for all k and j; then as above" % len(few), lambda: iter(twice), cold_case, lambda c: ask, show),
        Suite("iterables raise, cold", "%d places x %d kinds of iterable x %d exceptions x after %s names x 1, 2, 5, 300 times: then the probes, here and in another thread" % (len(places), len(kinds), len(raised), [len(b) for b in before]), raising_cases, raising, lambda c: ask, lambda c: "%s raises %s after %d names, %d times" % (c[0][0], c[1][0], len(c[2]), c[3])),
        Suite("allocations fail, warm", "%d calls, also ones that return hundreds of intervals: every allocation fails in turn in one process, probes after each" % (len(small) + len(large)), lambda: iter(warm), warm_case, lambda c: ask, show),
    ]
