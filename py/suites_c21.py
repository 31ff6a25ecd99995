"""C21: calls under re-entry and under every interleaving of threads, at the points where CPython may run other code.

Every schedule runs in a forked copy of a process that has only imported the module (all caches cold). Points are the
extension's calls into CPython that may run Python code (hook.c) and user code behind iterable arguments. Exactly
one thread runs between points. A process in which nobody gets to a point any more is a deadlock."""
import ctypes
import itertools
import os
import pickle
import select
import signal
import sys
import threading
import time

from common import die_with_parent
from engine import Mismatch, Suite

LIMIT, RETRY = 8, 25


class Hook:
    def __init__(self, ext):
        self.lib = ctypes.PyDLL(os.path.join(ext, "libhook.so"))
        self.lib.hook_set.argtypes = [ctypes.py_object]
        self.lib.hook_name.restype = ctypes.c_char_p
        self.lib.hook_failures.restype = ctypes.c_int64
        n = self.lib.hook_install(b"pyext/unicode_intervals/unicode_intervals")
        self.names = [self.lib.hook_name(i).decode() for i in range(max(n, 0))]


class UserIter:
    """An iterable whose steps are user code, and whose end of life is as well."""

    def __init__(self, names, cb, fail=None):
        self.names, self.cb, self.fail = names, cb, fail

    def __iter__(self):
        self.cb("__iter__")
        for i, n in enumerate(self.names):
            self.cb("__next__")
            if i == self.fail:
                raise KeyError("user")
            yield n
        self.cb("StopIteration")

    def __del__(self):
        self.cb("__del__")


class UserIndex:
    def __init__(self, n, cb):
        self.n, self.cb = n, cb

    def __index__(self):
        self.cb("__index__")
        return self.n


class Dead(Exception):
    pass


def fork_run(body, limit=LIMIT, retry=RETRY):
    """body() in a forked child; its pickled result. A child that does not end is run again with more time."""
    for t in (limit, retry):
        if not t:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            die_with_parent()
            os.close(r)
            try:
                data = pickle.dumps(body())
            except BaseException as e:
                data = pickle.dumps(("trouble", "%s: %s" % (type(e).__name__, e)))
            at = 0
            while at < len(data):
                at += os.write(w, data[at:])
            os._exit(0)
        os.close(w)
        data, end = b"", time.time() + t
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                break
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
        timed_out = time.time() >= end
        if timed_out:
            os.kill(pid, signal.SIGKILL)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if timed_out:
            continue
        if st or not data:
            raise Dead("the process dies with status %d" % st)
        return pickle.loads(data)
    raise Dead("deadlock: no thread gets any further (waited %d s)" % (retry or limit))


class Turns:
    """One thread at a time; at each point the schedule says who goes on."""

    def __init__(self, n, prefix):
        self.n, self.prefix = n, prefix
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.state = ["run"] * n
        self.cur = 0
        self.dec = []
        self.tls = threading.local()
        self.points = 0
        self.beat = [0] * n

    def point(self, name):
        me = getattr(self.tls, "me", None)
        if me is None:
            return
        self.points += 1
        self.beat[me] += 1
        if self.state[me] == "blocked":  # it was waiting inside the extension and got on
            self.state[me] = "run"
            self.wait(me)
            return
        self.decide(me, False)

    def wait(self, me):
        while True:
            nxt = self.cur
            before = self.beat[nxt] if nxt != me else None
            if self.sem[me].acquire(timeout=1.0):
                return
            # The chosen thread did not reach a point for a second, without holding the GIL: it waits inside the extension.
            if nxt != me and self.cur == nxt and self.beat[nxt] == before and self.state[nxt] == "run" and all(self.state[t] != "run" or t >= me or t == nxt for t in range(self.n)):
                self.state[nxt] = "blocked"
                self.cur = me
                return

    def decide(self, me, ended):
        able = [t for t in range(self.n) if self.state[t] == "run"]
        if not able:
            return
        if len(able) == 1:
            nxt = able[0]
        else:
            k = len(self.dec)
            if k < len(self.prefix):
                nxt = self.prefix[k]
                if nxt not in able:
                    nxt = able[0]
            else:
                nxt = me if not ended and me in able else able[0]
            self.dec.append((able, me, nxt, ended))
        if nxt != me:
            self.cur = nxt
            self.sem[nxt].release()
            if not ended:
                self.wait(me)

    def run(self, bodies):
        def thread(me):
            self.tls.me = me
            self.wait(me)
            try:
                bodies[me]()
            finally:
                self.beat[me] += 1
                self.state[me] = "done"
                self.tls.me = None
                self.decide(me, True)
        ts = [threading.Thread(target=thread, args=(i,), daemon=True) for i in range(self.n)]
        self.cur = -1
        for t in ts:
            t.start()
        first = self.prefix[0] if self.prefix else 0
        self.dec.append((list(range(self.n)), 0, first, True))
        self.cur = first
        self.sem[first].release()
        for t in ts:
            t.join()


def suites(ui, core, thorough, count, ext):
    hook = Hook(ext)
    ver = ui.UnicodeVersion
    keep = []

    # Calls: name -> f(point), returning something that pickles and compares. Tuples of categories() come with an identity.
    def cat(*a):
        t = ui.categories(*a)
        keep.append(t)
        return ("identity", str(a[0]) if a and a[0] is not None else str(ver.latest()), id(t), t)

    calls = {
        "categories()": lambda cb: cat(),
        "categories(9.0.0)": lambda cb: cat(ver("9.0.0")),
        "categories(17.0.0)": lambda cb: cat(ver.V17_0_0),
        "as_general_categories([L])": lambda cb: ui.as_general_categories(["L"]),
        "as_general_categories([N])": lambda cb: ui.as_general_categories(["N"]),
        "as_general_categories(user iterable)": lambda cb: ui.as_general_categories(UserIter(["N", "Lu"], cb), ver("12.1.0")),
        "query(Lu, max 128)": lambda cb: ui.query(categories=["Lu"], max_codepoint=128),
        "query(Zs)": lambda cb: ui.query(categories=("Zs",)),
        "query(user iterables)": lambda cb: ui.query(categories=UserIter(["Lu", "Nd"], cb), exclude_categories=UserIter(["Nd"], cb), max_codepoint=300),
        "query(characters)": lambda cb: ui.query(min_codepoint=0x41, max_codepoint=0x44, include_characters="az", exclude_characters="B"),
        "query(user integer)": lambda cb: ui.query(categories=["Ll"], min_codepoint=UserIndex(60, cb), max_codepoint=UserIndex(200, cb)),
        "UnicodeVersion(9.0.0)": lambda cb: (str(ver("9.0.0")), repr(ver.latest()), ver("9.0.0") == ver.V9_0_0),
        "as_general_categories([Xx])": lambda cb: ui.as_general_categories(["L", "Xx"]),
        "query(reversed)": lambda cb: ui.query(min_codepoint=5, max_codepoint=3),
        "query([Xx])": lambda cb: ui.query(categories=UserIter(["Lu", "Xx"], cb)),
        "query(raising iterable)": lambda cb: ui.query(categories=UserIter(["Lu", "Ll"], cb, fail=1)),
    }
    names = list(calls)
    state = {"x": 0}
    libc = ctypes.PyDLL(None)
    mutex = ctypes.create_string_buffer(64)

    def control_lost(cb):
        x = state["x"]
        cb("control")
        state["x"] = x + 1
        return state["x"]

    def control_lock(cb):
        libc.pthread_mutex_lock(mutex)
        cb("control")
        libc.pthread_mutex_unlock(mutex)
        return 1
    controls = {"control: lost update": control_lost, "control: lock held at a point": control_lock}

    def observe(name, cb):
        try:
            return ("value", (calls.get(name) or controls[name])(cb))
        except Exception as e:
            return ("error", type(e).__name__, str(e))
        except BaseException as e:
            return ("panic", type(e).__name__, str(e))

    def plain(obs):
        """Without the identity."""
        if obs[0] == "value" and isinstance(obs[1], tuple) and obs[1] and obs[1][0] == "identity":
            return ("value", ("categories", obs[1][1], obs[1][3]))
        return obs

    def judge(observations, how):
        """observations: (call, observation) in any order."""
        ids = {}
        for name, obs in observations:
            count.step()
            want = alone(name)
            if plain(obs) != want:
                raise Mismatch("%s\n  %s gives %.300r\n  alone it gives %.300r" % (how, name, plain(obs), want))
            if obs[0] == "value" and isinstance(obs[1], tuple) and obs[1] and obs[1][0] == "identity":
                ids.setdefault(obs[1][1], set()).add(obs[1][2])
        for v, s in ids.items():
            if len(s) > 1:
                raise Mismatch("%s\n  categories() of %s returned %d different tuple objects" % (how, v, len(s)))

    cache = {}

    def alone(name):
        if name not in cache:
            cache[name] = plain(fork_run(lambda: observe(name, lambda w: None)))
        return cache[name]

    def died(how, f):
        try:
            r = f()
        except Dead as e:
            raise Mismatch("%s\n  %s" % (how, e))
        if isinstance(r, tuple) and r and r[0] == "trouble":
            raise RuntimeError(r[1])
        return r

    # ---- re-entry
    def reentry_body(a, plan, before=()):
        """plan: point number -> call made there. Returns the points and all observations."""
        def body():
            log, obs, depth = [], [], [0]

            def cb(what):
                if depth[0]:
                    return
                k = len(log)
                log.append(what)
                todo = plan(k)
                if todo:
                    depth[0] = 1
                    for b in todo:
                        obs.append((b, observe(b, lambda w: None)))
                    depth[0] = 0
            for b in before:
                obs.append((b, observe(b, lambda w: None)))
            hook.lib.hook_set(cb)
            main = observe(a, cb)
            hook.lib.hook_set(lambda w: None)
            obs.append((a, main))
            for b in dict.fromkeys([a] + [x for x, _ in obs]):
                obs.append((b, observe(b, lambda w: None)))
            return log, obs
        return body

    def reentry(case):
        a, b = case
        k = 0
        while True:
            log, obs = died("%s, with %s called again from point %d" % (a, b, k), lambda: fork_run(reentry_body(a, lambda i: [b] if i == k else [])))
            judge(obs, "%s, with %s called from point %d (%s)" % (a, b, k, log[k] if k < len(log) else "none"))
            count.state((a, b, k, tuple(log)))
            count.extra["reentries"] += 1
            k += 1
            if k >= len(log):
                break
        _, obs = died("%s, with %s called at every point" % (a, b), lambda: fork_run(reentry_body(a, lambda i: [b])))
        judge(obs, "%s, with %s called at every point" % (a, b))

    def reentry_two(case):
        """Two calls at one point, or one call at each of two points, or after a first call."""
        a, b, c = case
        log, obs = died("points of %s" % a, lambda: fork_run(reentry_body(a, lambda i: [])))
        for k in range(len(log)):
            for plan, text in [(lambda i: [b, c] if i == k else [], "%s and %s at point %d" % (b, c, k)), (lambda i: [b] if i == k else [c] if i == k + 1 else [], "%s at point %d, %s at the next" % (b, k, c))]:
                _, obs = died("%s, with %s" % (a, text), lambda: fork_run(reentry_body(a, plan)))
                judge(obs, "%s, with %s" % (a, text))
                count.state((a, text))
                count.extra["reentries"] += 1

    # ---- threads
    def schedule_body(lists, prefix):
        def body():
            turns = Turns(len(lists), prefix)
            obs = [[] for _ in lists]

            def worker(i):
                def f():
                    for name in lists[i]:
                        obs[i].append((name, observe(name, turns.point)))
                return f
            hook.lib.hook_set(turns.point)
            turns.run([worker(i) for i in range(len(lists))])
            hook.lib.hook_set(lambda w: None)
            flat = [x for o in obs for x in o]
            for b in dict.fromkeys(x for l in lists for x in l):
                flat.append((b, observe(b, lambda w: None)))
            return turns.dec, turns.points, flat
        return body

    def explore(lists, bound, limit=LIMIT, retry=RETRY, check=True):
        stack, found = [()], []
        while stack:
            prefix = stack.pop()
            how = "threads %s, schedule %s" % ("; ".join("%d: %s" % (i, ", then ".join(l)) for i, l in enumerate(lists)), "".join(map(str, prefix)) or "(default)")
            dec, points, obs = died(how, lambda: fork_run(schedule_body(lists, prefix), limit, retry))
            count.extra["schedules"] += 1
            count.extra["points"] += points
            count.step(points)
            count.state((how, len(dec)))
            if check:
                judge(obs, how)
            else:
                found.append(obs)
            used = 0
            for i, (able, cur, chosen, free) in enumerate(dec):
                preempting = not free and cur in able
                if i >= len(prefix):
                    for t in able:
                        if t != chosen and used + (preempting and t != cur) <= bound:
                            stack.append(tuple(d[2] for d in dec[:i]) + (t,))
                used += preempting and chosen != cur
        return found

    def controls_case(_):
        """The explorer itself: a lost update and a lock held at a point must be found."""
        a, b = controls
        found = explore([[a], [a]], 1, check=False)
        if not any(sorted(o[1] for n, o in obs[:2]) == [1, 1] for obs in found):
            raise RuntimeError("control: the lost update was not found")
        for f in (lambda: explore([[b], [b]], 1, limit=1.5, retry=0, check=False), lambda: fork_run(reentry_body(b, lambda i: [b]), 1.5, 0)):
            try:
                f()
            except (Mismatch, Dead) as e:
                if "deadlock" in str(e):
                    continue
            raise RuntimeError("control: the deadlock was not found")
        if len(hook.names) < 5:
            raise RuntimeError("control: only %d hooked functions: %s" % (len(hook.names), hook.names))
        log, _ = fork_run(reentry_body("categories()", lambda i: []))
        if not log:
            raise RuntimeError("control: categories() reaches no point")
        count.extra["hooked"] = ", ".join(hook.names)

    count.extra = {"schedules": 0, "reentries": 0, "points": 0}
    bound = 3 if thorough else 2
    few = ["categories()", "categories(9.0.0)", "categories(17.0.0)", "as_general_categories(user iterable)", "query(user iterables)", "query(Zs)", "query([Xx])"]
    pairs = list(itertools.combinations_with_replacement(names, 2))
    out = [
        Suite("controls", "the explorer finds a planted lost update and a planted deadlock", lambda: iter([()]), controls_case),
        Suite("re-entry", "every call x every point of it x every call made there, caches cold; and at all points at once", lambda: itertools.product(names, repeat=2), reentry),
        Suite("re-entry twice", "two calls at one point, and at two consecutive points", lambda: itertools.product(names if thorough else few, few, few[:6] if thorough else few[:3]), reentry_two),
        Suite("two threads", "all pairs of calls, all schedules with at most %d preemptions, caches cold" % bound, lambda: iter(pairs), lambda c: explore([[c[0]], [c[1]]], bound)),
        Suite("two threads, two calls", "(a, b) beside (b, a), at most %d preemptions" % (bound - 1), lambda: itertools.combinations(names if thorough else few, 2), lambda c: explore([list(c), list(c[::-1])], bound - 1)),
        Suite("three threads", "all triples of %d calls, at most %d preemption" % (len(few), bound - 1), lambda: itertools.combinations_with_replacement(few if thorough else few[:5], 3), lambda c: explore([[x] for x in c], bound - 1)),
    ]
    return out
