"""C26: what the caller hands over comes back as it was: exceptions of its iterables, arguments, references, memory."""
import ctypes
import itertools
import sys

from common import CATS, FORMS, Iterable, SubStr, VERSIONS, request, parse
from engine import Mismatch, Suite


class Boom(Exception):
    pass


class Odd(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


class Base(BaseException):
    pass


RAISED = [
    ("Boom", lambda: Boom("from the iterable")), ("ValueError", lambda: ValueError("mine")), ("TypeError", lambda: TypeError("mine")), ("KeyError", lambda: KeyError("k")), ("Odd", lambda: Odd(1, 2)),
    ("AttributeError", lambda: AttributeError("a")), ("RuntimeError", lambda: RuntimeError("r")), ("OverflowError", lambda: OverflowError("o")), ("MemoryError", MemoryError), ("RecursionError", lambda: RecursionError("deep")),
    ("OSError", lambda: OSError(2, "no file")), ("UnicodeDecodeError", lambda: UnicodeDecodeError("utf-8", b"x", 0, 1, "bad")), ("AssertionError", AssertionError), ("LookupError", lambda: LookupError()),
    ("ZeroDivisionError", lambda: ZeroDivisionError("z")), ("NotImplementedError", NotImplementedError), ("Base", lambda: Base("b")), ("KeyboardInterrupt", KeyboardInterrupt), ("SystemExit", lambda: SystemExit(3)), ("GeneratorExit", GeneratorExit),
    ("StopAsyncIteration", StopAsyncIteration), ("Warning", lambda: UserWarning("w")), ("ImportError", lambda: ImportError("i", name="n")), ("ExceptionGroup", lambda: ExceptionGroup("g", [ValueError(1)])),
]


class Raising:
    """Yields names, then raises; counts what is asked of it."""

    def __init__(self, names, exc):
        self.names, self.exc, self.draws, self.late = list(names), exc, 0, 0
        self.done = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.done:
            self.late += 1
            raise StopIteration
        self.draws += 1
        if self.draws <= len(self.names):
            return self.names[self.draws - 1]
        self.done = True
        raise self.exc


class RaisingIter(Raising):
    def __iter__(self):
        self.draws += 1
        self.done = True
        raise self.exc


class OldRaising:
    def __init__(self, names, exc):
        self.names, self.exc, self.draws, self.late, self.done = list(names), exc, 0, 0, False

    def __getitem__(self, i):
        return Raising.__next__(self)


class RaisingList(list):
    """A list whose own iteration raises."""

    def __init__(self, names, exc):
        super().__init__(names)
        self.inner = Raising(names, exc)

    def __iter__(self):
        return self.inner

    draws = property(lambda self: self.inner.draws)
    late = property(lambda self: self.inner.late)


class Watched:
    """An iterator that notes every other method that is called on it."""

    def __init__(self, items, log):
        self.items, self.log = iter(items), log

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.items)


class WatchedOnce:
    """An iterable of the same kind that is no iterator."""

    def __init__(self, items, log):
        self.items, self.log = items, log

    def __iter__(self):
        return Watched(self.items, self.log)


def _note(name):
    def f(self, *a, **k):
        self.log.append(name)
    return f


for _n in "close send throw sort reverse clear pop append extend insert remove update add discard popitem setdefault popleft write read seek readline flush release __enter__ __exit__ __setitem__ __delitem__ __iadd__ __ior__ __call__ __del__".split():
    if _n != "__del__":
        setattr(Watched, _n, _note(_n))
        setattr(WatchedOnce, _n, _note(_n))


class Hinting(Raising):
    def __length_hint__(self):
        return 10 ** 6


KINDS = [("iterator", Raising), ("__iter__ raises", RaisingIter), ("__getitem__ raises", OldRaising), ("list subclass", RaisingList), ("iterator with a large hint", Hinting)]


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def suites(ui, core, thorough, count, ext):
    ver = ui.UnicodeVersion
    libc = ctypes.CDLL(None)
    mallinfo2 = libc.mallinfo2
    mallinfo2.restype = Mallinfo

    def in_use():
        m = mallinfo2()
        return sys.getallocatedblocks(), m.uordblks + m.hblkhd

    def outcome(f):
        try:
            return "gives", f()
        except BaseException as e:
            e.__traceback__ = None
            return "raises", type(e).__name__

    # ------------------------------------------------ exceptions of the caller's code
    targets = {
        "query(categories=X)": lambda x: ui.query(categories=x), "query(exclude_categories=X)": lambda x: ui.query(exclude_categories=x),
        "query(categories=['Lu'], exclude_categories=X, max_codepoint=300)": lambda x: ui.query(categories=["Lu"], exclude_categories=x, max_codepoint=300),
        "query(categories=X, exclude_categories=['Ll'], version=9.0.0)": lambda x: ui.query(categories=x, exclude_categories=["Ll"], version=ver("9.0.0")),
        "query(categories=X, include_characters='a', min_codepoint=5)": lambda x: ui.query(categories=x, include_characters="a", min_codepoint=5),
        "as_general_categories(X)": lambda x: ui.as_general_categories(x), "as_general_categories(X, 12.1.0)": lambda x: ui.as_general_categories(x, ver("12.1.0")),
        "as_general_categories(categories=X, version=None)": lambda x: ui.as_general_categories(categories=x, version=None),
    }
    counts = [*range(6), 8, 15, 16, 17, 29, 30, 31, 32, 33, 64, 100] if not thorough else [*range(70), 127, 128, 129, 255, 256, 1000]

    def raising_cases():
        for t in targets:
            for k, _ in KINDS:
                for e, _ in RAISED:
                    for n in counts if k != "__iter__ raises" else [0]:
                        yield t, k, e, n

    kinds, raised = dict(KINDS), dict(RAISED)

    def raising(case):
        t, k, e, n = case
        exc = raised[e]()
        names = (CATS * 40)[:n]
        x = kinds[k](names, exc)
        refs = sys.getrefcount(x)
        if n % 2:
            exc.args  # materialised beforehand or not
        count.step()
        caught = None
        try:
            got = targets[t](x)
        except BaseException as c:
            caught = c
        how = "X: %s that raises %s after %d names; %s" % (k, e, n, t)
        if caught is None:
            raise Mismatch("%s gives %.200r" % (how, got))
        # A TypeError may be given the argument's name.
        if type(caught) is not type(exc) or caught is not exc and type(exc) is not TypeError:
            raise Mismatch("%s raises %r (%s) instead" % (how, caught, type(caught).__mro__[:2]))
        asked = 1 if k == "__iter__ raises" else n + 1
        if x.draws != asked or x.late:
            raise Mismatch("%s: drawn from %d times (%d after the exception) instead of %d" % (how, x.draws, x.late, asked))
        count.state((t, k, e, n))
        caught.__traceback__ = None
        del caught
        exc.__traceback__ = exc.__cause__ = exc.__context__ = None
        if sys.getrefcount(x) != refs:
            raise Mismatch("%s: the argument has %d references before and %d after the call" % (how, refs, sys.getrefcount(x)))
        got = ui.query(categories=["Lu"], max_codepoint=128), ui.as_general_categories(["N", "Lu"])
        if got != probes:
            raise Mismatch("%s\n  and then valid calls give %r instead of %r" % (how, got, probes))

    probes = (parse(core(request(cats=["Lu"], hi=128))), tuple(core("G\t-\tN\tLu").split()))

    def generator_cases():
        for t in targets:
            for e, _ in RAISED:
                for n in (0, 1, 2, 5, 30):
                    yield t, e, n

    def generators(case):
        """A generator's own clean-up has run before the exception reaches the caller."""
        t, e, n = case
        exc = raised[e]()
        log = []

        def g():
            try:
                for x in CATS[:n]:
                    log.append(x)
                    yield x
                raise exc
            finally:
                log.append("end")
        count.step()
        how = "X: a generator that raises %s after %d names; %s" % (e, n, t)
        it = g()
        try:
            got = targets[t](it)
        except BaseException as c:
            if type(c) is not type(exc) or c is not exc and type(exc) is not TypeError:
                raise Mismatch("%s raises %r instead" % (how, c))
            c.__traceback__ = None
        else:
            raise Mismatch("%s gives %.200r" % (how, got))
        if log != CATS[:n] + ["end"]:
            raise Mismatch("%s draws %s" % (how, log))
        count.state((t, e, n))

    tails = [("nothing wrong", None), ("5", 5), ("None", None), ("b'Lu'", b"Lu"), ("'Xx'", "Xx"), ("''", ""), ("'\\ud800'", "\ud800"), ("['Lu']", ["Lu"]), ("a version", ver("9.0.0"))]

    def only_iterated_cases():
        for t in targets:
            for k in range(len(tails)):
                for n in (0, 1, 2, 5, 30, 40, 64, 100):
                    yield t, k, n

    def only_iterated(case):
        """Nothing is done to an iterable but to iterate over it: a generator is not closed, no other method is called."""
        t, k, n = case
        what, tail = tails[k]
        items = (CATS * 4)[:n] + ([tail, "Nd", "Lu"] if k else [])
        how = "X: %d names%s; %s" % (n, ", %s, 'Nd', 'Lu'" % what if k else "", t)
        log = []

        def g():
            try:
                yield from items
                log.append("done")
            except GeneratorExit:
                log.append("closed")
                raise
        for x in (g(), Watched(items, log), WatchedOnce(items, log)):
            del log[:]
            count.step()
            r = outcome(lambda: targets[t](x))
            if r[0] == "gives" and k:
                raise Mismatch("%s gives %.200r" % (how, r[1]))
            if [l for l in log if l != "done"]:
                raise Mismatch("%s: %s of %s was called" % (how, log, type(x).__name__))
            count.state((t, k, n, r[0], type(x).__name__))
            # Whatever was not drawn is still there: the rest of the items and no others.
            if hasattr(x, "__next__"):
                rest = list(x)
                if rest != items[len(items) - len(rest):] or len(rest) > (2 if k else 0) and k and len(items) - len(rest) < n:
                    raise Mismatch("%s: left in the iterable: %.200r" % (how, rest))
                if type(x).__name__ == "generator" and log != ["done"]:
                    raise Mismatch("%s: the generator was %s" % (how, log or "cut off"))

    # ------------------------------------------------ arguments, references, memory
    lists = [[], ["Lu"], ["Lu", "Nd"], ["Nd", "Lu", "Nd"], CATS, ["Xx"], ["Lu", "Xx", "Ll"], ["\ud800"], [5], ["Lu", None], ["Lu", b"Ll"], [""], ["x" * 300], ["Lu"] * 100]
    texts = ["", "a", "\u2603b", "ab" * 50, "\ud800", "a\udfff", "\U0001F600" * 20, "\0", SubStr("xy")]
    numbers = [None, 0, 65, 255, 256, 1114111, 1114112, 2 ** 32 - 1, 2 ** 32, 2 ** 70, -1, True, 1.5, "65"]
    versions = [("None", lambda: None)] + [(v, lambda v=v: ver(v)) for v in ("9.0.0", "12.1.0", "17.0.0")] + [("'17.0.0'", lambda: "17.0.0"), ("5", lambda: 5)]
    names = ["17.0.0", "9.0.0", "12.1.0", "9.0", "", "x", "x" * 500, "\ud800", 5, None, b"9.0.0", SubStr("10.0.0")]

    def arg(form, l):
        try:
            return FORMS[form](l)
        except TypeError:
            return list(l)

    def calls():
        """(text, makes fresh arguments: name -> object, call with them)."""
        for form in FORMS:
            for l in lists:
                yield "query(categories=%s %.60r, max_codepoint=600)" % (form, l), lambda form=form, l=l: {"categories": arg(form, l), "max_codepoint": 600}, ui.query
                yield "query(exclude_categories=%s %.60r, max_codepoint=600)" % (form, l), lambda form=form, l=l: {"exclude_categories": arg(form, l), "max_codepoint": 600}, ui.query
                for v, mk in versions[:3]:
                    yield "as_general_categories(%s %.60r, %s)" % (form, l, v), lambda form=form, l=l, mk=mk: {"categories": arg(form, l), "version": mk()}, ui.as_general_categories
        for i, e in itertools.product(texts, texts):
            for hi in (200, 400):
                yield "query(categories=[], include_characters=%.40r, exclude_characters=%.40r, max_codepoint=%d)" % (i, e, hi), \
                    lambda i=i, e=e, hi=hi: {"categories": [], "include_characters": i, "exclude_characters": e, "max_codepoint": hi}, ui.query
        for a, b in itertools.product(numbers, numbers):
            yield "query(categories=['Lu'], min_codepoint=%r, max_codepoint=%r)" % (a, b), lambda a=a, b=b: {"categories": ["Lu"], "min_codepoint": a, "max_codepoint": b}, ui.query
        for v, mk in versions:
            yield "query(version=%s)" % v, lambda mk=mk: {"version": mk()}, ui.query
            yield "query(categories=['So', 'Lo'], version=%s)" % v, lambda mk=mk: {"categories": ["So", "Lo"], "version": mk()}, ui.query
            yield "categories(%s)" % v, lambda mk=mk: {"version": mk()}, ui.categories
        for x in names:
            yield "UnicodeVersion(%.40r)" % (x,), lambda x=x: {"value": x}, ui.UnicodeVersion
        for v in VERSIONS:
            yield "str(UnicodeVersion(%r))" % v, lambda v=v: {"x": ver(v)}, lambda x: str(x)
            yield "repr(UnicodeVersion(%r))" % v, lambda v=v: {"x": ver(v)}, lambda x: repr(x)
            yield "UnicodeVersion(%r) == others" % v, lambda v=v: {"x": ver(v)}, lambda x: [x == y for y in ui.available_versions] + [x != None, x == 5, x == "9.0.0"]  # noqa: E711
            yield "categories(%s)" % v, lambda v=v: {"version": ver(v)}, ui.categories
        yield "UnicodeVersion.latest()", dict, ui.UnicodeVersion.latest
        yield "hash(version)", lambda: {"x": ver("9.0.0")}, lambda x: hash(x)
        yield "version < version", lambda: {"x": ver("9.0.0")}, lambda x: x < x
        yield "query(5)", lambda: {"x": 5}, lambda x: ui.query(x)
        yield "query(unknown=5)", lambda: {"unknown": 5}, ui.query
        yield "as_general_categories()", dict, ui.as_general_categories
        yield "categories(1, 2)", lambda: {"x": 1}, lambda x: ui.categories(x, x)

    table = list(calls())

    def look(x):
        """A deep picture of an argument, without drawing from iterators."""
        if isinstance(x, dict):
            return [(k, look(v)) for k, v in x.items()]
        if isinstance(x, (list, tuple)) or type(x).__name__ == "deque":
            return type(x), [(id(y), repr(y)) for y in x]
        if isinstance(x, (set, frozenset)):
            return type(x), sorted((id(y), repr(y)) for y in x)
        if isinstance(x, (str, bytes, int, float)) or x is None:
            return type(x), id(x), repr(x)
        return type(x), getattr(x, "names", None)

    def parts(x):
        out = [x]
        if isinstance(x, (list, tuple, set, frozenset, dict)):
            out += list(x)
        return out

    own = [ui.available_versions, *ui.available_versions]
    for v in VERSIONS:
        own += [ui.categories(ver(v)), *ui.categories(ver(v))]

    def arguments(k):
        text, make, f = table[k]
        args = make()
        before = {n: look(x) for n, x in args.items()}
        objects = [o for x in args.values() for o in parts(x)] + own
        r = None
        outcome(lambda: f(**make()))
        # The first call may set up caches; later ones may not hold on to anything.
        bad = 0
        for _ in range(3):
            args2 = args if not any(hasattr(x, "__next__") for x in args.values()) else make()
            refs = [sys.getrefcount(o) for o in objects]
            count.step()
            r = outcome(lambda: f(**args2))
            count.state((text, repr(r)[:300]))
            r = None
            refs2 = [sys.getrefcount(o) for o in objects]
            bad = [(repr(objects[i])[:100], a, b) for i, (a, b) in enumerate(zip(refs, refs2)) if a != b and b < 1 << 29]
            after = {n: look(x) for n, x in args.items()}
            if after != before:
                raise Mismatch("%s changes its arguments: %.300r becomes %.300r" % (text, before, after))
            if not bad:
                break
        if bad:
            raise Mismatch("%s: %s has %d references before and %d after the call" % ((text,) + bad[0]))

    # Something that grows without bound grows between any two looks, even if it doubles its room each time it is full.
    LOOKS = [60 * 2 ** k for k in range(9)]

    def steady(round_, per_look, calls_per_round):
        """Bytes and blocks kept at the last look, if they grew by at least half of 8 bytes or a block per round each time."""
        done, grown, last, first = 0, [0, 0], None, None
        for n, look in enumerate(per_look):
            for _ in range(look - done):
                round_()
            count.step((look - done) * calls_per_round)
            now = in_use()
            if last is None:
                first = now
            else:
                for j, least in ((0, (look - done) // 2), (1, 4 * (look - done))):
                    grown[j] += now[j] - last[j] >= least
                if max(grown) < n:
                    return None
            last, done = now, look
        return last[0] - first[0], last[1] - first[1]

    def memory(k):
        text, make, f = table[k]

        def round_():
            try:
                f(**make())
            except Exception:
                pass
        bad = steady(round_, LOOKS, 1)
        if bad:
            raise Mismatch("%d repetitions of %s keep %d more blocks and %d more bytes, more at each look" % (LOOKS[-1], text, *bad))

    def runs():
        return range(len(table))

    def mixed(k):
        """The same for runs of different calls, results kept until the end of the run."""
        some = [table[(k * 7 + 13 * j) % len(table)] for j in range(12)]

        def round_():
            keep = []
            for _, make, f in some:
                args = make()
                try:
                    keep.append((args, f(**args)))
                except Exception as e:
                    keep.append(e)
            del keep
        bad = steady(round_, [x // 4 for x in LOOKS], len(some))
        if bad:
            raise Mismatch("%d repetitions of %s keep %d more blocks and %d more bytes, more at each look" % (LOOKS[-1] // 4, "; ".join(t for t, _, _ in some), *bad))

    say = lambda k: table[k][0]
    return [
        Suite("raising iterables", "%d calls x %d kinds of iterable x %d exceptions x raised after each of %s names" % (len(targets), len(KINDS), len(RAISED), counts), raising_cases, raising),
        Suite("raising generators", "%d calls x %d exceptions x 5 lengths; clean-up of the generator" % (len(targets), len(RAISED)), generator_cases, generators),
        Suite("only iterated", "%d calls x %d wrong members (or none) after 0..100 names x generator, iterator and iterable with other methods" % (len(targets), len(tails) - 1), only_iterated_cases, only_iterated),
        Suite("arguments", "%d calls, valid and invalid: arguments unchanged, references of every argument, its members and the module's objects balanced" % len(table), runs, arguments, None, say),
        Suite("memory", "%d calls, each repeated up to %d times: live blocks and bytes do not grow at each of %d looks" % (len(table), LOOKS[-1], len(LOOKS) - 1), runs, memory, None, say),
        Suite("memory of runs", "%d runs of 12 of these calls, repeated" % len(table), runs, mixed, None, lambda k: "run %d" % k),
    ]
