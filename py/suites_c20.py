"""C20: versions and category lists mirror the core, for every version and every order of calls."""
import gc
import itertools
import os

from common import CATS, CLASSES, FORMS, VERSIONS, die_with_parent
from engine import Mismatch, Suite


def suites(ui, core, thorough, count, ext):
    def same(got, want, what):
        count.step()
        count.state((what, repr(want)))
        if got != want:
            raise Mismatch("%s\n  gives    %.400r\n  the core %.400r" % (what, got, want))

    def attempt(f):
        try:
            return f()
        except Exception as e:
            return e

    bundled = core("V").split()
    latest = bundled.pop()
    attr = lambda v: "V" + v.replace(".", "_")
    routes = {
        "attribute": lambda v: getattr(ui.UnicodeVersion, attr(v)),
        "parsed": ui.UnicodeVersion,
        "available": lambda v: ui.available_versions[bundled.index(v)],
    }

    def version_case(case):
        kind, v = case
        if kind == "list":
            same(type(ui.available_versions), tuple, "type(available_versions)")
            same([str(x) for x in ui.available_versions], bundled, "available_versions")
            same(len(ui.available_versions), len(bundled), "len(available_versions)")
            same(str(ui.UnicodeVersion.latest()), latest, "latest()")
            same(ui.UnicodeVersion.latest() == ui.UnicodeVersion(latest), True, "latest() == UnicodeVersion(%r)" % latest)
            same(sorted(a for a in dir(ui.UnicodeVersion) if a.startswith("V")), sorted(attr(v) for v in bundled), "class attributes")
            return
        for rn, route in routes.items():
            x = attempt(lambda: route(v))
            same(type(x), ui.UnicodeVersion, "type of %s %s" % (rn, v))
            same(attempt(lambda: str(x)), v, "str(%s %s)" % (rn, v))
            same(attempt(lambda: "%s" % (x,)), v, "format of %s %s" % (rn, v))
            same(attempt(lambda: repr(x)), 'UnicodeVersion("%s")' % v, "repr(%s %s)" % (rn, v))
            same(eval(repr(x), {"UnicodeVersion": ui.UnicodeVersion}) == x, True, "eval(repr) of %s %s" % (rn, v))
            for on, other in routes.items():
                for w in bundled:
                    y = attempt(lambda: other(w))
                    same(attempt(lambda: (x == y, x != y)), (v == w, v != w), "%s %s ==, != %s %s" % (rn, v, on, w))
            for y in (v, None, 5, 0, bundled.index(v), (9, 0), object(), getattr(type(x), "__class__")):
                same(attempt(lambda: (x == y, x != y)), (False, True), "%s %s ==, != %r" % (rn, v, type(y)))
            same(attempt(lambda: x in ui.available_versions), True, "%s %s in available_versions" % (rn, v))
            same(attempt(lambda: ui.available_versions.index(x)), bundled.index(v), "index of %s %s" % (rn, v))

    def categories_case(v):
        for rn, route in routes.items():
            got = attempt(lambda: ui.categories(route(v)))
            same(type(got), tuple, "type(categories(%s %s))" % (rn, v))
            same(got, tuple(core("N\t" + v).split()), "categories(%s %s)" % (rn, v))
            same(all(type(x) is str for x in got), True, "categories(%s %s): str" % (rn, v))
            same(attempt(lambda: ui.categories(version=route(v))) is got, True, "categories(version=%s %s) is the same object" % (rn, v))

    names = CATS + CLASSES
    versions = [None] + bundled

    def general(case):
        v, form, l = case
        want = core("\t".join(["G", v or "-"] + list(l)))
        args = (FORMS[form](list(l)),)
        got = attempt(lambda: ui.as_general_categories(*args) if v is None else ui.as_general_categories(*args, version=ui.UnicodeVersion(v)))
        if want.startswith("E"):
            same(type(got), ValueError, "as_general_categories(%r as %s, %s)" % (l, form, v))
        else:
            same(got, tuple(want.split()), "as_general_categories(%r as %s, %s)" % (l, form, v))
            same(type(got), tuple, "type of as_general_categories(%r)" % (l,))

    def need_general(case):
        v, form, l = case
        return ["\t".join(["G", v or "-"] + list(l))]

    # Calls for the histories: text -> (thunk, expected, key under which the object is always the same)
    calls = {}

    def add(text, f, want, key=None):
        calls[text] = (f, want, key)
    add("categories()", lambda: ui.categories(), tuple(core("N\t-").split()), latest)
    add("categories(None)", lambda: ui.categories(None), tuple(core("N\t-").split()), latest)
    for v in bundled:
        add("categories(%s)" % v, lambda v=v: ui.categories(ui.UnicodeVersion(v)), tuple(core("N\t" + v).split()), v)
        add("as_general_categories(L, N, %s)" % v, lambda v=v: ui.as_general_categories(["L", "N"], ui.UnicodeVersion(v)), tuple(core("G\t%s\tL\tN" % v).split()))
    add("as_general_categories(L, N)", lambda: ui.as_general_categories(["L", "N"]), tuple(core("G\t-\tL\tN").split()))
    add("latest()", lambda: str(ui.UnicodeVersion.latest()), latest)
    add("as_general_categories([Xx])", lambda: type(attempt(lambda: ui.as_general_categories(["Xx"]))), ValueError)
    add("query(Lu..0x17F)", lambda: ui.query(categories=["Lu"], max_codepoint=90), ((65, 90),))
    add("gc.collect()", lambda: (gc.collect(), None)[1], None)
    add("list(categories())", lambda: list(ui.categories()), core("N\t-").split())

    def in_child(f):
        """Run in a forked copy of this process, where nothing has been called yet."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            die_with_parent()
            os.close(r)
            try:
                f()
                text = b""
            except Mismatch as e:
                text = b"M" + str(e).encode("utf-8", "backslashreplace")
            except BaseException as e:
                text = b"M" + repr(e).encode("utf-8", "backslashreplace")
            os.write(w, text[:60000])
            os._exit(0)
        os.close(w)
        data = b""
        while True:
            chunk = os.read(r, 65536)
            if not chunk:
                break
            data += chunk
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if data:
            raise Mismatch(data[1:].decode("utf-8", "replace"))
        if st:
            raise Mismatch("the process dies with status %d" % st)

    texts = list(calls)

    def apply(seen, text, done):
        f, want, key = calls[text]
        got = attempt(f)
        if isinstance(want, type) or want is None:
            same(got, want, "after %s: %s" % (done, text))
            return
        same(got, want, "after %s: %s" % (done, text))
        if key is not None:
            if seen.setdefault(key, got) is not got:
                raise Mismatch("after %s: %s gives an equal tuple that is not the same object" % (done, text))

    def history(case):
        """All extensions of a prefix by each call, each in a process that has made no other calls."""
        count.step(len(case) + len(texts))
        count.state(case)

        def body():
            for t in texts:
                seen = {}
                in_child(lambda: [apply(seen, x, case[:k]) for k, x in enumerate(case + (t,))])
        in_child(body)

    def long_history(case):
        count.step(len(case) * 2)
        count.state(case)

        def body():
            seen = {}
            for k, x in enumerate(case):
                apply(seen, x, "%d calls" % k)
            for k, x in enumerate(case):
                apply(seen, x, "%d calls" % (k + len(case)))
        in_child(body)

    cats = [t for t in texts if t.startswith("categories(")]
    few = [t for t in texts if t in ("categories()", "categories(None)", "gc.collect()", "as_general_categories(L, N)", "query(Lu..0x17F)", "categories(9.0.0)", "categories(12.0.0)",
                                     "categories(12.1.0)", "categories(16.0.0)", "categories(17.0.0)", "as_general_categories(L, N, 12.1.0)", "as_general_categories([Xx])")]
    out = [
        Suite("versions", "complete: every version by three routes, each pair compared, str, repr, order; available_versions, latest, class attributes",
              lambda: iter([("list", None)] + [("version", v) for v in bundled]), version_case),
        Suite("categories", "complete: every version by three routes", lambda: iter(bundled), categories_case, lambda v: ["N\t" + v]),
        Suite("as_general_categories", "every list of length 0-2 over 37 names and one unknown, every version and None",
              lambda: ((v, "list", l) for v in versions for k in (0, 1, 2) for l in itertools.product(names + ["Xx"], repeat=k)), general, need_general),
        Suite("as_general_categories forms", "every form of iterable x lists x versions",
              lambda: ((v, f, l) for v in versions for f in FORMS for l in ((), ("Lu",), ("L", "Nd"), ("Nd", "N", "L", "Cc"), ("Xx",), tuple(CLASSES), tuple(CATS)) for _ in (0,)), general, need_general),
        Suite("histories of 2", "every ordered pair of %d calls, each pair in a process that has made no other call" % len(texts), lambda: ((a,) for a in texts), history),
        Suite("histories of 3", "every ordered triple: two of %d calls, then each of %d" % (len(texts if thorough else few), len(texts)),
              lambda: itertools.product(texts if thorough else few, repeat=2), history),
        Suite("rotations", "all rotations of the list of all calls, forwards and backwards, each twice in a row",
              lambda: iter([tuple(l[i:] + l[:i]) for l in (texts, texts[::-1]) for i in range(len(texts))]), long_history),
        Suite("first-use orders", "every order in which 4 of 6 versions' lists are first used",
              lambda: itertools.permutations(cats[:1] + cats[2:4] + cats[6:8] + cats[-1:], 6 if thorough else 4), long_history),
    ]
    if thorough:
        out.append(Suite("as_general_categories triples", "every list of length 3 over 37 names and one unknown, 3 versions",
                         lambda: ((v, "list", l) for v in (None, "9.0.0", "12.1.0") for l in itertools.product(names + ["Xx"], repeat=3)), general, need_general))
        out.append(Suite("histories of 4", "three of %d calls, then each of %d" % (len(few), len(texts)), lambda: itertools.product(few, repeat=3), history))
    return out
