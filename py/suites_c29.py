"""C29, Python part: the message of each exception names what was wrong."""
import itertools
import re

from common import CATS, FORMS, VERSIONS, SubStr, lexicon
from engine import Mismatch, Suite


def suites(ui, core, thorough, count, ext):
    ver = ui.UnicodeVersion

    def raised(f):
        count.step()
        try:
            got = f()
        except Exception as e:
            return e
        return got

    # ------------------------------------------------ names
    names = ["", " ", "Xx", "lu", "LU", "Lu ", "Lu\0", "\n", "'", '"', "{}", "{0}", "{name}", "%s", "\\", "\x7f", "\x80", "\xa0", "\xe9", "e\u0301", "\u200b", "\u202eabc", "\ufeffLu", "\ufffd", "\uffff", "\U0001F600", "\U0010FFFF", "17.0", "17.0.0 ", "v17.0.0",
             "17,0,0", "9", "99.99.99", "Letter", "Lu,Ll", "None"]
    names += ["x" * n for n in [*range(3, 40), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 4096, 65535, 65536]] + ["\u2603" * n + "z" for n in (3, 50, 100, 300, 1000)]
    names += [s for s in lexicon()[1] if len(s) < 300]
    names = [n for n in dict.fromkeys(names) if n not in CATS and n not in VERSIONS and not any(0xD800 <= ord(c) < 0xE000 for c in n)]
    classes = "LMNPSZC"
    calls = {
        "query(categories=X)": lambda x, v: ui.query(categories=x, version=v), "query(exclude_categories=X)": lambda x, v: ui.query(exclude_categories=x, version=v),
        "query(categories=X, max_codepoint=90)": lambda x, v: ui.query(categories=x, max_codepoint=90, version=v), "query(categories=['Lu'], exclude_categories=X)": lambda x, v: ui.query(categories=["Lu"], exclude_categories=x, version=v),
        "as_general_categories(X)": lambda x, v: ui.as_general_categories(x, v), "UnicodeVersion(x)": None,
    }
    versions = [None] + [ver(v) for v in VERSIONS]

    def name_cases():
        for n in names:
            for c in calls:
                if n in classes and c.startswith("as_general") and n:
                    continue
                yield n, c

    def by_name(case):
        n, c = case
        how = "%s with %.60r%s" % (c, n, "" if len(n) < 60 else " (%d characters)" % len(n))
        if c.startswith("UnicodeVersion"):
            tries = [("", lambda: ver(n)), (" by keyword", lambda: ver(value=n)), (" as a str subclass", lambda: ver(SubStr(n)))]
        else:
            tries = []
            for before, after in itertools.product(range(3), range(3)):
                l = ["Lu", "Nd"][:before] + [n] + ["Zs", "Cn"][:after]
                for v in versions if before == after else versions[:1]:
                    tries.append((" after %d and before %d valid names, version %s" % (before, after, v), lambda l=l, v=v: calls[c](l, v)))
            for f in FORMS:
                if f not in ("set", "frozenset"):
                    tries.append((" in a %s" % f, lambda f=f: calls[c](FORMS[f](["Lu", n, "Zs"]), None)))
        for text, f in tries:
            e = raised(f)
            if not isinstance(e, ValueError):
                raise Mismatch("%s%s: %.200r" % (how, text, e))
            if n not in str(e):
                raise Mismatch("%s%s raises %.300r, which does not name it" % (how, text, e))
            count.state(repr(e))

    def both_cases():
        some = [n for n in names if n and len(n) < 6]
        return itertools.product(some, some)

    def both(case):
        """Two wrong names: at least one of them is named, in the same list the first."""
        a, b = case
        for what, f, need in (("categories=[a, b]", lambda: ui.query(categories=[a, b]), [a]), ("exclude_categories=['Lu', a, b]", lambda: ui.query(exclude_categories=["Lu", a, b]), [a]),
                              ("categories=[a], exclude_categories=[b]", lambda: ui.query(categories=[a], exclude_categories=[b]), [a, b])):
            e = raised(f)
            if not isinstance(e, ValueError) or not any(x in str(e) for x in need):
                raise Mismatch("query(%s) for a = %r, b = %r: %.300r, which does not name %s" % (what, a, b, e, " or ".join(map(repr, need))))
        if a not in classes and b not in classes:
            e = raised(lambda: ui.as_general_categories(["N", a, b]))
            if not isinstance(e, ValueError) or a not in str(e):
                raise Mismatch("as_general_categories(['N', %r, %r]): %.300r, which does not name %r" % (a, b, e, a))
        count.state(case)

    # ------------------------------------------------ bounds
    limit = 0x10FFFF
    bounds = {0, 1, 2, 3, 5, 7, 97, limit, limit + 1, limit - 1, 1114200, 2 ** 32 - 2, 2 ** 32 - 1}
    for k in range(32):
        bounds |= {1 << k, (1 << k) - 1}
    for k in range(10):
        bounds |= {10 ** k, 10 ** k - 1}
    for n in lexicon()[0]:
        bounds |= {x for x in (n - 1, n, n + 1) if 0 <= x < 2 ** 32}
    if thorough:
        bounds |= set(range(500))
    bounds = sorted(bounds)

    def bound_cases():
        for lo in bounds:
            for hi in [None, *bounds]:
                if hi is None and lo > limit or hi is not None and (lo > hi or hi > limit):
                    yield lo, hi
        for hi in bounds:
            if hi > limit:
                yield None, hi

    def by_bounds(case):
        lo, hi = case
        kw = {k: v for k, v in (("min_codepoint", lo), ("max_codepoint", hi)) if v is not None}
        low, high = (0 if lo is None else lo), (limit if hi is None else hi)
        for more in ({}, {"categories": ["Lu"]}, {"version": ver("9.0.0"), "include_characters": "123"}):
            e = raised(lambda: ui.query(**kw, **more))
            how = "query(%s)" % ", ".join("%s=%r" % x for x in {**kw, **more}.items())
            if not isinstance(e, ValueError):
                raise Mismatch("%s: %.200r" % (how, e))
            n = [int(x) for x in re.findall("[0-9]+", str(e))]
            if low not in n or high not in n or n.index(low) >= len(n) - 1 - n[::-1].index(high) or not set(n) <= {low, high, 0, limit}:
                raise Mismatch("%s raises %r, which does not name %d and %d" % (how, e, low, high))
            count.state(repr(e))

    # ------------------------------------------------ types
    strays = [("5", 5), ("1.5", 1.5), ("object()", object()), ("b'Lu'", b"Lu"), ("'Lu'", "Lu"), ("None", None), ("['Lu']", ["Lu"]), ("[5]", [5]), ("('Lu', None)", ("Lu", None)), ("a version", ver("9.0.0")), ("len", len), ("a class", ver), ("{}", {}), ("1j", 1j)]
    wrong = {
        ("query", "categories"): "5 1.5 object() b'Lu' 'Lu' [5] ('Lu',None) a_version len a_class 1j", ("query", "exclude_categories"): "5 1.5 object() b'Lu' 'Lu' [5] ('Lu',None) a_version len a_class 1j",
        ("query", "min_codepoint"): "1.5 object() b'Lu' 'Lu' ['Lu'] [5] a_version len a_class {} 1j", ("query", "max_codepoint"): "1.5 object() b'Lu' 'Lu' ['Lu'] [5] a_version len a_class {} 1j",
        ("query", "include_characters"): "5 1.5 object() b'Lu' None ['Lu'] a_version len {} 1j", ("query", "exclude_characters"): "5 1.5 object() b'Lu' None ['Lu'] a_version len {} 1j",
        ("query", "version"): "5 1.5 object() b'Lu' 'Lu' ['Lu'] len a_class {} 1j", ("categories", "version"): "5 1.5 object() b'Lu' 'Lu' ['Lu'] len a_class {} 1j",
        ("as_general_categories", "categories"): "5 1.5 object() b'Lu' 'Lu' None [5] ('Lu',None) a_version len a_class 1j", ("as_general_categories", "version"): "5 1.5 object() b'Lu' 'Lu' ['Lu'] len a_class {} 1j",
        ("UnicodeVersion", "value"): "5 1.5 object() b'Lu' None ['Lu'] a_version len {} 1j",
    }
    valid = {"categories": ["Lu"], "exclude_categories": ["Ll"], "min_codepoint": 5, "max_codepoint": 90, "include_characters": "a", "exclude_characters": "b", "version": ver("9.0.0"), "value": "9.0.0"}
    params = {}
    for f, p in wrong:
        params.setdefault(f, []).append(p)

    def type_cases():
        for (f, p), texts in wrong.items():
            others = [x for x in params[f] if x != p]
            for text in (t.replace("a_", "a ").replace(",None", ", None") for t in texts.split()):
                for n in range(len(others) + 1):
                    for some in itertools.combinations(others, n):
                        if f == "as_general_categories" and p == "version" and "categories" not in some:
                            continue
                        yield f, p, text, some

    def by_type(case):
        f, p, text, some = case
        x = dict(strays)[text]
        kw = {k: valid[k] for k in some}
        kw[p] = x
        e = raised(lambda: getattr(ui, f)(**kw))
        how = "%s(%s)" % (f, ", ".join("%s=%s" % (k, text if k == p else repr(v)) for k, v in kw.items()))
        if not isinstance(e, TypeError):
            raise Mismatch("%s: %.200r" % (how, e))
        if p not in str(e):
            raise Mismatch("%s raises %r, which does not name %s" % (how, e, p))
        count.state(repr(e)[:200])

    return [
        Suite("names", "%d names x %d calls x places, versions and kinds of iterable" % (len(names), len(calls)), name_cases, by_name),
        Suite("two names", "all pairs of short names in one list and in two", both_cases, both),
        Suite("bounds", "all rejected pairs of %d bounds" % len(bounds), bound_cases, by_bounds),
        Suite("types", "every parameter x values of wrong types x every subset of the other parameters", type_cases, by_type),
    ]
