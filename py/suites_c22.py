"""C22: invalid arguments raise the right kind of exception and change nothing."""
import itertools

from common import CATS, Iterable, SubStr, VERSIONS, lexicon, parse, request
from engine import Mismatch, Suite


class Boom(Exception):
    pass


def boom_after(l, n):
    for x in l[:n]:
        yield x
    raise Boom("from the iterable")


class BadIter:
    def __iter__(self):
        raise Boom("from __iter__")


class NotIter:
    def __iter__(self):
        return 5


class BadIndex:
    def __index__(self):
        raise Boom("from __index__")


class FloatLike:
    def __float__(self):
        return 1.0


BOOM = "Boom"
T, V, O = "TypeError", "ValueError", "OverflowError"


def suites(ui, core, thorough, count, ext):
    ver = ui.UnicodeVersion
    # (text, thunk, allowed exception kinds); thunk builds the argument anew
    bad_cats = [
        ("['Xx']", lambda: ["Xx"], V), ("['lu']", lambda: ["lu"], V), ("['LU']", lambda: ["LU"], V), ("['L']", lambda: ["L"], V), ("['']", lambda: [""], V),
        ("['Lu ']", lambda: ["Lu "], V), ("['Lu', 'Xx']", lambda: ["Lu", "Xx"], V), ("('Xx', 'Lu')", lambda: ("Xx", "Lu"), V), ("{'Lu', 'Q'}", lambda: {"Lu", "Q"}, V),
        ("['Lu\\0']", lambda: ["Lu\0"], V), ("['\\udc80']", lambda: ["\udc80"], V), ("['Lu', '\\ud800']", lambda: ["Lu", "\ud800"], V), ("['Lu,Ll']", lambda: ["Lu,Ll"], V),
        ("['\u00fcu']", lambda: ["\u00fcu"], V), ("['\U0001F600']", lambda: ["\U0001F600"], V), ("['Letter']", lambda: ["Letter"], V), ("['All']", lambda: ["All"], V),
        ("generator with Xx", lambda: (x for x in ["Lu", "Xx"]), V), ("map of lower", lambda: map(str.lower, ["Lu"]), V),
        ("'Lu'", lambda: "Lu", T), ("''", lambda: "", T), ("'L'", lambda: "L", T), ("'LuLl'", lambda: "LuLl", T), ("SubStr('Lu')", lambda: SubStr("Lu"), T),
        ("5", lambda: 5, T), ("0", lambda: 0, T), ("1.5", lambda: 1.5, T), ("True", lambda: True, T), ("object()", object, T), ("[1]", lambda: [1], T), ("[None]", lambda: [None], T),
        ("['Lu', None]", lambda: ["Lu", None], T), ("[b'Lu']", lambda: [b"Lu"], T), ("b'Lu'", lambda: b"Lu", T), ("bytearray", lambda: bytearray(b"Lu"), T), ("[['Lu']]", lambda: [["Lu"]], T),
        ("[('Lu',)]", lambda: [("Lu",)], T), ("range(3)", lambda: range(3), T), ("{1: 2}", lambda: {1: 2}, T), ("a version", lambda: ver("9.0.0"), T), ("type", lambda: list, T),
        ("lambda", lambda: len, T), ("NotIter()", NotIter, T), ("BadIter()", BadIter, BOOM), ("generator raising at once", lambda: boom_after(["Lu"], 0), BOOM),
        ("generator raising late", lambda: boom_after(["Lu", "Ll"], 2), BOOM), ("generator of int late", lambda: (x for x in ["Lu", 3]), T),
    ]
    bad_num = [(repr(n), (lambda n=n: n), O) for n in (-1, -2, -65, -(1 << 31), -(1 << 32), -(1 << 32) + 65, -(1 << 63), -(1 << 64), 1 << 32, (1 << 32) + 1, (1 << 32) + 65, (1 << 33), (1 << 33) + 90,
                                                                  (1 << 40) + 66, 1 << 63, (1 << 63) - 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 65, 1 << 100, -(1 << 100))]
    bad_num += [(repr(n), (lambda n=n: n), V) for n in (0x110000, 0x110001, 0x11FFFF, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0x80000041, 0xFFFF0041, 0xFFFFFFFE, 0xFFFFFFFF)]
    known = {t for t, _, _ in bad_num}
    for n in lexicon()[0]:
        for x, k in [(n + (1 << 32), O), (n - (1 << 32), O), (n + (1 << 64), O), (-n, O), (n + 1, V), (n, V)]:
            if repr(x) not in known and (k == O or x > 0x10FFFF) and x != 0 and n > 32:
                known.add(repr(x))
                bad_num.append((repr(x), lambda x=x: x, O if x >= 1 << 32 else k))
    bad_num += [("1.0", lambda: 1.0, T), ("65.5", lambda: 65.5, T), ("nan", lambda: float("nan"), T), ("'65'", lambda: "65", T), ("'A'", lambda: "A", T), ("b'A'", lambda: b"A", T), ("[65]", lambda: [65], T),
                ("(65,)", lambda: (65,), T), ("object()", object, T), ("1j", lambda: 1j, T), ("a version", lambda: ver("9.0.0"), T), ("FloatLike()", FloatLike, T), ("BadIndex()", BadIndex, (BOOM, T))]
    bad_chars = [("None", lambda: None, T), ("5", lambda: 5, T), ("65.0", lambda: 65.0, T), ("b'ab'", lambda: b"ab", T), ("['a']", lambda: ["a"], T), ("('a', 'b')", lambda: ("a", "b"), T), ("{'a'}", lambda: {"a"}, T),
                 ("object()", object, T), ("False", lambda: False, T), ("generator", lambda: (c for c in "ab"), T), ("a version", lambda: ver("9.0.0"), T)]
    bad_chars += [(ascii(s), (lambda s=s: s), V) for s in ("\ud800", "\udfff", "a\udc80", "\ud83d", "\ud83d\ude00", "ab\udbffcd", "\U0001F600\ud800")]
    bad_ver = [("'16.0.0'", lambda: "16.0.0", T), ("16", lambda: 16, T), ("0", lambda: 0, T), ("16.0", lambda: 16.0, T), ("(16, 0, 0)", lambda: (16, 0, 0), T), ("True", lambda: True, T), ("the class", lambda: ver, T),
               ("['16.0.0']", lambda: ["16.0.0"], T), ("object()", object, T), ("b''", lambda: b"", T), ("''", lambda: "", T), ("all versions", lambda: ui.available_versions, T)]
    reversed_bounds = [(0x42, 0x41), (1, 0), (256, 255), (0x10FFFF, 0), (0x10FFFF, 0x10FFFE), (0x100, 0xFF), (65, 64), (2, 1), (0x3000, 0x2FFF), (255, 254)]
    texts_bad = ["", " ", "9", "9.0", "9.0.0.0", "09.0.0", "9.0.00", " 9.0.0", "9.0.0 ", "9.0.0\n", "9.0.0\0", "v9.0.0", "9,0,0", "9_0_0", "V9_0_0", "12.0", "12.1", "12.1.1", "12.2.0", "12", "15.1", "15.1.1", "15.2.0",
                 "8.0.0", "18.0.0", "0.0.0", "170.0.0", "17.0.0.", ".17.0.0", "17..0", "17.0.1", "1.7.0.0", "latest", "16.0.0-beta", "+9.0.0", "-9.0.0", "9.-0.0", "\u0669.0.0", "9\u00b70.0", "\uff19.0.0", "None", "99.0.0", "x" * 5000,
                 "9.0.0\udc80", "\ud800"]
    texts_bad += [v[:i] + v[i + 1:] for v in VERSIONS for i in range(len(v))] + [v[:i] + c + v[i:] for v in VERSIONS for i in range(len(v) + 1) for c in "0195. v"]
    texts_bad += [x for t in lexicon()[1] for v in VERSIONS + [""] for x in (t + v, v + t, t.upper() + v, v + t.lower())]
    texts_bad += [v + t for v in VERSIONS for t in ("-Update", "-Update1", "-beta", "b1", "rc1", "-dev", "+1", " (final)", ".1", "a")] + ["v" + v for v in VERSIONS] + ["Unicode " + v for v in VERSIONS]
    texts_bad += [".".join(v.split(".")[:2]) for v in VERSIONS] + [v.split(".")[0] for v in VERSIONS] + [v.replace(".", "_") for v in VERSIONS] + ["V" + v.replace(".", "_") for v in VERSIONS]
    texts_bad = [t for t in dict.fromkeys(texts_bad) if t not in VERSIONS]

    kinds = {T: (TypeError,), V: (ValueError,), O: (OverflowError,), BOOM: (Boom,)}

    # Probes: after an invalid call these must still answer as before it.
    probes = [
        (lambda: ui.query(), parse(core(request()))),
        (lambda: ui.query(categories=["Lu"], max_codepoint=128), parse(core(request(cats=["Lu"], hi=128)))),
        (lambda: ui.query(categories=["Nd"], min_codepoint=40, max_codepoint=700, include_characters="xy", exclude_characters="1", version=ver("9.0.0")),
         parse(core(request("9.0.0", ["Nd"], None, 40, 700, "xy", "1")))),
        (lambda: ui.as_general_categories(["N", "Lu"]), tuple(core("G\t-\tN\tLu").split())),
        (lambda: ui.categories(), tuple(core("N\t-").split())),
        (lambda: ui.categories(ver("12.1.0")), tuple(core("N\t12.1.0").split())),
        (lambda: str(ver("12.1.0")), "12.1.0"),
    ]
    kept = {}

    def probe(how):
        for i, (f, want) in enumerate(probes):
            count.step()
            try:
                got = f()
            except BaseException as e:
                got = e
            if got != want:
                raise Mismatch("%s\n  and then a valid call gives %.300r instead of %.300r" % (how, got, want))
            if i in (4, 5) and kept.setdefault(i, got) is not got:
                raise Mismatch("%s\n  and then categories() gives another object" % how)

    def expect(how, f, allowed):
        count.step()
        allowed = tuple(e for k in allowed for e in kinds[k])
        try:
            got = f()
        except allowed as e:
            count.state((how, type(e).__name__))
            if type(e).__name__ == "PanicException" or not isinstance(e, Exception):
                raise Mismatch("%s panics: %r" % (how, e))
            return
        except BaseException as e:
            raise Mismatch("%s raises %r (%s), not one of %s" % (how, e, type(e).__mro__[:3], [a.__name__ for a in allowed]))
        raise Mismatch("%s gives %.300r instead of one of %s" % (how, got, [a.__name__ for a in allowed]))

    flat = lambda a: a if isinstance(a, tuple) else (a,)
    bads = {"categories": bad_cats, "exclude_categories": bad_cats, "min_codepoint": bad_num, "max_codepoint": bad_num,
            "include_characters": bad_chars, "exclude_characters": bad_chars, "version": bad_ver}
    goods = {"categories": [("['Lu']", lambda: ["Lu"]), ("[]", list), ("generator", lambda: (c for c in CATS))], "exclude_categories": [("['Ll']", lambda: ["Ll"]), ("all", lambda: set(CATS))],
             "min_codepoint": [("0", lambda: 0), ("65", lambda: 65)], "max_codepoint": [("90", lambda: 90), ("0x10FFFF", lambda: 0x10FFFF)],
             "include_characters": [("''", str), ("'a\\u2603'", lambda: "a\u2603")], "exclude_characters": [("'b'", lambda: "b")], "version": [("9.0.0", lambda: ver("9.0.0")), ("None", lambda: None)]}

    def query_case(case):
        """case: tuple of (param, text, thunk, kinds or None)."""
        how = "query(%s)" % ", ".join("%s=%s" % (p, t) for p, t, _, _ in case)
        allowed = tuple(k for _, _, _, a in case if a for k in flat(a))
        expect(how, lambda: ui.query(**{p: f() for p, _, f, _ in case}), allowed)
        probe(how)

    def singles():
        for p, l in bads.items():
            for t, f, a in l:
                yield ((p, t, f, a),)

    def with_good(depth):
        params = list(bads)
        for p, l in bads.items():
            others = [q for q in params if q != p]
            for qs in itertools.combinations(others, depth):
                for gs in itertools.product(*(goods[q] for q in qs)):
                    for t, f, a in l:
                        yield ((p, t, f, a),) + tuple((q, gt, gf, None) for q, (gt, gf) in zip(qs, gs))

    def pairs(step):
        for p, q in itertools.combinations(bads, 2):
            for t, f, a in bads[p][::step]:
                for u, g, b in bads[q][::step]:
                    yield ((p, t, f, a), (q, u, g, b))

    def order_cases():
        for lo, hi in reversed_bounds:
            yield (("min_codepoint", str(lo), lambda lo=lo: lo, V), ("max_codepoint", str(hi), lambda hi=hi: hi, V))
            for q in ("categories", "exclude_categories", "include_characters", "exclude_characters", "version"):
                for gt, gf in goods[q]:
                    yield (("min_codepoint", str(lo), lambda lo=lo: lo, V), ("max_codepoint", str(hi), lambda hi=hi: hi, V), (q, gt, gf, None))
        grid = sorted({0, 1, 2, 9, 64, 65, 66, 90, 127, 128, 254, 255, 256, 257, 0x17F, 0x3000, 0xD800, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF})
        for lo in grid:
            for hi in grid:
                if lo > hi:
                    yield (("min_codepoint", str(lo), lambda lo=lo: lo, V), ("max_codepoint", str(hi), lambda hi=hi: hi, V))

    def general_case(case):
        t, f, a, v = case
        how = "as_general_categories(%s, %s)" % (t, v)
        expect(how, lambda: ui.as_general_categories(f()) if v is None else ui.as_general_categories(f(), version=ver(v)), flat(a))
        probe(how)

    def generals():
        for t, f, a in bad_cats + [("None", lambda: None, T)]:
            if t in ("['L']",):
                continue
            for v in [None, "9.0.0", "12.1.0"]:
                yield (t, f, a, v)

    def other_case(case):
        how, f, a = case
        expect(how, f, flat(a))
        probe(how)

    def others():
        for t in texts_bad:
            yield ("UnicodeVersion(%s)" % ascii(t)[:60], lambda t=t: ver(t), V)
        for t, f, a in [("None", lambda: ver(None), T), ("9", lambda: ver(9), T), ("9.0", lambda: ver(9.0), T), ("b'9.0.0'", lambda: ver(b"9.0.0"), T), ("a version", lambda: ver(ver("9.0.0")), T), ("nothing", lambda: ver(), T),
                        ("two", lambda: ver("9.0.0", "9.0.0"), T), ("['9.0.0']", lambda: ver(["9.0.0"]), T), ("keyword x", lambda: ver(x="9.0.0"), T)]:
            yield ("UnicodeVersion of " + t, f, a)
        for t, f, a in bad_ver:
            yield ("categories(%s)" % t, lambda f=f: ui.categories(f()), a)
            yield ("categories(version=%s)" % t, lambda f=f: ui.categories(version=f()), a)
            yield ("as_general_categories(['L'], %s)" % t, lambda f=f: ui.as_general_categories(["L"], f()), a)
            yield ("as_general_categories(['Xx'], %s)" % t, lambda f=f: ui.as_general_categories(["Xx"], f()), (a, V))
        yield ("query('Lu')", lambda: ui.query("Lu"), T)
        yield ("query(['Lu'])", lambda: ui.query(["Lu"]), T)
        yield ("query(None)", lambda: ui.query(None), T)
        yield ("query(nope=1)", lambda: ui.query(nope=1), T)
        yield ("query(category=['Lu'])", lambda: ui.query(category=["Lu"]), T)
        yield ("query(Categories=['Lu'])", lambda: ui.query(Categories=["Lu"]), T)
        yield ("categories(1, 2)", lambda: ui.categories(1, 2), T)
        yield ("categories(nope=1)", lambda: ui.categories(nope=1), T)
        yield ("as_general_categories()", lambda: ui.as_general_categories(), T)
        yield ("as_general_categories('L', 'N')", lambda: ui.as_general_categories("L", "N"), T)
        yield ("as_general_categories(*[['L']] * 3)", lambda: ui.as_general_categories(["L"], None, None), T)
        yield ("latest(1)", lambda: ver.latest(1), T)

    def name_strings():
        """All strings of up to two letters (and some three) over a small alphabet that are no category."""
        letters = "LMNPSZCuldtmonceksipfrx uL1"
        letters = "".join(dict.fromkeys(letters))
        for k in (0, 1, 2):
            for s in itertools.product(letters, repeat=k):
                yield "".join(s)
        for c in CATS:
            for x in letters + "\0\n\u0130\u017f\u212a":
                for i in range(3):
                    yield c[:i] + x + c[i:]
            yield c.lower()
            yield c.upper()
            yield c[::-1]
            yield c.swapcase()
        for t in lexicon()[1]:
            yield t
            for c in CATS:
                yield t + c
                yield c + t
        for c in CATS:
            for d in CATS:
                yield c + d

    def name_case(s):
        if s in CATS:
            return
        for p in ("categories", "exclude_categories"):
            for l in ([s], ["Lu", s], [s, "Lu"]):
                expect("query(%s=%r)" % (p, l), lambda: ui.query(**{p: l, "max_codepoint": 300}), (V,))
        if s not in "L M N P S Z C".split():
            for l in ([s], ["L", s], [s, "L"]):
                expect("as_general_categories(%r)" % (l,), lambda: ui.as_general_categories(l), (V,))
        probe("rejecting %r" % s)

    # Long arguments: the fault comes after much that was right.
    lengths = sorted({1, 2, 3, 7, 8, 9, 15, 16, 17, 29, 30, 31, 32, 33, 40, 41, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 513, 1000, 1025, 4097}
                     | {x for n in lexicon()[0] if n <= 5000 for x in (n - 1, n, n + 1) if x > 0})
    long_forms = [("list", list), ("tuple", tuple), ("generator", lambda l: (x for x in l)), ("iterator", Iterable)]

    def longs():
        for n in lengths:
            for what, one in (("all names in turn", lambda i: CATS[i % 30]), ("one name", lambda i: "Lu"), ("two names", lambda i: ("Nd", "Lo")[i % 2]), ("new strings", lambda i: "".join(list(CATS[i * 7 % 30])))):
                for bad, kind in (("Xx", V), (5, T), ("\ud800", V)):
                    for at in sorted({0, n // 2, n}):
                        for form, mk in long_forms:
                            yield n, what, one, bad, kind, at, form, mk
            for p in ("include_characters", "exclude_characters"):
                for q, w, kind in (("min_codepoint", 0x110000, V), ("max_codepoint", -1, O), ("version", "9.0.0", T), ("categories", ["Xx"], V)):
                    yield n, p, q, w, kind

    def long_case(case):
        if len(case) == 5:
            n, p, q, w, kind = case
            expect("query(%s=%d characters, %s=%r)" % (p, n, q, w), lambda: ui.query(**{p: "".join(chr(0x30 + 3 * i) for i in range(n)), q: w}), (kind,))
            expect("query(%s=%d ASCII characters, %s=%r)" % (p, n, q, w), lambda: ui.query(**{p: "".join(chr(0x20 + i % 95) for i in range(n)), q: w}), (kind,))
            return probe("a failing call with %d characters" % n)
        n, what, one, bad, kind, at, form, mk = case
        l = [one(i) for i in range(n)]
        l.insert(at, bad)
        how = "%s of %d names (%s) with %r at %d" % (form, n, what, bad, at)
        for text, f in (("query(categories=%s)", lambda x: ui.query(categories=x)), ("query(exclude_categories=%s)", lambda x: ui.query(exclude_categories=x)), ("as_general_categories(%s)", ui.as_general_categories)):
            expect(text % how, lambda: f(mk(l)), (kind,))
        probe(how)

    show = lambda case: ", ".join("%s=%s" % (c[0], c[1]) for c in case) if isinstance(case, tuple) and isinstance(case[0], tuple) else str(case)
    out = [
        Suite("one invalid", "every invalid value of every query parameter", singles, query_case, text=show),
        Suite("invalid and one valid", "every invalid value x one other valid argument", lambda: with_good(1), query_case, text=show),
        Suite("two invalid", "pairs of invalid values of two parameters: any of their errors", lambda: pairs(1 if thorough else 3), query_case, text=show),
        Suite("reversed bounds", "reversed bounds over a boundary grid, with other arguments", order_cases, query_case, text=show),
        Suite("as_general_categories", "every invalid list, 3 versions", generals, general_case, text=lambda c: "%s, %s" % (c[0], c[3])),
        Suite("other functions", "UnicodeVersion texts (all single edits of the 11 names and more), wrong types, wrong arity, unknown keywords", others, other_case, text=lambda c: c[0]),
        Suite("names", "all strings of at most 2 letters over a 20-letter alphabet, all insertions into names and case variants, that are no category", lambda: iter(dict.fromkeys(name_strings())), name_case),
    ]
    out.append(Suite("long arguments", "lists of %d lengths up to 4097 with one wrong member first, in the middle or last, strings of those lengths with another wrong argument; then valid calls" % len(lengths), longs, long_case,
                     text=lambda c: "%s: %d" % (c[1], c[0])))
    if thorough:
        out.append(Suite("invalid and two valid", "every invalid value x two other valid arguments", lambda: with_good(2), query_case, text=show))
        out.append(Suite("invalid and three valid", "every invalid value x three other valid arguments", lambda: with_good(3), query_case, text=show))
    return out
