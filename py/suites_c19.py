"""C19: query() in Python equals the core's query for every way to write the arguments."""
import itertools

from common import CATS, FORMS, SubInt, SubStr, VERSIONS, lexicon, lexicon_codepoints, parse, request
from engine import Mismatch, Suite

OMIT = "omitted"


def suites(ui, core, thorough, count, ext):
    by_text = dict(zip(VERSIONS, ui.available_versions))

    def call(kwargs, want, how):
        count.step()
        try:
            got = ui.query(**kwargs)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            got = e
        expected = parse(want)
        if expected is None:
            if want.startswith("P"):
                return
            if not isinstance(got, ValueError):
                raise Mismatch("query(%s) gives %.300r, and the core rejects it: %s" % (how, got, want))
            return
        count.state(len(want) < 400 and want or hash(want))
        ok = type(got) is tuple and got == expected and all(type(x) is tuple and len(x) == 2 and type(x[0]) is int and type(x[1]) is int for x in got)
        if not ok:
            raise Mismatch("query(%s)\n  gives    %.400r\n  the core %.400r" % (how, got, expected))

    def kw(case):
        """case: dict of parameter -> (builder text, value thunk, meaning)."""
        out = {}
        for k, (form, v) in case.items():
            if form == OMIT:
                continue
            if k in ("categories", "exclude_categories"):
                out[k] = None if v is None else FORMS[form](v)
            elif k == "version":
                out[k] = None if v is None else {"available": lambda: by_text[v], "parsed": lambda: ui.UnicodeVersion(v),
                                                 "attribute": lambda: getattr(ui.UnicodeVersion, "V" + v.replace(".", "_"))}[form]()
            elif form == "int subclass":
                out[k] = SubInt(v)
            elif form == "str subclass":
                out[k] = SubStr(v)
            else:
                out[k] = v
        return out

    def need(case):
        g = lambda k, d=None: d if k not in case or case[k][0] == OMIT else case[k][1]
        return request(g("version"), g("categories"), g("exclude_categories"), g("min_codepoint"), g("max_codepoint"),
                       g("include_characters", ""), g("exclude_characters", ""))

    def text(case):
        return ", ".join("%s=%r as %s" % (k, v, f) for k, (f, v) in case.items() if f != OMIT) or "no arguments"

    def product(**alphabets):
        keys = list(alphabets)
        return lambda: (dict(zip(keys, c)) for c in itertools.product(*alphabets.values()))

    def suite(name, bound, cases):
        return Suite(name, bound, cases, lambda c: call(kw(c), core(need(c)), text(c)), lambda c: [need(c)], text)

    L = lambda *ls: [("list", list(l)) for l in ls]
    V = lambda *vs: [("available", v) for v in vs]
    none = [(OMIT, None), ("None", None)]
    I = lambda *ns: [("int", n) for n in ns]
    S = lambda *ss: [("str", s) for s in ss]
    names = [[], ["Lu"], ["Lu", "Nd"], ["Nd", "Lu"], ["Cc", "Cs", "Zs"], ["So", "Lu", "Cn", "Ll"], CATS]
    forms = [(f, l) for f in FORMS for l in names]
    window = I(0, 65, 128, 255, 256, 0x3000)
    tops = I(64, 90, 255, 256, 0x2FFF, 0xFFFF, 0x10FFFF)
    omit = [(OMIT, None)]
    inc = [(OMIT, "")] + S("", "a", "Za", "\u00e9", "\u2603", "\U0001F600", "\0", "aaA", "\U0010FFFF\u0100")

    out = [
        suite("defaults", "every subset of the seven parameters omitted, None (where allowed), or its default written out; with and without one other value",
              product(categories=none + L(CATS, ["Lu"]), exclude_categories=none + L([], ["Ll"]), min_codepoint=none + I(0, 66), max_codepoint=none + I(0x10FFFF, 0x17F),
                      include_characters=[(OMIT, "")] + S("", "\u2603"), exclude_characters=[(OMIT, "")] + S("", "B"), version=none + V("17.0.0", "9.0.0"))),
        suite("category forms", "%d forms x %d lists for categories, with exclude_categories omitted or a list, 4 versions" % (len(FORMS), len(names)),
              product(categories=forms, exclude_categories=omit + L(["Lu"]), max_codepoint=omit + I(0x17F), version=omit + V("9.0.0", "12.1.0", "17.0.0"))),
        suite("exclude forms", "the same for exclude_categories",
              product(exclude_categories=forms, categories=omit + none[1:] + L(["Lu", "Nd"], []), max_codepoint=omit + I(0x17F), version=omit + V("9.0.0"))),
        suite("both forms", "every form of categories x every form of exclude_categories, 3 x 3 lists",
              product(categories=[(f, l) for f in FORMS for l in names[1:4]], exclude_categories=[(f, l) for f in FORMS for l in (names[0], names[1], names[4])], max_codepoint=I(300))),
        suite("orders", "all permutations of all 1-3 element sets of 8 abbreviations, and all pairs with repetition",
              product(categories=[("list", list(p)) for k in (1, 2, 3) for p in itertools.permutations(["Lu", "Ll", "Nd", "Cc", "Cn", "Zs", "So", "Cs"], k)]
                      + [("generator", [a, b, a]) for a in CATS for b in CATS], max_codepoint=I(0x250), version=omit + V("10.0.0"))),
        suite("filters x versions", "every single category and every pair, included and excluded, full range, in every version",
              product(categories=omit + L(*([c] for c in CATS)), exclude_categories=omit + L(*([c] for c in CATS)),
                      version=omit + V(*VERSIONS), max_codepoint=omit + I(0xFF, 0x4FF))),
        suite("windows", "all pairs of bounds over a boundary alphabet (also reversed and out of range), plain int and int subclass",
              product(min_codepoint=none + I(0, 1, 64, 65, 127, 128, 254, 255, 256, 257, 0xD7FF, 0xD800, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF) + [("int subclass", 70)],
                      max_codepoint=none + I(0, 1, 64, 65, 90, 127, 128, 254, 255, 256, 257, 0xD800, 0xDFFF, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF, 0x110000, 0xFFFFFFFF) + [("int subclass", 200)],
                      categories=omit + L(["Lu"], ["Cs", "Cn"], []), include_characters=omit_str() + S("\u2603"), version=omit + V("9.0.0"))),
        suite("characters", "all pairs of strings over an alphabet, with filters and windows",
              product(include_characters=inc + [("str subclass", "xy")], exclude_characters=inc + [("str subclass", "yz")], categories=omit + L(["Lu"], ["Ll", "So"], []),
                      min_codepoint=omit + I(0x41, 0x100), max_codepoint=omit + I(0xFF, 0x3000), version=omit + V("9.0.0"))),
        suite("version forms", "each version as an attribute, parsed, and from available_versions",
              product(version=[(f, v) for f in ("available", "parsed", "attribute") for v in VERSIONS], categories=omit + L(["Lu"], ["Cn"], ["So", "Lo"]), max_codepoint=omit + I(0xFFF))),
    ]
    points = lexicon_codepoints((0xFF, 0x2FFF, 0xD800, 0xFFFF, 0x10FFFF))
    chars = [chr(p) for p in points if not 0xD800 <= p <= 0xDFFF]
    edges = sorted({x for k in range(6, 21) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1, 3 << k, (3 << k) - 1) if x <= 0x10FFFF} | {0x10FFFF})
    some = omit + L(["Lu"], ["Cn"], ["So", "Lo"])
    sizes = sorted({*range(131), *(x for k in range(7, 17) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1)), *(x + d for x in lexicon()[0] + [500, 1000, 2000, 5000, 10000, 20000, 50000, 100000] for d in (-1, 0, 1) if 0 <= x + d <= 120000)})
    out += [
        suite("one bound x versions", "one bound at %d values (constants of the sources, powers of two, +-1), every version, 4 filters" % len(set(points + edges)),
              lambda: itertools.chain(product(min_codepoint=I(*sorted(set(points + edges))), categories=some, version=V(*VERSIONS))(),
                                      product(max_codepoint=I(*sorted(set(points + edges))), categories=some, version=V(*VERSIONS))(),
                                      product(max_codepoint=I(*sorted(set(points + edges))), exclude_categories=L(["Lu"], ["Cn"]), version=V(*VERSIONS))())),
        suite("two bounds", "all pairs of bounds over %d values: constants of the sources and their neighbours" % len(points),
              product(min_codepoint=I(*points), max_codepoint=I(*points), categories=L(["Lu"], ["So", "Cn"]), version=omit)),
        suite("constant characters", "all pairs of %d characters: constants of the sources and their neighbours" % len(chars),
              product(include_characters=S(*chars), exclude_characters=omit_str() + S(*chars), categories=L([]), version=omit)),
        suite("constant characters x versions", "one such character, included or excluded, every version, 2 filters",
              lambda: itertools.chain(product(include_characters=S(*chars), categories=L([], ["Lu"]), max_codepoint=omit + I(0x24F), version=V(*VERSIONS))(),
                                      product(exclude_characters=S(*chars), categories=omit + L(["Lu"]), max_codepoint=omit + I(0x24F), version=V(*VERSIONS))())),
        suite("string lengths", "strings of every length to 80 and some to 5000, ascii, two-byte, BMP and astral, included and excluded",
              lambda: itertools.chain.from_iterable(
                  product(include_characters=omit_str() + S(s), exclude_characters=omit_str() + S(s, s[:len(s) // 2]), categories=L([], ["Lu"]), max_codepoint=omit)()
                  for n in [*range(81), 127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 5000]
                  for s in ("".join(chr(b + i * 3 % 0x700) for i in range(n)) for b in (0x20, 0x80, 0x4E00, 0x1F000)))),
        suite("result lengths", "results of %d lengths (to 130, powers of two, constants of the sources, +-1), as every other character included or excluded, BMP and astral" % len(sizes),
              lambda: itertools.chain.from_iterable(
                  itertools.chain(product(categories=L([]), include_characters=S(s), version=omit)(), product(exclude_characters=S(s), categories=omit, version=omit + V("9.0.0"))())
                  for n in sizes for s in ("".join(chr(b + 2 * i) for i in range(n)) for b in ((0x3000, 0x10000) if n < 20000 else (0x10000,))))),
        suite("list sizes", "categories and exclude_categories of every size (ranges of the 30 in two orders) as list, tuple, set, generator; every version for some",
              lambda: itertools.chain(
                  product(categories=[(f, (CATS * 2)[s:s + n]) for f in ("list", "set", "generator") for s in range(0, 30, 4) for n in range(31)], exclude_categories=omit + L(["Lu", "Cn"]), max_codepoint=I(0x24F))(),
                  product(exclude_categories=[(f, (CATS * 2)[s:s + n]) for f in ("tuple", "frozenset", "iter") for s in range(0, 30, 4) for n in range(31)], categories=omit + L(["Lu", "Cn"]), max_codepoint=I(0x24F))(),
                  product(categories=[("list", CATS[:n]) for n in range(31)], exclude_categories=omit + [("list", CATS[n:]) for n in range(0, 30, 3)], version=V(*VERSIONS), max_codepoint=I(0x3FF))())),
    ]
    # Calls in a row: what came before (also rejected calls, and calls of the other functions) changes nothing.
    one = lambda k: lambda v: {k: v}
    centres = [{}, {"categories": ("list", ["Lu"])}, {"categories": ("tuple", ["Lu", "Ll"]), "max_codepoint": ("int", 0x17F), "include_characters": ("str", "\u2603")},
               {"exclude_categories": ("list", ["Cn", "Lu"]), "min_codepoint": ("int", 0x41), "max_codepoint": ("int", 0x3FF), "version": ("available", "12.1.0")}]
    lists = L([], ["Lu"], ["Ll"], ["Lu", "Ll"], ["Ll", "Lu"], ["Nd"]) + [("None", None), ("generator", ["Lu"]), ("set", ["Lu", "Nd"])]
    changes = [one(k)(v) for k, vs in dict(
        categories=lists, exclude_categories=lists, min_codepoint=none + I(0, 1, 0x41, 0x42, 256), max_codepoint=none + I(0x42, 0xFF, 0x100, 0x17F, 0x10FFFF, 0x110000),
        include_characters=omit_str() + S("a", "b", "ab", "ba", "\u2603", "\u0101"), exclude_characters=omit_str() + S("a", "A", "B", "\u0100"),
        version=none + V("9.0.0", "12.0.0", "12.1.0", "17.0.0")).items() for v in vs]
    table, seen = [], set()
    for c in centres:
        for d in [{}] + changes:
            case = {k: v for k, v in {**c, **d}.items() if v[0] != OMIT}
            if repr(sorted(case.items())) not in seen:
                seen.add(repr(sorted(case.items())))
                table.append(case)

    def fails(f):
        try:
            f()
        except Exception:
            return
        raise Mismatch("a wrong call is accepted")

    others = {
        "query(categories=['Xx'])": lambda: fails(lambda: ui.query(categories=["Xx"])),
        "query(categories=['Lu', 'Xx'], version=9.0.0)": lambda: fails(lambda: ui.query(categories=["Lu", "Xx"], version=by_text["9.0.0"])),
        "query(min_codepoint=5, max_codepoint=4)": lambda: fails(lambda: ui.query(min_codepoint=5, max_codepoint=4)),
        "query(max_codepoint=0x110000)": lambda: fails(lambda: ui.query(max_codepoint=0x110000)),
        "query(include_characters='\\ud800')": lambda: fails(lambda: ui.query(include_characters="\ud800")),
        "query(categories=7)": lambda: fails(lambda: ui.query(categories=7)),
        "query(1)": lambda: fails(lambda: ui.query(1)),
        "query(nothing=1)": lambda: fails(lambda: ui.query(nothing=1)),
        "UnicodeVersion('1')": lambda: fails(lambda: ui.UnicodeVersion("1")),
        "categories(9.0.0)": lambda: ui.categories(by_text["9.0.0"]),
        "categories()": ui.categories,
        "as_general_categories(['L'])": lambda: ui.as_general_categories(["L"]),
        "as_general_categories(['X'])": lambda: fails(lambda: ui.as_general_categories(["X"])),
        "UnicodeVersion.latest()": ui.UnicodeVersion.latest,
        "available_versions": lambda: list(ui.available_versions),
    }
    where = list(table) + list(others)

    def after(c):
        first, second = c
        names = []
        for x in (first, second, first):
            if isinstance(x, str):
                count.step()
                others[x]()
            else:
                call(kw(x), core(need(x)), "%s) after (%s" % (text(x), "; ".join(names)) if names else text(x))
            names.append(x if isinstance(x, str) else text(x))

    say = lambda c: "; ".join(x if isinstance(x, str) else "query(%s)" % text(x) for x in (*c, c[0]))
    out.append(Suite("histories", "every ordered pair (a, b) of %d calls (4 centres with one argument changed, rejected calls, other functions), made as a, b, a" % len(where),
                     lambda: itertools.product(where, repeat=2), after, lambda c: [need(x) for x in c if not isinstance(x, str)], say))
    if thorough:
        out.append(suite("product", "product of all parameters over their alphabets",
                         product(categories=omit + [(f, names[i % 4]) for i, f in enumerate(FORMS)], exclude_categories=omit + [(f, names[(i + 1) % 5]) for i, f in enumerate(FORMS)][:12],
                                 min_codepoint=omit + window[:4], max_codepoint=omit + tops, include_characters=inc[:6], exclude_characters=inc[:5],
                                 version=none + V("9.0.0", "12.0.0", "12.1.0", "17.0.0"))))
        out.append(suite("triples", "all sets of three categories, every version", product(
            categories=[("tuple", list(c)) for c in itertools.combinations(CATS, 3)], version=omit + V(*VERSIONS), max_codepoint=I(0x24F))))
    return out


def omit_str():
    return [(OMIT, "")]
