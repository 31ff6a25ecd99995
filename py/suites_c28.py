"""C28: the module takes exactly the calls that its type stub describes, and gives what the stub says."""
import ast
import functools
import inspect
import itertools
import operator
import os

from common import VERSIONS, SubStr, parse, request
from engine import Mismatch, Suite


class Shape:
    """One function of the stub: parameters in order as (name, kind, optional, None allowed)."""

    def __init__(self, node, method=False):
        a = node.args
        self.name = node.name
        self.params = []
        every = a.posonlyargs + a.args
        first = len(every) - len(a.defaults)
        for i, p in enumerate(every):
            if not (method and i == 0):
                self.params.append((p.arg, "positional only" if i < len(a.posonlyargs) else "either", i >= first, nullable(p.annotation)))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            self.params.append((p.arg, "keyword only", d is not None, nullable(p.annotation)))
        if a.vararg or a.kwarg:
            raise RuntimeError("the stub of %s takes any arguments" % node.name)
        self.returns = node.returns
        self.names = [p[0] for p in self.params]
        self.positional = [p[0] for p in self.params if p[1] != "keyword only"]

    def bind(self, args, kwargs):
        """Parameter -> value as the stub describes it, or None if the stub does not describe this call."""
        if len(args) > len(self.positional):
            return None
        out = dict(zip(self.positional, args))
        for k, v in kwargs:
            if k in out or k not in self.names or dict((p[0], p[1]) for p in self.params)[k] == "positional only":
                return None
            out[k] = v
        for name, _, optional, null in self.params:
            if name not in out and not optional or name in out and out[name] is None and not null:
                return None
        return out


def nullable(a):
    if a is None:
        return True
    if isinstance(a, ast.Constant):
        return a.value is None if not isinstance(a.value, str) else nullable(ast.parse(a.value, mode="eval").body)
    if isinstance(a, ast.BinOp):
        return nullable(a.left) or nullable(a.right)
    if isinstance(a, ast.Name):
        return a.id in ("Any", "object")
    if isinstance(a, ast.Attribute):
        return a.attr in ("Any",)
    if isinstance(a, ast.Subscript):
        head = a.value.id if isinstance(a.value, ast.Name) else a.value.attr
        parts = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        return head == "Optional" or head in ("Union", "ClassVar", "Final") and any(nullable(x) for x in parts)
    raise RuntimeError("annotation not understood: " + ast.dump(a))


def matches(x, a, ui):
    """Is x what the annotation says? Exactly: no subclasses."""
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return matches(x, ast.parse(a.value, mode="eval").body, ui)
    if isinstance(a, ast.Constant):
        return x is None
    if isinstance(a, ast.Name):
        return type(x) is (ui.UnicodeVersion if a.id == "UnicodeVersion" else {"str": str, "int": int, "bool": bool}[a.id])
    if isinstance(a, ast.Subscript):
        head = a.value.id if isinstance(a.value, ast.Name) else a.value.attr
        parts = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        if head in ("Final", "ClassVar"):
            return matches(x, parts[0], ui)
        if head.lower() != "tuple":
            raise RuntimeError("annotation not understood: " + ast.dump(a))
        if type(x) is not tuple:
            return False
        if len(parts) == 2 and isinstance(parts[1], ast.Constant) and parts[1].value is Ellipsis:
            return all(matches(y, parts[0], ui) for y in x)
        return len(x) == len(parts) and all(matches(y, p, ui) for y, p in zip(x, parts))
    raise RuntimeError("annotation not understood: " + ast.dump(a))


class Keys(dict):
    pass


class Mapping:
    """Not a dict, but ** takes it."""

    def __init__(self, pairs):
        self.pairs = pairs

    def keys(self):
        return [k for k, _ in self.pairs]

    def __getitem__(self, k):
        return dict(self.pairs)[k]


def fresh(s):
    """An equal string that is another object."""
    return "".join(list(s))


WAYS = {
    "direct": lambda f, a, k: f(*a, **dict(k)),
    "__call__": lambda f, a, k: f.__call__(*a, **dict(k)),
    "operator.call": lambda f, a, k: operator.call(f, *a, **dict(k)),
    "partial of all": lambda f, a, k: functools.partial(f, *a, **dict(k))(),
    "partial of keywords": lambda f, a, k: functools.partial(f, **dict(k))(*a),
    "keywords that are other objects": lambda f, a, k: f(*a, **{fresh(n): v for n, v in k}),
    "keywords of a str subclass": lambda f, a, k: f(*a, **{SubStr(n): v for n, v in k}),
    "a mapping": lambda f, a, k: f(*a, **Mapping(k)),
    "a dict subclass": lambda f, a, k: f(*a, **Keys(k)),
}


def suites(ui, core, thorough, count, ext):
    ver = ui.UnicodeVersion
    with open(os.path.join(ext, "unicode_intervals", "__init__.pyi")) as f:
        stub = ast.parse(f.read())
    functions, variables, classes = {}, {}, {}
    for node in stub.body:
        if isinstance(node, ast.FunctionDef):
            functions[node.name] = Shape(node)
        elif isinstance(node, ast.AnnAssign):
            variables[node.target.id] = node.annotation
        elif isinstance(node, ast.ClassDef):
            classes[node.name] = node
    public = {*functions, *variables, *classes}
    cls = classes["UnicodeVersion"]
    members = {n.target.id: n.annotation for n in cls.body if isinstance(n, ast.AnnAssign)}
    methods = {n.name: n for n in cls.body if isinstance(n, ast.FunctionDef)}
    static = {n for n, m in methods.items() if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m.decorator_list)}
    functions["UnicodeVersion"] = Shape(methods["__new__"], True)
    functions["UnicodeVersion"].name = "UnicodeVersion"
    for n in static:
        functions["UnicodeVersion." + n] = Shape(methods[n])
    target = {n: functools.reduce(getattr, n.split("."), ui) for n in functions}

    # Values of each parameter; the expected answer is the core's for the bound record.
    values = {
        "categories": [["Lu", "Nd"], ("Zs",), None], "exclude_categories": [["Lu"], [], None], "min_codepoint": [48, 0, None], "max_codepoint": [90, 300, None],
        "include_characters": ["\u2603a", "", None], "exclude_characters": ["5", "", None], "version": [ver("9.0.0"), ver("12.1.0"), None],
    }
    special = {("as_general_categories", "categories"): [["N", "Lu"], ("Zs",), None], ("UnicodeVersion", "value"): ["9.0.0", "17.0.0", None]}
    of = lambda f, p: special.get((f, p)) or values.get(p) or [None] * 3

    def name(v):
        return None if v is None else str(v)

    def expected(f, bound):
        b = lambda n: bound.get(n)
        if f == "query":
            r = request(name(b("version")), b("categories"), b("exclude_categories"), b("min_codepoint"), b("max_codepoint"), b("include_characters") or "", b("exclude_characters") or "")
            return parse(core(r))
        if f == "categories":
            return tuple(core("N\t" + (name(b("version")) or "-")).split())
        if f == "as_general_categories":
            return tuple(core("\t".join(["G", name(b("version")) or "-", *b("categories")])).split())
        return b("value") if f == "UnicodeVersion" else core("V").split()[-1]

    def show(f, args, kwargs):
        return "%s(%s)" % (f, ", ".join([repr(x) for x in args] + ["%s=%r" % (k, v) for k, v in kwargs]))

    def call(case):
        f, way, args, kwargs = case
        how = show(f, args, kwargs) + ("" if way == "direct" else "  by way of " + way)
        bound = functions[f].bind(args, kwargs)
        count.step()
        try:
            got = WAYS[way](target[f], args, kwargs)
        except TypeError as e:
            if bound is not None:
                raise Mismatch("%s raises %r; the stub describes this call" % (how, e))
            count.state((f, way, "TypeError"))
            return
        except BaseException as e:
            raise Mismatch("%s raises %r" % (how, e))
        if bound is None:
            raise Mismatch("%s gives %.200r; the stub does not describe this call" % (how, got))
        want = expected(f, bound)
        count.state((f, want))
        plain = str(got) if f.startswith("UnicodeVersion") else got
        if plain != want:
            raise Mismatch("%s\n  gives %.300r\n  core  %.300r" % (how, got, want))
        if not matches(got, functions[f].returns, ui):
            raise Mismatch("%s gives %.200r, which is not what the stub says: %s" % (how, got, ast.unparse(functions[f].returns)))

    def subsets(items):
        for n in range(len(items) + 1):
            yield from itertools.combinations(items, n)

    def subset_cases():
        """Every subset of the parameters by keyword x the values of each."""
        for f, s in functions.items():
            for some in subsets(s.names):
                for vs in itertools.product(*[of(f, p) for p in some]):
                    yield f, "direct", (), tuple(zip(some, vs))

    def order_cases():
        """Every order of every subset of the keywords."""
        for f, s in functions.items():
            for some in subsets(s.names):
                for order in itertools.permutations(some):
                    yield f, "direct", (), tuple((p, of(f, p)[0]) for p in order)

    def way_cases():
        for f, s in functions.items():
            for way in WAYS:
                for some in subsets(s.names):
                    for pick in (0, 1, 2):
                        kw = tuple((p, of(f, p)[pick]) for p in some)
                        yield f, way, (), kw
                        yield f, way, (), kw[::-1]
                    for n in range(1, len(s.positional) + 2):
                        for pick in (0, 1):
                            args = tuple(of(f, p)[pick] for p in s.positional[:n]) + (None,) * (n - len(s.positional))
                            yield f, way, args, tuple((p, of(f, p)[pick]) for p in some)

    stray = [ver("9.0.0"), None, ["Lu"], "9.0.0", 5, (), {}]

    def position_cases():
        """Every number of positional arguments x every subset of the keywords; positional values right and stray."""
        for f, s in functions.items():
            for n in range(len(s.params) + 3):
                good = [of(f, p)[0] for p in s.positional] + [None] * 9
                firsts = [tuple(good[:n])]
                # Stray values only where there are more arguments than the stub has places: a TypeError whatever the values.
                if n > len(s.positional):
                    firsts += [tuple(good[:len(s.positional)]) + (x,) * (n - len(s.positional)) for x in stray]
                for args in firsts:
                    for some in subsets(s.names):
                        for pick in (0, 1):
                            yield f, "direct", args, tuple((p, of(f, p)[pick]) for p in some)

    every = sorted({p for s in functions.values() for p in s.names})
    unknown = {""}
    for p in every + ["version"]:
        unknown |= {p.upper(), p.capitalize(), p + "s", p[:-1], p + " ", " " + p, p + "\0", p + "_", "_" + p, p.replace("_", "-"), p.replace("_", ""), p.replace("a", "\u0430"), p + "\ud800", p[0] + "\u0301" + p[1:], p.replace("i", "\uff49")}
        unknown |= {p[:i] + p[i + 1:] for i in range(len(p))} | {p[:i] + p[i + 1] + p[i] + p[i + 2:] for i in range(len(p) - 1)}
    unknown |= {"self", "cls", "args", "kwargs", "py", "\ud800", "min", "max", "include", "exclude", "include_categories", "names", "obj", "x" * 5000, "whitelist_categories", "unicode_version", "value", "text", "s"}

    def unknown_cases():
        """Names that are not parameters, alone and beside every single right one and beside all of them."""
        for f, s in functions.items():
            need = [p[0] for p in s.params if not p[2]]
            for u in sorted(unknown | set(every)):
                if u in s.names:
                    continue
                for beside in [(), tuple(need), tuple(s.names), *[(p,) for p in s.names], *[tuple(need + [p]) for p in s.names if p not in need]]:
                    kw = tuple((p, of(f, p)[0]) for p in beside)
                    for v in (None, "5", ver("9.0.0")):
                        yield f, "direct", (), kw + ((u, v),)
                        yield f, "direct", (), ((u, v),) + kw

    # ------------------------------------------------ names of the module and of the class
    def star():
        space = {}
        exec("from unicode_intervals import *", space)
        space.pop("__builtins__")
        return space

    def facts():
        import importlib
        import types
        yield "from unicode_intervals import *", lambda: set(star()), public
        yield "the objects of import *", lambda: {n: v is getattr(ui, n) for n, v in star().items()}, {n: True for n in public}
        yield "__all__ has each name once", lambda: sorted(ui.__all__), sorted(public)
        yield "other public names", lambda: {n for n, v in vars(ui).items() if not n.startswith("_") and not isinstance(v, types.ModuleType)} - public, set()
        yield "importing again", lambda: importlib.import_module("unicode_intervals") is ui, True
        yield "docstrings", lambda: [n for n in ("query", "categories", "as_general_categories", "UnicodeVersion") if not (getattr(ui, n).__doc__ or "").strip()], []
        for n, a in variables.items():
            yield "type of " + n, lambda n=n, a=a: matches(getattr(ui, n), a, ui), True
        for n, a in members.items():
            yield "UnicodeVersion." + n, lambda n=n, a=a: matches(getattr(ver, n), a, ui), True
            yield "UnicodeVersion.%s twice" % n, lambda n=n: getattr(ver, n) == getattr(ver, n), True
            yield "UnicodeVersion.%s of a value" % n, lambda n=n: getattr(ver.latest(), n) == getattr(ver, n), True
            yield "str(UnicodeVersion.%s)" % n, lambda n=n: str(getattr(ver, n)), n[1:].replace("_", ".")
            yield "type of str(UnicodeVersion.%s)" % n, lambda n=n: type(str(getattr(ver, n))), str
            for m in static:
                yield "UnicodeVersion.%s.%s()" % (n, m), lambda n=n, m=m: str(getattr(getattr(ver, n), m)()), core("V").split()[-1]
        yield "public attributes of UnicodeVersion", lambda: {n for n in dir(ver) if not n.startswith("_")}, set(members) | {n for n in methods if not n.startswith("_")}
        for f, s in functions.items():
            if "." not in f and f != "UnicodeVersion":
                sig = lambda f=f: [(p.name, {p.POSITIONAL_ONLY: "positional only", p.POSITIONAL_OR_KEYWORD: "either", p.KEYWORD_ONLY: "keyword only"}.get(p.kind, "any"), p.default is not p.empty) for p in inspect.signature(target[f]).parameters.values()]
                yield "inspect.signature(%s)" % f, sig, [p[:3] for p in s.params]
                default = lambda f=f: [(p.name, p.default) for p in inspect.signature(target[f]).parameters.values() if p.default is not p.empty and p.default not in (None, "")]
                yield "defaults of " + f, default, []

    table = list(facts())

    def fact(k):
        what, get, want = table[k]
        count.step()
        try:
            got = get()
        except Exception as e:
            got = e
        count.state((what, repr(got)))
        if got != want:
            raise Mismatch("%s\n  gives    %.500r\n  the stub %.500r" % (what, got, want))

    # ------------------------------------------------ values cannot be changed
    def closed_cases():
        names = sorted(set(members) | {"x", "value", "__class__", "__doc__", "__dict__", "latest", "__str__", "name", "_value"})
        for v in VERSIONS:
            for n in names:
                for what in ("set", "delete"):
                    yield v, n, what

    def closed(case):
        """A version is the same for everyone: no attribute of one can be set or deleted."""
        v, n, what = case
        x = ver(v)
        count.step()
        try:
            setattr(x, n, ver("9.0.0")) if what == "set" else delattr(x, n)
        except (AttributeError, TypeError):
            count.state((v, n, what))
        else:
            raise Mismatch("%s attribute %r of UnicodeVersion(%r) works" % (what, n, v))
        if str(x) != v or x != ver(v) or str(getattr(ver, "V" + v.replace(".", "_"))) != v:
            raise Mismatch("%s attribute %r of UnicodeVersion(%r) changes it to %r" % (what, n, v, x))

    say = lambda c: show(c[0], c[2], c[3])
    return [
        Suite("facts", "%d names, types, signatures of the module and its class" % len(table), lambda: range(len(table)), fact, None, lambda k: table[k][0]),
        Suite("closed values", "every version x every attribute set or deleted", closed_cases, closed),
        Suite("positions", "each function x 0..all+2 positional arguments x every subset of keywords x 2 values", position_cases, call, None, say),
        Suite("unknown names", "each function x %d names that are no parameters x beside right ones" % len(unknown), unknown_cases, call, None, say),
        Suite("subsets", "every subset of the parameters by keyword x 3 values each", subset_cases, call, None, say),
        Suite("orders", "every order of every subset of the keywords", order_cases, call, None, say),
        Suite("ways", "%d ways to make a call x subsets x positional splits" % len(WAYS), way_cases, call, None, say),
    ]
