"""Requests to the core, and ways to write an argument."""
import collections
import ctypes
import os
import signal

_libc = ctypes.CDLL(None)


def die_with_parent():
    """For a forked child: do not outlive the engine when that is ended."""
    _libc.prctl(1, int(signal.SIGKILL), 0, 0, 0)

CATS = "Cc Cf Cn Co Cs Ll Lm Lo Lt Lu Mc Me Mn Nd Nl No Pc Pd Pe Pf Pi Po Ps Sc Sk Sm So Zl Zp Zs".split()
CLASSES = "L M N P S Z C".split()
VERSIONS = "9.0.0 10.0.0 11.0.0 12.0.0 12.1.0 13.0.0 14.0.0 15.0.0 15.1.0 16.0.0 17.0.0".split()


def lexicon():
    """(numbers, strings): constants of the sources under exploration, see runner/lexicon.py."""
    ints, strings = [], []
    try:
        with open(os.environ["VERIF_LEXICON"]) as f:
            for line in f:
                k, _, v = line.strip().partition(" ")
                if k == "i":
                    ints.append(int(v))
                elif k == "s":
                    strings.append(bytes.fromhex(v).decode("utf-8", "surrogatepass"))
    except (OSError, KeyError):
        pass
    return ints, strings


def lexicon_codepoints(stock=()):
    return sorted({x for n in [n for n in lexicon()[0] if n > 32] + list(stock) for x in (n - 1, n, n + 1) if 0 <= x <= 0x10FFFF})


def hexes(s):
    return ",".join("%x" % ord(c) for c in s) or "-"


def request(version=None, cats=None, excl=None, lo=None, hi=None, inc="", exc=""):
    """The core's request line for a query (None: not given)."""
    names = lambda x: "-" if x is None else ",".join(dict.fromkeys(x))
    num = lambda x: "-" if x is None else str(int(x))
    return "\t".join(["Q", version or "-", names(cats), names(excl), num(lo), num(hi), hexes(inc), hexes(exc)])


def parse(line):
    """The tuple of tuples that a core answer stands for; None for errors."""
    if line.startswith(("E", "P")):
        return None
    n = [int(x) for x in line.split()]
    return tuple(zip(n[::2], n[1::2]))


class SubStr(str):
    pass


class SubInt(int):
    pass


class SubList(list):
    pass


class Iterable:
    def __init__(self, names):
        self.names = names

    def __iter__(self):
        return iter(list(self.names))


class OldSequence:
    """Iterable through __getitem__ only."""

    def __init__(self, names):
        self.names = list(names)

    def __getitem__(self, i):
        return self.names[i]


class Iterator:
    def __init__(self, names):
        self.it = iter(list(names))

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


# Name -> builder; each builds a fresh argument from a list of names.
FORMS = {
    "list": list,
    "tuple": tuple,
    "set": set,
    "frozenset": frozenset,
    "generator": lambda l: (x for x in l),
    "iter": lambda l: iter(list(l)),
    "map": lambda l: map(str, l),
    "dict": dict.fromkeys,
    "dict keys": lambda l: dict.fromkeys(l).keys(),
    "dict values": lambda l: dict(enumerate(l)).values(),
    "deque": collections.deque,
    "list subclass": SubList,
    "Iterable": Iterable,
    "OldSequence": OldSequence,
    "Iterator": Iterator,
    "reversed": lambda l: reversed(list(l)),
    "repeated": lambda l: [x for x in l for _ in (0, 1)] + list(l),
    "generator repeated": lambda l: (x for _ in range(3) for x in l),
    "str subclass": lambda l: [SubStr(x) for x in l],
}
