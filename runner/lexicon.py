"""The exploration alphabet is closed under the constants of the code under exploration: number, character and
string literals of the working tree's sources, as extra window bounds, lengths, characters and name fragments.

It decides nothing: the oracles do not see it. It makes the enumerated space follow the code, so that a case
distinction at some constant has both of its sides inside the space."""
import glob
import os
import re

from .common import REPO, VERIF, log

CORE = "crates/unicode-intervals/src"
PY = "crates/unicode-intervals-py"
MAX_INTS, MAX_STRINGS = 160, 400


def sources():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, CORE, "**", "*.rs"), recursive=True)):
        if "/tables/" not in f and not f.endswith("tables.rs"):
            out.append(f)
    out += sorted(glob.glob(os.path.join(REPO, PY, "src", "**", "*.rs"), recursive=True))
    return out


TOKEN = re.compile(r"""
    (?P<lc>//[^\n]*) | (?P<bc>/\*.*?\*/)
  | (?P<raw>\bb?r(?P<h>\#*)"(?P<rs>.*?)"(?P=h))
  | b?"(?P<str>(?:[^"\\]|\\.)*)"
  | b?'(?P<chr>\\u\{[0-9A-Fa-f_]+\}|\\x[0-9A-Fa-f]{2}|\\.|[^'\\])'
  | (?P<num>\b0[xob][0-9A-Fa-f_]+|\b\d[\d_]*)(?P<suf>(?:[iu](?:8|16|32|64|128|size))?)
""", re.X | re.S)


def unescape(s):
    def one(m):
        t = m.group(0)
        if t.startswith("\\u"):
            return chr(int(t[3:-1].replace("_", ""), 16))
        if t.startswith("\\x"):
            return chr(int(t[2:], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(t[1], t[1])
    return re.sub(r"\\u\{[0-9A-Fa-f_]+\}|\\x[0-9A-Fa-f]{2}|\\.", one, s, flags=re.S)


def number(t):
    t = t.replace("_", "")
    try:
        if t[:2] in ("0x", "0o", "0b"):
            if t[:2] == "0x":
                t = re.sub(r"[iu](8|16|32|64|128)$", "", t)
            return int(t, 0)
        return int(t)
    except ValueError:
        return None


def harvest():
    ints, strings = {}, {}
    for f in sources():
        with open(f, encoding="utf-8", errors="replace") as fh:
            text = fh.read()
        cut = re.search(r"^#\[cfg\(test\)\]\s*\n\s*mod\s+\w+\s*\{", text, re.M)
        if cut:
            text = text[:cut.start()]
        prev = None  # (value, end) of the last number, for A << B and A * B
        for m in TOKEN.finditer(text):
            if m.group("lc") or m.group("bc"):
                continue
            if m.group("num"):
                v = number(m.group("num"))
                if v is None:
                    continue
                ints[v] = ints.get(v, 0) + 1
                if prev:
                    op = text[prev[1]:m.start()].strip()
                    x = {"<<": lambda: prev[0] << v if v < 32 else None, "*": lambda: prev[0] * v, "+": lambda: prev[0] + v}.get(op, lambda: None)()
                    if x is not None:
                        ints[x] = ints.get(x, 0) + 1
                prev = (v, m.end())
            elif m.group("chr"):
                c = unescape(m.group("chr"))
                if len(c) == 1:
                    ints[ord(c)] = ints.get(ord(c), 0) + 1
                    strings[c] = 1
            else:
                s = m.group("rs") if m.group("raw") else unescape(m.group("str") or "")
                for part in {s, *re.split(r"\{[^{}]*\}", s)}:
                    if 0 < len(part) <= 64:
                        strings[part] = 1
                if len(s) == 1:
                    ints[ord(s)] = 1
    ints = [v for v in ints if v < 1 << 32]
    # The rarer a constant looks, the more it says: small numbers go first when there are too many.
    ints.sort(key=lambda v: (v <= 64, v))
    return sorted(ints[:MAX_INTS]), sorted(strings, key=lambda s: (len(s), s))[:MAX_STRINGS]


def write():
    """Writes out/lexicon.txt and returns its path."""
    try:
        ints, strings = harvest()
    except Exception as e:  # the stock alphabets remain
        log("no constants harvested: %r" % e)
        ints, strings = [], []
    out = os.path.join(VERIF, "out")
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, "lexicon.txt")
    tmp = "%s.%d" % (path, os.getpid())
    with open(tmp, "w") as f:
        for v in ints:
            f.write("i %d\n" % v)
        for s in strings:
            f.write("s %s\n" % s.encode("utf-8", "surrogatepass").hex())
    os.replace(tmp, path)
    return path


if __name__ == "__main__":
    print(harvest())
