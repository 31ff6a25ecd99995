#!/usr/bin/env python3
"""Rebuilds /verif/ref/gc.txt, the reference model of General_Category per Unicode version.

It never reads the tables of the crate under test.  Sources, all found in the sandbox:
  exact 13.0  Java 17           Character.getType
  exact 15.0  CPython 3.12      unicodedata.category
  exact 15.1  ICU 74 (C)        u_charType
  exact 16.0  regex-syntax 0.8.11   general_category.rs
  exact 17.0  Node 22 (ICU)     \\p{gc=..}
  age         regex-syntax 0.8.11   age.rs (Unicode 16.0: covers ages 1.1 .. 16.0)
The versions without an exact source (9.0, 10.0, 11.0, 12.0, 12.1, 14.0) are derived:
unassigned when the age is later than the version, otherwise the category of the next exact
version, corrected by the changes of category that the UCD change logs list (CHANGES).
The same derivation is applied to the exact versions too, and has to reproduce them.

Usage: build_ref.py [--check]     --check: compare with the committed gc.txt, do not write.
"""
import glob, os, re, subprocess, sys, tempfile, unicodedata

HERE = os.path.dirname(os.path.abspath(__file__))
N = 0x110000
VERSIONS = ["9.0.0", "10.0.0", "11.0.0", "12.0.0", "12.1.0", "13.0.0", "14.0.0", "15.0.0", "15.1.0", "16.0.0", "17.0.0"]
vk = lambda v: tuple(int(x) for x in v.split("."))
ABBR = "Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu".split()
LONG = ("Close_Punctuation Connector_Punctuation Control Currency_Symbol Dash_Punctuation Decimal_Number Enclosing_Mark "
        "Final_Punctuation Format Initial_Punctuation Letter_Number Line_Separator Lowercase_Letter Math_Symbol Modifier_Letter "
        "Modifier_Symbol Nonspacing_Mark Open_Punctuation Other_Letter Other_Number Other_Punctuation Other_Symbol "
        "Paragraph_Separator Private_Use Space_Separator Spacing_Mark Surrogate Titlecase_Letter Unassigned Uppercase_Letter").split()

# (version in which it took effect, code points, old, new)
CHANGES = [
    ("11.0.0", [*range(0x10D0, 0x10FB), 0x10FD, 0x10FE, 0x10FF], "Lo", "Ll"),   # Georgian Mkhedruli
    ("11.0.0", [0x111C9], "Po", "Mn"),
    ("11.0.0", [0x11A07, 0x11A08], "Mc", "Mn"),
    ("12.0.0", [0x166D], "Po", "So"),
    ("12.0.0", [0x1CF2, 0x1CF3], "Mc", "Lo"),
    ("12.0.0", [0xA9BD], "Mc", "Mn"),
    ("14.0.0", [0x1734], "Mn", "Mc"),
    ("16.0.0", [0x1171E], "Mn", "Mc"),
    ("17.0.0", [0x0295], "Ll", "Lo"),
]

def rust_char(tok):
    tok = tok.strip()[1:-1]
    if tok.startswith("\\u{"):
        return int(tok[3:-1], 16)
    if tok.startswith("\\"):
        return ord({"n": "\n", "t": "\t", "r": "\r", "0": "\0", "'": "'", "\\": "\\"}[tok[1]])
    assert len(tok) == 1, tok
    return ord(tok)

def rust_tables(path):
    s = open(path, encoding="utf-8").read()
    names = dict((c, n) for n, c in re.findall(r'\("(\w+)", (\w+)\)', s))
    pair = re.compile(r"\(('(?:\\u\{[0-9a-f]+\}|\\.|[^\\])'), ('(?:\\u\{[0-9a-f]+\}|\\.|[^\\])')\)")
    return {names[m[1]]: [(rust_char(a), rust_char(b)) for a, b in pair.findall(m[2])]
            for m in re.finditer(r"pub const (\w+): &'static \[\(char, char\)\] =\s*&\[(.*?)\];\n", s, re.S)}

def rs_dir():
    return glob.glob(os.path.expanduser("~/.cargo/registry/src/*/regex-syntax-0.8.11/src/unicode_tables"))[0]

def exact16():
    t = rust_tables(rs_dir() + "/general_category.rs")
    out = [None] * N
    for n, a in zip(LONG, ABBR):
        for l, r in t.get(n, []):
            for c in range(l, r + 1):
                assert out[c] is None, hex(c)
                out[c] = a
    for c in range(0xD800, 0xE000):      # the regex tables are over `char`: no surrogates
        assert out[c] in (None, "Cn"), (hex(c), out[c])
        out[c] = "Cs"
    # "Unassigned" spans surrogates as a char range; nothing else may be missing
    return [x or "Cn" for x in out]

def ages():
    out = [None] * N
    for n, ivs in rust_tables(rs_dir() + "/age.rs").items():
        a, b = n[1:].split("_")
        for l, r in ivs:
            for c in range(l, r + 1):
                if 0xD800 <= c < 0xE000:
                    continue
                assert out[c] is None, hex(c)
                out[c] = (int(a), int(b), 0)
    for c in range(0xD800, 0xE000):
        out[c] = (2, 0, 0)
    return out

def java13(tmp):
    src = os.path.join(tmp, "G.java")
    open(src, "w").write("public class G{public static void main(String[] a)throws Exception{byte[] b=new byte[0x110000];for(int i=0;i<0x110000;i++)b[i]=(byte)Character.getType(i);java.nio.file.Files.write(java.nio.file.Paths.get(a[0]),b);}}")
    subprocess.run(["java", src, tmp + "/j"], check=True)
    m = {0: "Cn", 1: "Lu", 2: "Ll", 3: "Lt", 4: "Lm", 5: "Lo", 6: "Mn", 7: "Me", 8: "Mc", 9: "Nd", 10: "Nl", 11: "No", 12: "Zs", 13: "Zl",
         14: "Zp", 15: "Cc", 16: "Cf", 18: "Co", 19: "Cs", 20: "Pd", 21: "Ps", 22: "Pe", 23: "Pc", 24: "Po", 25: "Sm", 26: "Sc", 27: "Sk",
         28: "So", 29: "Pi", 30: "Pf"}
    return [m[x] for x in open(tmp + "/j", "rb").read()]

def icu151(tmp):
    open(tmp + "/i.c", "w").write(r'''
#include <unicode/uchar.h>
#include <unicode/uversion.h>
#include <stdio.h>
int main(){UVersionInfo v;u_getUnicodeVersion(v);fprintf(stderr,"%d.%d.%d",v[0],v[1],v[2]);for(int c=0;c<0x110000;c++)putchar(u_charType(c));}''')
    subprocess.run(["gcc", "-o", tmp + "/i", tmp + "/i.c", "-licuuc"], check=True)
    p = subprocess.run([tmp + "/i"], capture_output=True, check=True)
    assert p.stderr == b"15.1.0", p.stderr
    m = "Cn Lu Ll Lt Lm Lo Mn Me Mc Nd Nl No Zs Zl Zp Cc Cf Co Cs Pd Ps Pe Pc Po Sm Sc Sk So Pi Pf".split()
    return [m[x] for x in p.stdout]

def node17():
    js = ("const A=%r.split(' ');if(process.versions.unicode!=='17.0')throw 1;const R=A.map(a=>new RegExp('^\\\\p{gc='+a+'}$','u'));const b=Buffer.alloc(0x110000,255);"
          "for(let c=0;c<0x110000;c++){const s=String.fromCodePoint(c);for(let i=0;i<30;i++)if(R[i].test(s)){b[c]=i;break}}process.stdout.write(b)" % " ".join(ABBR))
    return [ABBR[x] for x in subprocess.run(["node", "-e", js], capture_output=True, check=True).stdout]

def main():
    with tempfile.TemporaryDirectory() as tmp:
        assert unicodedata.unidata_version == "15.0.0"
        exact = {"13.0.0": java13(tmp), "15.0.0": [unicodedata.category(chr(c)) for c in range(N)],
                 "15.1.0": icu151(tmp), "16.0.0": exact16(), "17.0.0": node17()}
    age = ages()
    g16, g17 = exact["16.0.0"], exact["17.0.0"]
    # age 17.0 = assigned in 17.0 but not in 16.0
    noncontiguous = [c for c in range(N) if age[c] is None and g16[c] != "Cn"]
    assert not noncontiguous, noncontiguous[:5]
    derived = {}
    for v in VERSIONS:
        out = []
        for c in range(N):
            a = age[c] if age[c] is not None else ((17, 0, 0) if g17[c] != "Cn" else None)
            # noncharacters have an age but stay Cn, in every version
            out.append("Cn" if a is None or a > vk(v) else g17[c])
        for since, cps, old, new in reversed(CHANGES):
            if vk(v) < vk(since):
                for c in cps:
                    if out[c] != "Cn":
                        assert out[c] == new, (v, hex(c), out[c])
                        out[c] = old
        derived[v] = out
    for v, e in exact.items():
        d = [(hex(c), e[c], derived[v][c]) for c in range(N) if e[c] != derived[v][c]]
        assert not d, (v, d[:10])
        print(f"{v}: derivation reproduces the exact source on all {N} code points", file=sys.stderr)
    lines = ["# General_Category by Unicode version; made by build_ref.py", "versions " + " ".join(VERSIONS)]
    start, cur = 0, tuple(derived[v][0] for v in VERSIONS)
    for c in range(1, N + 1):
        nxt = tuple(derived[v][c] for v in VERSIONS) if c < N else None
        if nxt != cur:
            lines.append(f"{start:X} {c - 1:X} " + (cur[0] if len(set(cur)) == 1 else " ".join(cur)))
            start, cur = c, nxt
    text = "\n".join(lines) + "\n"
    path = os.path.join(HERE, "gc.txt")
    if "--check" in sys.argv:
        assert open(path).read() == text, "gc.txt differs from what the sources give"
        print("gc.txt confirmed", file=sys.stderr)
    else:
        open(path, "w").write(text)
    return derived

if __name__ == "__main__":
    main()
