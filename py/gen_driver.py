"""Runs /repo/generate_tables.py end to end on enumerated ucd-generate outputs, in a scratch directory.

gen_driver.py PROPERTY SCRIPT SCRATCH TIER OUT [INDEX]; the hash seed comes from PYTHONHASHSEED. Nothing is downloaded: urllib is
replaced by a function that hands out a zip with one layout (or fails as the case says), and `ucd-generate` on PATH prints
what lies in the directory it is given. The script only ever writes inside SCRATCH.

C24: what a successful run writes, for every layout of the output. C25: what is left after every way a run can fail."""
import contextlib
import hashlib
import io
import itertools
import json
import os
import re
import runpy
import shutil
import sys
import traceback
import urllib.request
import zipfile

NAMES = """Close_Punctuation Connector_Punctuation Control Currency_Symbol Dash_Punctuation Decimal_Number Enclosing_Mark
Final_Punctuation Format Initial_Punctuation Letter_Number Line_Separator Lowercase_Letter Math_Symbol Modifier_Letter Modifier_Symbol
Nonspacing_Mark Open_Punctuation Other_Letter Other_Number Other_Punctuation Other_Symbol Paragraph_Separator Private_Use Space_Separator
Spacing_Mark Surrogate Titlecase_Letter Unassigned Uppercase_Letter""".split()
GROUPS = "Separator Symbol Cased_Letter Letter Mark Number Other Punctuation".split()
VERSIONS = "9.0.0 10.0.0 11.0.0 12.0.0 12.1.0 13.0.0 14.0.0 15.0.0 15.1.0 16.0.0 17.0.0".split()


def entry(n):
    return '("%s", %s),' % (n, n.upper())


def wrap(items, width, indent="  "):
    lines, line = [], ""
    for it in items:
        if line and len(indent) + len(line) + 1 + len(it) > width:
            lines.append(indent + line)
            line = ""
        line = (line + " " + it) if line else it
    return lines + ([indent + line] if line else [])


def tables(version, kind):
    """The 30 constants: (name, intervals)."""
    out = []
    for k, n in enumerate(NAMES):
        if kind == "tiny":
            iv = [(k, k)]
        elif kind == "empty":
            iv = []
        elif kind == "edge":
            iv = [[(0, 0)], [(0, 31), (127, 159)], [(0, 1114111)], [(1114111, 1114111)], [(55296, 57343), (1114109, 1114111)], [(0, 5), (7, 7), (65, 90)], [(0, 0), (2, 2), (4, 4)]][k % 7]
        else:
            m = {"small": 3 + k % 4, "large": 40 + 7 * k}[kind]
            iv = [(100 * k + 3000 * i, 100 * k + 3000 * i + (i + k) % 5) for i in range(m)]
        out.append((n, iv))
    return out


def declaration(name, iv, style, width):
    """One constant: intervals in lines under the declaration, all on its line, or one per line."""
    start = "pub const %s: &'static [(u32, u32)] = &[" % name
    if style == "inline" and len(iv) <= 12:
        return [start + ", ".join("(%d, %d)" % p for p in iv) + "];"]
    if style == "inline comma" and len(iv) <= 12:
        return [start + " ".join("(%d, %d)," % p for p in iv) + "];"]
    if style == "single lines":
        return [start] + ["    (%d, %d)," % p for p in iv] + ["];"]
    return [start] + wrap(["(%d, %d)," % p for p in iv], width) + ["];"]


def output(version, names_lines, kind, width, header_dir, style):
    """What ucd-generate prints, and what the generator has to make of it."""
    head = ["// DO NOT EDIT THIS FILE. IT WAS AUTOMATICALLY GENERATED BY:", "//",
            "//   ucd-generate general-category %s --exclude=%s" % (header_dir, ",".join(GROUPS)), "//",
            "// Unicode version: %s." % version, "//", "// ucd-generate 0.2.15 is available on crates.io.", ""]
    tail = []
    for n, iv in tables(version, kind):
        tail += [""] + declaration(n.upper(), iv, style, width)
    a = head + ["pub const BY_NAME: &'static [(&'static str, &'static [(u32, u32)])] = &["] + names_lines + ["];"] + tail
    b = head + ["pub const BY_NAME: &'static [&'static [(u32, u32)]] = &["] \
        + [re.sub(r'\("\w+", (\w+)\),', r"\1,", l) for l in names_lines] + ["];"] + tail
    return "\n".join(a) + "\n", "\n".join(b) + "\n"


def by_breaks(breaks, indent="  "):
    lines, line = [], []
    for i, n in enumerate(NAMES):
        if i in breaks and line:
            lines.append(indent + " ".join(line))
            line = []
        line.append(entry(n))
    return lines + [indent + " ".join(line)]


PLAIN_DIR = "/tmp/tmplkl38_2t"


def cases(thorough):
    """(what, version, entry lines, kind of tables, width, style of the constants, directory in the header)."""
    for c in cases_of_layout(thorough):
        yield c + (PLAIN_DIR,)
    entries = [entry(n) for n in NAMES]
    # Characters that some ways of splitting text take for line ends.
    for c in "\u2028 \u2029 \x85 \x0b \x0c \x1c \x1d \x1e \u00e9 \U0001f600 \xa0 \u200b".split(" "):
        for d in ("/tmp/a%sb", "/tmp/%s/t", "/tmp/t%s"):
            yield ("directory %a" % (d % c), "17.0.0", wrap(entries, 79), "tiny", 79, "lines", d % c)
    for n in NAMES + GROUPS:
        for d in ("/tmp/%s/tmpxy12_zz", "/home/me/My %s/tmp0", "/tmp/tmp%s", "C:\\Users\\%s\\AppData\\tmp1", "/x/%s, %s/t", '/y/"%s", y/t'):
            for v, w in (("17.0.0", 79), ("12.1.0", 40)):
                p = d.replace("%s", n)
                yield ("directory %s" % p, v, wrap(entries, w), "tiny", w, "lines", p)


def cases_of_layout(thorough):
    for c in cases_of_names(thorough):
        yield c + ("lines",)
    entries = [entry(n) for n in NAMES]
    for style in ("lines", "inline", "inline comma", "single lines"):
        for kind in ("tiny", "empty", "edge", "small", "large"):
            for v in VERSIONS + ["18.0.0"]:
                for w in (20, 79, 120):
                    yield ("version %s, %s tables, constants as %s, %d columns" % (v, kind, style, w), v, wrap(entries, w), kind, w, style)


def cases_of_names(thorough):
    seen = set()

    def new(lines):
        t = "\n".join(lines)
        if t in seen:
            return False
        seen.add(t)
        return True
    entries = [entry(n) for n in NAMES]
    for v in VERSIONS + ["18.0.0", "1.1.5", "10.10.10"]:
        for kind in ("small", "large", "tiny", "empty"):
            yield ("version %s, %s tables" % (v, kind), v, wrap(entries, 79), kind, 79)
    for w in range(20, 1500):
        lines = wrap(entries, w)
        if new(lines):
            yield ("greedy wrapping at %d columns" % w, "17.0.0", lines, "tiny", 79)
    for w in (60, 79, 100, 120):
        for indent in ("", " ", "  ", "    ", "\t"):
            yield ("%d columns, indent %r" % (w, indent), "15.1.0", wrap(entries, w, indent), "tiny", w)
    for r in (1, 2, 3 if thorough else 2):
        for b in itertools.combinations(range(1, 30), r):
            lines = by_breaks(set(b))
            if new(lines):
                yield ("line breaks before entries %s only" % (b,), "16.0.0", lines, "tiny", 79)
            lines = by_breaks(set(range(1, 30)) - set(b))
            if new(lines):
                yield ("line breaks before all entries but %s" % (b,), "16.0.0", lines, "tiny", 79)
    span = 12 if thorough else 8
    for start in (range(1, 30 - span) if thorough else (1, 8, 15, 21)):
        for m in range(1 << span):
            lines = by_breaks({start + i for i in range(span) if m >> i & 1})
            if new(lines):
                yield ("break pattern %s from entry %d" % (bin(m), start), "12.1.0", lines, "tiny", 79)
    for v in VERSIONS:
        for w in (40, 79, 200):
            yield ("version %s at %d columns" % (v, w), v, wrap(entries, w), "small", w)


FAKE = """#!/bin/sh
printf '%s\\n' "$@" > "$FAKE_LOG"
[ -f "$FAKE_MODE" ] && . "$FAKE_MODE"
[ -n "$FAKE_SYNC" ] && { echo tool > "$FAKE_SYNC.out"; read -r _ < "$FAKE_SYNC.in"; }
for a in "$@"; do
  case "$a" in -*|general-category) ;; *) exec cat "$a/LAYOUT.txt";; esac
done
exit 3
"""


class Bad(Exception):
    pass


def files_below(top):
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, top)] = h.read()
    return out


class Run:
    """One working directory in which the script is run, once or several times."""

    def __init__(self, script, scratch):
        self.script, self.scratch = script, scratch
        self.point = lambda name: None
        self.work, self.tmp = os.path.join(scratch, "work"), os.path.join(scratch, "tmp")
        for d in (self.work, self.tmp):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)

    def put(self, name, data):
        p = os.path.join(self.work, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)

    quiet = True

    def go(self, args, version, raw, fault=None, argv0="generate_tables.py"):
        """Runs the script; gives None if it succeeds, else how it failed. fault: (step, details...)."""
        fault = fault or ("none",)

        def archive(url):
            url = getattr(url, "full_url", url)
            data = io.BytesIO()
            with zipfile.ZipFile(data, "w", fault[2] if fault[0] == "archive" else zipfile.ZIP_STORED) as z:
                m = re.search(r"/Public/([^/]*)/", url)
                text = raw if fault[0] == "download" or m and m.group(1) == version else "// another version was asked for: %s\n" % url
                if fault[0] != "empty archive":
                    z.writestr("LAYOUT.txt", text)
                z.writestr("ReadMe.txt", "Unicode\n")
            data = data.getvalue()
            if fault[0] == "archive":
                data = fault[1](data)
            return data

        def broken(url):
            url = getattr(url, "full_url", url)
            return fault[0] == "download" and (fault[2] == "" or fault[2] in url)

        def urlretrieve(url, filename=None, *a, **k):
            if broken(url):
                raise fault[1]()
            self.point("download")
            filename = filename or os.path.join(self.tmp, "download.%d.zip" % os.getpid())
            if fault[0] != "no download":
                with open(filename, "wb") as f:
                    f.write(archive(url))
            elif os.path.exists(filename):
                os.unlink(filename)
            return str(filename), {}

        def urlopen(url, *a, **k):
            if broken(url):
                raise fault[1]()
            self.point("download")
            r = io.BytesIO(b"" if fault[0] == "no download" else archive(url))
            r.status = 200
            return r

        mode = os.environ["FAKE_MODE"]
        if fault[0] == "tool":
            with open(mode, "w") as f:
                f.write(fault[1])
        elif os.path.exists(mode):
            os.unlink(mode)
        path = os.environ["PATH"]
        if fault[0] == "no tool":
            os.environ["PATH"] = "/usr/bin:/bin"
        urllib.request.urlretrieve, urllib.request.urlopen = urlretrieve, urlopen
        old = os.getcwd(), sys.argv
        os.chdir(self.work)
        sys.argv = [argv0] + args
        try:
            with contextlib.ExitStack() as stack:
                if self.quiet:
                    stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
                    stack.enter_context(contextlib.redirect_stderr(io.StringIO()))
                runpy.run_path(self.script, run_name="__main__")
        except SystemExit as e:
            return None if e.code in (None, 0) else "exits with %r" % (e.code,)
        except BaseException as e:
            return "raises %s\n%s" % (repr(e)[:500], traceback.format_exc()[-1500:])
        finally:
            os.chdir(old[0])
            sys.argv = old[1]
            os.environ["PATH"] = path
        return None


def table_name(version):
    return "src/tables/v%s.rs" % version.replace(".", "_")


def compare(got, want):
    # The final line end is not part of the property.
    g, w = got.decode("utf-8", "replace").rstrip("\n").split("\n"), want.rstrip("\n").split("\n")
    if g != w:
        i = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
        raise Bad("line %d of the result is\n    %r\n  and should be\n    %r" % (i + 1, g[i][:300] if i < len(g) else None, w[i][:300] if i < len(w) else None))


def run_case(script, scratch, case, counter):
    what, version, lines, kind, width, style, header_dir = case
    raw, want = output(version, lines, kind, width, header_dir, style)
    run = Run(script, scratch)
    counter[0] += 1
    failed = run.go([version], version, raw)
    if failed:
        raise Bad("the generator " + failed)
    made = files_below(run.work)
    name = table_name(version)
    if sorted(made) != [name]:
        raise Bad("files written: %s instead of %s" % (sorted(made), name))
    compare(made[name], want)
    args = open(os.environ["FAKE_LOG"]).read().split("\n")
    excluded = set()
    for k, a in enumerate(args):
        if a.startswith("--exclude="):
            excluded |= set(a[len("--exclude="):].split(","))
        elif a == "--exclude":
            excluded |= set(args[k + 1].split(","))
    if "general-category" not in args or excluded != set(GROUPS):
        raise Bad("ucd-generate was called with %s, which does not give exactly the 30 categories" % args)
    return hashlib.blake2b(want.encode(), digest_size=8).hexdigest()


# C25

def http_error(code):
    import urllib.error
    return lambda: urllib.error.HTTPError("https://www.unicode.org/", code, "no", {}, None)


def flip(data, at):
    return data[:at] + bytes([data[at] ^ 0xFF]) + data[at + 1:]


def crc_broken(where):
    def f(data):
        # inside the text of LAYOUT.txt, which is stored
        at = data.index(b"// DO NOT EDIT")
        end = data.index(b"Unicode\n", data.index(b"ReadMe.txt"))
        return flip(data, at + int((end - 200 - at) * where))
    return f


def member_broken(where):
    def f(data):
        # inside the data of the first member
        z = zipfile.ZipFile(io.BytesIO(data)).getinfo("LAYOUT.txt")
        start = z.header_offset + 30 + len("LAYOUT.txt")
        return flip(data, start + int((z.compress_size - 10) * where))
    return f


def faults(thorough, raw, version):
    """(what, fault, changed output or None): each makes the run fail before its table is complete."""
    import urllib.error
    for what, make in (("URLError", lambda: urllib.error.URLError("no network")), ("HTTP 404", http_error(404)), ("HTTP 500", http_error(500)),
                       ("OSError", lambda: OSError(28, "No space left")), ("TimeoutError", lambda: TimeoutError("slow")),
                       ("ContentTooShortError", lambda: urllib.error.ContentTooShortError("short", b"")),
                       ("ConnectionResetError", lambda: ConnectionResetError("reset")), ("KeyboardInterrupt", lambda: KeyboardInterrupt())):
        yield ("the download raises %s" % what, ("download", make, ""), None)
        yield ("the download of that version raises %s" % what, ("download", make, "/Public/%s/" % version), None)
    yield ("the downloaded file is missing", ("no download",), None)
    yield ("the archive lacks the data", ("empty archive",), None)
    for what, f in [("is empty", lambda d: b""), ("is HTML", lambda d: b"<html>not found</html>"), ("is text of its length", lambda d: b"x" * len(d))] \
            + [("ends after %d %% of it" % k, lambda d, k=k: d[:len(d) * k // 100]) for k in (range(1, 100) if thorough else (1, 10, 50, 90, 99))] \
            + [("ends %d bytes early" % k, lambda d, k=k: d[:-k]) for k in (1, 2, 21, 22, 23, 60)] \
            + [("has a wrong byte at %.1f" % x, crc_broken(x)) for x in (0.1, 0.5, 0.9)]:
        yield ("the archive " + what, ("archive", f, zipfile.ZIP_STORED), None)
    # As large as the real one, packed: damaged only behind what is read first.
    big = raw + ("// " + "x" * 60 + "\n") * (4000 if thorough else 3000)
    for x in [k / 20 for k in range(1, 20)] if thorough else (0.3, 0.9):
        yield ("the large archive has a wrong byte at %.2f" % x, ("archive", member_broken(x), zipfile.ZIP_STORED), big)
        yield ("the large packed archive has a wrong byte at %.2f" % x, ("archive", member_broken(x), zipfile.ZIP_DEFLATED), big + "".join("// %d\n" % (i * i * 7919 % 1000003) for i in range(20000)))
    yield ("ucd-generate is not installed", ("no tool",), None)
    cut = raw.split("\n")
    cuts = sorted({0, 1, len(cut) // 4, len(cut) // 2, len(cut) - 2, len(cut) - 1} | (set(range(len(cut))) if thorough else set()))
    for code in (1, 2, 3, 101, 126, 127, 255):
        yield ("ucd-generate ends with %d and prints nothing" % code, ("tool", "exit %d\n" % code), None)
        yield ("ucd-generate ends with %d after a complete output" % code, ("tool", 'cat "$2/LAYOUT.txt"; echo broken >&2; exit %d\n' % code), None)
        for n in cuts:
            yield ("ucd-generate ends with %d after %d lines" % (code, n), ("tool", 'head -n %d "$2/LAYOUT.txt"; exit %d\n' % (n, code)), None)
    for sig in ("KILL", "TERM", "SEGV", "ABRT", "PIPE"):
        for n in cuts:
            yield ("ucd-generate dies of SIG%s after %d lines" % (sig, n), ("tool", 'head -n %d "$2/LAYOUT.txt"; kill -%s $$; sleep 5\n' % (n, sig)), None)
    yield ("ucd-generate prints nothing", ("none",), "")
    yield ("ucd-generate prints a version only", ("none",), "// Unicode version\n")
    for n in NAMES:
        e = entry(n)
        for lines in (raw, raw.replace(e + " ", e + "\n  ")):
            assert e in lines
            yield ("the output lacks %s" % n, ("none",), lines.replace(e, "").replace("\n  \n", "\n"))
            yield ("the output has %s in the header only" % n, ("none",), lines.replace(e, "").replace("tmplkl38_2t", n + "/t"))
            yield ("the output names %s in lower case" % n, ("none",), lines.replace(e, e.lower()))
    for n in range(len(NAMES) + 1):
        text = raw[:raw.index(entry(NAMES[n]))] if n < len(NAMES) else None
        if text is not None:
            yield ("the output ends before %s" % NAMES[n], ("none",), text)


BEFORE = [("no table", []), ("its own table", ["own"]), ("all other tables", ["others"]), ("all tables", ["own", "others"])]


def failing_cases(thorough):
    """(what, kind, data): a function of a Run each."""
    lines = wrap([entry(n) for n in NAMES], 79)
    for args in ([], ["17.0.0", "16.0.0"], ["17.0.0", "--force"], ["17.0.0", "16.0.0", "15.0.0"], ["17.0.0", ""], ["", "17.0.0"]):
        for before in BEFORE:
            yield ("arguments %s, %s before" % (args, before[0]), "usage", (args, before, "17.0.0", output("17.0.0", lines, "tiny", 79, PLAIN_DIR, "lines")[0]))
    for version in VERSIONS + ["18.0.0"] if thorough else ("9.0.0", "12.1.0", "17.0.0", "18.0.0"):
        raw = output(version, lines, "tiny", 79, PLAIN_DIR, "lines")[0]
        for what, fault, text in faults(thorough, raw, version):
            for before in BEFORE:
                yield ("version %s, %s before: %s" % (version, before[0], what), "fault", (version, before, fault, raw if text is None else text))
    # Histories in one directory: each run either succeeds or leaves all as it was.
    raw = output("17.0.0", lines, "tiny", 79, PLAIN_DIR, "lines")[0]
    some = {}
    for what, fault, text in faults(False, raw, "17.0.0"):
        some.setdefault((fault[0], what.split(" ")[0], text is None), (what, fault, text))
    steps = [("17.0.0", None), ("16.0.0", None), ("12.1.0", None)] + [(v, f) for v in ("17.0.0", "12.1.0") for f in some.values()]
    for depth in (2, 3) if not thorough else (2, 3, 4):
        for hist in itertools.product(range(len(steps)), repeat=depth):
            good = sum(steps[k][1] is None for k in hist)
            if good == 0 or (depth == 4 and good < 2):
                continue
            yield ("runs " + "; ".join("%s %s" % (steps[k][0], "succeeds" if steps[k][1] is None else steps[k][1][0]) for k in hist), "history", [steps[k] for k in hist])


def tables_of(files):
    return {k: v for k, v in files.items() if k.startswith("src/tables/") and k.endswith(".rs")}


def run_failing(script, scratch, case, counter):
    what, kind, data = case
    run = Run(script, scratch)
    h = hashlib.blake2b(digest_size=8)

    def prepare(version, before):
        for v in VERSIONS:
            if ("own" if v == version else "others") in before[1]:
                run.put(table_name(v), b"// the table of %s\n" % v.encode())
        if "own" in before[1]:
            run.put(table_name(version), b"// the table of %s\n" % version.encode())
        if before[1]:
            run.put("src/lib.rs", b"mod tables;\n")

    def must_fail(args, version, raw, fault):
        old = files_below(run.work)
        counter[0] += 1
        failed = run.go(args, version, raw, fault)
        new = files_below(run.work)
        if not failed:
            raise Bad("the run ends as a success")
        if tables_of(old) != tables_of(new):
            a, b = tables_of(old), tables_of(new)
            raise Bad("table files changed: %s" % "; ".join("%s %s" % (k, "added" if k not in a else "removed" if k not in b else "changed (%d bytes, were %d)" % (len(b[k]), len(a[k])))
                                                            for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)))
        h.update(repr((sorted(new.items()), failed.split("\n")[0][:40])).encode())

    if kind == "usage":
        args, before, version, raw = data
        prepare(version, before)
        must_fail(args, version, raw, None)
    elif kind == "fault":
        version, before, fault, raw = data
        prepare(version, before)
        must_fail([version], version, raw, fault)
    else:
        lines = wrap([entry(n) for n in NAMES], 79)
        for version, f in data:
            raw, want = output(version, lines, "tiny", 79, PLAIN_DIR, "lines")
            if f is None:
                old = files_below(run.work)
                counter[0] += 1
                failed = run.go([version], version, raw)
                if failed:
                    raise Bad("a run without a fault " + failed)
                new = files_below(run.work)
                name = table_name(version)
                compare(new.pop(name, b""), want)
                old.pop(name, None)
                if old != new:
                    raise Bad("a run for %s changed %s" % (version, sorted(k for k in set(old) | set(new) if old.get(k) != new.get(k))))
                h.update(repr(sorted(new.items())).encode())
            else:
                must_fail([version], version, raw if f[2] is None else f[2], f[1])
    return h.hexdigest()


def main():
    prop, script, scratch, tier, out = sys.argv[1:6]
    only = int(sys.argv[6]) if len(sys.argv) > 6 and "/" not in sys.argv[6] else None
    share, of = map(int, sys.argv[6].split("/")) if len(sys.argv) > 6 and "/" in sys.argv[6] else (0, 1)
    os.makedirs(scratch, exist_ok=True)
    bindir = os.path.join(scratch, "bin")
    os.makedirs(bindir, exist_ok=True)
    fake = os.path.join(bindir, "ucd-generate")
    with open(fake, "w") as f:
        f.write(FAKE)
    os.chmod(fake, 0o755)
    os.environ["PATH"] = bindir + ":/usr/bin:/bin"
    os.environ["FAKE_LOG"] = os.path.join(scratch, "args")
    os.environ["FAKE_MODE"] = os.path.join(scratch, "mode")
    os.environ["TMPDIR"] = os.path.join(scratch, "tmp")
    os.environ["HOME"] = scratch
    import tempfile
    tempfile.tempdir = os.path.join(scratch, "tmp")
    sys.dont_write_bytecode = True
    sys.modules["gen_driver"] = sys.modules["__main__"]
    if prop == "C34":
        import gen_where
        all_cases, one = lambda t: gen_where.cases(t, script, scratch), lambda s, d, case, c: gen_where.run_case(case, c)
    elif prop == "C31":
        import gen_runs
        all_cases, one = lambda t: gen_runs.cases(t, script, scratch), lambda s, d, case, c: gen_runs.run_case(case, c)
    else:
        all_cases, one = (cases, run_case) if prop == "C24" else (failing_cases, run_failing)
    res = {"result": "ok", "states": [], "sample": ""}
    counter = [0]
    states = set()
    n = 0
    for i, case in enumerate(all_cases(tier == "thorough")):
        if (only is not None and i != only) or i % of != share:
            continue
        try:
            states.add(one(script, scratch, case, counter))
        except Bad as e:
            res.update(result="fail", unit=i, message="PYTHONHASHSEED=%s, %s:\n  %s" % (os.environ.get("PYTHONHASHSEED"), case[0], e))
            break
        n += 1
        if n == 100:
            res["sample"] = "hash seed %s, %s" % (os.environ.get("PYTHONHASHSEED"), case[0])
    res.update(units=n, transitions=counter[0], states=sorted(states))
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
    return 1 if res["result"] == "fail" else 0


if __name__ == "__main__":
    sys.exit(main())
