"""C34: what the generator does depends on neither where nor how it is run.

Parent (through gen_driver.py): places x ways to start x outcomes, each in a process of its own.
Child: gen_where.py JOB, a pickled dict."""
import os
import pickle
import re
import sys

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen_driver as g

OPTIONS = [[], ["-O"], ["-OO"], ["-I"], ["-E"], ["-s"], ["-S"], ["-u"], ["-P"], ["-q"], ["-bb"], ["-X", "dev"], ["-X", "utf8"], ["-X", "utf8=0"], ["-X", "faulthandler"], ["-X", "int_max_str_digits=640"], ["-X", "no_debug_ranges"], ["-X", "tracemalloc"]]
LOCALES = [{"LC_ALL": "C"}, {"LC_ALL": "POSIX"}, {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "tr_TR.UTF-8"}, {"LANG": "xx"}, {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, {"PYTHONIOENCODING": "ascii"}, {"PYTHONIOENCODING": "utf-16"},
           {"PYTHONIOENCODING": "cp1252:replace"}, {"PYTHONUTF8": "1"}, {"PYTHONHASHSEED": "0"}, {"PYTHONHASHSEED": "3"}, {"PYTHONMALLOC": "debug"}, {"PYTHONWARNINGS": "always"}]
CHARS = [chr(c) for c in range(0x20, 0x7F) if chr(c) != "/"] + ["\t", "\n", "\x01", "\x7f", "\u00e9", "\u2603", "\U0001F600", "\udcff", "\u2028"]
WORDS = ["a b", " a", "a ", "-a", "--exclude=Letter", "a\"b", "a'b", "$HOME", "$(true)", "`true`", "a;true", "a&true", "a|true", "a>b", "*", "?", "~", "{a,b}", "%s", "%TEMP%", "\\", "a\\ b", "#a", "!a", "a=b", "v17_0_0", "src", "tables", "ucd", "UCD.zip", "LAYOUT.txt", "Letter",
         "Uppercase_Letter", '("Control", x)', "x" * 200, "CON", ".hidden", "a.b.c", "17.0.0"]
STREAMS = ["", "no stdin", "no stdout", "no stderr", "no streams", "full stdout", "full streams", "text in stdin", "pipes without reader"]
PLACES = ["", "src is a link", "src/tables is a link", "cwd is a link", "temp is a link", "temp is relative", "temp ends with slashes", "temp by TMP", "temp by TEMP", "TMPDIR does not exist, TEMP does", "other files there", "read-only table", "directories there", "old leavings in temp", "no HOME",
          "PATH starts with a missing directory", "PATH with an empty entry", "PATH with a directory ucd-generate", "umask 0", "umask 027", "umask 077", "temp on another file system", "few descriptors", "descriptors inherited", "small stack", "signals ignored"]
SCRIPTS = ["generate_tables.py", "./generate_tables.py", "../gen/generate_tables.py", "/abs", "", "-", "gen tables.py", "\u2603.py"]
SHM = "/dev/shm"


def outcomes(thorough):
    """(what, version, raw, want, index of the fault or None)."""
    lines = g.wrap([g.entry(n) for n in g.NAMES], 79)
    out = []
    for v, kind, d in (("17.0.0", "tiny", g.PLAIN_DIR), ("12.1.0", "small", "/tmp/\u00e9\u2603/\U0001F600"), ("9.0.0", "edge", "C:\\Users\\Letter, \u00fc\\tmp1")):
        raw, want = g.output(v, lines, kind, 79, d, "lines")
        out.append(("succeeds for %s" % v, v, raw, want, None))
    raw = g.output("17.0.0", lines, "tiny", 79, g.PLAIN_DIR, "lines")[0]
    # The first and the last of each kind.
    first, last = {}, {}
    for k, (what, fault, text) in enumerate(g.faults(False, raw, "17.0.0")):
        kind = fault[0] + " " + re.sub(r"[0-9.]+|\bSIG\w+|\b(%s)\b|(?<=raises ).*" % "|".join(g.NAMES), "#", what)
        first.setdefault(kind, (what, k, text))
        last[kind] = (what, k, text)
    seen = {k: (what, k, text) for d in (first, last) for what, k, text in d.values()}
    for what, k, text in seen.values():
        out.append(("fails: " + what, "17.0.0", raw if text is None else text, None, k))
    return out


def child(job):
    v, raw, k = job["version"], job["raw"], job["fault"]
    run = object.__new__(g.Run)
    run.script, run.scratch, run.work, run.tmp = job["script"], job["scratch"], job["cwd"], job["temp"]
    run.point = lambda name: None
    run.quiet = False
    fault = None
    if k is not None:
        fault = list(g.faults(False, job["plain"], "17.0.0"))[k][1]
    if job.get("recursion"):
        sys.setrecursionlimit(job["recursion"])
    r = run.go([v], v, raw, fault, job["argv0"])
    with open(job["report"], "w", errors="backslashreplace") as f:
        f.write(r or "ok")


def run_one(script, scratch, where, how, outcome, counter):
    import resource
    import shutil
    import signal
    import subprocess
    what, version, raw, want, k = outcome
    top = os.path.join(scratch, "where")
    shutil.rmtree(top, ignore_errors=True)
    real, temp = os.path.join(top, where.get("cwd", "work")), os.path.join(top, "t", where.get("temp", "tmp"))
    if "inside" in where:
        temp = os.path.join(real, where["inside"])
    for d in (real, temp):
        os.makedirs(d, exist_ok=True)
    cwd = real
    place = where.get("place", "")
    env = {"PATH": os.environ["PATH"], "HOME": top, "TMPDIR": temp, "FAKE_LOG": os.path.join(scratch, "args"), "FAKE_MODE": os.path.join(scratch, "mode"), **how.get("env", {}), **where.get("env", {})}
    umask = -1
    before = {}
    removed = []

    def link(name):
        os.makedirs(os.path.join(top, "elsewhere"))
        os.makedirs(os.path.dirname(os.path.join(real, name)), exist_ok=True)
        os.symlink(os.path.join(top, "elsewhere"), os.path.join(real, name))
    if place == "src is a link":
        link("src")
    elif place == "src/tables is a link":
        link("src/tables")
    elif place == "cwd is a link":
        cwd = os.path.join(top, "lnk")
        os.symlink(real, cwd)
    elif place == "temp is a link":
        env["TMPDIR"] = os.path.join(top, "tlnk")
        os.symlink(temp, env["TMPDIR"])
    elif place == "temp is relative":
        env["TMPDIR"] = "../t/tmp"
    elif place == "temp ends with slashes":
        env["TMPDIR"] = temp + "//"
    elif place.startswith("temp by "):
        env[place[8:]] = env.pop("TMPDIR")
    elif place == "temp on another file system":
        # (if there is one)
        if os.path.isdir(SHM) and os.stat(SHM).st_dev != os.stat(top).st_dev:
            env["TMPDIR"] = temp = os.path.join(SHM, "verif.where.%d" % os.getpid())
            shutil.rmtree(temp, ignore_errors=True)
            os.mkdir(temp)
            removed.append(temp)
    elif place.startswith("TMPDIR does"):
        env["TEMP"], env["TMPDIR"] = temp, os.path.join(top, "none")
    elif place == "no HOME":
        del env["HOME"]
    elif place.startswith("PATH starts"):
        env["PATH"] = os.path.join(top, "none") + ":" + env["PATH"]
    elif place.startswith("PATH with an"):
        env["PATH"] = env["PATH"] + ":"
    elif place.startswith("PATH with a d"):
        os.makedirs(os.path.join(top, "pd", "ucd-generate"))
        env["PATH"] = os.path.join(top, "pd") + ":" + env["PATH"]
    elif place.startswith("umask"):
        umask = int(place[6:], 8)

    def put(name, data):
        p = os.path.join(real, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        before[name] = data
    if how.get("tables", True):
        for v in g.VERSIONS:
            put(g.table_name(v), b"// the table of %s\n" % v.encode())
    if place == "other files there":
        for n in ("README.md", "src/lib.rs", "src/tables.rs", "src/tables/mod.rs", "src/tables/v17_0_0.txt", "src/tables/v17.rs", "UCD.zip", "LAYOUT.txt", "zipfile.py", "tempfile.py", "subprocess.py", "src/tables/v17_0_0.rs.bak", ".gitignore"):
            put(n, b"raise SystemExit(9)  # %s\n" % n.encode())
    elif place == "read-only table":
        os.chmod(os.path.join(real, g.table_name(version)), 0o444) if g.table_name(version) in before else None
    elif place == "directories there":
        for n in ("tmp", "ucd", "UCD", "src/tables/v17_0_0", "tables", version):
            os.makedirs(os.path.join(real, n))
    elif place == "old leavings in temp":
        for n in ("ucd", "UCD", "unicode", version, "tmp", "ucd-" + version, "UCD-" + version):
            for d in (os.path.join(temp, n),):
                os.makedirs(d)
                with open(os.path.join(d, "LAYOUT.txt"), "w") as f:
                    f.write("// an old one\n")
    report = os.path.join(scratch, "report")
    if os.path.exists(report):
        os.unlink(report)
    for d in {temp} | {top}:
        os.chmod(d, 0o755)
    job = dict(script=script, scratch=scratch, cwd=cwd, temp=temp, version=version, raw=raw, plain=outcomes_plain(), fault=k, report=report, argv0=os.path.join(os.path.dirname(script), "generate_tables.py") if how.get("argv0") == "/abs" else how.get("argv0", "generate_tables.py"),
               recursion=how.get("recursion"))
    with open(os.path.join(scratch, "job"), "wb") as f:
        pickle.dump(job, f)
    streams = how.get("streams", "")
    full = "full" in streams and open("/dev/full", "w")
    opened = []
    kw = dict(stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if streams.startswith("full"):
        kw["stdout"] = full
        if streams == "full streams":
            kw["stderr"] = full
    elif streams == "text in stdin":
        r, w = os.pipe()
        os.write(w, b"exit 7\nq\n")
        os.close(w)
        opened.append(r)
        kw["stdin"] = r
    elif streams == "pipes without reader":
        r, w = os.pipe()
        os.close(r)
        opened.append(w)
        kw["stdout"] = kw["stderr"] = w
    if place == "descriptors inherited":
        opened += [os.dup(0) for _ in range(50)]
        kw["pass_fds"] = opened[-50:]

    def prepare():
        if umask >= 0:
            os.umask(umask)
        for fd in {"no stdin": [0], "no stdout": [1], "no stderr": [2], "no streams": [0, 1, 2]}.get(streams, []):
            os.close(fd)
        if place == "few descriptors":
            resource.setrlimit(resource.RLIMIT_NOFILE, (24, 24))
        elif place == "small stack":
            resource.setrlimit(resource.RLIMIT_STACK, (1 << 20, 1 << 20))
        elif place == "signals ignored":
            for s in (signal.SIGINT, signal.SIGHUP, signal.SIGTERM, signal.SIGPIPE):
                signal.signal(s, signal.SIG_IGN)
    counter[0] += 1
    try:
        p = subprocess.Popen([sys.executable, "-B", *how.get("options", []), os.path.abspath(__file__), os.path.join(scratch, "job")], env=env, cwd=top, preexec_fn=prepare, start_new_session=True, **kw)
        try:
            code = p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise g.Bad("does not end within 60 s")
    finally:
        for fd in opened:
            os.close(fd)
        if full:
            full.close()
        for d in removed:
            shutil.rmtree(d, ignore_errors=True)
    if not os.path.exists(report):
        raise g.Bad("the process ends with %d before the script does" % code)
    with open(report, errors="backslashreplace") as f:
        failed = f.read()
    failed = None if failed == "ok" else failed
    files = g.files_below(real)
    for name in ("src", "src/tables"):
        if os.path.islink(os.path.join(real, name)):
            for d, _, fs in os.walk(os.path.join(real, name)):
                for f in fs:
                    with open(os.path.join(d, f), "rb") as h:
                        files[os.path.relpath(os.path.join(d, f), real)] = h.read()
    if "inside" in where:
        files = {n: d for n, d in files.items() if not n.startswith(where["inside"] + "/")}
    if k is None:
        if failed:
            raise g.Bad("the generator " + failed)
        name = g.table_name(version)
        if name not in files:
            raise g.Bad("no table; files: %s" % sorted(files)[:30])
        g.compare(files.pop(name), want)
        before.pop(name, None)
    else:
        if not failed:
            raise g.Bad("the generator ends as if all was well")
    if files != before:
        raise g.Bad("other files differ: %s" % sorted({*files.items()} ^ {*before.items()})[:3])
    if k is None and umask >= 0:
        mode = os.stat(os.path.join(real, g.table_name(version))).st_mode & 0o777
        if not how.get("tables", True) and mode & umask:
            raise g.Bad("the table's mode is %o under umask %o" % (mode, umask))
    return what, sorted(files)


PLAIN = []


def outcomes_plain():
    if not PLAIN:
        PLAIN.append(g.output("17.0.0", g.wrap([g.entry(n) for n in g.NAMES], 79), "tiny", 79, g.PLAIN_DIR, "lines")[0])
    return PLAIN[0]


def cases(thorough, script, scratch):
    all_outcomes = outcomes(thorough)
    good = [o for o in all_outcomes if o[4] is None]

    def case(where, how, o):
        text = "%s; %s; %s" % (", ".join("%s: %a" % i for i in where.items()) or "an ordinary place", ", ".join("%s: %a" % i for i in how.items()) or "an ordinary start", o[0])
        return text, lambda counter: run_one(script, scratch, where, how, o, counter)
    # What a name can be made of: the directory for temporary files, and the one it is run in.
    for c in CHARS:
        for name in (c + "a", "a" + c + "b", "a" + c) if c not in ".~" else ("a" + c, c + "a"):
            for o in good[:2]:
                yield case({"temp": name}, {}, o)
            yield case({"cwd": name}, {}, good[0])
    for w in WORDS:
        for o in good:
            yield case({"temp": w}, {}, o)
            yield case({"cwd": w}, {}, o)
            if w not in ("src", "LAYOUT.txt", "UCD.zip"):
                yield case({"inside": w}, {}, o)
            yield case({"cwd": w, "temp": w}, {"tables": False}, o)
    for a in CHARS:
        for b in CHARS if thorough else " '\"$\\;":
            if a + b not in ("..",):
                yield case({"temp": "x" + a + b + "y"}, {}, good[0])
    # Brackets and quotes in pairs, and whatever else takes two signs.
    signs = [c for c in CHARS if c.isascii() and not c.isalnum()]
    for a in signs:
        for b in signs:
            yield case({"temp": "x" + a + "y" + b + "z"}, {}, good[0])
    # How it is started.
    hows = [{"options": o} for o in OPTIONS] + [{"env": e} for e in LOCALES] + [{"streams": s} for s in STREAMS[1:]] + [{"argv0": s} for s in SCRIPTS] + [{"recursion": 300}]
    places = [{"place": p} for p in PLACES]
    for how in hows:
        for o in all_outcomes:
            yield case({}, how, o)
    for place in places:
        for o in all_outcomes if place["place"] else good:
            yield case(place, {}, o)
            if o[4] is None:
                yield case(place, {"tables": False}, o)
    for how in hows:
        for place in places[1:]:
            for o in all_outcomes if thorough else good[1:2]:
                yield case(place, how, o)
    pairs = [(a, b) for i, a in enumerate(hows) for b in hows[i + 1:] if not a.keys() & b.keys()]
    for a, b in pairs:
        for o in all_outcomes if thorough else good[1:2]:
            yield case({}, {**a, **b}, o)
    # Variables.
    ints, strings = [], []
    import common
    strings = common.lexicon()[1]
    usual = ["HOME", "LANG", "LANGUAGE", "TZ", "TERM", "USER", "PWD", "OLDPWD", "DEBUG", "VERBOSE", "CI", "UNICODE_VERSION", "UNICODE_DATA", "UCD", "UCD_DIR", "UCD_PATH", "UCD_URL", "UNICODE_URL", "OUTPUT", "OUT_DIR", "OUTPUT_DIR", "TABLES_DIR", "CARGO_MANIFEST_DIR", "XDG_CACHE_HOME", "SOURCE_DATE_EPOCH",
             "UCD_GENERATE", "EXCLUDE", "CATEGORIES", "VERSION", "SHELL", "IFS", "ENV", "CDPATH", "COLUMNS", "LINES"]
    names = sorted({n for s in usual + [s for s in strings if s.isascii()] for n in (s, s.upper()) if n and "=" not in n and "\0" not in n and len(n) < 60 and not n.startswith(("PYTHON", "LD_", "MALLOC", "GLIBC", "FAKE", "BASH_FUNC")) and n not in ("PATH", "TMPDIR", "TEMP", "TMP", "ENV", "BASH_ENV", "PS4")
                    and "proxy" not in n.lower()})
    for v in ("", "0", "1", "true", "9.0.0", "17.0.0", "Letter", "/", "/nonexistent", "C", "debug", "\u2603", " ", "80"):
        for o in all_outcomes:
            yield case({"env": dict.fromkeys(names, v)}, {}, o)


def run_case(case, counter):
    try:
        got = case[1](counter)
    except OSError as e:
        if e.errno == 36:  # a name too long for this file system
            return "-"
        raise
    return g.hashlib.blake2b(repr((case[0], got)).encode("utf-8", "backslashreplace"), digest_size=8).hexdigest()


if __name__ == "__main__":
    with open(sys.argv[1], "rb") as f:
        child(pickle.load(f))
