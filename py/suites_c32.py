"""C32, Python part: the same answers at every moment of the life of a process, its threads and the module."""
import os
import pickle
import re
import subprocess
import sys
import tempfile

from common import CATS, VERSIONS, parse, request
from engine import Mismatch, Suite

CHILD = os.path.join(os.path.dirname(os.path.abspath(__file__)), "life_child.py")
OPTIONS = [[], ["-O"], ["-OO"], ["-X", "dev"], ["-X", "utf8"], ["-X", "utf8=0"], ["-W", "error"], ["-bb"], ["-X", "int_max_str_digits=640"], ["-X", "no_debug_ranges"], ["-X", "tracemalloc=5"], ["-X", "importtime"], ["-S"], ["-v"], ["-u"], ["-P"], ["-q"], ["-X", "faulthandler"]]
HASHES = ["0", "1", "2", "4294967295", "random"]


def table():
    v = lambda s: ("version", s)
    return [
        (("query", (), {"categories": ["Lu", "Nd"], "max_codepoint": 600}), request(None, ["Lu", "Nd"], None, None, 600)),
        (("as_general_categories", (["L", "Nd"],), {}), "\t".join(["G", "-", "L", "Nd"])),
        (("categories", (), {}), "N\t-"),
        (("query", (), {"version": v("9.0.0"), "exclude_categories": ["Lu"], "max_codepoint": 200}), request("9.0.0", None, ["Lu"], None, 200)),
        (("categories", (v("9.0.0"),), {}), "N\t9.0.0"),
        (("as_general_categories", (["Zs"], v("9.0.0")), {}), "\t".join(["G", "9.0.0", "Zs"])),
        (("query", (), {"categories": ["Xx"]}), "!ValueError"),
        (("query", (), {"categories": [], "include_characters": "zx\u03a9", "exclude_characters": "a"}), request(None, [], None, None, None, "zx\u03a9", "a")),
        (("UnicodeVersion", ("12.1.0",), {}), "@12.1.0"),
        (("query", (), {"categories": 7}), "!TypeError"),
        (("UnicodeVersion", ("9.0.1",), {}), "!ValueError"),
        (("query", (), {"categories": ["Lu"], "exclude_categories": ["Ll"], "min_codepoint": 0x100, "max_codepoint": 0x2FF, "include_characters": "a\u2603", "exclude_characters": "\u0100"}), request(None, ["Lu"], ["Ll"], 0x100, 0x2FF, "a\u2603", "\u0100")),
        (("query", (), {"min_codepoint": 9, "max_codepoint": 8}), "!ValueError"),
        (("query", (), {}), request()),
    ]


def suites(ui, core, thorough, count, ext):
    with open(CHILD) as f:
        phases = re.findall(r"^def p_(\w+)", f.read(), re.M)
    calls = table()

    def answer(ask):
        if ask.startswith("!"):
            return ask[1:]
        if ask.startswith("@"):
            s = ask[1:]
            return "UnicodeVersion", s, 'UnicodeVersion("%s")' % s, True, False, True if ui.UnicodeVersion.__hash__ else None
        a = core(ask)
        return parse(a) if ask[0] == "Q" else tuple(a.split())
    asks = [a for _, a in calls if a[0] in "QGN"]
    made = []

    def data():
        if not made:
            d = tempfile.mkdtemp(prefix="life.")
            made.append(os.path.join(d, "data"))
            with open(made[0], "wb") as f:
                pickle.dump(([c for c, _ in calls], [answer(a) for _, a in calls]), f)
            import atexit
            import shutil
            atexit.register(shutil.rmtree, d, True)
        return made[0]

    def run(case):
        phase, first, rot, options, variables = case
        r, w = os.pipe()
        try:
            p = subprocess.Popen([sys.executable, "-B", "-s", *options, CHILD, ext, data(), str(w), phase, str(first), str(rot)], pass_fds=[w], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                 env=dict(os.environ, **variables), cwd="/")
        finally:
            os.close(w)
        try:
            try:
                err = p.communicate(timeout=60)[1]
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                raise Mismatch("%s: does not end within 60 s" % text(case))
            lines = os.read(r, 1 << 16).decode().splitlines()
        finally:
            os.close(r)
        for l in lines:
            if l != "ok":
                raise Mismatch("%s: %s" % (text(case), l))
        if p.returncode < 0 or p.returncode and phase != "excepthook":
            raise Mismatch("%s: the process ends with %d: %s" % (text(case), p.returncode, err.decode("utf-8", "replace")[-1500:]))
        if not lines:
            raise Mismatch("%s: no answer at all: %s" % (text(case), err.decode("utf-8", "replace")[-1500:]))
        count.step(len(calls) + 1)
        count.state((phase, first, rot, tuple(options), tuple(variables.items())))

    def text(case):
        phase, first, rot, options, variables = case
        return "%spython %s, moment %r (see p_%s in life_child.py), after %s, all probes from %d on" % ("".join("%s=%s " % i for i in variables.items()), " ".join(options), phase, phase, "no call" if first < 0 else "%.200r" % (calls[first][0],), rot)

    def moments():
        n = len(calls)
        for ph in phases:
            for first in range(-1, n):
                for rot in range(n) if thorough else sorted({0, (first + 1) % n, (5 * first + 3) % n}):
                    yield ph, first, rot, [], {}

    def options():
        n = len(calls)
        for o in OPTIONS:
            for first in range(-1, n):
                yield "main", first, (first + 2) % n, o, {}
        for h in HASHES:
            for first in range(-1, n):
                yield "main", first, (first + 2) % n, [], {"PYTHONHASHSEED": h}
        for name in ("malloc", "pymalloc", "debug", "malloc_debug", "pymalloc_debug"):
            for first in range(-1, n):
                yield "main", first, (first + 2) % n, [], {"PYTHONMALLOC": name}
    return [
        Suite("moments", "%d moments (%s) x %d first calls x which of %d probes is asked first there; each in a new process" % (len(phases), ", ".join(phases), len(calls) + 1, len(calls)), moments, run, lambda c: asks, text),
        Suite("interpreter options", "%d sets of options, %d hash seeds, 5 allocators x %d first calls" % (len(OPTIONS), len(HASHES), len(calls) + 1), options, run, lambda c: asks, text),
    ]
