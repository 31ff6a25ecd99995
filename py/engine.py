"""Enumerates cases of one property against the freshly built Python extension.

engine.py PROP TIER EXTDIR MC OUT PROGRESS WORKER WORKERS [SUITE INDEX]

A suite is a finite, numbered list of cases; worker w runs the cases with number = w mod WORKERS, in order.
With SUITE INDEX only that case runs (replay in a fresh process). Exit 0: fine, 1: a mismatch, 2: trouble."""
import hashlib
import itertools
import json
import mmap
import os
import struct
import subprocess
import sys
import traceback


class Mismatch(Exception):
    pass


class Core:
    """Answers of the core library of the same tree, through `mc serve`."""

    def __init__(self, mc):
        self.mc = mc
        self.cache = {}

    def fetch(self, requests):
        todo = list(dict.fromkeys(r for r in requests if r not in self.cache))
        if not todo:
            return
        p = subprocess.run([self.mc, "serve"], input="\n".join(todo) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        lines = p.stdout.split("\n")[:-1]
        if p.returncode or len(lines) != len(todo):
            raise RuntimeError("mc serve answered %d of %d requests (%d)" % (len(lines), len(todo), p.returncode))
        self.cache.update(zip(todo, lines))

    def __call__(self, request):
        if request not in self.cache:
            self.fetch([request])
        return self.cache[request]


class Suite:
    """cases(): iterator of cases. needs(case): requests to the core. run(case): raises Mismatch. text(case): source."""

    def __init__(self, name, bound, cases, run, needs=None, text=repr, fork=False):
        self.name, self.bound, self.cases, self.run, self.needs, self.text, self.fork = name, bound, cases, run, needs, text, fork


class Count:
    def __init__(self):
        self.transitions = 0
        self.states = set()

    def step(self, n=1):
        self.transitions += n

    def state(self, x):
        self.states.add(int.from_bytes(hashlib.blake2b(repr(x).encode("utf-8", "backslashreplace"), digest_size=8).digest(), "little"))


BATCH = 2000


def main():
    prop, tier, ext, mc, out, progress, worker, workers = sys.argv[1:9]
    only = sys.argv[9:11]
    worker, workers = int(worker), int(workers)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, ext)
    import unicode_intervals as ui
    if not os.path.abspath(ui.__file__).startswith(os.path.abspath(ext) + os.sep):
        raise RuntimeError("the wrong extension was imported: " + ui.__file__)
    import importlib
    sys.modules["engine"] = sys.modules["__main__"]
    count = Count()
    core = Core(mc)
    suites = importlib.import_module("suites_" + prop.lower()).suites(ui, core, tier == "thorough", count, ext)
    with open(progress, "w+b") as f:
        f.write(b"\0" * 32)
        f.flush()
        beat = mmap.mmap(f.fileno(), 32)
    result = {"result": "ok", "suites": [], "samples": [], "units": 0}
    code = 0
    for si, s in enumerate(suites):
        if only and s.name != only[0]:
            continue
        number = before = 0
        it = enumerate(s.cases())
        if only:
            it = itertools.islice(it, int(only[1]), int(only[1]) + 1)
        else:
            it = itertools.islice(it, worker, None, workers)
        before = count.transitions
        try:
            while True:
                batch = list(itertools.islice(it, BATCH))
                if not batch:
                    break
                if s.needs:
                    core.fetch([r for _, c in batch for r in s.needs(c)])
                for i, c in batch:
                    beat[:24] = struct.pack("<QQQ", 1, si, i)
                    try:
                        s.run(c)
                    except Mismatch as e:
                        result.update(result="fail", suite=s.name, unit=i, message="%s\n  case: %s" % (e, s.text(c)))
                        code = 1
                        break
                    number += 1
                beat[:8] = struct.pack("<Q", 0)
                if code:
                    break
                if worker == 0 and len(result["samples"]) < 3 * (si + 1):
                    result["samples"].append(s.text(batch[len(batch) // 2][1])[:400])
        except MemoryError:
            raise
        except Exception:
            result.update(result="error", message=traceback.format_exc(), suite=s.name)
            code = 2
        result["suites"].append({"name": s.name, "bound": s.bound, "units": number, "steps": count.transitions - before})
        result["units"] += number
        if code:
            break
    result["names"] = [s.name for s in suites]
    result["transitions"] = count.transitions
    result["states"] = sorted(count.states)[:400000]
    result["extra"] = getattr(count, "extra", {})
    with open(out + ".tmp", "w") as f:
        json.dump(result, f)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(2)
