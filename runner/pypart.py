"""Explorations of the Python extension (C19-C22): build it, enumerate in worker processes, replay what fails."""
import glob
import json
import os
import shutil
import signal
import struct
import subprocess
import tempfile
import time

from . import mcpart
from .common import REPO, TARGET, VERIF, NoVerdict, Part, cargo, env, limits, log

WORKERS = 8
PY = "/opt/vp/venv/bin/python"


def build():
    mc = mcpart.build("py", "release")
    target = os.path.join(TARGET, "py")
    cargo(["build", "--release", "--offline", "--manifest-path", os.path.join(REPO, "crates/unicode-intervals-py/Cargo.toml"), "--target-dir", target],
          "the Python extension", {"CARGO_PROFILE_RELEASE_LTO": "false", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "8"})
    ext = os.path.join(TARGET, "pyext")
    pkg = os.path.join(ext, "unicode_intervals")
    os.makedirs(pkg, exist_ok=True)
    for f in os.listdir(pkg):
        p = os.path.join(pkg, f)
        if os.path.isfile(p):
            os.unlink(p)
    for f in glob.glob(os.path.join(REPO, "crates/unicode-intervals-py/python/unicode_intervals/*.py*")):
        shutil.copy(f, pkg)
    shutil.copy(os.path.join(target, "release", "libunicode_intervals.so"), os.path.join(pkg, "unicode_intervals.abi3.so"))
    for lib in ("hook", "cut", "quiet"):
        r = subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", os.path.join(ext, "lib%s.so" % lib), os.path.join(VERIF, "py", lib + ".c")],
                           env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise NoVerdict("%s.c does not build: %s" % (lib, r.stdout[-2000:]))
    return mc, ext


def command(prop, tier, ext, mc, out, progress, worker, workers, extra=()):
    return [PY, "-I", "-B", "-X", "faulthandler", os.path.join(VERIF, "py", "engine.py"), prop, tier, ext, mc, out, progress, str(worker), str(workers)] + [str(x) for x in extra]


def replay(prop, tier, ext, mc, tmp, suite, unit, timeout):
    out, progress = os.path.join(tmp, "replay.json"), os.path.join(tmp, "replay.progress")
    if os.path.exists(out):
        os.unlink(out)
    try:
        r = subprocess.run(command(prop, tier, ext, mc, out, progress, 0, 1, (suite, unit)), env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, preexec_fn=limits(8))
    except subprocess.TimeoutExpired:
        return True, "does not end within %d s when run alone" % timeout
    if r.returncode == 0:
        return False, ""
    if r.returncode == 1:
        return True, json.load(open(out))["message"]
    if r.returncode < 0:
        return True, "the process dies with %s: %s" % (signal.Signals(-r.returncode).name, r.stdout[-1500:])
    raise NoVerdict("replay ends with %d: %s %s" % (r.returncode, r.stdout[-2000:], open(out).read()[-2000:] if os.path.exists(out) else ""))


def run(prop, tier):
    mc, ext = build()
    total = 600 if tier == "quick" else 6 * 3600
    stall = 90 if tier == "quick" else 240
    tmp = tempfile.mkdtemp(prefix="py.%s." % prop)
    try:
        procs = []
        for w in range(WORKERS):
            out, progress = os.path.join(tmp, "%d.json" % w), os.path.join(tmp, "%d.progress" % w)
            err = open(os.path.join(tmp, "%d.err" % w), "w+")
            p = subprocess.Popen(command(prop, tier, ext, mc, out, progress, w, WORKERS), env=env(), stdout=err, stderr=err, preexec_fn=limits(8))
            procs.append(dict(p=p, out=out, progress=progress, err=err, seen=None, at=time.time()))
        start = time.time()
        stuck = []
        while any(q["p"].poll() is None for q in procs):
            time.sleep(0.05)
            if any(q["p"].poll() not in (None, 0) for q in procs):
                break  # a mismatch or a crash: no need for the rest
            for q in procs:
                if q["p"].poll() is not None:
                    continue
                mark = position(q["progress"])
                if mark != q["seen"] or not mark or not mark[0]:
                    q["seen"], q["at"] = mark, time.time()
                elif time.time() - q["at"] > stall:
                    stuck.append(mark[1:])
            if stuck:
                break
            if time.time() - start > total:
                raise NoVerdict("%s: exploration not finished within %d s" % (prop, total))
        for q in procs:
            if q["p"].poll() is None:
                q["p"].kill()
            q["code"] = q["p"].wait()
        part = Part()
        part.assumptions = ["Runs on the CPython of /opt/vp/venv (3.12); the extension is the release build of /repo's working tree.",
                            "Expected answers come from the core library of the same tree; its own correctness is C01-C18."]
        results, died, wrong = [], [], []
        for q in procs:
            res = json.load(open(q["out"])) if os.path.exists(q["out"]) else None
            if res and res["result"] == "error":
                raise NoVerdict(res["message"])
            if res:
                results.append(res)
            if res and res["result"] == "fail":
                wrong.append(res)
            elif q["code"] < 0 and q["code"] != -signal.SIGKILL:
                mark = position(q["progress"])
                q["err"].seek(0)
                died.append((mark[1:] if mark else None, "died with %s %s" % (signal.Signals(-q["code"]).name, q["err"].read()[-1500:])))
            elif q["code"] not in (0, 1, -signal.SIGKILL):
                q["err"].seek(0)
                raise NoVerdict("worker ends with %d: %s" % (q["code"], q["err"].read()[-2000:]))
        limit = 180
        for res in sorted(wrong, key=lambda r: (r["names"].index(r["suite"]), r["unit"])):
            fails, text = replay(prop, tier, ext, mc, tmp, res["suite"], res["unit"], limit)
            note = "" if fails else "\n(observed in the exploration; the case alone passes, so the answer depends on earlier calls in the process)"
            part.failure = dict(suite=res["suite"], unit=res["unit"], message=(text if fails else res["message"]) + note)
            break
        if not part.failure and (died or stuck):
            marks = [(m, t) for m, t in died if m] + [(m, "no progress for %d s" % stall) for m in stuck]
            names = suite_names(prop, tier, ext, mc, tmp)
            for (s, u), text in marks:
                fails, alone = replay(prop, tier, ext, mc, tmp, names[s], u, limit)
                if fails:
                    part.failure = dict(suite=names[s], unit=u, message=alone)
                    break
            if not part.failure:
                raise NoVerdict("a worker died or hung and the case alone passes: %s %s" % (died, stuck))
        if part.failure:
            f = part.failure
            f["reproduce"] = " ".join(command(prop, tier, ext, mc, "/tmp/out.json", "/tmp/progress", 0, 1, ("'%s'" % f["suite"], f["unit"])))
        elif len(results) < WORKERS:
            raise NoVerdict("a worker was killed (memory?): %s" % [q["code"] for q in procs])
        states = set()
        merged = {}
        for r in results:
            states.update(r["states"])
            part.transitions += r["transitions"]
            part.traces += r["units"]
            part.samples += r["samples"]
            for k, v in r["extra"].items():
                part.extra[k] = part.extra.get(k, 0) + v if isinstance(v, int) else v
            for s in r["suites"]:
                m = merged.setdefault(s["name"], dict(name=s["name"], bound=s["bound"], units=0, steps=0))
                m["units"] += s["units"]
                m["steps"] += s["steps"]
        part.states = len(states)
        part.suites = list(merged.values())
        return part
    finally:
        shutil.rmtree(tmp)


def suite_names(prop, tier, ext, mc, tmp):
    """Names in order: run a suite that does not exist, which executes nothing."""
    out = os.path.join(tmp, "names.json")
    subprocess.run(command(prop, tier, ext, mc, out, os.path.join(tmp, "names.progress"), 0, 1, ("no such suite", 0)), env=env(), timeout=120)
    return json.load(open(out))["names"]


def position(path):
    try:
        raw = open(path, "rb").read(24)
        return struct.unpack("<QQQ", raw) if len(raw) == 24 else None
    except OSError:
        return None
