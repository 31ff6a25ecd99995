"""Threads part of C18: every schedule of small combinations of calls, on the core as a shared object."""
import json
import os
import shutil
import subprocess
import tempfile

from .common import TARGET, VERIF, NoVerdict, Part, cargo, env, log

WORKERS = 8


def build():
    target = os.path.join(TARGET, "sched")
    cargo(["build", "--offline", "--release", "--manifest-path", os.path.join(VERIF, "sched", "Cargo.toml"), "--target-dir", target], "sched")
    exe = os.path.join(target, "sched")
    r = subprocess.run(["gcc", "-O2", "-g", "-rdynamic", "-o", exe, os.path.join(VERIF, "sched", "sched.c"), "-ldl", "-lpthread"],
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise NoVerdict("sched.c does not build:\n" + r.stdout[-3000:])
    return exe, os.path.join(target, "release", "libschedlib.so")


COUNTS = ("schedules", "steps", "states", "pairs", "two_by_two", "triples", "general_two_by_two", "points", "diverged")


def explore(exe, lib, tier, seconds, mode, tmp):
    procs = []
    for w in range(WORKERS):
        out = os.path.join(tmp, "%s%d.json" % (mode, w))
        err = open(os.path.join(tmp, "%s%d.err" % (mode, w)), "w+")
        procs.append((subprocess.Popen([exe, lib, str(w), str(WORKERS), tier, str(seconds), out, mode], env=env(), stdout=err, stderr=err), out, err))
    results = []
    for p, out, err in procs:
        try:
            code = p.wait(timeout=seconds + 400)
        except subprocess.TimeoutExpired:
            for q, _, _ in procs:
                q.kill()
            raise NoVerdict("the schedule explorer does not end")
        if code not in (0, 1) or not os.path.exists(out):
            err.seek(0)
            raise NoVerdict("schedule explorer (%s) ends with %d: %s" % (mode, code, err.read()[-2000:]))
        with open(out) as f:
            results.append(json.load(f))
    return results


def run(tier):
    exe, lib = build()
    tmp = tempfile.mkdtemp(prefix="sched.")
    part = Part()
    try:
        for mode, seconds in (("warm", 60 if tier == "quick" else 3600), ("cold", 150 if tier == "quick" else 7200)):
            results = explore(exe, lib, tier, seconds, mode, tmp)
            first = results[0]
            tot = {k: sum(r[k] for r in results) for k in COUNTS}
            part.states += tot["states"]
            part.transitions += tot["steps"]
            part.traces += tot["schedules"]
            bound = min(r["bound_completed"] for r in results)
            cut = any(r["out_of_time"] for r in results) or tot["diverged"] > 0
            part.exhaustive = part.exhaustive and not cut
            shared = "no access to shared writable memory and no blocking call was made, so one schedule covers all interleavings of a combination" \
                if tot["points"] == 0 else "preemption bound completed on all combinations: %d of %d" % (bound, first["max_bound"])
            calls = "%d calls, each process cold" % first["calls"] if mode == "cold" else "%d lookups on values shared by all threads" % first["calls"]
            part.suites.append(dict(name="schedules, " + mode, bound="2 threads x 1 call (all pairs of %s), 2 x 2 and 3 x 1 calls (thinned alphabets); %s" % (calls, shared),
                                    units=tot["schedules"], steps=tot["steps"]))
            part.extra["schedules, " + mode] = dict(tot, static_bytes_watched=first["static_bytes"], heap_sites_watched=max(r["heap_sites"] for r in results),
                                                    shared_values_written=any(r["kept_watched"] for r in results),
                                                    most_points_in_one_schedule=max(r["most_points"] for r in results),
                                                    controls="lost updates of a static and of a shared value, an ABBA deadlock and a torn heap cache planted in "
                                                             "sched/src/lib.rs were found, and a OnceLock raised no alarm, in this run")
            for r in results:
                if r["failure"]:
                    part.failure = dict(suite="schedules, " + mode, message=r["failure"], reproduce="python3 check.py C18")
                    break
            if part.failure:
                break
        part.samples = ["2 threads, calls i and j of the alphabet, schedule = the thread chosen at each access to watched memory"]
        part.assumptions = ["Schedules interleave single machine instructions that touch watched memory, in sequentially consistent order (x86-TSO store buffering is not explored)."]
        return part
    finally:
        shutil.rmtree(tmp)
