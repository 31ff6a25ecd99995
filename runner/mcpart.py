"""Explorations in the Rust crate mc/: build, run, and confirm what fails by replaying it alone."""
import concurrent.futures
import json
import os
import signal
import struct
import subprocess
import tempfile
import time

from .common import TARGET, VERIF, NoVerdict, Part, cargo, env, limits, log

THREADS = 8
MEM_GB = 20
ASSUMPTIONS = [
    "rustc and std compile and execute the code faithfully; the exploration runs the compiled crate of /repo's working tree.",
    "Bounds are those of the listed suites; nothing is claimed beyond them.",
]


COST_FLAGS = ["passes=sancov-module", "llvm-args=-sanitizer-coverage-level=3", "llvm-args=-sanitizer-coverage-trace-pc",
              "link-arg=-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=bcmp"]


def build_cost():
    """The explorer with every basic block counted (C35)."""
    os.makedirs(TARGET, exist_ok=True)
    counter = os.path.join(TARGET, "cost.o")
    r = subprocess.run(["gcc", "-O2", "-fPIC", "-c", os.path.join(VERIF, "mc", "cost.c"), "-o", counter], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise NoVerdict("cost.c does not build: %s" % r.stdout[-2000:])
    flags = " ".join("-C " + f for f in COST_FLAGS + ["link-arg=" + counter])
    cargo(["build", "--offline", "--manifest-path", os.path.join(VERIF, "mc", "Cargo.toml"), "--target-dir", target("cost"), "--profile", "plain", "--features", "cost"],
          "mc (cost)", {"RUSTFLAGS": flags})
    return os.path.join(target("cost"), "plain", "mc")


def build(prop, profile):
    if profile == "cost":
        return build_cost()
    args = ["build", "--offline", "--manifest-path", os.path.join(VERIF, "mc", "Cargo.toml"), "--target-dir", target(profile),
            "--profile", profile]
    try:
        cargo(args + ["--features", "internals"], "mc (%s)" % profile)
    except NoVerdict:
        if prop == "C23":
            raise
        # The benchmark-only exports are not needed by the other properties.
        cargo(args, "mc (%s, public API only)" % profile)
    return os.path.join(target(profile), profile, "mc")


def target(profile):
    return os.path.join(TARGET, "mc" if profile == "release" else "mc." + profile)


def build_all(prop, profiles):
    """Builds for several profiles side by side (they are built again, at no cost, by the explorations)."""
    with concurrent.futures.ThreadPoolExecutor(len(profiles)) as pool:
        for f in [pool.submit(build, prop, p) for p in profiles]:
            try:
                f.result()
            except NoVerdict:
                pass  # said again by the exploration


def data_file():
    return os.path.join(VERIF, "ref", "gc.txt")


def replay(exe, prop, tier, suite, unit, timeout):
    """Run one unit alone in a fresh process: (fails, text)."""
    try:
        r = subprocess.run([exe, "replay", prop, tier, data_file(), suite, str(unit)], env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, preexec_fn=limits(MEM_GB))
    except subprocess.TimeoutExpired:
        return True, "does not end within %d s when run alone" % timeout
    if r.returncode == 0:
        return False, r.stdout[-2000:]
    if r.returncode == 1:
        return True, r.stdout[-6000:]
    if r.returncode < 0:
        return True, "the process dies with %s when run alone: %s" % (signal.Signals(-r.returncode).name, r.stdout[-2000:])
    raise NoVerdict("replay of %s/%s unit %s ends with %d: %s" % (prop, suite, unit, r.returncode, r.stdout[-2000:]))


def read_slots(path):
    try:
        raw = open(path, "rb").read()
    except OSError:
        return []
    out = []
    for t in range(len(raw) // 64):
        active, suite, unit = struct.unpack_from("<QQQ", raw, t * 64)
        if active:
            out.append((suite, unit))
    return sorted(set(out))


def suite_names(exe, prop, tier):
    r = subprocess.run([exe, "suites", prop, tier, data_file()], env=env(), stdout=subprocess.PIPE, text=True, timeout=300)
    return [l.split(" (")[0] for l in r.stdout.splitlines() if " units): " in l]


def explore_once(exe, prop, tier, tmp, timeout):
    out, slots = os.path.join(tmp, "out.json"), os.path.join(tmp, "slots")
    for f in (out, slots):
        if os.path.exists(f):
            os.unlink(f)
    try:
        r = subprocess.run([exe, "run", prop, tier, data_file(), out, slots, str(THREADS)], env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, preexec_fn=limits(MEM_GB))
        code, text = r.returncode, r.stdout[-3000:]
    except subprocess.TimeoutExpired:
        raise NoVerdict("%s: exploration not finished within %d s" % (prop, timeout))
    res = None
    if code in (0, 1, 3) and os.path.exists(out):
        res = json.load(open(out))
    return code, res, read_slots(slots), text


def run(prop, tier, profile):
    exe = build(prop, profile)
    part = Part()
    part.assumptions = list(ASSUMPTIONS)
    if prop in ("C01", "C07"):
        part.assumptions.append("ref/gc.txt is the UCD's General_Category (exact sources for 13.0, 15.0, 15.1, 16.0, 17.0; the others by Age and the published changes).")
    total = 700 if tier == "quick" else 6 * 3600
    unit_timeout = 150 if tier == "quick" else 900
    tmp = tempfile.mkdtemp(prefix="mc.%s." % prop)
    try:
        for attempt in (1, 2):
            code, res, slots, text = explore_once(exe, prop, tier, tmp, total)
            if code == 0 and res:
                if attempt == 2:
                    raise NoVerdict("%s: an exploration failed and could not be repeated: %s" % (prop, first))
                break
            suspects, message, fallback = [], None, False
            if code == 1 and res:
                suspects = [(res["suite"], res["unit"])]
                message = res["message"]
                fallback = True
            elif code == 3 and res:
                suspects = [(res["suite"], res["unit"])]
                message = "no progress for a minute in this unit"
            elif code < 0 or code == 134:
                names = suite_names(exe, prop, tier)
                suspects = [(names[s], u) for s, u in slots if s < len(names)]
                message = "the process died (%s) %s" % (code, text)
                if not suspects:
                    raise NoVerdict(message)
            else:
                raise NoVerdict("%s: explorer ends with %d: %s" % (prop, code, text))
            for s, u in suspects:
                fails, alone = replay(exe, prop, tier, s, u, unit_timeout)
                if fails:
                    part.failure = dict(suite=s, unit=u, message=alone.strip() or message, profile=profile,
                                        reproduce="%s replay %s %s %s %s %s" % (exe, prop, tier, data_file(), s, u))
                    break
            if part.failure is None and fallback:
                # The real code gave a wrong answer, but only after other calls or beside other threads.
                part.failure = dict(suite=suites_of(suspects), unit=suspects[0][1], profile=profile,
                                    message=message + "\n(observed during the exploration with %d threads; the unit alone in a fresh process "
                                    "passes, so the answer depends on earlier or concurrent calls)" % THREADS,
                                    reproduce="%s run %s %s %s OUT SLOTS %d" % (exe, prop, tier, data_file(), THREADS))
            if part.failure:
                break
            first = message
        res = res or {}
        # The second profile walks through the same states.
        part.states = res.get("states", 0) if profile in ("release", "cost") else 0
        part.transitions = res.get("transitions", 0)
        part.traces = res.get("units", 0)
        part.suites = [dict(profile=profile, **s) for s in res.get("suites", [])]
        part.samples = res.get("samples", [])
        if res.get("states_capped"):
            part.extra["states_note"] = "counting of distinct observations stopped at 2^20 per worker (exploration itself is complete)"
        return part
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


def suites_of(suspects):
    return suspects[0][0]
