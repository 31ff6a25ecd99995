#!/usr/bin/env python3
"""check.py <property>: explore the property on /repo's working tree (VERIF_TIER=quick|thorough).

Exit 0: held on everything explored. Exit 1: a line "VIOLATION property=<id> replay=<path>".
Exit 2: no verdict (the tree does not build, or the machinery itself failed)."""
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from runner import lexicon, mcpart  # noqa: E402
from runner.common import NoVerdict, Part, log  # noqa: E402


def parts_of(prop, tier):
    """The explorations that decide a property, in order."""
    if prop in ("C24", "C25", "C31", "C34"):
        from runner import genpart
        return [lambda: genpart.run(prop, tier)]
    if prop in ("C19", "C20", "C21", "C22", "C26", "C28"):
        from runner import pypart
        return [lambda: pypart.run(prop, tier)]
    if prop == "C35":
        from runner import pypart
        return [lambda: mcpart.run(prop, tier, "cost"), lambda: pypart.run(prop, tier)]
    if prop == "C33" and tier == "quick":
        # What a user's release build does; the other profile in the thorough tier.
        from runner import pypart
        return [lambda: mcpart.run(prop, tier, "plain"), lambda: pypart.run(prop, tier)]
    out = [lambda: mcpart.run(prop, tier, "release")]
    # The same without debug assertions and overflow checks, as in a user's release build.
    if prop != "C18" or tier == "thorough":
        mcpart.build_all(prop, ["release", "plain"])
        out.append(lambda: mcpart.run(prop, tier, "plain"))
    if prop in ("C29", "C30", "C32", "C33"):
        from runner import pypart
        out.append(lambda: pypart.run(prop, tier))
    if prop == "C18":
        from runner import schedpart
        out.append(lambda: schedpart.run(tier))
    return out


def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                out.append(line.split(" ", 2)[2])
    return out


def write_evidence(prop, tier, seed, parts, wall, violations):
    samples, suites, assumptions = [], [], []
    for p in parts:
        for s in p.suites:
            suites.append(s)
        samples += p.samples[:12]
        for a in p.assumptions:
            if a not in assumptions:
                assumptions.append(a)
    cov = {
        "states": sum(p.states for p in parts),
        "transitions": sum(p.transitions for p in parts),
        "traces_validated_against_impl": sum(p.traces for p in parts),
        "exhaustive": all(p.exhaustive for p in parts) and violations == 0,
        "samples": [s[:500] for s in samples[:24]],
        "suites": suites,
        "meaning": "states: distinct observations predicted by the reference model (64-bit hashes) or, for schedules, distinct program "
                   "states; transitions: calls or steps of the real code compared with the model; traces: enumerated units "
                   "(families of cases, histories or schedules) executed to their end on the real code.",
    }
    for p in parts:
        cov.update(p.extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    text = json.dumps(ev, indent=1, ensure_ascii=True)
    while len(text) > 60000 and cov["samples"]:
        cov["samples"].pop()
        text = json.dumps(ev, indent=1, ensure_ascii=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        f.write(text + "\n")
    os.replace(path + ".tmp", path)


def main():
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    start = time.time()
    done = []
    failure = None
    lexicon.write()
    for make in parts_of(prop, tier):
        try:
            part = make()
        except NoVerdict as e:
            log("no verdict: %s" % e)
            return 2
        done.append(part)
        if part.failure:
            failure = part.failure
            break
    wall = time.time() - start
    write_evidence(prop, tier, seed, done, wall, 1 if failure else 0)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if failure:
        out = os.path.join(VERIF, "out")
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, "%s.%s.json" % (prop, tier))
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, **failure), f, indent=1)
        print(failure.get("message", "")[:4000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
        prop, sum(p.states for p in done), sum(p.transitions for p in done), sum(p.traces for p in done), wall))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # machinery trouble is never a verdict
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
