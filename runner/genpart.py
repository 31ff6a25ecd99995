"""C24, C25, C31, C34: generate_tables.py end to end over enumerated ucd-generate outputs and hash seeds, failures, interleaved or killed runs, and surroundings."""
import json
import os
import shutil
import subprocess
import tempfile
import time

from .common import REPO, VERIF, NoVerdict, Part, env, limits

PY = "/opt/vp/venv/bin/python"
BOUNDS = {
    "C24": ("layouts", "ucd-generate outputs: greedy wrapping at every width 20-1499, all line-break sets with at most 2 (3) breaks or non-breaks, all break "
            "patterns in windows of 8 (12) entries, 14 versions x 4 kinds of tables; 4 layouts of the constants x 5 kinds x 3 widths x 12 versions; "
            "38 category and group names x 6 directories in the header x 2 versions; x %d hash seeds"),
    "C25": ("failures", "6 wrong command lines; 4 (12) versions x every fault (8 download errors, of every URL or of the requested version only, 16 (110) broken archives, 7 exit codes and 5 signals of "
            "ucd-generate after prefixes of its output, every one of the 30 categories missing in 6 ways, the output cut before every entry) x 4 sets of tables "
            "before; all histories of at most 3 (4) runs over 3 good runs and one fault of each kind for 2 versions, in one directory; %d hash seeds in turn"),
    "C31": ("runs", "2 pairs of versions (no tables yet; all tables there): two runs at once with all placements of at most 2 (3) switches at the points of the script (lines, file operations, "
            "download, processes, start of ucd-generate; quick: of pairs of points, all of those that reach outside and every 6th or 16th other); three runs at once; a kill at every point, and two kills, then whole runs; %d hash seeds in turn"),
    "C34": ("surroundings", "names of the temporary and the working directory: every printable ASCII character but / and 9 others at 3 places, 9 (104) after each of them, 38 words; 18 sets of options, 14 of locale and "
            "hash settings, 8 of streams, 8 names of the script, 25 places (links, file systems, umasks, limits, files there): each with every outcome (3 versions succeed, the first and last fault of each kind), "
            "in pairs with some (all); 14 values of every usual variable and of every one named like a string of the sources; %d hash seeds in turn"),
}


def run(prop, tier):
    if prop == "C24":
        jobs = [(s, []) for s in (range(8) if tier == "quick" else range(64))]
    else:
        jobs = [(s, ["%d/8" % s]) for s in range(8)]
    tmp = tempfile.mkdtemp(prefix="gen.")
    script = os.path.join(tmp, "generate_tables.py")
    driver = os.path.join(VERIF, "py", "gen_driver.py")
    part = Part()
    states, units = set(), []
    try:
        shutil.copy(os.path.join(REPO, "generate_tables.py"), script)

        def start(seed, extra=()):
            out = os.path.join(tmp, "%s.json" % seed)
            if os.path.exists(out):
                os.unlink(out)
            err = open(os.path.join(tmp, "%s.err" % seed), "w+")
            p = subprocess.Popen([PY, "-B", driver, prop, script, os.path.join(tmp, "s%s" % seed), tier, out] + [str(x) for x in extra],
                                 env=dict(env(), PYTHONHASHSEED=str(seed)), stdout=err, stderr=err, preexec_fn=limits(4))
            return p, out, err

        def finish(q, limit):
            p, out, err = q
            try:
                code = p.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                return None
            if code not in (0, 1) or not os.path.exists(out):
                err.seek(0)
                raise NoVerdict("driver ends with %d: %s" % (code, err.read()[-3000:]))
            with open(out) as f:
                return json.load(f)

        limit = 600 if tier == "quick" else 6 * 3600
        for at in range(0, len(jobs), 8):
            running = [(s, start(s, extra)) for s, extra in jobs[at:at + 8]]
            results = [(s, finish(q, limit)) for s, q in running]
            if any(r is None for _, r in results):
                raise NoVerdict("the generator does not end within %d s" % limit)
            for s, r in results:
                states.update(r["states"])
                part.transitions += r["transitions"]
                part.traces += r["units"]
                units.append(r["units"])
                if r["sample"]:
                    part.samples.append(r["sample"])
            bad = [(s, r) for s, r in results if r["result"] == "fail"]
            if bad:
                s, r = min(bad, key=lambda x: x[1]["unit"])
                again = finish(start(s, [r["unit"]]), 300)
                note = "" if again and again["result"] == "fail" else "\n(the case alone passes)"
                part.failure = dict(suite=BOUNDS[prop][0], unit=r["unit"], message=r["message"] + note,
                                    reproduce="PYTHONHASHSEED=%s %s -B %s %s /repo/generate_tables.py SCRATCH %s OUT %s" % (s, PY, driver, prop, tier, r["unit"]))
                break
        part.states = len(states)
        name, bound = BOUNDS[prop]
        part.suites = [dict(name=name, bound=bound % len(jobs), units=max(units) if prop == "C24" else sum(units), steps=part.transitions)]
        part.assumptions = ["ucd-generate never breaks a line inside an entry of BY_NAME (its line writer treats an entry as one piece).",
                            "The download and ucd-generate are stand-ins; the end of the last line is not part of the property."]
        return part
    finally:
        for _ in range(50):
            try:
                shutil.rmtree(tmp)
                break
            except OSError:  # a stand-in that has just been ended
                time.sleep(0.1)
