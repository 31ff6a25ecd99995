#!/usr/bin/env python3
"""Turns the textual edits of bugs*.py into seeded/<id>/{patch.diff,demo.sh,meta.json,...}, and tries them out.

plant.py make [ID...]        writes the folders
plant.py table                writes the table of DESIGN.md
plant.py try [ID...]         for each: applies the patch to /repo, builds, tests, demo, the property's check; undoes it
"""
import importlib.util
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
REPO = pathlib.Path("/repo")


def load():
    bugs = []
    for f in sorted(HERE.glob("bugs*.py")):
        spec = importlib.util.spec_from_file_location(f.stem, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        bugs += m.BUGS
    ids = [b["id"] for b in bugs]
    assert len(ids) == len(set(ids)), ids
    return bugs


HEAD = """#!/bin/bash
# Exit 0 if the property holds for this input, nonzero if it does not.
HERE=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
REPO=$PWD
"""
RUST = HEAD + """D=$(mktemp -d) || exit 1
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$HERE/demo.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
unicode-intervals = { path = "$REPO/crates/unicode-intervals"%s }
[workspace]
EOF
cp "$REPO/Cargo.lock" "$D/" 2>/dev/null
cd "$D" && CARGO_TARGET_DIR="$D/target" timeout 250 cargo run -q --offline%s
"""
PY = HEAD + """cd / && PYTHONDONTWRITEBYTECODE=1 timeout 250 python -B "$HERE/demo.py"
"""


def make(b):
    d = VERIF / "seeded" / b["id"]
    with tempfile.TemporaryDirectory() as t:
        t = pathlib.Path(t)
        changed = {}
        for file, old, new in b["edits"]:
            if old == new:
                continue
            text = changed.get(file) or subprocess.run(
                ["git", "-C", str(REPO), "show", "HEAD:" + file], check=True, capture_output=True, text=True).stdout
            if callable(old):
                text2 = old(text)
            else:
                n = text.count(old)
                if n != 1:
                    print(f"{b['id']}: {n} matches in {file} of {old[:60]!r}")
                    return False
                text2 = text.replace(old, new)
            assert text2 != text, b["id"]
            changed[file] = text2
        out = ""
        for file, text in changed.items():
            a = t / "a" / file
            c = t / "b" / file
            a.parent.mkdir(parents=True, exist_ok=True)
            c.parent.mkdir(parents=True, exist_ok=True)
            a.write_text(subprocess.run(["git", "-C", str(REPO), "show", "HEAD:" + file], check=True,
                                        capture_output=True, text=True).stdout)
            c.write_text(text)
            out += subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + file, "b/" + file], cwd=t,
                                  capture_output=True, text=True).stdout
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(out)
    if b["rust"]:
        (d / "demo.rs").write_text(b["rust"] + "\n")
        feats = ', features = ' + b["features"] if b["features"] else ""
        demo = RUST % (feats, " --release" if "Instant" in b["rust"] or "400_000" in b["rust"] else "")
    elif b["py"]:
        (d / "demo.py").write_text(b["py"])
        demo = PY
    else:
        for name, text in b["sh"].get("files", {}).items():
            (d / name).write_text(text)
        demo = HEAD + b["sh"]["run"]
    (d / "demo.sh").write_text(demo)
    (d / "demo.sh").chmod(0o755)
    (d / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    return True


def sh(cmd, timeout=900, cwd="/repo"):
    t = time.time()
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, capture_output=True, text=True, errors="replace")
        return r.returncode, r.stdout + r.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-2000:], time.time() - t


def attempt(b, also=()):
    d = VERIF / "seeded" / b["id"]
    res = {"id": b["id"], "property": b["prop"]}
    sh("git checkout -- .")
    if sh("git status --porcelain")[1].strip():
        sys.exit("/repo is not clean")
    try:
        rc, out, _ = sh(f"git apply {d}/patch.diff")
        res["applies"] = rc == 0
        rc, out, _ = sh("bash /opt/vp/build.sh")
        res["builds"] = rc == 0
        if rc:
            res["log"] = out[-1500:]
            return res
        sh("bash /opt/vp/test.sh /tmp/plant_test.json")
        t = json.load(open("/tmp/plant_test.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base
        failed = sorted(set(stable) - set(t["passed"]))
        res["tests"] = "pass" if not failed else "%d fail: %s" % (len(failed), failed[:4])
        rc, out, s = sh(f"bash {d}/demo.sh", 300)
        res["demo"] = rc
        res["demo_s"] = round(s, 1)
        for p in [b["prop"], *also]:
            rc, out, s = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 {VERIF}/check.py {p}", 900, str(VERIF))
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            res["check_" + p] = (rc, v[:1], round(s, 1)) if rc != 0 else (rc, round(s, 1))
            if rc not in (0, 1) or (rc == 1 and not v):
                res["log"] = out[-1500:]
    finally:
        sh("git checkout -- .")
    return res


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    bugs = [b for b in load() if not ids or b["id"] in ids]
    if cmd == "make":
        for b in bugs:
            make(b)
    elif cmd == "try":
        for b in bugs:
            if not make(b):
                continue
            r = attempt(b)
            print(json.dumps(r), flush=True)
            with open("/tmp/plant_results.jsonl", "a") as f:
                f.write(json.dumps(r) + "\n")
        sh("bash /opt/vp/build.sh")
    elif cmd == "table":      # the table at the end of DESIGN.md
        p = VERIF / "DESIGN.md"
        text = p.read_text()
        head = "| planted bug | caught by | needs |\n|---|---|---|\n"
        start = text.index("@@BUGS@@") if "@@BUGS@@" in text else text.index(head)
        rows = []
        for d in sorted((VERIF / "seeded").iterdir()):
            m = json.loads((d / "meta.json").read_text())
            rows.append("| %s | %s | %s |\n" % (d.name, m["property"], m["needs"].replace("|", "\\|")))
        p.write_text(text[:start] + head + "".join(rows))
    elif cmd == "demo0":      # the demos on the unchanged tree
        sh("bash /opt/vp/build.sh")
        for b in bugs:
            rc, out, s = sh(f"bash {VERIF}/seeded/{b['id']}/demo.sh", 300)
            print(b["id"], rc, round(s, 1), out[-300:] if rc else "", flush=True)


main()
