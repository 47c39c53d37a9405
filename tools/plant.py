#!/usr/bin/env python3
"""plant.py [name...]: build the planted bugs of bugs.py in scratch copies, confirm them, and keep them in seeded/.

A bug is kept when the patch applies, the package imports, the stable tests still pass, and its demonstration passes
without and fails with it. Afterwards the check of its property is run on the changed copy and the verdict printed."""
import json
import os
import shutil
import subprocess
import sys
import importlib.util

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
           LC_ALL="C.UTF-8", TZ="UTC")
DEMO_SH = """#!/bin/bash
# run in the root of the repository
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export DEMO_DIR="$W" SCIKIT_MINE_DATA="$W/data"
/opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, **kw)


def tests(copy):
    t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + copy)
    out = copy + ".json"
    sh(["bash", "-c", t, "x", out], copy)
    d = json.load(open(out))
    os.remove(out)
    b = json.load(open("/opt/vp/BASELINE.json"))
    return sorted(set(b["stable"]) - set(d["passed"]))


def plant(b, keep=True, skip_tests=False):
    copy = "/tmp/plant/" + b["id"]
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", copy])
    try:
        for path, old, new in b["edits"]:
            p = os.path.join(copy, path)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit does not apply (%d): %s %r" % (s.count(old), path, old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], copy).stdout
        d = os.path.join("/tmp/plant", b["id"] + ".demo")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        clean = sh(["bash", d + "/demo.sh"], "/repo")
        broken = sh(["bash", d + "/demo.sh"], copy)
        if clean.returncode != 0:
            return "demo fails on the unchanged tree:\n" + clean.stderr[-600:] + clean.stdout[-300:]
        if broken.returncode == 0:
            return "demo passes with the bug"
        if not skip_tests:
            lost = tests(copy)
            if lost:
                return "tests fail: %s" % lost[:4]
        if keep:
            t = os.path.join(VERIF, "seeded", b["id"])
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(d, t)
            open(t + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(t + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
        out = []
        e = dict(ENV, SA_REPO=copy, SA_NOEVIDENCE="1")
        r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), b["property"]], env=e, capture_output=True,
                           text=True)
        out.append("%s rc=%d" % (b["property"], r.returncode))
        lines = [l for l in r.stdout.splitlines() if l.startswith("  ") and "[" in l and ": [" in l]
        return "CONFIRMED " + ("CAUGHT " if r.returncode == 1 else "MISSED ") + "; ".join(out) + "\n   " + "\n   ".join(
            l[:260] for l in lines[:4])
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("bugs", os.path.join(HERE, "bugs.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    from concurrent.futures import ThreadPoolExecutor
    todo = [b for b in m.BUGS if not names or b["id"] in names or b["property"] in names]
    with ThreadPoolExecutor(6) as ex:
        for b, r in zip(todo, ex.map(lambda b: plant(b, "--dry" not in sys.argv, "--notests" in sys.argv), todo)):
            print("%-40s %s" % (b["id"], r), flush=True)


if __name__ == "__main__":
    main()
