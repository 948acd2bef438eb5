#!/usr/bin/env python3
"""Plants bugs: verifies them in scratch copies of /repo and runs the checks against them.

    plant.py add SPEC.py      SPEC.py defines BUGS = [dict(id, property, file, old, new, demo, needs, breaks)]
    plant.py try [ID ...]     run the check of each planted bug's property against a copy with the bug

A bug is kept when its patch applies, all the repository's tests still pass (with the
sklearn stand-in, so that every test file runs) and its demonstration passes without and
fails with it.  Scratch copies live in /tmp and are removed; /repo is never touched.
"""
import os
import sys
import json
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SEEDED = VERIF / "seeded"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", TZ="UTC")

PRE = '''import os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.getcwd()] + ([os.path.join(here, "stubs")] if os.path.isdir(os.path.join(here, "stubs")) else [])
import warnings; warnings.filterwarnings("ignore")
from loguru import logger; logger.remove()
import tempfile, shutil, pathlib
import numpy as np
work = pathlib.Path(tempfile.mkdtemp(prefix="demo-"))
try:
'''
POST = '''
finally:
    shutil.rmtree(work, ignore_errors=True)
print("ok")
'''
SH = '''#!/bin/bash
cd "${REPO_DIR:-$PWD}"
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"
'''


def copy_repo():
    d = Path(tempfile.mkdtemp(prefix="plant-", dir="/tmp"))
    subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
    return d


def demo(folder, repo):
    # laid elsewhere, as it will be
    d = Path(tempfile.mkdtemp(prefix="demo-", dir="/tmp"))
    try:
        shutil.copytree(folder, d / "x", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = subprocess.run(["bash", str(d / "x" / "demo.sh")], cwd=repo, env=ENV, capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    finally:
        shutil.rmtree(d)


def tests(repo):
    env = dict(ENV, PYTHONPATH=str(VERIF / "harness/stubs"))
    r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests/test_common.py", "tests/test_sampling.py", "tests/test_calibrate.py"], cwd=repo, env=env, capture_output=True, text=True)
    return r.returncode, r.stdout[-800:]


def add(b):
    d = copy_repo()
    try:
        repo = d / "repo"
        edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
        for f, old, new in edits:
            p = repo / "resistics" / f
            s = p.read_text()
            if s.count(old) != b.get("count", 1):
                return b["id"], f"old text found {s.count(old)} times in {f}"
            p.write_text(s.replace(old, new))
        out = SEEDED / b["id"]
        tmp = d / "seed"
        tmp.mkdir()
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        (tmp / "patch.diff").write_text(diff)
        body = "\n".join("    " + x for x in b["demo"].strip().splitlines())
        (tmp / "demo.py").write_text(PRE + body + POST)
        (tmp / "demo.sh").write_text(SH)
        if True:  # resistics imports sklearn, which is not installed here
            shutil.copytree(VERIF / "harness/stubs", tmp / "stubs", ignore=shutil.ignore_patterns("__pycache__"))
        meta = {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}
        (tmp / "meta.json").write_text(json.dumps(meta, indent=1) + "\n")
        rc, o = demo(tmp, "/repo")
        if rc != 0:
            return b["id"], "demo fails on the unchanged tree: " + o
        rc, o = demo(tmp, repo)
        if rc == 0:
            return b["id"], "demo passes with the bug"
        rc, t = tests(repo)
        if rc != 0:
            return b["id"], "tests fail with the bug: " + t
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        return b["id"], "planted; demo says: " + o.strip().splitlines()[-1]
    finally:
        shutil.rmtree(d)


def attempt(bid, tier="quick"):
    d = copy_repo()
    try:
        p = SEEDED / bid
        r = subprocess.run(["git", "apply", str(p / "patch.diff")], cwd=d / "repo", capture_output=True, text=True)
        if r.returncode:
            return bid, "patch does not apply"
        prop = json.loads((p / "meta.json").read_text())["property"]
        env = dict(os.environ, RS_REPO=str(d / "repo"), RS_NOEVIDENCE="1")
        r = subprocess.run([sys.executable, "check.py", prop, tier], cwd=VERIF, env=env, capture_output=True, text=True)
        lines = [x for x in r.stdout.splitlines() if "failing:" in x]
        hit = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
        if hit:
            clauses = sorted({c for x in lines for c in x[x.index("[") + 1 : x.index("]")].replace("'", "").split(", ")})
            return bid, f"CAUGHT by {prop}: {clauses}"
        return bid, f"MISSED by {prop} (exit {r.returncode}) {r.stdout[-300:] if r.returncode not in (0, 1) else ''}"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "add":
        ns = {}
        exec(Path(sys.argv[2]).read_text(), ns)
        bugs = [b for b in ns["BUGS"] if len(sys.argv) < 4 or b["id"] in sys.argv[3:]]
        with ThreadPoolExecutor(5) as ex:
            for r in ex.map(add, bugs):
                print(*r, sep=": ", flush=True)
    else:
        ids = sys.argv[2:] or sorted(x.name for x in SEEDED.iterdir())
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(attempt, ids):
                print(*r, sep=": ", flush=True)
