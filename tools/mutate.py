#!/usr/bin/env python3
"""Mutation sweep: small changes all over the package, judged by the checks of the parts they are in.

    mutate.py sample N SEED OUT.jsonl [FILE ...]   pick N mutants
    mutate.py run MUTANTS.jsonl RESULTS.jsonl [JOBS]
Mutants live in scratch copies under /tmp; /repo is never touched.  No check uses this.
"""
import ast
import os
import sys
import json
import random
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SRC = Path(os.environ.get("RS_MUT_SRC", "/repo")) / "resistics"
SKIP_FN = {"plot", "to_string", "summary", "__repr__", "__str__", "_add_stack_data", "plot_level_stack", "plot_level_section", "get_fig", "_get_stack_fig", "prepare_plot", "flagging"}
CHECKS = {
    "sampling.py": ["C01", "C27", "C02", "C08", "C10"],
    "time.py": ["C02", "C28", "C24", "C25", "C26", "C32", "C31", "C05", "C04", "C23"],
    "decimate.py": ["C06", "C07", "C28", "C26", "C05", "C03", "C23", "C20"],
    "window.py": ["C08", "C09", "C10", "C28", "C26", "C05", "C03", "C20", "C23"],
    "spectra.py": ["C11", "C12", "C29", "C26", "C28", "C05", "C03", "C23"],
    "calibrate.py": ["C13", "C30", "C05", "C23"],
    "gather.py": ["C14", "C15", "C31", "C20", "C05", "C28"],
    "regression.py": ["C16", "C17", "C31", "C18", "C28", "C05", "C23", "C03"],
    "transfunc.py": ["C16", "C17", "C23", "C31"],
    "project.py": ["C19", "C20", "C21", "C18"],
    "config.py": ["C23", "C22", "C21"],
    "letsgo.py": ["C22", "C31", "C21", "C18", "C19", "C20"],
    "common.py": ["C05", "C23", "C04", "C19", "C28", "C03", "C26", "C18"],
    "errors.py": ["C02", "C19"],
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Pow: "*", ast.Mod: "*"}
NAMES = {"floor": "ceil", "ceil": "floor", "min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "any": "all", "all": "any",
         "absolute": "real", "zeros": "ones", "ones": "zeros", "first_time": "last_time", "last_time": "first_time", "rfft": "fft", "sorted": "list",
         "win_size": "olap_size", "olap_size": "win_size", "real": "imag", "imag": "real", "out_chans": "in_chans", "in_chans": "out_chans", "cross_chans": "in_chans"}


def mutants(path):
    src = path.read_text()
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()
    res = []

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    def put(a, b, new, kind, line, fn):
        res.append({"file": path.name, "a": a, "b": b, "old": raw[a:b].decode(), "new": new, "kind": kind, "line": line, "fn": fn})

    def walk(node, fn):
        for child in ast.iter_child_nodes(node):
            name = fn
            if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                if child.name in SKIP_FN or (isinstance(child, ast.FunctionDef) and "fig" in child.name):
                    continue
                name = f"{fn}.{child.name}" if fn else child.name
            if isinstance(child, ast.Raise):
                continue
            if isinstance(child, ast.Expr):
                if isinstance(child.value, ast.Constant):
                    continue
                t = seg(child)
                if t.startswith("logger.") or t.startswith("messages.append"):
                    continue
                if isinstance(child.value, ast.Call):
                    a, b = span(child)
                    put(a, b, "pass", "drop call", child.lineno, name)
            if isinstance(child, ast.Assign) and seg(child.targets[0]).startswith("messages"):
                continue
            if isinstance(child, ast.JoinedStr):
                continue
            visit(child, name)
            walk(child, name)

    def visit(n, fn):
        if not fn:
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            put(a, b, f" {CMP[type(n.ops[0])]} ", "compare", n.lineno, fn)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) :
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Pow: "**", ast.Mod: "%"}[type(n.op)]
            if mid.count(op) == 1:
                put(a, b, mid.replace(op, BIN[type(n.op)]), "arith", n.lineno, fn)
        if isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            put(a, b, " or " if isinstance(n.op, ast.And) else " and ", "bool", n.lineno, fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            put(a, b, f"({seg(n.operand)})", "not", n.lineno, fn)
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not ...:
            a, b = span(n)
            if isinstance(n.value, bool):
                put(a, b, str(not n.value), "flag", n.lineno, fn)
            elif isinstance(n.value, int):
                put(a, b, str(n.value + 1), "constant", n.lineno, fn)
                if n.value > 0:
                    put(a, b, str(n.value - 1), "constant", n.lineno, fn)
        if isinstance(n, (ast.If, ast.IfExp)):
            a, b = span(n.test)
            put(a, b, "True", "branch", n.lineno, fn)
            put(a, b, "False", "branch", n.lineno, fn)
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            a, b = span(n)
            put(b - len(n.attr), b, NAMES[n.attr], "name", n.lineno, fn)
        if isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            a, b = span(n)
            put(a, b, NAMES[n.id], "name", n.lineno, fn)
        if isinstance(n, ast.Call) and n.keywords and not seg(n).startswith("logger"):
            k = n.keywords[-1]
            if k.arg:
                a, b = span(k)
                # with the comma before it
                while raw[a - 1 : a] in (b" ", b"\n"):
                    a -= 1
                if raw[a - 1 : a] == b",":
                    put(a - 1, b, "", "drop argument", k.lineno if hasattr(k, "lineno") else n.lineno, fn)
        if isinstance(n, ast.Continue):
            a, b = span(n)
            put(a, b, "break", "jump", n.lineno, fn)
        if isinstance(n, ast.Break):
            a, b = span(n)
            put(a, b, "continue", "jump", n.lineno, fn)

    walk(ast.parse(src), "")
    good = []
    for m in res:
        try:
            ast.parse(raw[: m["a"]] + m["new"].encode() + raw[m["b"] :])
            good.append(m)
        except SyntaxError:
            pass
    return good


CACHE = Path(os.environ.get("RS_MUT_CACHE", "/tmp/mut-cache"))

ONE = '''
import sys, json, random, tempfile, shutil, os
from pathlib import Path
sys.path.insert(0, {verif!r})
import check
pid, cache = sys.argv[1], Path(sys.argv[2])
prop = dict(check.PROPS[pid], shards=dict(quick={shards}))
f = cache / (pid + ".json")
work = Path(tempfile.mkdtemp(prefix="rsmut-"))
try:
    if not f.exists():
        f.write_text(json.dumps(check.design(prop, "quick", 1, work)[1]))
    if len(sys.argv) > 3:
        sys.exit(0)
    cases = json.loads(f.read_text())
    traces = check.drive(prop, "quick", 1, cases, work)
    fails = check.judge_all(prop, traces, work)
    byid = dict((e["id"], e) for t in traces for e in map(json.loads, t.read_text().splitlines()))
    known = [k for k in json.loads((check.VERIF / "known_findings.json").read_text())["findings"] if k["property"] == pid]
    new = [f for f in fails if not any(check.matches(k, f, byid[f["id"]]) for k in known)]
    print("@@" + json.dumps(sorted(set(c for f in new for c in f["clauses"]))))
except check.MachineryError as e:
    print("@@" + json.dumps(["MACHINERY " + str(e)]))
finally:
    shutil.rmtree(work, ignore_errors=True)
'''


def judge(m, shards=3):
    d = Path(tempfile.mkdtemp(prefix="mut-", dir="/tmp"))
    try:
        repo = d / "repo"
        repo.mkdir()
        subprocess.run(["cp", "-a", str(SRC), str(repo)], check=True)
        p = repo / "resistics" / m["file"]
        raw = p.read_bytes()
        assert raw[m["a"] : m["b"]].decode() == m["old"]
        p.write_bytes(raw[: m["a"]] + m["new"].encode() + raw[m["b"] :])
        env = dict(os.environ, RS_REPO=str(repo), VERIF_TIER="quick")
        sys.path.insert(0, str(VERIF))
        from props import PROPS

        for pid in m.get("checks") or CHECKS.get(m["file"], []):
            if pid not in PROPS:
                continue
            r = subprocess.run([sys.executable, "-c", ONE.format(verif=str(VERIF), shards=shards), pid, str(CACHE)], env=env, capture_output=True, text=True)
            got = [json.loads(x[2:]) for x in r.stdout.splitlines() if x.startswith("@@")]
            if not got:
                return dict(m, by=pid, clauses=["ERROR " + r.stderr[-300:]])
            if got[0]:
                return dict(m, by=pid, clauses=got[0])
        return dict(m, by=None, clauses=[])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "sample":
        n, seed, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
        files = sys.argv[5:] or sorted(CHECKS)
        ms = [m for f in files for m in mutants(SRC / f)]
        print(len(ms), "mutants in all", {f: sum(m["file"] == f for m in ms) for f in files})
        ms = random.Random(seed).sample(ms, min(n, len(ms)))
        Path(out).write_text("".join(json.dumps(m) + "\n" for m in ms))
    else:
        ms = [json.loads(x) for x in Path(sys.argv[2]).read_text().splitlines()]
        CACHE.mkdir(exist_ok=True)
        sys.path.insert(0, str(VERIF))
        from props import PROPS

        for pid in sorted({c for m in ms for c in (m.get("checks") or CHECKS[m["file"]]) if c in PROPS}):
            if not (CACHE / f"{pid}.json").exists():
                subprocess.run([sys.executable, "-c", ONE.format(verif=str(VERIF), shards=3), pid, str(CACHE), "x"])
        with open(sys.argv[3], "a") as f, ThreadPoolExecutor(int(sys.argv[4]) if len(sys.argv) > 4 else 3) as ex:
            for r in ex.map(judge, ms):
                f.write(json.dumps(r) + "\n")
                f.flush()
