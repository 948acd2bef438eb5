#!/usr/bin/env python3
"""Runs the check of one property.

    check.py PROP [quick|thorough]     decide property PROP on /repo's current tree
    check.py setup                     verify that the tools are there
    check.py replay FILE               judge the events of a replay file again
    check.py all [quick|thorough]      every property in turn (not used by the manifest)

For a property: TLC checks the design (MC_*.tla) and emits its reachable states or
behaviours as test cases; the driver runs them, and further generated ones, on the
real code under the project's interpreter and records a trace; TLC validates the trace
against the specification (T_*.tla).  Exit 0: held; exit 1 with a VIOLATION line:
broken; anything else: the machinery failed.
"""
import os
import re
import sys
import json
import time
import random
import shutil
import tempfile
import subprocess
from pathlib import Path
from concurrent.futures import ThreadPoolExecutor

VERIF = Path(__file__).resolve().parent
SPEC = VERIF / "spec"
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, str(VERIF))
sys.dont_write_bytecode = True
from props import PROPS


class MachineryError(Exception):
    pass


def tlc(module, cfg, work, env=None, workers=1, extra=(), timeout=840, heap="4g"):
    """Run TLC; returns (output, returncode)"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", str(cfg), *extra, str(module)]  # fmt: skip
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC timed out on {module}") from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.stdout + r.stderr, r.returncode


def tagged(out, tag):
    """The JSON values printed by the specification with PrintT under a tag"""
    res = []
    for line in out.splitlines():
        if line.startswith(f'"@@{tag} '):
            res.append(json.loads(json.loads(line)[len(tag) + 3 :]))
    return res


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", out)
    if m:
        return int(m.group(1)), int(m.group(1))
    return 0, 0


def design(prop, tier, seed, work):
    """Check the design of the property; returns coverage and emitted cases"""
    cov = {"states": 0, "transitions": 0, "models": []}
    cases = []
    for mc in prop.get("mc", []):
        if mc.get("tier", tier) != tier:
            continue
        cfg = mc.get("cfg_" + tier, mc.get("cfg", mc["module"] + ".cfg"))
        extra, workers, sim = [], 8, mc.get("simulate")
        if sim:
            num, depth = sim[tier]
            extra, workers = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)], 1
        t0 = time.time()
        out, rc = tlc(mc["module"] + ".tla", cfg, work, workers=workers, extra=extra)
        if mc.get("expect") == "violation":
            # a design with a known flaw in it: the invariants must be able to tell
            if "is violated" not in out:
                raise MachineryError(f"design check {mc['module']} {cfg} did not find the flaw that is in it")
            gen, dist = stats(out)
            cov["models"].append({"module": mc["module"], "config": cfg, "mode": "negative control: violation found as it must be",
                                  "states": dist, "generated": gen, "wall_s": round(time.time() - t0, 2)})  # fmt: skip
            continue
        if rc != 0 or "Error:" in out:
            print(out[-3000:])
            raise MachineryError(f"design check {mc['module']} failed (exit {rc})")
        gen, dist = stats(out)
        if gen == 0:
            raise MachineryError(f"design check {mc['module']} explored nothing")
        # TLC's workers print in any order; of very many cases a sample is replayed
        got = sorted({json.dumps(c, sort_keys=True) for c in tagged(out, "CASE")})
        emitted = len(got)
        most = mc.get("cases", {"quick": 300, "thorough": 6000})[tier]
        if emitted > most:
            got = sorted(random.Random(seed).sample(got, most))
        cases += got
        cov["states"] += dist
        cov["transitions"] += gen
        cov["models"].append({"module": mc["module"], "config": cfg, "mode": "simulate" if sim else "exhaustive",
                              "states": dist, "generated": gen, "cases_emitted": emitted, "cases_used": len(got),
                              "wall_s": round(time.time() - t0, 2)})  # fmt: skip
    return cov, cases


def complete(line):
    try:
        json.loads(line)
        return True
    except ValueError:
        return False


def drive(prop, tier, seed, cases, work):
    """Run the driver in several processes, each with its part of the cases and a seed of its own

    Returns one trace per process; events are numbered through.
    """
    K = prop.get("shards", {}).get(tier, {"quick": 4, "thorough": 8}[tier])
    with ThreadPoolExecutor(K) as pool:
        traces = list(pool.map(lambda k: drive_one(prop, tier, seed if k == 0 else seed * 7919 + k, cases[k::K], work / f"p{k}"), range(K)))
    n, res = 0, []
    for t in traces:
        lines = []
        for x in t.read_text().splitlines():
            n += 1
            lines.append(json.dumps(dict(json.loads(x), id=n)))
        t.write_text("".join(x + "\n" for x in lines))
        if lines:
            res.append(t)
    return res


def drive_one(prop, tier, seed, cases, work):
    work.mkdir()
    cf = work / "cases.ndjson"
    cf.write_text("".join(x + "\n" for x in cases))
    trace = work / "trace.ndjson"
    scratch = work / "scratch"
    scratch.mkdir()
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
               TZ="UTC", LC_ALL="C.UTF-8", TMPDIR=str(scratch), MPLBACKEND="Agg")  # fmt: skip
    env.pop("PYTHONPATH", None)
    cmd = [PY, str(VERIF / "harness" / "main.py"), prop["driver"], "--tier", tier, "--seed", str(seed),
           "--cases", str(cf), "--out", str(trace), "--work", str(scratch)]  # fmt: skip
    limit = 300 if tier == "quick" else 3400
    try:
        r = subprocess.run(cmd, env=env, cwd=scratch, capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        # a call that the per call limit could not interrupt
        lines = trace.read_text().splitlines() if trace.exists() else []
        while lines and not complete(lines[-1]):
            lines.pop()
        lines.append(json.dumps({"ev": "crash", "id": len(lines) + 1, "ok": False, "err": "driver timed out",
                                 "i": {}, "o": {}}))  # fmt: skip
        trace.write_text("".join(x + "\n" for x in lines))
        return trace
    if r.returncode != 0:
        print(r.stdout[-2000:], r.stderr[-6000:])
        raise MachineryError(f"driver {prop['driver']} failed (exit {r.returncode})")
    return trace


def judge_all(prop, traces, work):
    with ThreadPoolExecutor(len(traces)) as pool:
        res = list(pool.map(lambda t: judge(prop, t, work, len(t.read_text().splitlines())), traces))
    return [f for fails, _ in res for f in fails]


def judge(prop, trace, work, n=None):
    """Validate a trace; returns list of failures [{id, ev, clauses}]"""
    m = prop["trace"]
    limit = 840 if os.environ.get("VERIF_TIER") != "thorough" else 7000
    out, rc = tlc(m + ".tla", m + ".cfg", work, env={"RS_TRACE": str(trace)}, timeout=limit, heap="3g")
    fails = tagged(out, "FAIL")
    only = prop.get("clauses")
    if only is not None:
        only = {*only, "valid_inputs_are_accepted"}
        fails = [dict(f, clauses=sorted(only & set(f["clauses"]))) for f in fails if only & set(f["clauses"])]
    if rc != 0 or "Error:" in out:
        # the observation of some event is outside what the specification can read
        mm = re.findall(r"/\\ tline = (\d+)", out) or re.findall(r"^tline = (\d+)", out, re.M)
        if mm and ("Attempted" in out or "evaluating" in out.lower() or "CASE" in out or "Overflow" in out):
            k = int(mm[-1])
            lines = Path(trace).read_text().splitlines()
            e = json.loads(lines[k - 1])
            msg = re.sub(r"\s+", " ", out[out.find("Error:") :][:400])
            fails.append({"id": e["id"], "ev": e["ev"], "clauses": ["observation_has_expected_shape"], "note": msg})
            return fails, out
        print(out[out.find("rror"):][:1500])
        raise MachineryError(f"trace validation {m} failed (exit {rc})")
    if n is not None and stats(out)[1] != n + 1:
        print(out[-3000:])
        raise MachineryError("trace not fully consumed")
    return fails, out


def corrupt(events, rng, k):
    """k copies of events with one observed number changed, and their ids"""

    def leaves(o, path=()):
        if isinstance(o, bool):
            yield path, "bool"
        elif isinstance(o, int):
            yield path, "int"
        elif isinstance(o, dict):
            for a, b in o.items():
                yield from leaves(b, path + (a,))
        elif isinstance(o, list):
            for a, b in enumerate(o):
                yield from leaves(b, path + (a,))

    good = [e for e in events if e["ok"] and e["o"] and any(True for _ in leaves(e["o"]))]
    res = []
    for e in rng.sample(good, min(k, len(good))):
        c = json.loads(json.dumps(e))
        path, kind = rng.choice(list(leaves(c["o"])))
        o = c["o"]
        for p in path[:-1]:
            o = o[p]
        # numbers in thousandths or the like are compared with a tolerance
        o[path[-1]] = (not o[path[-1]]) if kind == "bool" else o[path[-1]] + (1 if abs(o[path[-1]]) < 100 and rng.random() < 0.5 else 1009)
        res.append(c)
    return res


def matches(finding, fail, event):
    """Does a failure fall under a recorded known finding: same clause and same call site or history"""
    if finding["ev"] != fail["ev"] or not set(fail["clauses"]) <= set(finding["clauses"]):
        return False
    return all(event["i"].get(k) in v for k, v in finding.get("inputs", {}).items())


def run(pid, tier):
    prop = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = Path(tempfile.mkdtemp(prefix=f"rsverif-{pid}-"))
    try:
        cov, cases = design(prop, tier, seed, work)
        traces = drive(prop, tier, seed, cases, work)
        events = [json.loads(x) for t in traces for x in t.read_text().splitlines()]
        if not events:
            raise MachineryError("empty trace")
        fails = judge_all(prop, traces, work)
        byid = {e["id"]: e for e in events}
        known = json.loads((VERIF / "known_findings.json").read_text())["findings"]
        known = [k for k in known if k["property"] == pid]
        seen, new = {}, []
        for f in fails:
            k = next((k for k in known if matches(k, f, byid[f["id"]])), None)
            if k is None:
                new.append(f)
            else:
                seen[k["what"]] = seen.get(k["what"], 0) + 1
        for k in known:
            if k["what"] in seen:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        # binding: a trace with a changed observation must be rejected
        bind = {"corrupted": 0, "rejected": 0}
        if not new:
            rng = random.Random(seed)
            prefix = prop.get("session")
            bad = corrupt(events, rng, 40)
            if prefix:
                bad = corrupt_sessions(events, rng, prefix, 12)
            btrace = work / "corrupt.ndjson"
            flat, ids = [], set()
            for j, b in enumerate(bad):
                grp = b if prefix else [b]
                for e in grp:
                    e["id"] = len(flat) + 1
                    e["grp"] = j
                    flat.append(e)
            btrace.write_text("".join(json.dumps(x) + "\n" for x in flat))
            if flat:
                bf, _ = judge(prop, btrace, work)
                ids = {flat[f["id"] - 1]["grp"] for f in bf}
                if any(f["clauses"] == ["observation_has_expected_shape"] for f in bf):
                    ids |= {0}
            bind = {"corrupted": len(bad), "rejected": len(ids)}
            if bad and not ids:
                raise MachineryError("no corrupted observation was rejected: the trace check is not binding")
        evs = {}
        for e in events:
            evs[e["ev"]] = evs.get(e["ev"], 0) + 1
        distinct = len({json.dumps([e["ev"], e["i"]], sort_keys=True) for e in events})
        rng = random.Random(seed)
        sample = [json.loads(json.dumps(e)) for e in rng.sample(events, min(4, len(events)))]
        for s in sample:
            if len(json.dumps(s)) > 1500:
                s["o"] = {"(shortened)": json.dumps(s["o"])[:500]}
                s["i"] = {"(shortened)": json.dumps(s["i"])[:500]}
        cov.update(traces_validated_against_impl=len(events), events_by_kind=evs, distinct_events=distinct,
                   refused_calls=sum(1 for e in events if not e["ok"]), corrupted_observations=bind,
                   samples=sample, exhaustive=False)  # fmt: skip
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
              "assumptions": prop.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "violations": len(new)}  # fmt: skip
        if not os.environ.get("RS_NOEVIDENCE"):  # set when a copy with a planted bug is checked
            (VERIF / "evidence").mkdir(exist_ok=True)
            (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1))
        print(f"{pid} {tier}: {cov['states']} model states, {len(events)} observed calls {evs}, "
              f"{len(new)} failing, corrupted {bind}, {ev['wall_s']} s")  # fmt: skip
        if new:
            out = VERIF / "out"
            out.mkdir(exist_ok=True)
            rp = out / f"{pid}-replay{os.getpid() if os.environ.get('RS_NOEVIDENCE') else ''}.json"
            f0 = new[0]
            e0 = byid[f0["id"]]
            upto = [e0]
            if prop.get("session"):
                k = events.index(e0)
                j = max((x for x in range(k + 1) if events[x]["ev"] == prop["session"]), default=k)
                upto = events[j : k + 1]
            rp.write_text(json.dumps({"property": pid, "tier": tier, "seed": seed, "failure": f0, "events": upto,
                                      "failures": new[:50]}, indent=1))  # fmt: skip
            for f in new[:5]:
                e = byid[f["id"]]
                print("  failing:", f["ev"], f["clauses"], "err=" + e["err"], json.dumps(e["i"])[:300],
                      json.dumps(e["o"])[:300])  # fmt: skip
            print(f"VIOLATION property={pid} replay={rp}")
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def corrupt_sessions(events, rng, start, k):
    """k sessions (runs of events from a start event) each with one changed observation"""
    sessions, cur = [], []
    for e in events:
        if e["ev"] == start and cur:
            sessions.append(cur)
            cur = []
        cur.append(e)
    sessions.append(cur)
    res = []
    for s in rng.sample(sessions, min(k, len(sessions))):
        s = json.loads(json.dumps(s))
        order = list(range(len(s)))
        rng.shuffle(order)
        for j in order:
            c = corrupt([s[j]], rng, 1)
            if c:
                s[j] = c[0]
                res.append(s)
                break
    return res


def replay(path):
    """Judge the events of a replay file again, and run the check that produced it"""
    r = json.loads(Path(path).read_text())
    prop = PROPS[r["property"]]
    work = Path(tempfile.mkdtemp(prefix="rsverif-replay-"))
    try:
        t = work / "t.ndjson"
        t.write_text("".join(json.dumps(e) + "\n" for e in r["events"]))
        fails, _ = judge(prop, t, work)
        for f in fails:
            print(f)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    os.environ["VERIF_SEED"] = str(r["seed"])
    return run(r["property"], r["tier"])


def setup():
    for p in (PY, *JARS.split(":")):
        if not Path(p).exists():
            raise MachineryError(f"{p} is missing")
    for t in sorted(SPEC.glob("*.tla")):
        r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", t.name], cwd=SPEC, capture_output=True, text=True)
        if r.returncode != 0:
            print(r.stdout[-2000:])
            raise MachineryError(f"{t.name} does not parse")
    print("setup ok")
    return 0


def main():
    what = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        if what == "setup":
            return setup()
        if what == "replay":
            return replay(sys.argv[2])
        if what == "all":
            rcs = {p: run(p, tier) for p in PROPS}
            print(rcs)
            return max(rcs.values())
        return run(what, tier)
    except MachineryError as e:
        print(f"MACHINERY-ERROR {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
