"""Entry point of the conformance drivers: main.py PROP --tier T --seed N --cases F --out F"""
import sys
import json
import argparse
import importlib
import random
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
import rs

ap = argparse.ArgumentParser()
ap.add_argument("driver")
ap.add_argument("--tier", default="quick")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--cases", default=None)
ap.add_argument("--out", required=True)
ap.add_argument("--work", required=True)
a = ap.parse_args()
cases = []
if a.cases:
    with open(a.cases) as f:
        cases = [json.loads(x) for x in f]
mod, fn = a.driver.split(":")
tr = rs.Tracer(a.out)
ctx = type("Ctx", (), {})()
ctx.tier, ctx.thorough, ctx.rng, ctx.cases = (
    a.tier,
    a.tier == "thorough",
    random.Random(a.seed),
    cases,
)
ctx.work = Path(a.work)
try:
    getattr(importlib.import_module(mod), fn)(tr, ctx)
except rs.TooManyTimeouts:
    pass
except (Exception, rs.CaseTimeout) as e:
    # valid inputs are prepared with the code under test: it failed to build one of them
    import traceback

    where = [f for f in traceback.extract_tb(e.__traceback__)]
    tr.event("crash", {"where": f"{Path(where[-1].filename).name}:{where[-1].name}"}, ok=False,
             err=f"{type(e).__name__}: {e}"[:300])  # fmt: skip
    traceback.print_exc()
tr.close()
print("events", tr.n)
