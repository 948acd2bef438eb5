"""C37: steps of a project that run at the same time"""
import shutil
import numpy as np
import rs
import steps

CH = ["Ex", "Ey", "Hx", "Hy"]
SITES = ["s1", "s2"]


def c37(tr, ctx):
    from resistics import letsgo as lg, project as pj, spectra as sp, time as t
    from resistics.config import Configuration
    from resistics.decimate import DecimationSetup
    from resistics.regression import SolverScikitOLS
    from resistics.transfunc import ImpedanceTensor, Tipper
    from resistics.window import WindowSetup

    rng = ctx.rng
    tok = rs.Tokens()
    np_rng = np.random.default_rng(rng.randint(0, 2**31))
    count = [0]
    ready = "ready"

    def config(name, factor=1.0, var="default"):
        return Configuration(name=name, time_processors=[t.Multiply(multiplier={"Ex": factor})], dec_setup=DecimationSetup(n_levels=2, per_level=2),
                             win_setup=WindowSetup(min_size=16, min_olap=4), solver=SolverScikitOLS(), tf=ImpedanceTensor(variation=var))  # fmt: skip

    def project():
        count[0] += 1
        root = ctx.work / f"il{count[0]}"
        lg.new(root, dict(ref_time=rs.base_time()))
        for s in SITES:
            for m, fs in (("m1", 16), ("m2", 16), ("f1", 32)):
                n = 260
                x = rs.time_data(fs, n, CH, rs.base_time(f"2021-01-0{'12'.find(m[1]) + 1} 00:00:00"), np_rng.normal(size=(4, n)))
                t.TimeWriterNumpy().run(root / "time" / s / m, x)
        env = lg.load(root, config(ready))
        for s in SITES:
            for m in ("m1", "m2", "f1"):
                lg.process_time_to_evals(env, s, m)
        return root

    records = lambda h: [[r.creator.get("name", "") if isinstance(r.creator, dict) else str(r.creator), list(r.messages)] for r in h.records]

    class Step:
        def __init__(self, root, kind):
            self.root, self.kind = root, kind
            s = rng.choice(SITES)
            if kind == "evals":
                m, c = rng.choice(["m1", "m2", "f1"]), rng.choice(["new", "new", "other one"])
                self.out = f"evals {s} {m} {c}"
                self.ins = [f"time {s} {m}"]
                env = lg.load(root, config(c, rng.choice([1.0, 2.0, 5.0])))
                self.fn = lambda: lg.process_time_to_evals(env, s, m)
                self.path = pj.get_meas_evals_path(root, s, m, c)
            elif kind == "time":
                m, os, om = rng.choice(["m1", "m2", "f1"]), rng.choice(SITES + ["new site"]), rng.choice(["x1", "x2"])
                self.out = f"time {os} {om}"
                self.ins = [f"time {s} {m}"]
                env = lg.load(root, config("any", rng.choice([1.0, 2.0, 5.0])))
                self.fn = lambda: lg.process_time(env, s, m, os, om)
                self.path = pj.get_meas_time_path(root, os, om)
            elif kind == "solve":
                fs, post = rng.choice([16.0, 32.0]), rng.choice([None, "a", "b"])
                var = rng.choice(["default", "v2"])
                cross = rng.choice([None] + SITES)
                self.out = f"solution {s} {fs} {post} {var}"
                self.ins = [f"evals {x} {m} {ready}" for x in {s, cross} - {None} for m in (("m1", "m2") if fs == 16.0 else ("f1",))]
                env = lg.load(root, config(ready, var=var))
                self.fn = lambda: lg.process_evals_to_tf(env, fs, s, cross_site=cross, postfix=post)
                self.path = pj.get_results_path(root, s, ready) / pj.get_solution_name(fs, "ImpedanceTensor", var, post)
                self.again = lambda: lg.get_solution(env, s, ready, fs, "ImpedanceTensor", var, post)

        def product(self):
            if self.kind == "solve":
                x = self.again()
                return tok([rs.json.loads(x.json(include={"tf", "freqs", "components"})), records(x.history)])
            r = sp.SpectraDataReader() if self.kind == "evals" else t.TimeReaderNumpy()
            md = r.run(self.path, metadata_only=True)
            x = r.run(self.path)
            return tok([rs.descriptive(x.metadata), x.data if isinstance(x.data, dict) else [x[c] for c in x.metadata.chans], records(md.history)])

        def files(self):
            if self.kind == "solve":
                return {str(self.path.relative_to(self.root))}
            return {str(p.relative_to(self.root)) for p in self.path.rglob("*") if p.is_file()}

    def value(step, res):
        """What the step returned"""
        if step.kind != "solve":
            return tok(res is None)
        return tok(rs.json.loads(res.json(include={"tf", "freqs", "components"})))

    def plain(root):
        return {k: v[1] for k, v in steps.snapshot(root).items() if v is not None}

    def session(cases):
        root = project()
        n = cases[0]["steps"]
        kinds = [rng.choice(["evals", "time", "solve", "solve"])] * n if rng.random() < 0.6 else [rng.choice(["evals", "time", "solve"]) for _ in range(n)]
        if n > 1 and kinds[0] == "solve" and rng.random() < 0.7:
            kinds = ["solve"] * n
        group = []
        while len(group) < n:
            x = Step(root, kinds[len(group)])
            if all(x.out != y.out and x.out not in y.ins and y.out not in x.ins for y in group):
                group.append(x)
        base = steps.snapshot(root)
        tr.event("start", {"steps": [{"out": x.out, "ins": x.ins} for x in group]})
        alone, made = [], plain(root)
        total = {True: [], False: []}
        for k, x in enumerate(group):
            tr.call("alone", {"k": k + 1}, x.fn, lambda r: {"value": value(x, r), "product": x.product()})
            for f in x.files():
                made[f] = None
            # how many gates it goes through by itself
            for writes in (True, False):
                steps.restore(root, base)
                total[writes].append(max(4, steps.Turns(root, [x.fn], [(0, 10**9)], writes).run().gates[0]))
            steps.restore(root, base)
        names = sorted(made)
        for case in cases:
            turns = case["turns"]
            for writes in (True, False):
                # the four turns of a step share its gates
                parts = []
                for g in total[writes]:
                    cuts = sorted(rng.sample(range(1, g), 3))
                    if not writes:  # most calls come before anything is written
                        cuts = sorted(c if rng.random() < 0.5 else g - 1 - rng.randint(0, min(g - 2, 60)) for c in cuts)
                    parts.append([y - x for x, y in zip([0] + cuts, cuts + [10**9])])
                todo = [(k - 1, parts[k - 1].pop(0)) for k in turns]
                todo = [x for x in todo if x[1] > 0]
                box = {}

                def run():
                    box["t"] = steps.Turns(root, [x.fn for x in group], todo, writes).run()
                    return box["t"]

                def product(x):
                    try:
                        return x.product()
                    except Exception:
                        return 0

                def observe(q):
                    now = plain(root)
                    outs = set().union(*[x.files() for x in group])
                    return {"errors": [e for e in q.errors if e],
                            "values": [value(x, r) if not e else 0 for x, r, e in zip(group, q.results, q.errors)],
                            "products": [product(x) for x in group],
                            "gates": list(q.gates),
                            "names_same": sorted(now) == names,
                            "rest_same": all(now.get(k) == v[1] for k, v in base.items() if v is not None and k not in outs)}  # fmt: skip

                tr.call("run", {"turns": [list(x) for x in todo], "writes": writes}, run, observe)
                steps.restore(root, base)
        shutil.rmtree(root)

    per = 5
    for n in (2, 3):
        these = [c for c in ctx.cases if c["steps"] == n]
        for k in range(0, len(these), per):
            session(these[k : k + per])
