"""C35: names, orders, places and units do not change a transfer function"""
import json
import shutil
import numpy as np
import rs

CH = ["Ex", "Ey", "Hx", "Hy", "Hz"]
SETS = [[1], [2], [1, 2]]


def bookkeeping(tr, ctx):
    from resistics import letsgo as lg, time as t, decimate as d, window as w, spectra as sp, regression as r
    from resistics.config import Configuration
    from resistics.transfunc import TransferFunction

    rng = ctx.rng
    count = [0]
    TIDY = dict(o1=0, o2=0, x=0)
    TIDY["in"] = 0

    class World:
        """What was measured, and with which configuration it is processed"""

        def __init__(self):
            roles = rng.sample(CH, 4)
            if rng.random() < 0.4:
                roles = ["Ex", "Ey", "Hx", "Hy"]
            self.out, self.inp = roles[:2], roles[2:]
            self.sites = {"out": 1, "in": rng.choice([1, 1, 2])}
            self.sites["cross"] = rng.choice([self.sites["in"], self.sites["in"], 3, 3])
            apart = self.sites["cross"] != self.sites["in"]
            self.cross = rng.sample(CH, 2) if apart and rng.random() < 0.5 else list(self.inp)
            self.tf = TransferFunction(variation="mine", out_chans=self.out, in_chans=self.inp, cross_chans=self.cross)
            self.fs = rng.choice([128.0, 64, 0.5, 10])
            self.first = rs.base_time(rng.choice(["2021-05-01 00:00:00.25", "2019-12-31 23:59:50"]))
            self.lag = rng.choice([0, 0, 17, 4001])
            self.n = [rng.randint(700, 1100), rng.randint(700, 1100)]
            self.start = [0, self.n[0] + rng.choice([1, 60, 1000])]
            g = np.random.default_rng(rng.randint(0, 2**31))
            common = [g.normal(size=(2, n)) for n in self.n]
            Z = g.integers(-3, 4, size=(5, 2))
            mixed = {s: g.integers(-3, 4, size=(5, 2)) for s in (1, 2, 3)}
            # the sites see the same sources, and noise of their own
            self.data = {}
            for s in (1, 2, 3):
                for k in (0, 1):
                    a = mixed[s] @ common[k] + 0.7 * g.normal(size=(5, self.n[k]))
                    self.data[s, k + 1] = dict(zip(CH, np.round(a * 400)))
            self.noise = g
            self.unit = rng.choice([1, 1, 5, 14])  # amplified by two to the power of so much
            self.setup = dict(
                dec_setup=d.DecimationSetup(n_levels=rng.choice([1, 2]), per_level=rng.choice([2, 3]), min_samples=100),
                decimator=rng.choice([d.Decimator(), d.Decimator(resample=False)]),
                win_setup=rng.choice([w.WindowSetup(min_size=24, min_olap=6, win_factor=8, min_n_wins=4), w.WindowSetup(min_size=32, min_olap=16, win_factor=4, min_n_wins=4, olap_proportion=0.5)]),
                time_processors=rng.choice([[], [], [t.RemoveMean()], [t.LowPass(cutoff=self.fs * 0.4)], [t.InterpolateNans(), t.HighPass(cutoff=self.fs * 0.01)]]),
                spectra_processors=rng.choice([[], [], [sp.SpectraSmootherUniform(length_proportion=0.1)]]),
                time_readers=[t.TimeReaderNumpy()],
            )  # fmt: skip
            self.fourier = rng.choice([{}, dict(win_fnc="hann"), dict(detrend="constant"), dict(win_fnc=("tukey", 0.3), detrend=None)])
            self.intercept = rng.random() < 0.2
            self.cfg_name = rng.choice(["default", "mine", "a1"])

        def config(self, workers=1):
            return Configuration(name=self.cfg_name, tf=self.tf, fourier=sp.FourierTransform(workers=workers, **self.fourier),
                                 solver=r.SolverScikitOLS(n_jobs=1, fit_intercept=self.intercept), **self.setup)  # fmt: skip

        def used(self, s):
            names = set()
            for role, chans in (("out", self.out), ("in", self.inp), ("cross", self.cross)):
                if self.sites[role] == s:
                    names |= set(chans)
            return names

        def exponent(self, s, c, amp):
            if s == self.sites["in"] and c in self.inp:
                return amp["in"]
            if s == self.sites["out"] and c in self.out:
                return amp["o1"] if c == self.out[0] else amp["o2"]
            if s == self.sites["cross"] and c in self.cross:
                return amp["x"]
            return rng.choice([0, 3])

    class Proj:
        def __init__(self, W, tidy):
            count[0] += 1
            self.W, self.tidy = W, tidy
            self.at = ctx.work / f"b{count[0]}"
            names = ["s1", "s2", "s3"] if tidy else rng.sample(rng.choice([["site", "S", "a", "z9", "s10", "s1", "Site 2"], ["s 1", "s_1", "S_1"], ["b", "a_b", "a"]]), 3)
            self.site = dict(zip((1, 2, 3), names))
            # the time of the project is its own; the recordings keep their place after its reference
            self.shift = 0 if tidy else rng.choice([0, 1, 86400 * 37, -3600 * 5]) * rs.Fraction(1)
            lg.new(self.at, {"ref_time": str(self.time(-W.lag))})
            self.env = None

        def time(self, k):
            return rs.mk_time(rs.secs(self.W.first) + self.shift + rs.Fraction(k) / rs.Fraction(self.W.fs))

        def sites(self):
            return sorted(set(self.W.sites.values()))

        def write(self, rec, name, order, amp):
            W = self.W
            for s in self.sites():
                path = self.at / "time" / self.site[s] / name
                if path.exists():
                    shutil.rmtree(path)
                chans = [c for c in CH if c in W.used(s) or (not self.tidy and rng.random() < 0.4)]
                if order == 2:
                    chans = chans[::-1]
                elif order == 3 or not self.tidy:
                    rng.shuffle(chans)
                v = [W.data[s, rec][c] * 2.0 ** (W.unit * W.exponent(s, c, amp)) for c in chans]
                v = np.array([x if c in W.used(s) else W.noise.normal(size=len(x)) for c, x in zip(chans, v)])
                extra = {} if self.tidy else dict(rs.details(rng))
                chan_kw = {c: {"serial": rng.choice(["", "3"])} for c in chans}
                td = rs.time_data(W.fs, W.n[rec - 1], chans, self.time(W.start[rec - 1]), v, chan_kw=chan_kw, **extra)
                keys = rng.sample(chans, len(chans))
                td.metadata.chans_metadata = {c: td.metadata.chans_metadata[c] for c in keys}
                t.TimeWriterNumpy().run(path, td)
                if not self.tidy and rng.random() < 0.4:
                    np.save(path / "data.npy", np.asfortranarray(td.data))
            self.env = None

        def get(self):
            if self.env is None or (not self.tidy and rng.random() < 0.2):
                workers = 1 if self.tidy else rng.choice([1, 2, -1])
                self.env = lg.load(self.at, self.W.config(workers))
            return self.env

        def process(self, name):
            env = self.get()
            for s in sorted(self.sites(), key=lambda x: x if self.tidy else rng.random()):
                lg.process_time_to_evals(env, self.site[s], name)

        def solve(self):
            W, env = self.W, self.get()
            kw = {}
            if W.sites["in"] != 1 or W.sites["cross"] != 1 and rng.random() < 0.5:
                kw["in_site"] = self.site[W.sites["in"]]
            if W.sites["cross"] != W.sites["in"] or rng.random() < 0.3:
                kw["cross_site"] = self.site[W.sites["cross"]]
            if not self.tidy and rng.random() < 0.3:
                kw["postfix"] = "again"
            sol = lg.process_evals_to_tf(env, W.fs, self.site[1], **kw)
            return sol

        def other(self):
            """Recordings that have nothing to do with it"""
            W = self.W
            k = rng.choice(["fs", "site"])
            count[0] += 1
            n = 400
            fs = W.fs * 2 if k == "fs" else W.fs
            site = self.site[rng.choice(self.sites())] if k == "fs" else f"{rng.choice('AZ')}{count[0]}"
            name = f"{rng.choice(['0', 'zz', 'M'])}{count[0]}"
            td = rs.time_data(fs, n, CH, self.time(rng.choice([0, 5, 20000])), W.noise.normal(size=(5, n)))
            t.TimeWriterNumpy().run(self.at / "time" / site / name, td)
            self.env = None
            if rng.random() < 0.5:
                lg.process_time_to_evals(self.get(), site, name)

    def array(W, sol):
        return np.array([[np.asarray(sol.components[f"{o}{i}"].to_numpy()) for i in W.inp] for o in W.out])

    def session(case):
        W = World()
        bases = []
        for S in SETS:
            p = Proj(W, True)
            for k in S:
                p.write(k, f"m{k}", 1, TIDY)
            for k in S:
                p.process(f"m{k}")
            sol = p.solve()
            bases.append((array(W, sol), list(sol.freqs)))
            shutil.rmtree(p.at)
        spread = np.abs(bases[0][0] - bases[1][0]).max()
        assert spread > 1e-3, "the recordings are not to be told apart"
        info = {"out": W.out, "in": W.inp, "cross": W.cross, "sites": W.sites, "fs": str(W.fs)}
        tr.call("start", dict(info, recs=2), lambda: None)
        words = rng.sample(["m", "a", "Z", "meas 1", "run_2", "10", "9", "b.c", "x-y", "M", "é", "q"], 12)
        # names that are part of each other, or nearly the same
        alike = rng.choice([["b", "run_b"], ["run", "run1"], ["1", "11"], ["run 1", "run_1"], ["a", "A"], ["1", "01"], ["m", "m.n"], []])
        for n, x in enumerate(rng.sample(alike, len(alike))):
            words[n + 1] = x
        rec = {k: dict(name=k, order=1, amp=dict(TIDY), here=True) for k in (1, 2)}
        p = Proj(W, False)
        p.write(1, words[1], 1, TIDY)
        p.write(2, words[2], 1, TIDY)
        away = p.at.parent / f"{p.at.name}-away"

        def stow(k, path_name):
            """Out of the project, or back"""
            for s in p.sites():
                a, b = p.at / "time" / p.site[s] / path_name, away / p.site[s] / path_name
                if not rec[k]["here"]:
                    a, b = b, a
                b.parent.mkdir(parents=True, exist_ok=True)
                a.rename(b)
            p.env = None

        def rewrite(k):
            """The recording as it now is to be"""
            if rec[k]["here"]:
                p.write(k, words[rec[k]["name"]], rec[k]["order"], rec[k]["amp"])
            else:
                for s in p.sites():
                    b = away / p.site[s] / words[rec[k]["name"]]
                    if b.exists():
                        shutil.rmtree(b)
                p.write(k, words[rec[k]["name"]], rec[k]["order"], rec[k]["amp"])
                rec[k]["here"] = True
                stow(k, words[rec[k]["name"]])
                rec[k]["here"] = False

        def observe(sol):
            z = array(W, sol)
            found = {"ids": [], "exps": [[rs.NOTINT] * 2] * 2, "freqs": False}
            if not np.isfinite(z).all():
                return found
            for S, (b, freqs) in zip(SETS, bases):
                if b.shape != z.shape:
                    continue
                k = np.zeros((2, 2), dtype=int)
                near = True
                for o in range(2):
                    for i in range(2):
                        a, c = np.linalg.norm(z[o, i]), np.linalg.norm(b[o, i])
                        k[o, i] = round(np.log2(max(a, 1e-200) / max(c, 1e-12)) / W.unit)
                        near = near and np.abs(z[o, i] / 2.0 ** (W.unit * float(k[o, i])) - b[o, i]).max() < 1e-6 * max(c, 0.01)
                if near:
                    return {"ids": S, "exps": k.tolist(), "freqs": bool(np.allclose(sol.freqs, freqs, rtol=1e-9))}
            return found

        for op in case["ops"]:
            k = op.get("r", 0)
            i = dict(op)
            i.pop("op")
            try:
                if op["op"] == "rename":
                    old = words[rec[k]["name"]]
                    rec[k]["name"] = op["name"]
                    for s in p.sites():
                        top = (p.at / "time" if rec[k]["here"] else away) / p.site[s]
                        (top / old).rename(top / words[op["name"]])
                    p.env = None
                elif op["op"] == "reorder":
                    rec[k]["order"] = op["order"]
                    rewrite(k)
                elif op["op"] == "amplify":
                    for j in rec:
                        rec[j]["amp"][op["chan"]] += op["d"]
                        rewrite(j)
                elif op["op"] == "toggle":
                    stow(k, words[rec[k]["name"]])
                    rec[k]["here"] = not rec[k]["here"]
                elif op["op"] == "move":
                    count[0] += 1
                    new = ctx.work / f"moved {count[0]}"
                    p.at.rename(new)
                    p.at, p.env = new, None
                elif op["op"] == "anew":
                    shutil.rmtree(p.at)
                    if away.exists():
                        shutil.rmtree(away)
                    p = Proj(W, False)
                    for j in rec:
                        rewrite(j)
                elif op["op"] == "other":
                    p.other()
            except OSError:
                raise
            if op["op"] == "process":
                tr.call("process", i, lambda: p.process(words[rec[k]["name"]]), limit=60)
            elif op["op"] == "solve":
                tr.call("solve", i, p.solve, observe, limit=60)
            else:
                tr.event(op["op"], i)
        shutil.rmtree(p.at)
        if away.exists():
            shutil.rmtree(away)

    for case in sorted(ctx.cases, key=json.dumps):
        session(case)
