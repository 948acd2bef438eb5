"""C36: writes that are interrupted"""
import signal
import numpy as np
import rs
import steps

CH = ["Ex", "Ey", "Hx", "Hy", "Hz"]
OTHER = -2


def c36(tr, ctx):
    from resistics import decimate as d, letsgo as lg, project as pj, spectra as sp, time as t, window as w
    from resistics.config import Configuration
    from resistics.decimate import DecimationSetup
    from resistics.regression import Solution, SolverScikitOLS
    from resistics.transfunc import ImpedanceTensor
    from resistics.window import WindowSetup

    rng = ctx.rng
    tok = rs.Tokens()
    count = [0]
    np_rng = np.random.default_rng(rng.randint(0, 2**31))

    def values(x):
        data = {str(k): np.asarray(v) for k, v in x.data.items()} if isinstance(x.data, dict) else {"": np.asarray(x.data)}
        return {k: [str(v.dtype), list(v.shape), v.tobytes(order="C").hex()] for k, v in data.items()}

    class AsciiFolder:
        """The channel files of the text writer, which the package reads no more than one of"""

        def run(self, path, metadata_only=False):
            md = t.TimeMetadata.parse_file(path / "metadata.json")
            if metadata_only:
                return md
            v = [np.loadtxt(path / md[c].data_files[0], ndmin=1) for c in md.chans]
            if any(len(x) != md.n_samples for x in v):
                raise ValueError("incomplete")
            return t.TimeData(md, np.array(v, dtype="f4"))

    whole = lambda x: tok([values(x), rs.descriptive(x.metadata)])
    meta = lambda md: tok(["meta", rs.descriptive(md)])

    class Folder:
        """Writers and readers of one kind of product"""

        def __init__(self, kind, same):
            count[0] += 1
            self.kind = kind
            self.root = ctx.work / f"in{count[0]}" / rng.choice(["meas", "a/b"])
            self.root.parent.mkdir(parents=True)
            W = {"time": t.TimeWriterNumpy, "ascii": t.TimeWriterAscii, "decimated": d.DecimatedDataWriter,
                 "windowed": w.WindowedDataWriter, "spectra": sp.SpectraDataWriter}[kind]  # fmt: skip
            R = {"time": t.TimeReaderNumpy, "ascii": lambda: t.TimeReaderAscii(extension=".ascii"), "decimated": d.DecimatedDataReader,
                 "windowed": w.WindowedDataReader, "spectra": sp.SpectraDataReader}[kind]  # fmt: skip
            self.writer, self.reader = W, R
            self.parts = 1
            chans = rng.sample(CH, rng.randint(1, 4))
            if kind == "ascii" and len(chans) > 1:
                self.reader = AsciiFolder
            self.md = dict(rs.details(rng))
            # data smaller or larger than what describes them
            many = rng.random() < 0.5
            n = rng.randint(500, 1500) if many else rng.randint(3, 60)
            first = rs.base_time()
            dtype = rng.choice(["f4", "f8"])
            levels = rng.choice([1, 2, 5])
            sizes = [rng.randint(40, 80) if many else rng.randint(1, 6) for _ in range(levels)]
            self.prod = {}
            for p in (1, 2, 3):
                if kind in ("time", "ascii"):
                    m = n if same else rng.randint(n // 2 + 1, n + 5)
                    v = np_rng.normal(size=(len(chans), m)) * 1000
                    if kind == "ascii":
                        v = np.round(v, 2).astype("f4")
                    x = rs.time_data(10, m, chans, first, v.astype("f4" if kind == "ascii" else dtype), **(self.md if same else rs.details(rng)))
                    if not same:
                        x.metadata.serial = f"no {p}"
                else:
                    ch = chans if same else rng.sample(CH, rng.randint(1, 4))
                    x = rs.level_product(kind, rng, levels, ch, "c16" if kind == "spectra" else dtype, sizes=sizes)
                    x.metadata.serial = f"no {1 if same else p}"
                    if same and p > 1:
                        # only the values differ: the same steps with another filter, say
                        y = self.prod[1]
                        x = type(y)(y.metadata.copy(deep=True), {k: np.array(a * (1 + p)) for k, a in y.data.items()})
                self.prod[p] = x
            self.tokens = {}

        def learn(self):
            """What the readers make of the whole products (text files keep six decimals)"""
            for p, x in self.prod.items():
                self.write(p)()
                self.tokens[p] = self.look()
                steps.restore(self.root, None)
            return self.tokens

        def write(self, p):
            return lambda: self.writer().run(self.root, self.prod[p])

        def look(self):
            try:
                full = whole(self.reader().run(self.root))
            except Exception:
                full = 0
            try:
                mark = meta(self.reader().run(self.root, metadata_only=True))
            except Exception:
                mark = 0
            return full, mark

    class SolutionFile(Folder):
        def __init__(self, kind, same):
            count[0] += 1
            self.kind, self.parts = kind, 0
            self.root = ctx.work / f"in{count[0]}"
            self.root.mkdir()
            site = rng.choice(["s1", "site two"])
            tf = ImpedanceTensor(variation=rng.choice(["default", "v2"]))
            self.at = self.root / "results" / site / "cfg"
            self.prod = {}
            proj = pj.Project(dir_path=self.root, begin_time=rs.base_time(), end_time=rs.base_time(),
                              metadata=pj.ProjectMetadata(ref_time=rs.base_time()), sites={})  # fmt: skip
            self.env = lg.ResisticsEnvironment(proj=proj, config=Configuration(name="cfg", tf=tf))
            self.site, self.tf = site, tf
            from resistics.regression import Component

            for p in (1, 2, 3):
                n = rng.randint(1, 8)
                num = lambda: [float(x) for x in np_rng.normal(size=n)]
                comp = {f"{o}{i}": Component(real=num(), imag=num()) for o in tf.out_chans for i in tf.in_chans}
                from resistics.common import History

                self.prod[p] = Solution(tf=tf, freqs=[1.0 / (k + 1) for k in range(n)], components=comp, history=History(), contributors={})
            self.name = pj.get_solution_name(10.0, tf.name, tf.variation)
            self.tokens = {}

        def write(self, p):
            def run():
                self.at.mkdir(parents=True, exist_ok=True)
                self.prod[p].write(self.at / self.name)

            return run

        def look(self):
            try:
                s = lg.get_solution(self.env, self.site, "cfg", 10.0, self.tf.name, self.tf.variation)
                k = tok(rs.json.loads(s.json(exclude={"file_info"})))
                return k, k
            except Exception:
                return 0, 0

    class Work(Folder):
        """A step of a project: its product is looked at through the project"""

        def __init__(self, kind, same):
            count[0] += 1
            self.kind, self.parts = kind, 1
            self.root = ctx.work / f"in{count[0]}" / "proj"
            self.root.parent.mkdir(parents=True)
            lg.new(self.root, dict(ref_time=rs.base_time()))
            n = 300
            for m in ("m1", "m2"):
                x = rs.time_data(16, n, CH[:4], rs.base_time(f"2021-01-0{m[1]} 00:00:00"), np_rng.normal(size=(4, n)))
                t.TimeWriterNumpy().run(self.root / "time" / "s1" / m, x)
            mk = lambda f: Configuration(name="cfg", time_processors=[t.Multiply(multiplier=f)], dec_setup=DecimationSetup(n_levels=2, per_level=2),
                                         win_setup=WindowSetup(min_size=16, min_olap=4), solver=SolverScikitOLS(), tf=ImpedanceTensor())  # fmt: skip
            self.env = {p: lg.load(self.root, mk({"Ex": 2.0**p, "Hy": 3.0 * p})) for p in (1, 2, 3)}
            if kind == "evals":
                lg.process_time_to_evals(self.env[1], "s1", "m1")
            self.prod = {1: None, 2: None, 3: None}
            self.base = steps.snapshot(self.root)
            self.tokens = {}
            if kind == "evals":
                k = self.look()
                self.without = k[0]
            # the products are of different lengths, where they are not to be alike
            self.until = {p: None if same else f"2021-01-02 00:00:{10 + p}" for p in (1, 2, 3)}

        def learn(self):
            for p in self.prod:
                self.write(p)()
                self.tokens[p] = self.look()
                steps.restore(self.root, self.base)
            return self.tokens

        def write(self, p):
            if self.kind == "evals":
                return lambda: lg.process_time_to_evals(self.env[p], "s1", "m2")
            return lambda: lg.process_time(self.env[p], "s1", "m2", "s1", "out", to_time=self.until[p])

        def look(self):
            before = steps.snapshot(self.root)
            try:
                if self.kind == "evals":
                    # the other measurement stays usable, with or without this one
                    s = lg.process_evals_to_tf(self.env[1], 16.0, "s1")
                    k = tok(rs.json.loads(s.json(include={"freqs", "components"})))
                    k = 0 if k == getattr(self, "without", -1) else k
                    return k, k
                env = lg.load(self.root, self.env[1].config)
                if "out" not in env.proj["s1"].measurements:
                    return 0, 0
                m = env.proj["s1"]["out"]
                mark = meta(m.metadata)
                try:
                    return whole(m.reader.run(m.dir_path, metadata=m.metadata)), mark
                except Exception:
                    return 0, mark
            except Exception:
                return 0, 0
            finally:
                steps.restore(self.root, before)

    # which of the products a reading is
    def reading(f):
        full, mark = f.look()
        full_is = [p for p in (1, 2, 3) if f.tokens[p][0] == full] if full else [0]
        mark_is = [p for p in (1, 2, 3) if f.tokens[p][1] == mark] if mark else [0]
        return {"read": full_is[0] if full_is else OTHER, "marks": mark_is or [OTHER]}

    def judge(f, p, mode, last=False):
        tr.call("point", {"p": p, "mode": mode, "last": last}, lambda: reading(f), lambda r: r)

    def write(f, p, stop):
        """One write, all the states it goes through, and then the one it is left in"""
        before = steps.snapshot(f.root)
        tr.event("begin", {"p": p})
        try:
            got = steps.states(f.root, f.write(p))
            ok, err = True, ""
        except Exception as e:
            got, ok, err = [before, steps.snapshot(f.root)], False, f"{type(e).__name__}: {e}"[:200]
        tr.event("ran", {"p": p, "mode": "whole"}, ok=ok, err=err)
        kept = []
        prev = None
        for k, s in enumerate(got):
            for x in steps.torn(prev, s, rng) if k else []:
                kept.append(("torn", x))
            if k == 0 or steps.plain(s) != steps.plain(prev):
                kept.append(("ended", s))
            prev = s
        # of very many points some: the first and the last ones always
        most = 40 if ctx.thorough else 14
        if len(kept) > most:
            keep = set(rng.sample(range(len(kept)), most)) | {0, 1, 2, 3, len(kept) - 4, len(kept) - 3, len(kept) - 2, len(kept) - 1}
            kept = [x for k, x in enumerate(kept) if k in keep]
        for k, (mode, s) in enumerate(kept):
            steps.restore(f.root, s)
            judge(f, p, mode, last=k == len(kept) - 1)
        end = steps.snapshot(f.root)
        # the same write, ended by an exception that is not an error (Ctrl-C), or on a full disk
        for k in rng.sample(range(1, len(got)), min(len(got) - 1, 4 if ctx.thorough else 2)) if len(got) > 1 else []:
            steps.restore(f.root, before)
            tr.event("begin", {"p": p})
            done = not steps.interrupted(f.root, f.write(p), k)
            tr.event("ran", {"p": p, "mode": "stopped"}, {"raised": not done})
            judge(f, p, "stopped")
        top = max([len(v[1]) for v in (end or {}).values() if v] + [2])
        for size in rng.sample([1, 64, 100, 200, top // 2, top - 1, top, top + 100], 4 if ctx.thorough else 2):
            steps.restore(f.root, before)
            tr.event("begin", {"p": p})
            r = steps.full_disk(f.write(p), size)
            tr.event("ran", {"p": p, "mode": "full disk", "size": size}, {"raised": r != "ok"}, err=r)
            judge(f, p, "full disk", last=r == "ok")
        steps.restore(f.root, before)
        tr.event("begin", {"p": p})
        if stop == "none":
            tr.call("ran", {"p": p, "mode": "whole"}, f.write(p))
            judge(f, p, "end", last=True)
        else:
            if stop == "unmark":
                x = kept[min(1, len(kept) - 1)]
            elif stop == "mark":
                x = kept[max(0, len(kept) - 2)]
            else:
                x = rng.choice(kept)
            steps.restore(f.root, x[1])
            judge(f, p, "left")

    def session(case, cls, kind, same):
        f = cls(kind, same)
        toks = f.learn()
        good = all(v[0] and v[1] for v in toks.values()) and len({v[0] for v in toks.values()}) == 3
        tr.event("start", {"kind": kind, "parts": f.parts}, {"read": [int(bool(toks[p][0])) for p in (1, 2, 3)]}, ok=good,
                 err="" if good else str(toks))  # fmt: skip
        for x in case["writes"]:
            write(f, x["p"], x["stop"])
        # after all of it, a whole write puts the product there
        write(f, 3, "none")
        steps.shutil.rmtree(f.root, ignore_errors=True)

    small = [("time", Folder), ("ascii", Folder), ("decimated", Folder), ("windowed", Folder), ("spectra", Folder), ("solution", SolutionFile)]
    for n, case in enumerate(ctx.cases):
        kind, cls = small[n % len(small)]
        session(case, cls, kind, rng.random() < 0.5)
    for n in range(8 if ctx.thorough else 1):
        for kind in ("evals", "resampled"):
            session({"writes": [{"p": 1, "stop": "none"}, {"p": 2, "stop": rng.choice(["none", "part", "mark"])}]}, Work, kind, rng.random() < 0.5)
