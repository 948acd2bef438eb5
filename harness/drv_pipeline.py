"""C22: processing runs the configured steps once each, in the configured order"""
import inspect
import json
import shutil
import numpy as np
from pydantic import PrivateAttr
import rs
from drv_objects import Obj

CH = ["Ex", "Ey", "Hx", "Hy"]
LOG = []
TOK = rs.Tokens()


def value(x):
    """Token of any product, without its history"""
    from resistics import time as t, decimate as d, window as w, spectra as sp, gather as g, regression as r

    kinds = [(t.TimeData, "time"), (d.DecimatedData, "dec"), (w.WindowedData, "win"), (sp.SpectraData, "spec"), (g.GatheredData, "gath"), (r.RegressionInputData, "reg"), (r.Solution, "sol")]
    for c, k in kinds:
        if isinstance(x, c):
            if k == "sol":
                return TOK([k, x.dict(exclude={"history", "contributors", "file_info"})])
            return TOK([k, Obj(k, x, None).content()])
    return TOK(["other", x])


def logged(cls, stage):
    """The process class with runs that are logged; fail: breaks when run"""
    sig = inspect.signature(cls.run)

    def run(self, *args, **kw):
        b = sig.bind(self, *args, **kw)
        b.apply_defaults()
        given = {k: v for k, v in b.arguments.items() if k != "self"}
        data = list(given)[-1]
        rec = {"step": stage, "n": self._pos, "in": value(given[data]), "out": 0, "ref": 0, "dec": 0, "win": 0, "cal": 0}
        for k, v in given.items():
            for key, name in (("ref", "ref_time"), ("dec", "dec_params"), ("win", "win_params"), ("cal", "dir_path")):
                if k == name:
                    rec[key] = TOK(["arg", v])
        LOG.append(rec)
        if self._fail:
            raise rng_error()
        out = cls.run(self, *args, **kw)
        rec["out"] = value(out)
        return out

    # which step it is is no parameter: steps may be equal
    body = {"__module__": __name__, "_pos": PrivateAttr(1), "_fail": PrivateAttr(False), "run": run}
    return type(f"Logged{stage.title()}{cls.__name__}", (cls,), body)


ERR = [ValueError]


def rng_error():
    return ERR[0]("planned")


def pipeline(tr, ctx):
    from resistics import letsgo as lg, time as t, decimate as d, window as w, spectra as sp, gather as g, regression as r, calibrate as c
    from resistics.config import Configuration, get_default_configuration
    from resistics.project import get_meas_evals_path, get_meas_time_path, get_results_path, get_solution_name, get_calibration_path
    from resistics.errors import MetadataReadError, TimeDataReadError
    from resistics.transfunc import ImpedanceTensor, Tipper

    rng = ctx.rng

    class Squares(t.TimeProcess):
        plus: float = 1

        def run(self, time_data):
            md = t.TimeMetadata(**time_data.metadata.dict())
            md.history.add_record(self._get_record("squared"))
            return t.TimeData(md, np.asarray(time_data.data) ** 2 / 100 + self.plus)

    class Turned(sp.SpectraProcess):
        by: float = 0.5

        def run(self, spec_data):
            md = sp.SpectraMetadata(**spec_data.metadata.dict())
            return sp.SpectraData(md, {k: np.conj(v) * (1 + 1j * self.by) + self.by for k, v in spec_data.data.items()})

    class CalOfUser(c.Calibrator):
        def run(self, dir_path, spec_data):
            gain = float((dir_path / "gain.txt").read_text()) if (dir_path / "gain.txt").exists() else 3.0
            md = sp.SpectraMetadata(**spec_data.metadata.dict())
            return sp.SpectraData(md, {k: v / gain for k, v in spec_data.data.items()})

    class ReaderOfUser(t.TimeReader):
        """Reads what is in the folder times its number, if its kind lets it"""

        extension = ".npy"
        kind: str = "reads"
        pos: int = 1

        def read_metadata(self, dir_path):
            if self.kind == "nometa":
                raise MetadataReadError(dir_path, "planned")
            if self.kind == "breaks":
                raise KeyError("planned")
            return t.TimeMetadata.parse_file(dir_path / "metadata.json")

        def read_data(self, dir_path, metadata, read_from, read_to):
            if self.kind == "nodata":
                raise TimeDataReadError(dir_path, "planned")
            if self.kind == "metaonly":
                raise IndexError("planned")
            data = np.load(dir_path / "data.npy")[:, read_from : read_to + 1] * self.pos
            td = t.TimeData(self._get_return_metadata(metadata, read_from, read_to), data)
            LOG.append({"step": "read", "n": self.pos, "in": 0, "out": value(td), "ref": 0, "dec": 0, "win": 0, "cal": 0})
            return td

    L = {}

    def lcls(cls, stage):
        if (cls, stage) not in L:
            L[(cls, stage)] = logged(cls, stage)
        return L[(cls, stage)]

    FS = 256
    count = [0]

    def time_pool(keep_fs):
        pool = [(t.Add, dict(add=rng.choice([3.0, {"Ex": 50.0}]))), (t.Multiply, dict(multiplier=rng.choice([-2.0, {"Hy": 5.0}]))), (t.RemoveMean, {}),
                (Squares, dict(plus=rng.choice([1.0, 7.5]))), (t.InterpolateNans, {}), (t.LowPass, dict(cutoff=20, order=4)), (t.HighPass, dict(cutoff=2.0, order=2))]  # fmt: skip
        if not keep_fs:
            pool += [(t.Decimate, dict(factor=2)), (t.Resample, dict(new_fs=192)), (t.ShiftTimestamps, dict(shift=0.001)),
                     (t.Subsection, dict(from_time="2021-05-01 00:00:03", to_time="2021-05-01 00:00:08.5"))]  # fmt: skip
        return rng.choice(pool)

    def plan(case):
        """What a configuration consists of: classes and parameters, to be built more than once"""
        keep = case["entry"] == "process_evals_to_tf"
        tps = []
        while len(tps) < case["nt"]:
            x = rng.choice(tps) if tps and rng.random() < 0.25 else time_pool(keep)
            # one change of the time axis is enough data left for windows
            if x[0] in (t.Decimate, t.Resample, t.ShiftTimestamps, t.Subsection) and any(y[0] is x[0] or y[0] in (t.Decimate, t.Resample) for y in tps):
                continue
            tps.append(x)
        sps = [rng.choice([(Turned, dict(by=0.5)), (Turned, dict(by=-2.0)), (sp.SpectraSmootherUniform, dict(length_proportion=0.3)), (sp.SpectraSmootherUniform, dict(length_proportion=0.5))])
               for _ in range(case["ns"])]  # fmt: skip
        if len(sps) > 1 and rng.random() < 0.3:
            sps[-1] = sps[0]
        return {
            "time": tps,
            "spectra": sps,
            "dec_setup": dict(n_levels=rng.choice([2, 3]), per_level=rng.choice([2, 3]), min_samples=60, div_factor=rng.choice([2, 2, 4])),
            "decimate": (d.Decimator, rng.choice([dict(resample=True), dict(resample=False, max_single_factor=4)])),
            "win_setup": dict(min_size=rng.choice([16, 24]), min_olap=4, win_factor=rng.choice([8, 16]), min_n_wins=1, olap_proportion=rng.choice([0.25, 0.5])),
            "window": rng.choice([(w.Windower, {}), (w.Windower, {}), (w.WindowerTarget, dict(target=12, min_size=16))]),
            "fourier": (sp.FourierTransform, rng.choice([dict(workers=1), dict(workers=1, detrend="constant"), dict(workers=1, win_fnc="hann", detrend=None)])),
            "evals": (sp.EvaluationFreqs, {}),
            "calibrate": rng.choice([(CalOfUser, {}), (c.SensorCalibrator, dict(chans=rng.choice([None, ["Hx"], ["Hy", "Ex"]]), readers=[c.SensorCalibrationJSON(file_str="IC_$sensor$extension")]))]),
            "tf": rng.choice([(ImpedanceTensor, {}), (ImpedanceTensor, dict(cross_chans=["Ex", "Ey"])), (Tipper, dict(out_chans=["Ex"])), (ImpedanceTensor, dict(out_chans=["Ey", "Ex"], in_chans=["Hy", "Hx"]))]),
            "prepare": (r.RegressionPreparerGathered, {}),
            "solve": (r.SolverScikitOLS, dict(n_jobs=1)),
        }

    def build(p, case, name, fault=0):
        from drv_pipeline_steps import steps

        bad = steps(case["entry"], case["nt"], case["ns"])[fault - 1] if fault else None

        def make(stage, spec, pos=1):
            cls, kw = spec
            kw = dict(kw)
            if "readers" in kw:
                kw["readers"] = list(kw["readers"])
            x = lcls(cls, stage)(**kw)
            x._pos, x._fail = pos, bad == (stage, pos)
            return x

        return Configuration(
            name=name,
            time_readers=[ReaderOfUser(kind=k, pos=n + 1) for n, k in enumerate(case["readers"])],
            time_processors=[make("time", x, n + 1) for n, x in enumerate(p["time"])],
            dec_setup=d.DecimationSetup(**p["dec_setup"]),
            decimator=make("decimate", p["decimate"]),
            win_setup=w.WindowSetup(**p["win_setup"]),
            windower=make("window", p["window"]),
            fourier=make("fourier", p["fourier"]),
            spectra_processors=[make("spectra", x, n + 1) for n, x in enumerate(p["spectra"])],
            evals=make("evals", p["evals"]),
            sensor_calibrator=make("calibrate", p["calibrate"]),
            tf=p["tf"][0](**p["tf"][1]),
            regression_preparer=make("prepare", p["prepare"]),
            solver=make("solve", p["solve"]),
        )  # fmt: skip

    def write_cal(path, gain, kind="full"):
        if kind == "missing":
            return
        path.mkdir(exist_ok=True)
        if kind == "empty":
            return
        (path / "gain.txt").write_text(str(gain))
        for s in ("MFS06", "LEMI120"):
            (path / f"IC_{s}.json").write_text(json.dumps({"serial": 1, "sensor": s, "static_gain": gain, "frequency": [0.01, 1, 100], "magnitude": [1, 2, 2], "phase": [0.5, 0.2, 0.1]}))

    def recording(path, shift=0, n=None, seed=None):
        n = n or rng.choice([2304, 2560, 3000])
        data = np.random.default_rng(seed if seed is not None else rng.randint(0, 2**31)).normal(size=(4, n)) * 10 + np.arange(4)[:, None] * 5
        cd = {ch: dict(rs.chan_details(rng, [ch])[ch], sensor=rng.choice(["MFS06", "LEMI120", "other"])) for ch in CH}
        for x in cd.values():
            x.pop("name")
        td = rs.time_data(FS, n, rng.sample(CH, 4), rs.mk_time(rs.secs(rs.base_time("2021-05-01")) + rs.Fraction(shift, FS)), data, chan_kw=cd)
        t.TimeWriterNumpy().run(path, td)
        return td

    def hand(case, cfg, dir_path, ref, cal, proj=None, kw=None):
        """The steps by hand; returns (last product, dec parameters, window parameters, time data)"""
        e = case["entry"]
        if e == "process_evals_to_tf":
            return None
        rk = [k for k in cfg.time_readers if k.kind == "reads"][0]
        td = rk.run(dir_path, **(kw or {}))
        own = td.metadata.first_time
        if e == "quick_read":
            return td, None, None, own, td
        raw = td
        for p in cfg.time_processors:
            td = p.run(td)
        if e in ("quick_view", "process_time"):
            return td, None, None, own, raw
        dp = cfg.dec_setup.run(td.metadata.fs)
        x = cfg.decimator.run(dp, td)
        if e == "quick_view_dec":
            return x, dp, None, own, raw
        wp = cfg.win_setup.run(x.metadata.n_levels, x.metadata.fs)
        x = cfg.windower.run(ref if ref is not None else own, wp, x)
        x = cfg.fourier.run(x)
        if e == "quick_spectra":
            return x, dp, wp, own, raw
        for p in cfg.spectra_processors:
            x = p.run(x)
        x = cfg.evals.run(dp, x)
        if cal is not None:
            x = cfg.sensor_calibrator.run(cal, x)
        if e == "process_time_to_evals":
            return x, dp, wp, own, raw
        gd = g.QuickGather().run(dir_path, dp, cfg.tf, x)
        return cfg.solver.run(cfg.regression_preparer.run(cfg.tf, gd)), dp, wp, own, raw

    def session(case, limits=None, again=None):
        count[0] += 1
        ERR[0] = rng.choice([ValueError, KeyError, RuntimeError])
        base = ctx.work / f"r{count[0]}"
        base.mkdir()
        p = plan(case)
        entry, fault = case["entry"], case["fault"]
        project = entry.startswith("process_")
        name = rng.choice(["cfg", "default", "a"])
        for _ in range(20):
            # a processor may leave too little data for the plan: take another
            try:
                ok_case = dict(case, readers=["reads"], fault=0, entry="quick_tf_cal")
                probe = base / "probe"
                recording(probe, seed=1, n=2304)
                write_cal(base / "probecal", 1.5)
                hand(ok_case, build(p, dict(ok_case), name), probe, rs.base_time("2021-04-30 23:59:00"), base / "probecal")
                hand(ok_case, build(p, dict(ok_case), name), probe, None, base / "probecal")
                break
            except Exception:
                p = plan(case)
        cfg, twin = build(p, case, name, fault), build(p, case, name)
        before = TOK(cfg.dict())
        works = [k for k, x in enumerate(case["readers"]) if x == "reads"]
        i = dict({k: case[k] for k in ("entry", "readers", "nt", "ns", "fault")}, ref=0, dec=0, win=0, cal=0, limits=[])
        o = {}
        res = {"unchanged": True, "stored": 0, "span": []}
        ref, cal, kw, env = None, None, {}, None
        if project:
            root = base / "proj"
            ref = rs.base_time(rng.choice(["2021-04-30 23:59:00", "2021-05-01 00:00:00", "2021-04-30 23:59:57.25"]))
            lg.new(root, {"ref_time": str(ref)})
            write_cal(root / "calibrate", 2.5, rng.choice(["full", "full", "empty"]))
            cal = root / "calibrate"
            dir_path = root / "time" / "s1" / "m1"
            td = recording(dir_path, rng.choice([0, 0, 77]))
            for s, m in (("s1", "m2"), ("s2", "m1")):
                if rng.random() < 0.5 or entry == "process_evals_to_tf":
                    recording(root / "time" / s / m, rng.choice([0, 640]))
            env = lg.load(root, cfg)
        else:
            dir_path = base / "rec"
            td = recording(dir_path, rng.choice([0, 77, 1]))
            if entry == "quick_tf_cal":
                cal = base / "cal"
                write_cal(cal, 0.5, rng.choice(["full", "full", "empty", "missing"]))
        if entry == "process_time":
            n = td.metadata.n_samples
            if limits or rng.random() < 0.5:
                a, b = rng.choice([0, 5, 100]), n - 1 - rng.choice([0, 1, 90])
                if limits:
                    a, b = 5, n - 91
                at = lambda k: rs.mk_time(rs.secs(td.metadata.first_time) + rs.Fraction(k, FS))
                which = limits or rng.choice(["from", "to", "both"])
                if which != "to":
                    kw["from_time"] = at(a)
                if which != "from":
                    kw["to_time"] = at(b)
                i["limits"] = [a if "from_time" in kw else 0, b if "to_time" in kw else n - 1]
            where = rng.choice([("s1", "m1b"), ("s3", "m1"), ("s2", "m7")])
        # by hand
        LOG.clear()
        can = bool(works) and not fault
        if entry == "process_evals_to_tf":
            plain = build(p, dict(case, entry="process_time_to_evals"), name)
            env0 = lg.ResisticsEnvironment(proj=env.proj, config=plain)
            for s in env.proj:
                for m in s:
                    lg.process_time_to_evals(env0, s.name, m.name)
            LOG.clear()
            post = rng.choice([None, "x"])
            out, ins, cross = rng.choice([("s1", None, None), ("s1", "s2", None), ("s1", None, "s2"), ("s2", "s1", "s1"), ("s1", "s2", "s2"), ("s1", "s1", "s1")])
            call_kw = {k: v for k, v in (("in_site", ins), ("cross_site", cross), ("postfix", post)) if v is not None}
            dp = twin.dec_setup.run(FS)
            if can:
                sites = [out] + [x for x in (ins, cross) if x is not None]
                sel = g.Selector().run(name, env.proj, sites, dp)
                gd = g.ProjectGather().run(name, env.proj, sel, twin.tf, out_name=out, in_name=ins, cross_name=cross)
                twin.solver.run(twin.regression_preparer.run(twin.tf, gd))
        else:
            if works:
                last, dp, wp, own, raw = hand(dict(case), twin, dir_path, ref, cal, kw=kw)
                i["ref"] = TOK(["arg", ref if ref is not None else own])
                i["dec"], i["win"] = TOK(["arg", dp]), TOK(["arg", wp])
                if raw.metadata.n_samples:
                    first = (rs.secs(raw.metadata.first_time) - rs.secs(td.metadata.first_time)) * FS
                    res["hand_span"] = [int(first), int(first) + raw.metadata.n_samples - 1]
        i["cal"] = TOK(["arg", cal])
        o["hand"] = list(LOG)
        tree = lambda: rs.tree_digest(base)
        t0 = tree()
        LOG.clear()

        def run():
            if entry == "quick_read":
                return lg.quick_read(dir_path, cfg)
            if entry.startswith("quick_view"):
                return lg.quick_view(dir_path, cfg, decimate=entry.endswith("dec"))
            if entry == "quick_spectra":
                return lg.quick_spectra(dir_path, cfg)
            if entry == "quick_tf":
                return lg.quick_tf(dir_path, cfg)
            if entry == "quick_tf_cal":
                return lg.quick_tf(dir_path, cfg, calibration_path=cal)
            if entry == "process_time":
                return lg.process_time(env, "s1", "m1", *where, **kw)
            if entry == "process_time_to_evals":
                return lg.process_time_to_evals(env, "s1", "m1")
            return lg.process_evals_to_tf(env, FS, out, **call_kw)

        def observe(x):
            log = list(LOG)
            LOG.clear()
            if x is not None and not entry.startswith("quick_view"):
                res["result"] = value(x)
            if entry == "process_time":
                res["stored"] = value(t.TimeReaderNumpy().run(get_meas_time_path(env.proj.dir_path, *where)))
            elif entry == "process_time_to_evals":
                res["stored"] = value(sp.SpectraDataReader().run(get_meas_evals_path(env.proj.dir_path, "s1", "m1", name)))
            elif entry == "process_evals_to_tf":
                tf = cfg.tf
                f = get_results_path(env.proj.dir_path, out, name) / get_solution_name(FS, tf.name, tf.variation, post)
                res["stored"] = value(r.Solution.parse_file(f))
            LOG[:] = log
            return {}

        def after():
            log = list(LOG)
            # the time data that was read runs over the limits
            span = res.get("hand_span", [])
            if log and o["hand"] and log[0] != o["hand"][0]:
                span = []
            return {"log": log, "hand": o["hand"], "result": res.get("result", 0), "stored": res["stored"], "span": span, "unchanged": tree() == t0,
                    "config": TOK(cfg.dict()) == before}  # fmt: skip

        tr.call("run", i, run, observe, after=after)
        if again if again is not None else rng.random() < 0.3:
            # once more, with the same configuration and the same environment
            LOG.clear()
            t0 = tree()
            res.update(stored=0, result=0)
            tr.call("run", i, run, observe, after=after)
        shutil.rmtree(base)

    def default(entry):
        count[0] += 1
        base = ctx.work / f"d{count[0]}"
        td = recording(base, rng.choice([0, 9]), n=rng.choice([3000, 4096]))
        cfg = get_default_configuration()
        if entry == "read":
            ref = t.TimeReaderNumpy().run(base)
            fn = lambda: lg.quick_read(base)
        else:
            x = t.TimeReaderNumpy().run(base)
            own = x.metadata.first_time
            x = t.RemoveMean().run(t.InterpolateNans().run(x))
            dp = d.DecimationSetup().run(x.metadata.fs)
            x = d.Decimator().run(dp, x)
            x = w.Windower().run(own, w.WindowSetup().run(x.metadata.n_levels, x.metadata.fs), x)
            ref = sp.FourierTransform().run(x)
            fn = lambda: lg.quick_spectra(base)
            if entry == "tf":
                ev = sp.EvaluationFreqs().run(dp, ref)
                gd = g.QuickGather().run(base, dp, ImpedanceTensor(), ev)
                ref = r.SolverScikitTheilSen().run(r.RegressionPreparerGathered().run(ImpedanceTensor(), gd))
                fn = lambda: lg.quick_tf(base)
        tr.call("default", {"entry": entry}, fn, lambda x: {"result": value(x), "hand": value(ref)})
        shutil.rmtree(base)

    for case in ctx.cases:
        session(case)
    for e in ["quick_read", "quick_view", "quick_view_dec", "quick_spectra", "quick_tf", "quick_tf_cal", "process_time", "process_time_to_evals", "process_evals_to_tf"]:
        for _ in range(4 if ctx.thorough else 1):
            session({"entry": e, "readers": ["nometa", "reads", "reads"] if e != "process_evals_to_tf" else ["reads"], "nt": rng.randint(1, 3), "ns": rng.randint(2, 3), "fault": 0}, again=True)
    # calibration in a project and without, whatever is in the calibration folder
    for _ in range(20 if ctx.thorough else 5):
        session({"entry": rng.choice(["quick_tf_cal", "process_time_to_evals"]), "readers": ["reads"], "nt": 1, "ns": 1, "fault": 0})
    for which in ["from", "to", "both"]:
        session({"entry": "process_time", "readers": ["reads"], "nt": rng.randint(0, 2), "ns": 0, "fault": 0}, which)
    for e in ["read", "spectra", "tf"]:
        default(e)
