"""C04 (inputs are never altered) and C05 (processing history)"""
import json
import math
from datetime import datetime, timedelta
import numpy as np
import rs

FNCS = {"half": lambda x: x / 2, "square": lambda x: x * x, "flip": lambda x: x[::-1]}


def without_history(v):
    """Descriptive part of nested metadata"""
    if hasattr(v, "dict"):
        v = v.dict()
    if isinstance(v, dict):
        return {k: without_history(x) for k, x in v.items() if k not in ("history", "histories", "file_info", "data_files")}
    if isinstance(v, (list, tuple)):
        return [without_history(x) for x in v]
    return v


def norm(v):
    """Parameter values in the form in which they are recorded"""
    from resistics.common import ResisticsProcess

    if isinstance(v, ResisticsProcess):
        return {k: norm(getattr(v, k)) for k in v.__fields__}
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if callable(v) or (isinstance(v, str) and v.startswith("Custom function")):
        return "function"
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    return str(v)


def refine_class():
    """A step of the user's own: scales the observations of regression data"""
    from resistics.common import ResisticsProcess, History
    from resistics.regression import RegressionInputData, RegressionInputMetadata

    class ScaleObservations(ResisticsProcess):
        scale: float = 2.0

        def run(self, x):
            history = History(**x.metadata.history.dict())
            history.add_record(self._get_record("scaled the observations"))
            md = RegressionInputMetadata(contributors=x.metadata.contributors, history=history)
            obs = [{c: v * self.scale for c, v in o.items()} for o in x.obs]
            return RegressionInputData(md, x.tf, list(x.freqs), obs, [np.array(v) for v in x.preds])

    return ScaleObservations


class Obj:
    def __init__(self, kind, x, plan, files=None):
        self.kind, self.x, self.plan = kind, x, plan

    def parts(self):
        """(data, metadata) of an object, whatever it is"""
        x = self.x
        if self.kind == "time":
            # channel by channel under its name
            return {c: np.asarray(x[c]) for c in x.metadata.chans}, x.metadata
        if self.kind in ("dec", "win", "spec", "evals"):
            return {int(k): np.asarray(v) for k, v in x.data.items()}, x.metadata
        if self.kind == "gath":
            p = {"out": x.out_data, "in": x.in_data, "cross": x.cross_data}
            return ({k: {int(a): np.asarray(b) for a, b in v.data.items()} for k, v in p.items()}, {k: v.metadata for k, v in p.items()})
        if self.kind == "reg":
            return {"freqs": x.freqs, "obs": x.obs, "preds": x.preds, "tf": x.tf}, x.metadata
        return x.dict(exclude={"history", "contributors"}), {"history": x.history, "contributors": x.contributors}

    def history(self):
        """Own history and those of the contributing data"""
        if self.kind in ("time", "dec", "win", "spec", "evals"):
            return self.x.metadata.history, []
        if self.kind == "gath":
            return None, [h for p in (self.x.out_data, self.x.in_data, self.x.cross_data) for h in p.metadata.histories.values()]
        m = self.x.metadata if self.kind == "reg" else self.x
        con = []
        for c in m.contributors.values():
            con += list(c.histories.values()) if hasattr(c, "histories") else [c.history]
        return m.history, con

    def everything(self):
        d, m = self.parts()
        return [d, m]

    def content(self):
        d, m = self.parts()
        return [d, without_history(m)]


def objects(tr, ctx):
    from resistics import time as t, decimate as d, window as w, spectra as sp, gather as g, regression as r, calibrate as c
    from resistics.transfunc import ImpedanceTensor, Tipper, TransferFunction
    from resistics.sampling import datetime_to_string, to_timedelta

    rng = ctx.rng
    tok = rs.Tokens()
    cal_dir = ctx.work / "cal"
    cal_dir.mkdir()
    (cal_dir / "IC_MFS06.json").write_text(json.dumps({"serial": 1, "sensor": "MFS06", "static_gain": 2, "frequency": [0.01, 1, 100],
                                                       "magnitude": [1, 2, 2], "phase": [0.5, 0.2, 0.1]}))  # fmt: skip
    (cal_dir / "IC_LEMI120.TXT").write_text("Serial = 2\nSensor = LEMI120\nStatic gain = 1\nMagnitude unit = mV/nT\nPhase unit = degrees\n"
                                            "Chopper = False\n\nCALIBRATION DATA\n0.01 1 40\n10 3 20\n")  # fmt: skip
    WRITERS = {"time": t.TimeWriterNumpy, "dec": d.DecimatedDataWriter, "win": w.WindowedDataWriter, "spec": sp.SpectraDataWriter,
               "evals": sp.SpectraDataWriter}  # fmt: skip
    READERS = {"time": t.TimeReaderNumpy, "dec": d.DecimatedDataReader, "win": w.WindowedDataReader, "spec": sp.SpectraDataReader,
               "evals": sp.SpectraDataReader}  # fmt: skip

    def time_step(o):
        """A time process that is valid for the object: class and parameters"""
        md = o.x.metadata
        n, fs, chans = md.n_samples, md.fs, md.chans
        nyq = fs / 2
        when = lambda s: datetime_to_string(md.first_time + s * to_timedelta(1 / fs))
        opts = [
            (t.Add, dict(add=rng.choice([2.5, {chans[0]: 3, chans[-1]: -1.25}, {"nn": 3}]))),
            (t.Multiply, dict(multiplier=rng.choice([0.5, {chans[-1]: 2}, {"nn": 3, chans[1]: -1}]))),
            (t.InterpolateNans, {}),
        ]
        if n > 250:
            a = rng.randint(0, n // 8)
            opts.append((t.Subsection, dict(from_time=when(a), to_time=when(n - 1 - rng.randint(0, n // 8)))))
        if o.plan["nan"]:
            return rng.choice(opts)
        opts += [
            (t.RemoveMean, {}),
            (t.ApplyFunction, dict(fncs={c: FNCS[rng.choice(sorted(FNCS))] for c in rng.sample(chans, 2)})),
            (t.LowPass, dict(cutoff=nyq * 0.6, order=rng.choice([4, 10]))),
            (t.HighPass, dict(cutoff=nyq * 0.2, order=4)),
            (t.BandPass, dict(cutoff_low=nyq * 0.2, cutoff_high=nyq * 0.7, order=4)),
            (t.Notch, dict(notch=nyq * 0.5, band=rng.choice([None, nyq * 0.1]), order=4)),
            (t.ShiftTimestamps, dict(shift=0.3 / fs)),
        ]
        if n > 500:
            opts += [(t.Resample, dict(new_fs=fs * rng.choice([0.75, 0.5, 1]))), (t.Decimate, dict(factor=rng.choice([1, 2]), max_single_factor=rng.choice([2, 3])))]
        return rng.choice(opts)

    def bad_step(o):
        md = o.x.metadata
        nyq = md.nyquist
        late = datetime_to_string(md.last_time + to_timedelta(10))
        return rng.choice([
            (t.LowPass, dict(cutoff=nyq * 1.5)), (t.HighPass, dict(cutoff=nyq * 2)), (t.BandPass, dict(cutoff_low=nyq * 0.7, cutoff_high=nyq * 0.3)),
            (t.BandPass, dict(cutoff_low=nyq * 0.7, cutoff_high=nyq * 1.3)), (t.Notch, dict(notch=nyq * 1.2)),
            (t.ShiftTimestamps, dict(shift=1.5 / md.fs)), (t.Subsection, dict(from_time=late, to_time=late)),
        ])  # fmt: skip

    def choose(o, st):
        """Class, parameters and further arguments of a step; None if it cannot be applied"""
        p = o.plan
        if st == "process":
            return (*time_step(o), {})
        if st == "decimate":
            su = d.DecimationSetup(n_levels=rng.choice([2, 3]), per_level=rng.choice([2, 3]), min_samples=rng.choice([40, 100]), div_factor=2)
            kw = rng.choice([{}, {}, {"resample": False}, {"resample": False, "max_single_factor": 4}])
            return d.Decimator, kw, {"dec": su.run(o.x.metadata.fs)}
        if st == "window":
            md = o.x.metadata
            wp = w.WindowSetup(min_size=rng.choice([16, 32]), min_olap=rng.choice([4, 8]), win_factor=8, min_n_wins=2).run(md.n_levels, md.fs)
            ref = md.first_time - to_timedelta(rng.choice([0, 0, 1, 100]) / 7)
            opts = [(w.Windower, {}), (w.Windower, {})]
            if md.levels_metadata[0].n_samples > 600:
                opts.append((w.WindowerTarget, {}))
            cls, kw = rng.choice(opts + [(w.WindowerTarget, dict(target=rng.choice([5, 20]), min_size=16, olap_proportion=0.25))])
            return cls, kw, {"ref": ref, "win": wp}
        if st == "fourier":
            kw = rng.choice([{}, {"win_fnc": "hann", "detrend": "constant"}, {"win_fnc": ("tukey", 0.25), "workers": 1}, {"detrend": None}])
            if p["nan"]:
                kw = dict(kw, detrend=None)
            return sp.FourierTransform, kw, {}
        if st == "smooth":
            return rng.choice([(sp.SpectraSmootherUniform, {}), (sp.SpectraSmootherUniform, {"length_proportion": 0.3}), (sp.SpectraSmootherGaussian, {"sigma": 2})]) + ({},)
        if st == "evals":
            return sp.EvaluationFreqs, {}, {"dec": p["dec"]}
        if st == "calibrate":
            readers = rng.choice([[c.SensorCalibrationJSON()], [c.SensorCalibrationTXT(extension=".TXT"), c.SensorCalibrationJSON()]])
            for x in readers:
                x.file_str = "IC_$sensor$extension"
            return c.SensorCalibrator, rng.choice([{"readers": readers}] + [{"chans": x, "readers": readers} for x in (None, ["Hx", "Hy"], ["Hy"])]), {"dir": cal_dir}
        tf = p["tf"]
        if st == "gather":
            return g.QuickGather, {}, {"dir": ctx.work / "meas", "dec": p["dec"], "tf": tf}
        if st == "spectra_regression":
            return r.RegressionPreparerSpectra, {}, {"tf": tf}
        if st == "gathered_regression":
            return r.RegressionPreparerGathered, {}, {"tf": tf}
        if st == "refine":
            return Refine, rng.choice([{}, {"scale": 0.5}]), {}
        if p["nan"]:
            return None
        return (*rng.choice([(r.SolverScikitOLS, {"n_jobs": 1}), (r.SolverScikitHuber, {"epsilon": 1.5}), (r.SolverScikitTheilSen, {"n_jobs": 1, "n_subsamples": 0.5})]), {})

    def call(proc, st, o, a):
        x = o.x
        if st == "decimate":
            return proc.run(a["dec"], x)
        if st == "window":
            return proc.run(a["ref"], a["win"], x)
        if st == "evals":
            return proc.run(a["dec"], x)
        if st == "calibrate":
            return proc.run(a["dir"], x)
        if st == "gather":
            return proc.run(a["dir"], a["dec"], a["tf"], x)
        if st in ("spectra_regression", "gathered_regression"):
            return proc.run(a["tf"], x)
        return proc.run(x)

    TO = {"process": "time", "decimate": "dec", "window": "win", "fourier": "spec", "smooth": "spec", "evals": "evals", "calibrate": "evals",
          "gather": "gath", "spectra_regression": "reg", "gathered_regression": "reg", "refine": "reg", "solve": "sol"}  # fmt: skip
    count = [0]
    Refine = refine_class()

    def session(ops):
        count[0] += 1
        chans = rng.sample(["Ex", "Ey", "Hx", "Hy", "Hz"], 5) if rng.random() < 0.5 else ["Hy", "Ex", "Hx", "Ey"]
        n = rng.randint(650, 900)
        data = np.random.default_rng(rng.randint(0, 2**31)).normal(size=(len(chans), n)) * 1000
        dtype = rng.choice(["f8", "f8", "f4", "i4"])
        data = data.astype(dtype)
        nan = dtype != "i4" and rng.random() < 0.15
        if nan:
            data[0, 5:9] = np.nan
            data[-1, -1] = np.nan
        cd = rs.chan_details(rng, chans)
        for x in cd.values():
            x.pop("name")
        tf = rng.choice([ImpedanceTensor(), ImpedanceTensor(cross_chans=["Hx", "Hy", "Ex"])] + ([Tipper()] if "Hz" in chans else [])
                        + [TransferFunction(variation="mine", out_chans=["Ey"], in_chans=["Hx", "Hy"])])  # fmt: skip
        root_td = rs.time_data(rng.choice([128, 100]), n, chans, rs.atto_time(rng), data, chan_kw=cd, **rs.details(rng))
        root_td = t.Add(add=0.0).run(root_td) if dtype != "i4" else root_td
        from resistics.common import get_record

        root_td.metadata.history.add_record(get_record({"name": "observer", "who": count[0]}, "recorded in the field"))
        live, objs, files, slots = [], [], [], []
        look = []  # functions that observe what is alive

        def add_live(fn):
            look.append(fn)

        def given(x):
            if not any(y is x for y in live):
                live.append(x)
                add_live(lambda: tok([type(x).__name__, x]))

        def add_obj(o):
            objs.append(o)
            add_live(lambda: tok(o.everything()))

        def hist(h, span):
            if h is None:
                return []
            res = []
            for x in h.records:
                cr = dict(x.creator)
                name = cr.pop("name", None)
                res.append({"rec": tok(x), "name": str(name), "params": tok(norm(cr)), "during": span[0] - timedelta(seconds=1) <= x.time_utc <= span[1] + timedelta(seconds=1)})
            return res

        def obs_obj(o, span):
            own, con = o.history()
            return {"hist": hist(own, span), "con": [hist(h, span) for h in con], "content": tok(o.content())}

        alive = lambda: {"live": [f() for f in look]}
        # where files must stand for the values the root had: data held by the session only
        now = datetime.utcnow()
        root = Obj("time", root_td, {"nan": nan, "tf": tf, "dec": None})
        add_obj(root)
        tr.event("start", {"n": count[0]}, dict(obs_obj(root, (now, now)), **alive()))
        slots.append(root)
        done = {}  # step number -> (class, kw, args, instance)

        def params_of(proc, kw):
            p = {f: norm(getattr(proc, f)) for f in proc.__fields__ if f != "name"}
            p.update(norm(kw))
            return tok(p)

        def step(st, o, cls, kw, args, proc=None, bad=False):
            proc = proc or cls(**kw)
            for x in list(args.values()) + [proc]:
                given(x)
            res = []
            key = tok([cls.__name__, norm({k: v for k, v in kw.items() if k != "fncs"}), sorted((c, f) for c, x in kw.get("fncs", {}).items() for f, y in FNCS.items() if y is x),
                       [[k, v] for k, v in sorted(args.items())]])  # fmt: skip
            i = {"st": st, "src": objs.index(o) + 1, "name": cls.__name__, "params": params_of(proc, kw), "key": key, "bad": bad}
            t0 = datetime.utcnow()
            # what was given is observed before the call for the first time
            tr_live = alive()
            if len(tr_live["live"]) != n_seen[0]:
                tr.event("given", {}, tr_live)
                n_seen[0] = len(tr_live["live"])

            def observe(x):
                if bad:
                    return {}
                y = Obj(TO[st], x, dict(o.plan))
                if st == "decimate":
                    y.plan["dec"] = args["dec"]
                y.plan["nan"] = o.plan["nan"] and cls is not t.InterpolateNans
                res.append(y)
                return obs_obj(y, (t0, datetime.utcnow()))

            def after():
                if res:
                    add_obj(res[0])
                v = alive()
                n_seen[0] = len(v["live"])
                return v

            got = tr.call("step", i, lambda: call(proc, st, o, args), observe, after=after)
            if got is None and res:
                # observed but not accepted
                res.clear()
            return (res[0] if res else None), proc

        n_seen = [len(look)]
        for k, op in enumerate(ops):
            if op["op"] == "step":
                o = slots[op["src"] - 1]
                if o is not None and o.kind == "time" and rng.random() < 0.12:
                    step("process", o, *bad_step(o), {}, bad=True)
                ch = None if o is None else choose(o, op["st"])
                if ch is None:
                    slots.append(None)
                    continue
                y, proc = step(op["st"], o, *ch)
                done[k + 1] = (op["st"], o, ch, proc)
                slots.append(y)
            elif op["op"] == "again":
                if op["k"] not in done:
                    slots.append(None)
                    continue
                st, o, ch, proc = done[op["k"]]
                y, _ = step(st, o, *ch, proc=proc if rng.random() < 0.5 else None)
                slots.append(y)
            elif op["op"] == "write":
                o = slots[op["src"] - 1]
                if o is None:
                    files.append(None)
                    continue
                bad = False
                old = [f for f in files if f]
                cls = WRITERS[o.kind]
                if old and rng.random() < 0.2:
                    f = rng.choice(old)
                    wr = cls(overwrite=False)
                    tr.call("write", {"src": objs.index(o) + 1, "name": cls.__name__, "params": 0, "bad": True},
                            lambda: wr.run(f[1], o.x), after=alive)  # fmt: skip
                path = ctx.work / f"s{count[0]}" / f"f{len(files)}"
                kw = rng.choice([{}, {"overwrite": False}])
                wr = cls(**kw)
                given(wr)
                v = alive()
                tr.event("given", {}, v)
                n_seen[0] = len(v["live"])
                t0 = datetime.utcnow()

                def stored(_):
                    m = READERS[o.kind]().run(path, metadata_only=True)
                    return {"hist": hist(m.history, (t0, datetime.utcnow()))}

                tr.call("write", {"src": objs.index(o) + 1, "name": cls.__name__, "params": params_of(wr, kw), "bad": False},
                        lambda: wr.run(path, o.x), stored, after=alive)  # fmt: skip
                files.append((o, path))
            else:
                f = files[op["f"] - 1]
                if f is None:
                    slots.append(None)
                    continue
                o, path = f
                cls = READERS[o.kind]
                kw, rd = {}, cls()
                if o.kind == "time" and rng.random() < 0.5:
                    kw["metadata"] = rd.run(path, metadata_only=True)
                    given(kw["metadata"])
                given(rd)
                v = alive()
                tr.event("given", {}, v)
                n_seen[0] = len(v["live"])
                t0 = datetime.utcnow()
                res = []

                def observe(x):
                    y = Obj(o.kind, x, dict(o.plan))
                    res.append(y)
                    return obs_obj(y, (t0, datetime.utcnow()))

                def after():
                    if res:
                        add_obj(res[0])
                    v = alive()
                    n_seen[0] = len(v["live"])
                    return v

                nth = sum(1 for x in files[: op["f"]] if x)
                tr.call("read", {"f": nth, "name": cls.__name__, "params": params_of(rd, {})}, lambda: rd.run(path, **kw), observe, after=after)
                slots.append(res[0] if res else None)

        # at the end the user writes into a recording: a recording is nobody else's, and only
        # the levels and windows made of it may be views of it
        owned = [k for k, o in enumerate(objs) if o.kind == "time" and o.x.data.flags.writeable]
        for k in rng.sample(owned, min(3, len(owned))):
            before = [tok(o.everything()) for o in objs]
            objs[k].x.data[:] = objs[k].x.data[:] + 17
            tr.event("edit", {"obj": k + 1}, dict({"objs": [[a, tok(o.everything())] for a, o in zip(before, objs)]}, **alive()))

    for case in ctx.cases:
        session(case["ops"])

    def directed():
        """All the way to a solution, and to another one from the spectra; products stored and read on the way"""
        ops, n, files = [], 1, 0

        def add(st, src):
            nonlocal n
            ops.append({"op": "step", "src": src, "st": st})
            n += 1
            return n

        def maybe(src):
            nonlocal n, files
            if rng.random() < 0.3:
                ops.append({"op": "write", "src": src})
                files += 1
                if rng.random() < 0.7:
                    ops.append({"op": "read", "f": files})
                    n += 1
                    return n
            return src

        x = 1
        for st in ["process", "decimate", "window", "fourier", "smooth", "evals", "calibrate"]:
            x = maybe(add(st, x))
        reg = add("gathered_regression", add("gather", x))
        add("solve", reg)
        add("solve", add("refine", reg))
        reg = add("spectra_regression", x)
        for _ in range(rng.randint(0, 3)):
            reg = add("refine", reg)
        add("solve", reg)
        return ops

    for _ in range(12 if ctx.thorough else 2):
        session(directed())
