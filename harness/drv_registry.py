"""C23: processes, transfer functions and configurations survive serialisation"""
import copy
import json
import shutil
from typing import Dict, List, Optional, Union, Any
import numpy as np
import rs
from drv_objects import Obj
from drv_pipeline import value as product

CH = ["Ex", "Ey", "Hx", "Hy"]


def registry(tr, ctx):
    from resistics import time as t, decimate as d, window as w, spectra as sp, gather as g, regression as r, calibrate as c
    from resistics.common import ResisticsProcess
    from resistics.config import Configuration
    from resistics.transfunc import TransferFunction, ImpedanceTensor, Tipper
    from resistics import letsgo as lg

    rng = ctx.rng
    tok = rs.Tokens()
    FS = 256
    work = ctx.work / "data"
    # things to try objects on
    data = np.random.default_rng(7).normal(size=(4, 2304)) * 10 + np.arange(4)[:, None]
    td = rs.time_data(FS, 2304, CH, rs.base_time("2021-05-01"), data, chan_kw={ch: {"sensor": "MFS06", "serial": "5"} for ch in CH})
    t.TimeWriterNumpy().run(work / "npy", td)
    md = t.TimeMetadata(**td.metadata.dict())
    for ch in md.chans:
        md.chans_metadata[ch].data_files = ["data.txt"]
    (work / "txt").mkdir()
    md.write(work / "txt" / "metadata.json")
    (work / "txt" / "data.txt").write_text("header\n" + "\n".join(",".join(f"{x:.3f}" for x in row) for row in data.T) + "\n")
    cal = work / "cal"
    cal.mkdir()
    body = {"serial": 5, "sensor": "MFS06", "static_gain": 2, "frequency": [0.01, 1, 100], "magnitude": [1, 2, 2], "phase": [0.5, 0.2, 0.1]}
    (cal / "IC_MFS06.json").write_text(json.dumps(body))
    (cal / "5.cal").write_text(json.dumps(dict(body, magnitude=[3, 4, 5])))
    (cal / "IC_MFS06.TXT").write_text("Serial = 5\nSensor = MFS06\nStatic gain = 1\nMagnitude unit = mV/nT\nPhase unit = degrees\nChopper = False\n\nCALIBRATION DATA\n0.01 1 40\n10 3 20\n")
    dp0 = d.DecimationSetup(n_levels=2, per_level=2, min_samples=60).run(FS)
    dd0 = d.Decimator().run(dp0, td)
    wd0 = w.Windower().run(td.metadata.first_time, w.WindowSetup(min_size=16, min_olap=4, win_factor=16).run(2, dd0.metadata.fs), dd0)
    sd0 = sp.FourierTransform(workers=1).run(wd0)
    ed0 = sp.EvaluationFreqs().run(dp0, sd0)
    gd0 = g.QuickGather().run(work, dp0, ImpedanceTensor(), ed0)
    rd0 = r.RegressionPreparerGathered().run(ImpedanceTensor(), gd0)

    def attempt(fn):
        try:
            x = fn()
        except Exception as e:
            return ["refused", type(e).__name__]
        x = x if isinstance(x, (list, tuple)) else [x]
        return [product(y) if hasattr(y, "metadata") or isinstance(y, r.Solution) else y for y in x]

    def behaves(o):
        """What an object does, as one value"""
        if isinstance(o, t.TimeProcess):
            return attempt(lambda: o.run(td))
        if isinstance(o, sp.SpectraProcess):
            return attempt(lambda: o.run(sd0))
        if isinstance(o, t.TimeReader):
            return [attempt(lambda: o.run(work / "npy")), attempt(lambda: o.run(work / "txt", from_sample=3, to_sample=90))]
        if isinstance(o, c.SensorCalibrationReader):
            return attempt(lambda: o.run(cal, sd0.metadata, "Hx").dict(exclude={"file_path"}))
        if isinstance(o, c.Calibrator):
            return attempt(lambda: o.run(cal, ed0))
        if isinstance(o, d.DecimationSetup):
            return [attempt(lambda: o.run(f).dict()) for f in (FS, 1 / 3)]
        if isinstance(o, w.WindowSetup):
            return attempt(lambda: o.run(2, [256.0, 64.0]).dict())
        if isinstance(o, d.Decimator):
            return attempt(lambda: o.run(dp0, td))
        if isinstance(o, w.Windower):
            return attempt(lambda: o.run(td.metadata.first_time, w.WindowSetup(min_size=16, min_olap=4, win_factor=16).run(2, dd0.metadata.fs), dd0))
        if isinstance(o, sp.FourierTransform):
            return attempt(lambda: o.run(wd0))
        if isinstance(o, r.Solver):
            return attempt(lambda: o.run(rd0))
        if isinstance(o, TransferFunction):
            return [attempt(lambda: [o.n_eqns_per_output(), o.n_regressors(), o.to_string(), o.n_in, o.n_out, o.n_cross]), o.extra() if hasattr(o, "extra") else 0]
        if isinstance(o, Configuration):
            return [behaves(x) for x in o.time_processors + o.spectra_processors + o.time_readers] + [behaves(getattr(o, k)) for k in ("dec_setup", "decimator", "win_setup", "windower", "fourier", "sensor_calibrator", "tf", "solver")]
        if hasattr(o, "items"):
            return [behaves(x) for x in o.items] + [behaves(x) for x in [o.one] if x is not None]
        return 0

    def parts(o):
        """Names and versions in preorder"""
        out = []
        if isinstance(o, (ResisticsProcess, TransferFunction, Configuration)):
            out.append([type(o).__name__, getattr(type(o), "VERSION", [0])[0]])
            for k in o.__fields__:
                out += parts(getattr(o, k))
        elif isinstance(o, (list, tuple)):
            for x in o:
                out += parts(x)
        elif isinstance(o, dict):
            for x in o.values():
                out += parts(x)
        return out

    def params(o):
        """Types and values of everything in an object"""
        if isinstance(o, (ResisticsProcess, TransferFunction, Configuration)):
            return [type(o).__name__, [[k, params(getattr(o, k))] for k in o.__fields__]]
        if isinstance(o, (list, tuple)):
            return [params(x) for x in o]
        if isinstance(o, dict):
            return {str(k): params(v) for k, v in o.items()}
        return o

    # ---- built-in classes and parameters
    n_of = lambda *a: rng.choice(a)
    POOL = {
        "time": [
            (t.Add, lambda: dict(add=n_of(2, 1 / 3, {"Ex": 3.5}, {"Hy": -1e-7, "nn": 2}))),
            (t.Multiply, lambda: dict(multiplier=n_of(0.1, {"Ex": 3, "Ey": 1 / 7}, -5))),
            (t.RemoveMean, lambda: {}), (t.InterpolateNans, lambda: {}),
            (t.LowPass, lambda: dict(cutoff=n_of(20, 33.3), order=n_of(2, 10))), (t.HighPass, lambda: dict(cutoff=n_of(0.5, 3), order=n_of(2, 4))),
            (t.BandPass, lambda: dict(cutoff_low=2, cutoff_high=n_of(30, 41.5), order=4)), (t.Notch, lambda: dict(notch=50, band=n_of(None, 4.0), order=4)),
            (t.Resample, lambda: dict(new_fs=n_of(128, 192, 100.5))), (t.Decimate, lambda: dict(factor=n_of(2, 4), max_single_factor=n_of(2, 3))),
            (t.ShiftTimestamps, lambda: dict(shift=n_of(0.001, 1 / 1024))),
            (t.Subsection, lambda: dict(from_time=n_of("2021-05-01 00:00:01", "2021-05-01 00:00:00.500000_000000_000000_000000"), to_time="2021-05-01 00:00:07.25")),
        ],
        "spectra": [(sp.SpectraSmootherUniform, lambda: dict(length_proportion=n_of(0.1, 1 / 3))), (sp.SpectraSmootherGaussian, lambda: dict(sigma=n_of(1, 3.5)))],
        "reader": [(t.TimeReaderNumpy, lambda: dict(apply_scalings=n_of(True, False))),
                   (t.TimeReaderAscii, lambda: dict(delimiter=n_of(",", None), n_header=n_of(0, 1), extension=n_of(".txt", ".asc"), apply_scalings=n_of(True, False)))],
        "calreader": [(c.SensorCalibrationJSON, lambda: dict(file_str=n_of("IC_$sensor$extension", "$serial.cal", "none$extension"))),
                      (c.SensorCalibrationTXT, lambda: dict(file_str=n_of("IC_$sensor$extension", "none"), extension=n_of(".TXT", ".txt")))],
        "tf": [(ImpedanceTensor, lambda: dict(variation=n_of("default", "x y"), **n_of({}, dict(cross_chans=["Ex"]), dict(in_chans=["Hy", "Hx"])))),
               (Tipper, lambda: n_of({}, dict(cross_chans=["Bx", "By"]), dict(out_chans=["Hz", "Hx"], in_chans=["Hy"]))),
               (TransferFunction, lambda: dict(out_chans=["Ex"], in_chans=n_of(["Hx"], ["Hx", "Hy"], ["Bx", "Ey", "Hz"]))),
               (TransferFunction, lambda: dict(variation=n_of("generic", "é"), out_chans=["E1", "E2", "E3"], in_chans=n_of(["Hx"], ["Hx", "Hy", "Hz"]), **n_of({}, dict(cross_chans=["H1", "H2", "H3", "H4"]))))],
        "setup": [(d.DecimationSetup, lambda: dict(n_levels=n_of(1, 2), per_level=2, min_samples=n_of(60, 256), div_factor=n_of(2, 3))),
                  (d.DecimationSetup, lambda: dict(n_levels=2, per_level=2, eval_freqs=[1 / 7, 0.1, 0.05, 1 / 30])),
                  (w.WindowSetup, lambda: dict(min_size=n_of(16, 32), olap_proportion=n_of(0.25, 1 / 3), win_sizes=n_of(None, [32, 16]), olap_sizes=n_of(None, [8, 4, 2]))),
                  (d.Decimator, lambda: dict(resample=n_of(True, False), max_single_factor=n_of(3, 7))), (w.Windower, lambda: {}), (w.WindowerTarget, lambda: dict(target=n_of(10, 20), olap_proportion=n_of(0.3, 0.5), min_size=16)),
                  (sp.FourierTransform, lambda: dict(workers=1, win_fnc=n_of("hann", ("kaiser", 14), ("kaiser", 8.5), ("tukey", 1 / 3), ("tukey", 0.25)), detrend=n_of("linear", "constant", None))),
                  (r.SolverScikitOLS, lambda: dict(n_jobs=n_of(1, -2), fit_intercept=n_of(True, False))), (r.SolverScikitHuber, lambda: dict(epsilon=n_of(1, 1.35))),
                  (r.SolverScikitTheilSen, lambda: dict(n_subsamples=n_of(None, 0.25), max_subpopulation=n_of(100, 2000))), (r.SolverScikitRANSAC, lambda: dict(min_samples=n_of(0.5, 0.8), max_trials=n_of(5, 20)))],
    }  # fmt: skip

    class HolderOfUser(ResisticsProcess):
        items: List[ResisticsProcess] = []
        one: Optional[ResisticsProcess] = None
        label: str = ""

    class HolderOfFunctions(ResisticsProcess):
        items: List[TransferFunction] = []
        one: Optional[TransferFunction] = None

    def user_class(family, name, version):
        """A class a user defines, under a name, perhaps for the second time"""
        ann = {"weight": float, "chans": Optional[List[str]], "table": Dict[str, float]}
        ns = {"__module__": __name__, "__annotations__": ann, "weight": 1.5, "chans": None, "table": {}}
        v = version
        # a class that is defined anew has the same parameters
        always = lambda bases: memo.setdefault(name, rng.choice(bases))
        if family == "time":
            base = always([t.TimeProcess, t.RemoveMean])
            ns["run"] = lambda self, x: t.TimeData(t.TimeMetadata(**x.metadata.dict()), np.asarray(x.data) * self.weight * v + sum(self.table.values()))
        elif family == "spectra":
            base = sp.SpectraProcess
            ns["run"] = lambda self, x: sp.SpectraData(sp.SpectraMetadata(**x.metadata.dict()), {k: y * self.weight * v + sum(self.table.values()) for k, y in x.data.items()})
        elif family == "reader":
            base = always([t.TimeReaderNumpy, t.TimeReaderAscii])
            ns["scale_data"] = lambda self, x: t.TimeData(x.metadata, np.asarray(x.data) * self.weight * v)
        elif family == "calreader":
            base = c.SensorCalibrationJSON
            ns["read_calibration_data"] = lambda self, path, cm: c.CalibrationData(file_path=path, sensor=cm.sensor, serial=1, frequency=[1, 2, 3], magnitude=[v, self.weight, 1], phase=[0, 0, 0])
        elif family == "tf":
            base = always([TransferFunction, ImpedanceTensor])
            if base is TransferFunction:
                ns["out_chans"], ns["in_chans"] = ["Ex"], ["Hz", "Hx"]
                ann.update(out_chans=List[str], in_chans=List[str])
            ns["extra"] = lambda self: [v, self.weight, self.chans, self.table]
        else:
            base = always([d.DecimationSetup, d.Decimator])
            if base is d.DecimationSetup:
                ns["run"] = lambda self, fs: d.DecimationParameters(fs=fs, n_levels=1, per_level=1, min_samples=v, eval_freqs=[self.weight], dec_factors=[1])
        x = type(name, (base,), ns)
        x.VERSION = [version]
        return x, lambda: dict(weight=n_of(0.5, 1 / 3, 2), chans=n_of(None, ["Ex", "Hy"]), table=n_of({}, {"a": 1.25, "b": 1 / 3}))

    count = [0]
    memo = {}

    def session(ops, family=None, pick=None):
        count[0] += 1
        family, single = family or rng.choice(list(POOL)), pick is not None
        memo.clear()
        root = TransferFunction if family == "tf" else ResisticsProcess
        bases = {"time": t.TimeProcess, "spectra": sp.SpectraProcess, "reader": t.TimeReader, "calreader": c.CalibrationReader, "tf": TransferFunction, "setup": ResisticsProcess}
        classes = {}
        pick = pick or rng.sample(POOL[family], min(3, len(POOL[family])))
        for k, m in enumerate("BCL"):
            classes[m] = pick[k % len(pick)]
        versions = {}
        # the same name as before in another session
        real = {"U": rng.choice(["MyProcess", "Étape", f"My{count[0]}"]), "V": rng.choice(["Add2", f"V_{count[0]}"])}
        objs, dicts, bodies = {}, {}, {}
        model_objs, model_dicts = [], []
        tr.event("start", {}, {})

        def item(m):
            cls, kw = classes[m]
            return cls, kw()

        def build(names):
            """An object with these parts; returns it, its parts by name, and what it must hold"""
            kids = [item(m) for m in names]
            make = lambda cls, kw: cls(**copy.deepcopy(kw))
            if single or (len(kids) == 1 and rng.random() < 0.7):
                cls, kw = kids[0]
                o = make(cls, kw)
                ok = all(params(getattr(o, k)) == params(v) or list(getattr(o, k)) == list(v) for k, v in kw.items())
                cross = not isinstance(o, TransferFunction) or "cross_chans" in kw or (o.cross_chans == o.in_chans and o.n_cross == len(o.in_chans))
                return o, [cls.__name__], ok, cross
            # parts are given as objects or as dictionaries
            given = [make(cls, kw) for cls, kw in kids]
            mix = [x if rng.random() < 0.6 else (x.dict() if rng.random() < 0.5 else json.loads(x.json())) for x in given]
            keep = copy.deepcopy(mix)
            if family == "tf":
                o = HolderOfFunctions(items=mix[:-1], one=mix[-1]) if rng.random() < 0.7 else None
                if o is None:
                    o = Configuration(name="x", tf=mix[0])
                    mix, keep, given = mix[:1], keep[:1], given[:1]
                    return o, _config_names(o, "tf", [given[0]]), params(o.tf) == params(given[0]), repr(mix) == repr(keep)
                held = o.items + [o.one]
                names = ["HolderOfFunctions"] + [type(x).__name__ for x in given]
            elif family == "calreader":
                o = c.SensorCalibrator(chans=n_of(None, ["Hx"]), readers=mix)
                held = o.readers
                names = ["SensorCalibrator"] + [type(x).__name__ for x in given]
            elif family == "setup" or rng.random() < 0.4:
                o = HolderOfUser(items=mix[:-1], one=mix[-1], label=n_of("", "ä"))
                held = o.items + [o.one]
                names = ["HolderOfUser"] + [type(x).__name__ for x in given]
            else:
                slot = {"time": "time_processors", "spectra": "spectra_processors", "reader": "time_readers"}[family]
                o = Configuration(name=n_of("default", "RemoveMean", "x y"), solver=rng.choice([r.SolverScikitOLS(n_jobs=1), {"name": "SolverScikitHuber", "epsilon": 1.5}]),
                                  fourier=sp.FourierTransform(workers=1, win_fnc=n_of("hann", ("kaiser", 14))), **{slot: mix})  # fmt: skip
                held = getattr(o, slot)
                names = _config_names(o, slot, given)
            return o, names, [params(x) for x in held] == [params(x) for x in given], repr(mix) == repr(keep)

        def _config_names(o, slot, given):
            out = ["Configuration"]
            for k in o.__fields__:
                out += [type(x).__name__ for x in given] if k == slot else [p[0] for p in parts(getattr(o, k))]
            return out

        def observe(o):
            return {"parts": parts(o), "token": tok(params(o)), "behaves": tok(behaves(o))}

        def routes(dic, body):
            """Ways to build an object from the dictionary: name and function"""
            if body["damaged"]:
                if body["config"]:
                    return [("class", lambda: Configuration(**dic)), ("parse_obj", lambda: Configuration.parse_obj(dic))]
                if body["holder"]:
                    return [("validate", lambda: ResisticsProcess.validate(dic))]
                H = HolderOfFunctions if family == "tf" else HolderOfUser
                return [("validate", lambda: root.validate(dic)), ("nested", lambda: H(items=[dic]).items[0]), ("one", lambda: H(one=dic).one)]
            if body["config"]:
                return [("class", lambda: Configuration(**dic)), ("parse_obj", lambda: Configuration.parse_obj(dic)), ("parse_raw", lambda: Configuration.parse_raw(body["text"])), ("parse_file", lambda: Configuration.parse_file(body["file"]()))]
            if body["holder"]:
                return [("validate", lambda: ResisticsProcess.validate(dic)), ("class", lambda: body["cls"](**dic)), ("parse_raw", lambda: body["cls"].parse_raw(body["text"])), ("one", lambda: HolderOfUser(one=dic).one)]
            H = HolderOfFunctions if family == "tf" else HolderOfUser
            out = [("validate", lambda: root.validate(dic)), ("family", lambda: bases[family].validate(dic)), ("nested", lambda: H(items=[dic, dic]).items[1]), ("one", lambda: H(one=dic).one)]
            if body["latest"]():
                out += [("class", lambda: body["cls"](**dic)), ("parse_obj", lambda: body["cls"].parse_obj(dic)), ("parse_raw", lambda: body["cls"].parse_raw(body["text"]))]
            if family in ("time", "spectra", "reader"):
                slot = {"time": "time_processors", "spectra": "spectra_processors", "reader": "time_readers"}[family]
                out.append(("config", lambda: getattr(Configuration(name="q", **{slot: [dic]}), slot)[0]))
            return out

        for op in ops:
            k = op["op"]
            if k == "define":
                m = op["name"]
                versions[m] = versions.get(m, 0) + 1
                made = []

                def define():
                    made.append(user_class(family, real[m], count[0] * 10 + versions[m]))

                tr.call("define", {"name": real[m], "version": count[0] * 10 + versions[m]}, define)
                classes[m] = made[0]
            elif k == "make":
                i = {"obj": f"o{len(model_objs)}", "names": []}
                res = {}

                def make():
                    o, names, ok, extra = build(op["names"])
                    i["names"] = names
                    res.update(given=bool(ok), cross=bool(extra))
                    return o

                o = tr.call("make", i, make, lambda o: dict(observe(o), given=True), after=lambda: res)
                objs[i["obj"]] = o
                model_objs.append(i["obj"] if o is not None else None)
            elif k == "dump":
                if op["obj"] > len(model_objs) or model_objs[op["obj"] - 1] is None:
                    model_dicts.append(None)
                    continue
                name = model_objs[op["obj"] - 1]
                o = objs[name]
                did = f"d{len(model_dicts)}"
                way = rng.choice(["dict", "json", "json", "parameters"] if isinstance(o, ResisticsProcess) else ["dict", "json"])
                before = tok(params(o))
                fn = {"dict": lambda: o.dict(), "json": lambda: json.loads(o.json()), "parameters": lambda: o.parameters()}[way] if way != "parameters" else o.parameters
                dic = tr.call("dump", {"dict": did, "obj": name, "way": way}, fn, lambda x: {"token": tok(x)}, after=lambda: {"kept": tok(params(o)) == before})
                if dic is None:
                    model_dicts.append(None)
                    continue
                model_dicts.append(did)
                text = o.json()
                file = ctx.work / f"{did}.json"

                def as_file(file=file, text=text):
                    file.write_text(text)
                    return file

                cls = type(o)
                dicts[did] = dic
                bodies[did] = {"damaged": False, "config": isinstance(o, Configuration), "holder": isinstance(o, (HolderOfUser, HolderOfFunctions, c.SensorCalibrator)), "cls": cls,
                               "latest": lambda cls=cls: root._types.get(cls.__name__, cls) is cls, "text": text, "file": as_file, "way": way}  # fmt: skip
            elif k == "damage":
                did = model_dicts[op["dict"] - 1] if op["dict"] <= len(model_dicts) else None
                if did is None:
                    continue
                dic, body = dicts[did], bodies[did]
                spots = []

                def find(x, top):
                    if isinstance(x, dict):
                        if isinstance(x.get("name"), str) and not (top and body["config"]):
                            spots.append(x)
                        for y in x.values():
                            find(y, False)
                    elif isinstance(x, (list, tuple)):
                        for y in x:
                            find(y, False)

                find(dic, True)
                x = rng.choice(spots)
                if op["how"] == "noname":
                    x.pop("name")
                else:
                    x["name"] = rng.choice(["NoSuch", x["name"] + "X", x["name"].lower() + "_", ""])
                body["damaged"] = True
                tr.event("damage", {"dict": did, "how": op["how"]}, {})
            else:
                did = model_dicts[op["dict"] - 1] if op["dict"] <= len(model_dicts) else None
                if did is None:
                    continue
                dic, body = dicts[did], bodies[did]
                way, fn = rng.choice(routes(dic, body))
                i = {"dict": did, "obj": f"o{len(model_objs)}", "route": way}
                before = tok(dic)

                def seen(o):
                    y = observe(o)
                    dump = {"dict": lambda: o.dict(), "json": lambda: json.loads(o.json()), "parameters": lambda: json.loads(o.json())}[body["way"]]()
                    y["again"] = tok(dump) == tok(dic)
                    y["apart"] = apart(o, dic)
                    return y

                o = tr.call("load", i, fn, seen, after=lambda: {"dict": tok(dic) == before})
                if o is not None:
                    objs[i["obj"]] = o
                    model_objs.append(i["obj"])
        tr.event("kept", {}, {"objs": [{"obj": n, "token": tok(params(o)), "parts": parts(o)} for n, o in objs.items() if o is not None]})

    def apart(o, dic):
        """No list or dictionary of the object is one of the dictionary it was built from"""
        own = set()

        def walk(x):
            if isinstance(x, (ResisticsProcess, TransferFunction, Configuration)):
                for k in x.__fields__:
                    walk(getattr(x, k))
            elif isinstance(x, (list, dict)):
                own.add(id(x))
                for y in x.values() if isinstance(x, dict) else x:
                    walk(y)

        walk(o)
        theirs = set()

        def walk2(x):
            if isinstance(x, (list, dict)):
                theirs.add(id(x))
                for y in x.values() if isinstance(x, dict) else x:
                    walk2(y)

        walk2(dic)
        return not (own & theirs)

    for case in ctx.cases:
        session(case["ops"])
    # every class there is, with one set of parameters after the other
    for _ in range(12 if ctx.thorough else 2):
        for family, items in POOL.items():
            items = rng.sample(items, len(items))
            for k in range(0, len(items), 3):
                part = items[k : k + 3]
                ops = []
                for n, m in enumerate("BCL"[: len(part)]):
                    ops += [{"op": "make", "names": [m]}, {"op": "dump", "obj": 2 * n + 1}, {"op": "load", "dict": n + 1}]
                session(ops, family, part)
    if not ctx.cases:
        for _ in range(20):
            session([{"op": "define", "name": "U"}, {"op": "make", "names": ["B", "U"]}, {"op": "make", "names": ["C"]}, {"op": "dump", "obj": 1}, {"op": "dump", "obj": 2}, {"op": "load", "dict": 1}, {"op": "load", "dict": 2},
                     {"op": "define", "name": "U"}, {"op": "load", "dict": 1}, {"op": "damage", "dict": 1, "how": "noname"}, {"op": "load", "dict": 1}])  # fmt: skip
