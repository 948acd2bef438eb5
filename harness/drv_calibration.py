"""C13 (sensor calibration) and C30 (calibration files)"""
import json
import math
import shutil
import numpy as np
import rs
from drv_spectra import spectra, gauss, meta_of, level_in, CH

EXT = {"txt": ".TXT", "json": ".json"}


def make_reader(r):
    from resistics.calibrate import SensorCalibrationTXT, SensorCalibrationJSON

    cls = SensorCalibrationTXT if r["fmt"] == "txt" else SensorCalibrationJSON
    return cls(file_str="".join(r["parts"]), extension=r["ext"])


def file_name(r, sensor, serial):
    sub = {"$sensor": sensor, "$serial": serial, "$extension": r["ext"]}
    return "".join(sub.get(p, p) for p in r["parts"])


def text_of(lines, head, unit, style, section=True, tail=()):
    """A calibration text file; lines are (frequency, magnitude, phase) as strings"""
    out = list(head)
    if unit is not None:
        out.append(f"Phase unit = {unit}")
    out.append("")
    if section:
        out.append("CALIBRATION DATA")
    out += [style["sep"].join(x) for x in lines]
    out += tail
    return style["nl"].join(out) + style["end"]


STYLE = {"sep": " ", "nl": "\n", "end": "\n"}


def write(path, rng, fmt, cal, gain):
    """A file in a format that a reader of that format can read, or one that nothing reads"""
    rad = [2 * math.pi * p / 48 for p in cal["phs"]]
    if fmt == "txt":
        order = list(range(len(rad)))
        rng.shuffle(order)
        deg = rng.random() < 0.5
        lines = [(repr(float(cal["f"][k])), repr(float(cal["mag"][k])), repr(math.degrees(rad[k]) if deg else rad[k])) for k in order]
        path.write_text(text_of(lines, ["Serial = 1", "Sensor = s", f"Static gain = {gain}", "Magnitude unit = mV/nT"],
                                "degrees" if deg else "radians", STYLE))  # fmt: skip
    elif fmt == "json":
        path.write_text(json.dumps({"serial": 7, "sensor": "s", "static_gain": gain, "frequency": cal["f"], "magnitude": cal["mag"], "phase": rad}))
    else:
        path.write_text(rng.choice(["", "not a calibration file\n", "Serial = 3\n1 2 3\n", "{\"serial\": 3", "CALIBRATION DATA\n1 2\n3 4 x\n",
                                    "Static gain = much\nCALIBRATION DATA\n1 2 3\n", "{\"serial\": 3, \"frequency\": [1]}"]))  # fmt: skip


def random_cal(rng):
    n = rng.randint(1, 5)
    f = [rng.randint(1, 40)]
    while len(f) < n:
        f.append(f[-1] + rng.choice([1, 2, 3, 4, 6, 12]))
    p = [12 * rng.randint(-3, 3)]
    while len(p) < n:
        p.append(p[-1] + 12 * rng.randint(-4, 4))
    return {"f": f, "mag": [rng.randint(1, 8) for _ in f], "phs": p}


PATTERNS = [["IC_", "$sensor", "$extension"], ["$sensor", "_", "$serial", "$extension"], ["cal", "$serial", "$sensor", "$extension"],
            ["$serial", "$extension"], ["all", "$extension"], ["x-", "$sensor", "-", "$sensor", "$extension"]]  # fmt: skip


class Cal:
    def __init__(self, tr, ctx):
        self.tr, self.rng, self.work, self.k = tr, ctx.rng, ctx.work, 0

    def run(self, chans, sensors, serials, select, readers, files, levels=None, aim=None):
        from resistics.calibrate import SensorCalibrator

        rng, tok = self.rng, rs.Tokens()
        self.k += 1
        d = self.work / f"cal{self.k}"
        d.mkdir()
        for x in files:
            write(d / x["name"], rng, x["fmt"], x["cal"], x["gain"])
        L = levels or rng.randint(1, 3)
        f = [sorted(rng.sample(range(0, 70), rng.choice([1, 1, 2, 4]))) for _ in range(L)]
        if rng.random() < 0.4:
            f = [x[::-1] for x in f]  # evaluation frequencies fall
        ns = [rng.choice([1, 1, 2, 3]) for _ in range(L)]
        v = [[[[gauss(rng, 60) for _ in x] for _ in chans] for _ in range(n)] for x, n in zip(f, ns)]
        s = spectra(rng, f, ns, chans, v, 1.0)
        for c, a, b in zip(chans, sensors, serials):
            s.metadata.chans_metadata[c].sensor = a
            s.metadata.chans_metadata[c].serial = b
        lm = lambda md: [dict(level_in(m, tok), freqs=rs.ilist(m.freqs)) for m in md.levels_metadata]
        shapes = lambda x: [list(x.data[k].shape) for k in range(L)]
        i = {"chans": chans, "sensors": sensors, "serials": serials, "select": list(chans) if select is None else select,
             "readers": readers, "files": files, "levels": lm(s.metadata), "f": f, "v": v, "meta": tok(meta_of(s.metadata)), "shapes": shapes(s)}  # fmt: skip

        def obs(o):
            return {"meta": tok(meta_of(o.metadata)), "levels": lm(o.metadata), "keys": sorted(int(k) for k in o.data), "shapes": shapes(o),
                    "vals": [rs.clist(o.get_level(k), 1000, tol=1) for k in range(L)],
                    "kept": [[bool(np.array_equal(o.data[k][:, c], s.data[k][:, c])) for c in range(len(chans))] for k in range(L)]}  # fmt: skip

        cal = SensorCalibrator(chans=select, readers=[make_reader(r) for r in readers])
        where = d
        if not files and rng.random() < 0.5:
            where = d / "nowhere"
        self.tr.call("calibrate", i, lambda: cal.run(where, s), obs)
        shutil.rmtree(d)


def reader(rng, fmt, parts=None, ext=None):
    return {"fmt": fmt, "parts": parts or rng.choice(PATTERNS), "ext": ext or EXT[fmt]}


def c13(tr, ctx):
    rng = ctx.rng
    C = Cal(tr, ctx)
    # of the model: three readers, two channels, every state of their files
    for c in ctx.cases:
        chans = rng.sample(CH, rng.choice([2, 3]))
        kinds = [rng.choice(["txt", "json"]) for _ in range(3)]
        readers = [{"fmt": x, "parts": ["r%d_" % k, "$sensor", "_", "$serial", "$extension"], "ext": EXT[x]} for k, x in enumerate(kinds)]
        sensors = [rng.choice(["MFS06", "LEMI120", ""]) for _ in chans]
        serials = [str(10 + k) for k in range(len(chans))]
        files = []
        for j in range(2):
            for k in range(3):
                st = c["file"][j][k]
                if st != "missing":
                    files.append({"name": file_name(readers[k], sensors[j], serials[j]), "fmt": kinds[k] if st == "good" else "none",
                                  "cal": random_cal(rng), "gain": 1})  # fmt: skip
        C.run(chans, sensors, serials, [chans[x - 1] for x in c["selected"]], readers, files, levels=rng.choice([1, 2]))
    for k in range(500 if ctx.thorough else 70):
        chans = rng.sample(CH, rng.randint(1, 5))
        sensors = [rng.choice(["MFS06", "LEMI120", "s"]) for _ in chans]
        serials = [rng.choice(["1", "307", "A2"]) for _ in chans]
        readers = [reader(rng, rng.choice(["txt", "json"])) for _ in range(rng.choice([1, 2, 2, 3]))]
        if rng.random() < 0.2:
            readers = [reader(rng, "txt", ["f", "$sensor"]), reader(rng, "json", ["f", "$sensor"])]  # both look for the same file
        if rng.random() < 0.2:
            readers.append(reader(rng, readers[0]["fmt"], ext=".cal"))
        names = {}
        for r in readers:
            for a, b in zip(sensors, serials):
                if rng.random() < 0.75:
                    names.setdefault(file_name(r, a, b), r["fmt"] if rng.random() < 0.8 else "none")
        files = [{"name": n, "fmt": fmt, "cal": random_cal(rng), "gain": 1} for n, fmt in sorted(names.items())]
        select = rng.choice([None, None, rng.sample(CH + ["Bx"], rng.randint(0, 4))])
        C.run(chans, sensors, serials, select, readers, files)


def num(rng, x):
    """A number in one of the ways it may be written"""
    return rng.choice([repr(x), "%.6f" % x, "%.9E" % x, "%.9e" % x])


def observe_cal(c):
    try:
        c["gain"]
        other = True
    except Exception:
        other = False
    items = [rs.ilist(c["frequency"], 1e3, tol=1e-9), rs.ilist(c["magnitude"], 1e3, tol=1e-9), rs.ilist(c["phase"], 1e6, tol=1)]
    return {"items": items, "other": other, "f": rs.ilist(c.frequency, 1e3, tol=1e-9), "mag": rs.ilist(c.magnitude, 1e3, tol=1e-9), "phs": rs.ilist(c.phase, 1e6, tol=1),
            "n": rs.ii(c.n_samples), "sensor": str(c.sensor).lower(), "serial": str(c.serial).lower(), "magunit": str(c.magnitude_unit),
            "gain": rs.ii(c.static_gain, 1e3), "file": c.file_path.name}  # fmt: skip


def c30(tr, ctx):
    from resistics.calibrate import SensorCalibrationTXT, SensorCalibrationJSON
    from resistics.time import ChanMetadata

    rng = ctx.rng
    cm = ChanMetadata(name="Hx", data_files=[])
    orders = [c["order"] for c in ctx.cases]
    rng.shuffle(orders)
    if not ctx.thorough:
        orders = orders[:150]
    for k in range((2500 if ctx.thorough else 250) + len(orders)):
        n = rng.choice([1, 2, 3, 5, 12, 40])
        unit = rng.choice(["degrees", "radians", None])
        fs = rng.sample(range(1, 2000000), n)
        if k < len(orders):
            fs = [x * rng.choice([1, 1000, 333]) for x in orders[k]] if len(orders[k]) == 1 else [x * 777 for x in orders[k]]
            n = len(fs)
        elif rng.random() < 0.3:
            fs.sort()
        lines = [[f, rng.randint(0, 10**6), rng.randint(-360, 360) if unit == "degrees" else rng.randint(-7 * 10**6, 7 * 10**6)] for f in fs]
        i = {"lines": lines, "unit": unit or "radians", "sensor": "-", "serial": "-", "magunit": "-", "gain": 0, "section": rng.random() > 0.06}
        head = []
        eq = lambda: rng.choice([" = ", "=", "  =\t", " =", "= "])
        up = lambda s: rng.choice([s, s, s.upper(), s.lower(), s.capitalize()])
        if rng.random() < 0.85:
            x = rng.choice(["710", "3", "A12", "b-7"])
            i["serial"] = x.lower()
            head.append(up("Serial") + eq() + x)
        if rng.random() < 0.85:
            x = rng.choice(["LEMI120", "mfs06", "Induction coil 3"])
            i["sensor"] = x.lower()
            head.append(up("Sensor") + eq() + x)
        if rng.random() < 0.7:
            g = rng.choice([1000, 250, 5000, 12345])
            i["gain"] = g
            head.append(up("Static gain") + eq() + num(rng, g / 1000))
        if rng.random() < 0.7:
            i["magunit"] = rng.choice(["mV/nT", "V/nT", "mV/(nT*Hz)"])
            head.append(up("Magnitude unit") + eq() + i["magunit"])
        if unit is not None:
            head.append(up("Phase unit") + eq() + rng.choice([unit, unit, unit.capitalize(), unit.upper()]))
        if rng.random() < 0.6:
            head.append(up("Chopper") + eq() + rng.choice(["True", "False"]))
        rng.shuffle(head)
        if rng.random() < 0.3:
            head.insert(rng.randint(0, len(head)), "")
        style = {"sep": rng.choice([" ", "\t", "   ", " \t "]), "nl": rng.choice(["\n", "\n", "  \n", "\n"]), "end": rng.choice(["", "\n", "\n\n"])}
        txt = [(num(rng, f / 1000), num(rng, m / 1000), num(rng, float(p)) if unit == "degrees" else repr(p / 1e6)) for f, m, p in lines]
        tail = rng.choice([[], [], [""], ["", "end of file"], ["", "1 2 3"]])
        p = ctx.work / f"f{k}.TXT"
        p.write_text(text_of(txt, head, None, style, section=i["section"], tail=tail))
        i["file"] = p.name
        tr.call("text", i, lambda: SensorCalibrationTXT().read_calibration_data(p, cm), observe_cal)
        p.unlink()
    for k in range(400 if ctx.thorough else 60):
        n = rng.choice([1, 2, 5, 20])
        fs = sorted(rng.sample(range(1, 2000000), n))
        if rng.random() < 0.3:
            rng.shuffle(fs)
        i = {"f": fs, "mag": [rng.randint(0, 10**6) for _ in fs], "phs": [rng.randint(-7 * 10**6, 7 * 10**6) for _ in fs],
             "sensor": rng.choice(["-", "lemi120", "mfs06"]), "serial": rng.choice(["710", "a1"]), "magunit": rng.choice(["-", "V/nT"]), "gain": rng.choice([0, 1000, 250])}  # fmt: skip
        d = {"serial": i["serial"] if i["serial"] != "710" else 710, "frequency": [x / 1e3 for x in fs], "magnitude": [x / 1e3 for x in i["mag"]],
             "phase": [x / 1e6 for x in i["phs"]]}  # fmt: skip
        if i["sensor"] != "-":
            d["sensor"] = i["sensor"]
        if i["magunit"] != "-":
            d["magnitude_unit"] = i["magunit"]
        if i["gain"]:
            d["static_gain"] = i["gain"] / 1000
        if rng.random() < 0.3:
            d["file_path"] = "elsewhere/old.json"
        if rng.random() < 0.3:
            d["n_samples"] = n
        p = ctx.work / f"f{k}.json"
        i["file"] = p.name
        p.write_text(json.dumps(d))
        tr.call("json", i, lambda: SensorCalibrationJSON().read_calibration_data(p, cm), observe_cal)
        p.unlink()
    # which file is looked for
    for k in range(600 if ctx.thorough else 120):
        chans = rng.sample(CH, 2)
        md = spectra(rng, [[1, 2]], [1], chans, [[[[[1, 0], [0, 1]] for _ in chans]]], 1.0).metadata
        sens, ser = [rng.choice(["MFS06", "lemi", "S", ""]) for _ in chans], [rng.choice(["1", "22", "A2", ""]) for _ in chans]
        for c, a, b in zip(chans, sens, ser):
            md.chans_metadata[c].sensor, md.chans_metadata[c].serial = a, b
        fmt = rng.choice(["txt", "json"])
        r = reader(rng, fmt, ext=rng.choice([None, None, ".cal", ".Txt"]))
        others = [reader(rng, fmt, ext=rng.choice([None, r["ext"]])) for _ in range(3)]
        d = ctx.work / f"look{k}"
        d.mkdir()
        names = {file_name(x, a, b) for x in [r] + others for a in {*sens, "Z"} for b in {*ser, "9"} if rng.random() < 0.6}
        files = []
        for j, n in enumerate(sorted(names)):
            x = {"name": n, "fmt": fmt if rng.random() < 0.85 else "none", "gain": 1000 * (j + 2)}
            write(d / n, rng, x["fmt"], random_cal(rng), x["gain"] // 1000)
            files.append(x)
        for c in range(2):
            tr.call("lookup", {"reader": r, "sensor": sens[c], "serial": ser[c], "files": files},
                    lambda: make_reader(r).run(d, md, chans[c]), lambda x: {"file": x.file_path.name, "gain": rs.ii(x.static_gain, 1000)})  # fmt: skip
        shutil.rmtree(d)
