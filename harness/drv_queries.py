"""C20: what can be asked of a loaded project"""
import shutil
from fractions import Fraction
import numpy as np
import rs

#: lists of increasing sampling frequencies; times are multiples of the unit (in seconds)
FS = [[0.125, 1 / 3, 0.5, 1.0], [16.0, 128.0, 128.00000000000003, 4096.0], [1 / 3, 0.5, 512.0, 65536.0], [128.0, 256.0, 512.0, 1024.0]]


def queries(tr, ctx):
    from resistics import letsgo as lg
    from resistics.config import Configuration
    from resistics.project import Project, Site, Measurement, ProjectMetadata
    from resistics.time import TimeReaderNumpy, TimeWriterNumpy
    from resistics.errors import SiteNotFoundError, MeasurementNotFoundError

    rng = ctx.rng
    count = [0]

    def session(ops):
        count[0] += 1
        direct = rng.random() < 0.6
        base = rs.base_time(rng.choice(["2021-01-01 00:00:00", "1999-12-31 23:59:58.999999", "2020-02-28 12:00:00.5"]))
        root = ctx.work / f"q{count[0]}"
        fs = rng.choice(FS)
        # a unit in which all spans can be recorded: one sample period of the highest of the used frequencies
        if direct:
            unit = rng.choice([Fraction(1), Fraction(3600 * 24), Fraction(1, 10**6), Fraction(1, 10**9), Fraction(1, 10**15), Fraction(7, 10**16)])
            table = unit >= Fraction(1, 10**9)
        else:
            fs, unit, table = FS[3], Fraction(1, 64), True
            lg.new(root, {"ref_time": "2021-01-01"})
        names = {}
        disk = {}
        tr.event("start", {"sites": []}, {})
        cfg = Configuration(name="q", time_readers=[TimeReaderNumpy()])

        def tick(t):
            x = (rs.secs(t) - rs.secs(base)) / unit
            return int(x) if x.denominator == 1 and abs(x) < 2**31 - 1 else rs.NOTINT

        def when(k):
            return rs.mk_time(rs.secs(base) + k * unit)

        def pos(f):
            return fs.index(f) + 1 if f in fs else 0

        def put(m):
            disk[(m["site"], m["meas"])] = m
            if direct:
                return
            d = root / "time" / m["site"] / m["meas"]
            if d.exists():
                shutil.rmtree(d)
            f = fs[m["fs"] - 1]
            n = int((m["last"] - m["first"]) * unit * int(f)) + 1
            TimeWriterNumpy().run(d, rs.time_data(f, n, ["Ex"], when(m["first"]), np.zeros((1, n), dtype="f4")))

        def load():
            if not direct:
                return lg.load(root, cfg).proj
            sites = {}
            keys = list(disk)
            rng.shuffle(keys)
            for s in dict.fromkeys([k[0] for k in keys]):
                meas = {}
                for k in keys:
                    if k[0] == s:
                        m = disk[k]
                        md = rs.time_metadata(fs[m["fs"] - 1], 3, ["Ex", "Hy"], when(m["first"]))
                        md.last_time = when(m["last"])
                        meas[k[1]] = Measurement(site_name=s, dir_path=root / "time" / s / k[1], metadata=md, reader=TimeReaderNumpy())
                sites[s] = Site(dir_path=root / "time" / s, measurements=meas, begin_time=min(x.metadata.first_time for x in meas.values()),
                                end_time=max(x.metadata.last_time for x in meas.values()))  # fmt: skip
            ts = [s.begin_time for s in sites.values()] + [s.end_time for s in sites.values()] or [base]
            return Project(dir_path=root, begin_time=min(ts), end_time=max(ts), metadata=ProjectMetadata(ref_time=base), sites=sites)

        def refused(fn, err):
            try:
                fn()
            except err:
                return True
            except Exception:
                return False
            return False

        def describe(proj):
            return repr([(s, [(m, str(x.metadata.first_time), str(x.metadata.last_time), x.metadata.fs) for m, x in site.measurements.items()], str(site.begin_time), str(site.end_time))
                         for s, site in proj.sites.items()] + [str(proj.begin_time), str(proj.end_time)])  # fmt: skip

        def rows(df):
            out = []
            for r in df.to_dict("records"):
                t = [rs.mk_time(rs.secs(rs.base_time("2021-01-01")) + Fraction(int(r[c].value) - 1609459200 * 10**9, 10**9)) for c in ("first_time", "last_time")]
                out.append({"site": r["site"], "meas": r["name"], "fs": pos(r["fs"]), "first": tick(t[0]), "last": tick(t[1])})
            return out

        def listed(ms):
            return [{"site": m.site_name, "meas": m.name, "fs": pos(m.metadata.fs), "first": tick(m.metadata.first_time), "last": tick(m.metadata.last_time)} for m in ms]

        def ask(proj):
            """All questions; the order of asking varies"""
            o = {}
            before = describe(proj)
            own = list(proj.sites)
            asked = list(range(1, 5)) + [0]
            value = lambda k: fs[k - 1] if k else 77.7

            def q_fs():
                o["fs"] = [pos(x) for x in proj.fs()]

            def q_site_fs():
                o["site_fs"] = [{"site": s, "fs": [pos(x) for x in proj[s].fs()]} for s in own]

            def q_lists():
                o["sites"] = [s.name for s in proj]
                o["n_sites"] = proj.n_sites
                o["meas"] = listed([m for s in proj for m in s])
                o["n_meas"] = sum(s.n_meas for s in proj)
                if rng.random() < 0.5:
                    o["sites"] = list(proj.get_sites())
                    o["meas"] = listed([m for s in own for m in proj.get_site(s).get_measurements().values()])

            def q_with():
                o["with_fs"] = [{"fs": k, "sites": [n if n == x.name else "another" for n, x in proj.get_sites(fs=value(k)).items()]} for k in asked]

            def q_meas_with():
                o["meas_with_fs"] = [{"site": s, "fs": k, "meas": [n if n == x.name and x.site_name == s else "another" for n, x in proj[s].get_measurements(fs=value(k)).items()]}
                                     for s in own for k in asked]  # fmt: skip

            def q_conc():
                o["concurrent"] = [{"site": s, "sites": [x.name for x in proj.get_concurrent(s)]} for s in own if proj[s].n_meas > 0]

            def q_range():
                o["ranges"] = [{"site": s.name, "begin": tick(s.begin_time), "end": tick(s.end_time)} for s in proj if s.n_meas > 0]
                o["begin"], o["end"] = tick(proj.begin_time), tick(proj.end_time)

            def q_names():
                o["by_name"] = all(proj[s].name == s and proj.get_site(s) is proj[s] for s in own) and all(
                    proj[s][m].name == m and proj[s][m].site_name == s and proj[s].get_measurement(m) is proj[s][m] for s in own for m in proj[s].measurements)  # fmt: skip

            def q_unknown():
                bad = ["nosuch", "", "S", " s1", "s1/m1", "time"]
                o["unknown"] = [{"what": repr(b), "refused": refused(lambda: proj[b], SiteNotFoundError) and refused(lambda: proj.get_site(b), SiteNotFoundError) and refused(lambda: proj.get_concurrent(b), Exception)} for b in bad if b not in own]
                o["unknown"] += [{"what": repr(b), "refused": refused(lambda: proj[s][b], MeasurementNotFoundError) and refused(lambda: proj[s].get_measurement(b), MeasurementNotFoundError)}
                                 for s in own for b in bad + ["m1", "m10"] + own if b not in proj[s].measurements]  # fmt: skip

            def q_table():
                o["table"] = rows(proj.to_dataframe()) if table else listed([m for s in proj for m in s])
                if table and rng.random() < 0.5:
                    o["table"] = [r for s in own for r in rows(proj[s].to_dataframe())]

            qs = [q_fs, q_site_fs, q_lists, q_with, q_meas_with, q_conc, q_range, q_names, q_unknown, q_table]
            rng.shuffle(qs)
            for q in qs:
                q()
            o["unchanged"] = describe(proj) == before
            return o

        for op in ops:
            if op["op"] == "put":
                tr.call("put", {"m": op["m"]}, lambda: put(op["m"]))
            elif op["op"] == "remove":
                key = (op["m"]["site"], op["m"]["meas"])
                del disk[key]
                if direct:
                    tr.event("remove", {"m": op["m"]}, {})
                else:
                    tr.call("remove", {"m": op["m"]}, lambda: shutil.rmtree(root / "time" / key[0] / key[1]))
            else:
                proj = tr.call("load", {}, load, lambda r: {})
                if proj is None:
                    continue
                # directly built projects hold the sites with measurements only
                if direct:
                    tr.event("sites", {"sites": sorted({k[0] for k in disk})}, {})
                for _ in range(rng.choice([1, 2])):
                    tr.call("look", {}, lambda: proj, ask)
        if root.exists():
            shutil.rmtree(root)

    for case in ctx.cases:
        session(case["ops"])
    if not ctx.cases:
        m = lambda s, n, f, a, b: {"op": "put", "m": {"site": s, "meas": n, "fs": f, "first": a, "last": b}}
        for _ in range(6):
            session([m("s1", "m1", 1, 0, 2), m("s1", "m2", 2, 1, 3), m("s2", "m1", 1, 3, 4), {"op": "load"}])
