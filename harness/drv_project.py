"""C19 (create and load), C21 (own address only)"""
import json
import shutil
from pathlib import Path
import numpy as np
import rs

CH = ["Ex", "Ey", "Hx", "Hy"]
FOLDERS = ["time", "calibrate", "spectra", "evals", "features", "masks", "results", "images"]


def user_reader():
    """A reader of a user, for folders with a user.json"""
    from resistics.time import TimeReader, TimeData, TimeMetadata
    from resistics.errors import MetadataReadError

    class ReaderOfUser(TimeReader):
        extension = ".bin"

        def read_metadata(self, dir_path):
            path = dir_path / "user.json"
            if not path.exists():
                raise MetadataReadError(path, "no user.json")
            return TimeMetadata.parse_file(path)

        def read_data(self, dir_path, metadata, read_from, read_to):
            data = np.load(dir_path / "user.bin", allow_pickle=False)[:, read_from : read_to + 1]
            return TimeData(self._get_return_metadata(metadata, read_from, read_to), data)

    return ReaderOfUser


def project(tr, ctx):
    from resistics import letsgo as lg, project as pj
    from resistics.config import Configuration
    from resistics.decimate import DecimationSetup
    from resistics.window import WindowSetup
    from resistics.regression import SolverScikitOLS, Solution
    from resistics.spectra import SpectraDataReader
    from resistics.calibrate import SensorCalibrator, SensorCalibrationJSON
    from resistics.time import TimeReaderNumpy, TimeReaderAscii, TimeWriterNumpy, RemoveMean, Multiply, Add, TimeData

    rng = ctx.rng
    tok = rs.Tokens()
    User = user_reader()
    FS = 128
    BASE = rs.base_time("2021-03-01 00:00:00")
    count = [0]

    def values(d, md):
        return tok([np.asarray(d[c]) if isinstance(d, TimeData) else d[c] for c in sorted(md.chans)] + [rs.descriptive(md)])

    def digest(root, outside):
        """Digest for every address below the project folder"""
        h = {"outside": outside.read_text()}
        if root.exists():
            h["root"] = "dir"
            for p in sorted(root.rglob("*")):
                r = p.relative_to(root).parts
                if r == ("resistics.json",):
                    k = "file"
                elif r[0] in FOLDERS and len(r) == 1:
                    k = "dir " + r[0] if p.is_dir() else "other " + r[0]
                elif r[0] == "time" and len(r) == 2 and p.is_dir():
                    k = "site " + r[1]
                elif r[0] == "time" and len(r) > 2:
                    k = "time " + " ".join(r[1:3])
                elif r[0] == "evals" and len(r) <= 3 and p.is_dir():
                    k = "above evals " + " ".join(r[1:])
                elif r[0] == "evals" and len(r) > 3:
                    k = "evals " + " ".join(r[1:4])
                elif r[0] == "results" and len(r) == 2 and p.is_dir():
                    k = "above results " + r[1]
                elif r[0] == "results" and len(r) > 2:
                    k = "results " + " ".join(r[1:3])
                elif r[0] == "calibrate":
                    k = "calibration"
                else:
                    k = "other " + "/".join(r)
                h[k] = h.get(k, "") + "|" + "/".join(r) + ("=" + p.read_bytes().hex() if p.is_file() else "")
        return {k: tok(v) for k, v in h.items()}

    READERS = {"numpy": lambda: TimeReaderNumpy(), "ascii": lambda: TimeReaderAscii(n_header=2, delimiter=","), "user": lambda: User()}
    # names which are easily taken for each other
    NAMES = {
        "site": [["site 1", "site_1", "Site 1"], ["a", "a.b", "a-b"], ["é", "e", "E"], ["s1", "s10", "1"]],
        "meas": [["run 1", "run_1", "Run 1"], ["b", "run_b", "b_run"], ["m", "m.", "m.npy"], ["1", "01", "1.0"]],
        "cfg": [["long run", "long_run"], ["c", "C"], ["a.b", "a"], ["c1", "c10"], ["c1 ", "c1"]],
    }
    KIND = {"site": "site", "osite": "site", "isite": "site", "meas": "meas", "omeas": "meas", "cfg": "cfg"}

    def renamed(ops):
        """The same operations on things of other names"""
        out = []
        new = {}
        for k in NAMES:
            new[k] = {}
            words = rng.choice(NAMES[k])
            words = rng.sample(words, len(words))
            if rng.random() < 0.3:
                words = []
            for op in ops:
                for f in op:
                    if KIND.get(f) == k and op[f] not in new[k]:
                        new[k][op[f]] = words[len(new[k])] if len(new[k]) < len(words) else op[f]
        return [{f: new[KIND[f]][v] if f in KIND else v for f, v in op.items()} for op in ops], {v: k for k, v in new["cfg"].items()}

    CFG = {"c1": dict(time_processors=[RemoveMean()]), "c": dict(time_processors=[Multiply(multiplier=2.0), Add(add=5.0)])}

    base_cfg = {}

    def config(name, readers):
        return Configuration(name=name, time_readers=[READERS[r]() for r in readers], dec_setup=DecimationSetup(n_levels=2, per_level=2, min_samples=50),
                             win_setup=WindowSetup(min_size=32, min_olap=8, min_n_wins=2, win_factor=8), solver=SolverScikitOLS(n_jobs=1),
                             sensor_calibrator=SensorCalibrator(chans=["Hx"], readers=[SensorCalibrationJSON(file_str="IC_$sensor$extension")]), **CFG[base_cfg.get(name, name)])  # fmt: skip

    def session(ops, pre):
        count[0] += 1
        ops, known = renamed(ops)
        base_cfg.clear()
        base_cfg.update(known)
        if not set(known.values()) >= set(CFG):
            base_cfg.update({c: c for c in CFG if c not in known})
        base = ctx.work / f"p{count[0]}"
        root = base / rng.choice(["proj", "deep/er/proj"])
        base.mkdir()
        outside = base / "outside.txt"
        outside.write_text("not part of the project")
        info = {"ref_time": "2021-02-28 23:59:50", "location": rng.choice(["", "Mongolia"]), "year": rng.choice([2021, -999]), "contributors": rng.choice([[], ["a", "b"]])}
        have = set()
        if pre:
            root.mkdir(parents=True)
            (root / "notes.txt").write_text("kept")
            for d in rng.sample(FOLDERS, rng.randint(0, 8)):
                (root / d).mkdir()
                have.add(d)
                if d not in ("time", "evals", "results", "calibrate") and rng.random() < 0.5:
                    (root / d / "x.dat").write_text("kept as well")
        after = lambda: {"disk": digest(root, outside)}
        tr.event("start", {"file": False, "dirs": sorted(have)}, after())
        st = {"env": None, "readers": None, "known": {}}
        disk = {}

        def ext(ev, i, fn):
            tr.call(ev, i, fn, after=after)

        def put(s, m, kind):
            d = root / "time" / s / m
            if d.exists():
                shutil.rmtree(d)
            d.mkdir(parents=True)
            a, n = rng.randint(0, 60), rng.randint(300, 420)
            metas, vals = {}, {}

            def record(reader):
                chans = rng.sample(CH, 4)
                data = np.random.default_rng(rng.randint(0, 2**31)).normal(size=(4, n)) * 100
                if reader == "ascii":
                    data = np.round(data).astype("f4")
                cd = rs.chan_details(rng, chans)
                for x in cd.values():
                    x.pop("name")
                td = rs.time_data(FS, n, chans, rs.mk_time(rs.secs(BASE) + rs.Fraction(a, FS)), data, chan_kw=cd, **rs.details(rng))
                metas[reader], vals[reader] = tok(rs.descriptive(td.metadata)), values(td, td.metadata)
                return td

            if kind in ("user", "both"):
                td = record("user")
                np.save(d / "user.npy", td.data)
                (d / "user.npy").rename(d / "user.bin")
                td.metadata.write(d / "user.json")
            if kind == "ascii":
                td = record("ascii")
                (d / "data.txt").write_text("\n".join(["a header", "line"] + [",".join(str(int(x)) for x in row) for row in td.data.T]) + "\n")
                for c in td.metadata.chans:
                    td.metadata.chans_metadata[c].data_files = ["data.txt"]
                td.metadata.write(d / "metadata.json")
            if kind in ("numpy", "both", "nometa", "badjson", "nofield", "nodata", "wrongext"):
                TimeWriterNumpy().run(d, record("numpy"))
            f = d / "metadata.json"
            if kind == "nometa":
                f.unlink()
            elif kind == "badjson":
                f.write_text(f.read_text()[: rng.randint(0, 60)])
            elif kind == "nofield":
                x = json.loads(f.read_text())
                x.pop(rng.choice(["fs", "chans", "first_time"]))
                f.write_text(json.dumps(x))
            elif kind == "nodata":
                (d / "data.npy").unlink()
            elif kind == "wrongext":
                (d / "data.npy").rename(d / "data.dat")
                f.write_text(f.read_text().replace("data.npy", "data.dat"))
            ext("put", {"site": s, "meas": m, "kind": kind, "metas": metas, "values": vals, "spans": {k: [a, a + n - 1] for k in metas}}, lambda: None)
            disk[(s, m)] = count[0] * 1000 + len(disk) + rng.randint(0, 10**6) * 1000

        def tick(t):
            x = rs.tick(t, BASE, FS, 1)
            return x["t"] if x["dev"] == 0 else rs.NOTINT

        def observe_load(env, readers):
            found = []
            for s in env.proj:
                for m in s:
                    k = [n for n, r in enumerate(env.config.time_readers) if r is m.reader or (r.dict() == m.reader.dict() and type(r) is type(m.reader))]
                    found.append({"site": s.name, "meas": m.name, "reader": k[0] + 1 if k else 0, "meta": tok(rs.descriptive(m.metadata))})
                    if m.site_name != s.name or env.proj[s.name][m.name] is not m:
                        found.append({"site": m.site_name, "meas": "under another name", "reader": 0, "meta": 0})
            md = env.proj.metadata
            return {"sites": [s.name for s in env.proj], "found": found,
                    "ranges": [{"site": s.name, "begin": tick(s.begin_time), "end": tick(s.end_time)} for s in env.proj if s.n_meas > 0],
                    "begin": tick(env.proj.begin_time), "end": tick(env.proj.end_time),
                    "details": md.location == info["location"] and md.year == info["year"] and md.contributors == info["contributors"]
                    and rs.secs(md.ref_time) == rs.secs(rs.base_time(info["ref_time"])) and env.proj.dir_path == root}  # fmt: skip

        def loaded(env, readers):
            if env is not None:
                st.update(env=env, readers=readers, known=dict(disk))

        for op in ops:
            o = op["op"]
            if o == "create":
                tr.call("create", {}, lambda: lg.new(rng.choice([root, str(root)]), dict(info)), lambda r: {}, after=after)
                if not (root / "calibrate").exists():
                    continue
                f = root / "calibrate" / "IC_MFS06.json"
                if not f.exists():
                    f.write_text(json.dumps({"serial": 1, "sensor": "MFS06", "static_gain": 2, "frequency": [0.01, 1, 100], "magnitude": [1, 2, 2], "phase": [0.5, 0.2, 0.1]}))
                    ext("calfile", {}, lambda: None)
            elif o == "rmfile":
                ext("rmfile", {}, lambda: (root / "resistics.json").unlink())
            elif o == "cut":
                def cut():
                    f = root / "resistics.json"
                    body = f.read_bytes()
                    f.write_bytes(body[: rng.choice([0, 0, 1, len(body) // 2])])

                ext("cut", {}, cut)
            elif o == "lose":
                def lose():
                    for d in FOLDERS:
                        if (root / d).exists():
                            shutil.rmtree(root / d)

                disk.clear()
                ext("lose", {}, lose)
            elif o == "rmdir":
                if o == "rmdir" and op["d"] == "time":
                    disk.clear()
                ext("rmdir", {"d": op["d"]}, lambda: shutil.rmtree(root / op["d"]))
            elif o == "mkdir":
                if not (root / op["d"]).exists():
                    ext("mkdir", {"d": op["d"]}, lambda: (root / op["d"]).mkdir(parents=True))
            elif o == "addsite":
                if (root / "time").is_dir():
                    ext("addsite", {"site": op["site"]}, lambda: (root / "time" / op["site"]).mkdir(exist_ok=True))
            elif o == "put":
                if (root / "time").is_dir():
                    put(op["site"], op["meas"], op["kind"])
                    if rng.random() < 0.1:
                        (root / "time" / "readme.txt").write_text("a file among the sites")
                        (root / "time" / op["site"] / "field.log").write_text("a file among the measurements")
                        ext("stray", {}, lambda: None)
            elif o == "remove":
                if (op["site"], op["meas"]) in disk:
                    del disk[(op["site"], op["meas"])]
                    ext("remove", {"site": op["site"], "meas": op["meas"]}, lambda: shutil.rmtree(root / "time" / op["site"] / op["meas"]))
            elif o == "load":
                cfg = config(rng.choice(list(base_cfg)), op["readers"])
                env = tr.call("load", {"readers": op["readers"]}, lambda: lg.load(rng.choice([root, str(root)]), cfg),
                              lambda r: observe_load(r, op["readers"]), after=after)  # fmt: skip
                loaded(env, op["readers"])
            elif o == "reload":
                if st["env"] is not None:
                    env = tr.call("reload", {}, lambda: lg.reload(st["env"]), lambda r: observe_load(r, st["readers"]), after=after)
                    loaded(env, st["readers"])
            elif st["env"] is None or any(not (root / d).is_dir() for d in FOLDERS):
                continue
            else:
                proj = st["env"].proj
                usable = lambda s, m: s in proj.sites and m in proj[s].measurements and (s, m) in disk and st["known"].get((s, m)) == disk[(s, m)]
                cfg = lambda name: lg.ResisticsEnvironment(proj=proj, config=config(name, st["readers"]))
                if o == "process_time":
                    if not usable(op["site"], op["meas"]) or (op["site"], op["meas"]) == (op["osite"], op["omeas"]):
                        continue
                    name = rng.choice(list(base_cfg))
                    kw = {}
                    md = proj[op["site"]][op["meas"]].metadata
                    if rng.random() < 0.4 and md.n_samples > 350:
                        kw = {"from_time": rs.mk_time(rs.secs(md.first_time) + rs.Fraction(rng.choice([3, 17]), FS))}
                        if rng.random() < 0.5:
                            kw["to_time"] = rs.mk_time(rs.secs(md.last_time) - rs.Fraction(rng.choice([2, 11]), FS))
                    i = dict({k: op[k] for k in ("site", "meas", "osite", "omeas")}, key=tok([name, kw]))
                    dst = root / "time" / op["osite"] / op["omeas"]

                    def obs(_):
                        td = TimeReaderNumpy().run(dst)
                        return {"value": values(td, td.metadata), "meta": tok(rs.descriptive(td.metadata)),
                                "first": tick(td.metadata.first_time), "last": tick(td.metadata.last_time)}  # fmt: skip

                    tr.call("process_time", i, lambda: lg.process_time(cfg(name), op["site"], op["meas"], op["osite"], op["omeas"], **kw), obs, after=after)
                    disk[(op["osite"], op["omeas"])] = count[0] * 1000 + len(disk) + rng.randint(0, 10**6) * 1000
                elif o == "evals":
                    if not usable(op["site"], op["meas"]):
                        continue
                    i = {"site": op["site"], "meas": op["meas"], "cfg": op["cfg"], "key": tok(op["cfg"])}
                    dst = root / "evals" / op["site"] / op["cfg"] / op["meas"]

                    def obs(_):
                        sd = SpectraDataReader().run(dst)
                        return {"value": tok([sd.data[k] for k in sorted(sd.data)] + [rs.descriptive(sd.metadata)])}

                    for _ in range(rng.choice([1, 1, 2])):
                        tr.call("evals", i, lambda: lg.process_time_to_evals(cfg(op["cfg"]), op["site"], op["meas"]), obs, after=after)
                else:
                    have = lambda s: s in proj.sites and proj[s].n_meas > 0 and all(
                        (root / "evals" / s / op["cfg"] / m.name).is_dir() and (s, m.name) in disk and st["known"].get((s, m.name)) == disk[(s, m.name)] for m in proj[s])  # fmt: skip
                    if not (have(op["osite"]) and have(op["isite"])):
                        continue
                    i = {k: op[k] for k in ("osite", "isite", "cfg")}
                    post = rng.choice([None, "rr"])
                    i["key"] = tok([op["cfg"], op["osite"], op["isite"]])
                    i["postfix"] = post or ""

                    def obs(sol):
                        x = lg.get_solution(cfg(op["cfg"]), op["osite"], op["cfg"], FS, sol.tf.name, sol.tf.variation, post)
                        return {"value": tok(x.dict(exclude={"history", "contributors", "file_info"}))}

                    run = lambda: lg.process_evals_to_tf(cfg(op["cfg"]), FS, op["osite"], in_site=op["isite"], cross_site=op["isite"], postfix=post)
                    tr.call("tf", i, run, obs, after=after)
        shutil.rmtree(base)

    for case in ctx.cases:
        session(case["ops"], rng.random() < 0.3)
    # creating where a project was: its file alone, whole or cut short, with some folders or none
    for k in range(8):
        left = rng.sample(FOLDERS, rng.choice([0, 1, 1, 7]))
        ops = [{"op": "create"}, {"op": "put", "site": "s1", "meas": "m1", "kind": "numpy"}]
        ops += [{"op": "cut"}] if k % 2 else []
        ops += [{"op": "lose"}] + [{"op": "mkdir", "d": d} for d in left]
        ops += [{"op": "load", "readers": ["numpy"]}, {"op": "create"}, {"op": "load", "readers": ["numpy"]}]
        session(ops, rng.random() < 0.3)
    if not ctx.cases:
        session([{"op": "create"}, {"op": "put", "site": "s1", "meas": "m1", "kind": "numpy"}, {"op": "put", "site": "s1", "meas": "m2", "kind": "both"},
                 {"op": "addsite", "site": "s2"}, {"op": "load", "readers": ["numpy", "user"]}, {"op": "evals", "site": "s1", "meas": "m1", "cfg": "c1"}, {"op": "evals", "site": "s1", "meas": "m2", "cfg": "c1"},
                 {"op": "tf", "osite": "s1", "isite": "s1", "cfg": "c1"}, {"op": "process_time", "site": "s1", "meas": "m1", "osite": "s3", "omeas": "m1"}, {"op": "reload"}, {"op": "create"}], True)  # fmt: skip
