"""C03 and C28: writers and readers"""
import json
import numpy as np
import rs

CH = ["Hy", "Ex", "Hx", "Ey", "Hz"]


def store(tr, ctx):
    from resistics import time as t, decimate as d, window as w, spectra as sp

    rng = ctx.rng
    tok = rs.Tokens()
    WRITERS = {"time": t.TimeWriterNumpy, "decimated": d.DecimatedDataWriter, "windowed": w.WindowedDataWriter,
               "spectra": sp.SpectraDataWriter, "ascii": t.TimeWriterAscii}  # fmt: skip
    READERS = {"time": t.TimeReaderNumpy, "decimated": d.DecimatedDataReader, "windowed": w.WindowedDataReader,
               "spectra": sp.SpectraDataReader}  # fmt: skip

    def product(kind):
        from resistics.common import History, get_record

        x = make(kind)
        # records of steps that came before
        for k in range(rng.choice([0, 1, 2, 4])):
            x.metadata.history.add_record(get_record({"name": f"step{k}", "a": rng.random()}, ["did it", "é"][: k % 3]))
        return x

    def make(kind):
        chans = rng.sample(CH, rng.randint(1, 5))
        if kind == "time":
            n = rng.randint(2, 9)
            data = np.random.default_rng(rng.randint(0, 2**31)).normal(size=(len(chans), n)) * 1000
            dtype = rng.choice(["f4", "f8", "f8", "i4", "i2", ">f8"])
            if "f" in dtype:
                # all below one, tiny, huge, and values that are special to floating point
                data = data * rng.choice([1, 1e-6, 1e-12, 1e-38, 1e6, 1e30])
                if rng.random() < 0.3:
                    data.flat[0] = rng.choice([np.inf, -np.inf, -0.0, 0.0, 1e-45])
            data = data.astype(dtype)
            if data.dtype.kind == "f" and rng.random() < 0.3:
                data.flat[-1] = np.nan
            if rng.random() < 0.3:
                data = np.asfortranarray(data)
            cd = rs.chan_details(rng, chans)
            for c in cd.values():
                c.pop("name")
            fs = rng.choice([10, 1 / 3, 128.5, 4096])
            return rs.time_data(fs, n, chans, rs.atto_time(rng), data, chan_kw=cd, **rs.details(rng))
        dtype = {"decimated": ["f4", "f8", "i4"], "windowed": ["f4", "f8", "i4"], "spectra": ["c8", "c16"]}[kind]
        return rs.level_product(kind, rng, rng.choice([1, 2, 3, 3, 11, 12]), chans, rng.choice(dtype))

    def values(x):
        if isinstance(x.data, dict):
            got = {str(k): np.asarray(v) for k, v in x.data.items()}
        else:
            got = {c: np.asarray(x[c]) for c in x.metadata.chans}
        # every level or channel under its name: the whole content as one token
        return tok({k: [str(v.dtype), list(v.shape), v.tobytes(order="C").hex()] for k, v in got.items()})

    recs = lambda md: [tok(json.loads(r.json())) for r in md.history.records]

    count = [0]

    def tear(d, kind, x, at, torn):
        """Leave a directory as a writer interrupted at a point leaves it"""
        count[0] += 1
        whole = ctx.work / f"whole{count[0]}"
        WRITERS[kind]().run(whole, x)
        d.mkdir(parents=True, exist_ok=True)
        for p in sorted(whole.iterdir(), key=lambda p: p.suffix == ".json"):
            now = at == ("meta" if p.suffix == ".json" else "data")
            body = p.read_bytes()
            if now and torn:
                (d / p.name).write_bytes(body[: rng.choice([0, 0, 1, len(body) // 2, len(body) - 1])])
            if now:
                break
            (d / p.name).write_bytes(body)
        if rng.random() < 0.2:
            (d / rng.choice(["metadata.json.tmp", "tmp.npz", "data_0.npz", "old.npy"])).write_bytes(b"left over")

    def session(case, kind):
        count[0] += 1
        root = ctx.work / f"st{count[0]}"
        root.mkdir()
        n_dirs = max([x.get(k, 1) for x in case["ops"] for k in ("d", "e")] + [1])
        # nested, so that parents are created as well; one directory name is a prefix of another
        dirs = {k: root / ["", "a/b/meas", "a/b/meas1", "c"][k] for k in range(1, n_dirs + 1)}
        prods = {p: product(kind) for p in {x["p"] for x in case["ops"] if "p" in x} | {1}}
        n_p = max(prods)
        tokens = [{"values": values(prods[p]), "meta": tok(rs.descriptive(prods[p].metadata)),
                   "recs": recs(prods[p].metadata)} if p in prods
                  else {"values": 0, "meta": 0, "recs": []} for p in range(1, n_p + 1)]  # fmt: skip
        tr.event("start", {"dirs": n_dirs, "products": tokens, "kind": kind})
        for k, junk in enumerate(case["junk"], start=1):
            if junk and k in dirs:
                dirs[k].mkdir(parents=True)
                (dirs[k] / "notes.txt").write_text("not a product")
                tr.event("junk", {"d": k})
        read = {}

        def watch(own):
            before = {k: rs.tree_digest(p) for k, p in dirs.items()}

            def after():
                now = {k: rs.tree_digest(p) for k, p in dirs.items()}
                return {"own_same": now[own] == before[own], "exists": dirs[own].is_dir(),
                        "others_same": all(now[k] == before[k] for k in dirs if k != own)}  # fmt: skip

            return after

        for op in case["ops"]:
            if op["op"] == "read":
                i = {"d": op["d"], "meta_only": op["meta"], "kind": kind}
                obs = lambda r: ({"meta": tok(rs.descriptive(r)), "values": 0, "recs": recs(r)} if op["meta"] else
                                 {"meta": tok(rs.descriptive(r.metadata)), "values": values(r),
                                  "recs": recs(r.metadata)})  # fmt: skip
                r = tr.call("read", i, lambda: READERS[kind]().run(dirs[op["d"]], metadata_only=op["meta"]), obs,
                            after=watch(op["d"]))  # fmt: skip
            elif op["op"] == "crash":
                tear(dirs[op["d"]], kind, prods[op["p"]], op["at"], op["torn"])
                tr.event("torn", {"d": op["d"], "at": op["at"]})
            elif op["op"] == "write":
                i = {k: op[k] for k in ("d", "p", "overwrite")}
                x = prods[op["p"]]
                tr.call("write", dict(i, kind=kind), lambda: WRITERS[kind](overwrite=op["overwrite"]).run(dirs[op["d"]], x),
                        after=watch(op["d"]))  # fmt: skip
            else:
                i = {k: op[k] for k in ("d", "e", "overwrite")}

                def copy():
                    x = READERS[kind]().run(dirs[op["d"]])
                    WRITERS[kind](overwrite=op["overwrite"]).run(dirs[op["e"]], x)

                tr.call("copy", dict(i, kind=kind), copy, after=watch(op["e"]))

    kinds = ["time", "decimated", "windowed", "spectra"]
    for n, case in enumerate(ctx.cases):
        session(case, kinds[n % 4])
    # every product is written and read at least once, all kinds, many products
    for n in range(120 if ctx.thorough else 28):
        ops = []
        for p in (1, 2):
            d1, d2 = rng.sample([1, 2, 3], 2)
            ops += [{"op": "write", "d": d1, "p": p, "overwrite": True}, {"op": "read", "d": d1, "meta": False},
                    {"op": "read", "d": d1, "meta": True}, {"op": "copy", "d": d1, "e": d2, "overwrite": True},
                    {"op": "read", "d": d2, "meta": False}]  # fmt: skip
            if rng.random() < 0.5:
                ops += [{"op": "copy", "d": d1, "e": d1, "overwrite": True}, {"op": "read", "d": d1, "meta": False}]
        session({"junk": [], "ops": ops}, kinds[n % 4])
    # a product, then an interrupted writer, then a whole write
    for n in range(96 if ctx.thorough else 32):
        ops = [{"op": "write", "d": 1, "p": 1, "overwrite": True}] if rng.random() < 0.6 else []
        for _ in range(rng.choice([1, 1, 2])):
            ops.append({"op": "crash", "d": 1, "p": 2, "at": rng.choice(["data", "meta", "meta"]), "torn": rng.random() < 0.7})
        ops += [{"op": "write", "d": 1, "p": 3, "overwrite": False}, {"op": "read", "d": 1, "meta": False},
                {"op": "write", "d": 1, "p": 3, "overwrite": True}, {"op": "read", "d": 1, "meta": False},
                {"op": "read", "d": 1, "meta": True}]  # fmt: skip
        session({"junk": [], "ops": ops}, kinds[n % 4])
    # the ascii writer, for which there is no reader in the package
    for n in range(20 if ctx.thorough else 6):
        x = product("time")
        if x.data.dtype.kind != "f":
            continue
        tr.event("start", {"dirs": 1, "products": [{"values": 1, "meta": 1, "recs": []}], "kind": "ascii"})
        p = ctx.work / f"ascii{n}" / "deep" / "meas"
        state = lambda before: lambda: {"own_same": rs.tree_digest(p) == before, "exists": p.is_dir(), "others_same": True}
        tr.call("write", {"d": 1, "p": 1, "overwrite": False}, lambda: t.TimeWriterAscii(overwrite=False).run(p, x),
                after=state(rs.tree_digest(p)))  # fmt: skip

        def contents():
            md = t.TimeMetadata.parse_file(p / "metadata.json")
            same = all(
                np.array_equal(np.loadtxt(p / md[c].data_files[0], ndmin=1), np.array([float("%.6f" % v) for v in x[c]]),
                               equal_nan=True) for c in x.metadata.chans)  # fmt: skip
            return {"same": bool(same), "meta_same": tok(rs.descriptive(md)) == tok(rs.descriptive(x.metadata))}

        tr.call("ascii", {"d": 1}, contents, lambda r: r)
        y = product("time")
        tr.call("write", {"d": 1, "p": 1, "overwrite": False}, lambda: t.TimeWriterAscii(overwrite=False).run(p, y),
                after=state(rs.tree_digest(p)))  # fmt: skip
        tr.call("ascii", {"d": 1}, contents, lambda r: r)
        tr.call("write", {"d": 1, "p": 1, "overwrite": True}, lambda: t.TimeWriterAscii(overwrite=True).run(p, y),
                after=state(rs.tree_digest(p)))  # fmt: skip
        x = y
        tr.call("ascii", {"d": 1}, contents, lambda r: r)
