"""C34: what readers are asked for, how often, and what they refuse"""
import json
import numpy as np
import rs

CH = ["Ex", "Ey", "Hx", "Hy", "Hz"]


class Broken(Exception):
    pass


def reader_class(base, folder, md, data, log, fails):
    """A reader of a user which notes what it is asked and scales x to 2x + 1"""
    from resistics import sampling as s
    from resistics.time import TimeData, TimeMetadata, adjust_time_metadata

    def note(part, dir_path):
        log.append(part if dir_path == folder else ["elsewhere"])
        if fails == part[0]:
            raise Broken(part[0])

    class UserReader(base):
        def read_metadata(self, dir_path):
            note(["metadata"], dir_path)
            return super().read_metadata(dir_path) if base.__name__ != "TimeReader" else md.copy(deep=True)

        def read_data(self, dir_path, metadata, read_from, read_to):
            note(["data", rs.ii(read_from), rs.ii(read_to)], dir_path)
            if base.__name__ != "TimeReader":
                return super().read_data(dir_path, metadata, read_from, read_to)
            first = s.sample_to_datetime(metadata.fs, metadata.first_time, read_from)
            mine = adjust_time_metadata(TimeMetadata(**metadata.dict()), metadata.fs, first, read_to - read_from + 1)
            return TimeData(mine, np.array(data[:, read_from : read_to + 1]))

        def scale_data(self, time_data):
            note(["scale"], folder)
            return TimeData(time_data.metadata, 2 * time_data.data + 1)

    return UserReader


def requests(tr, ctx):
    from resistics import sampling as s
    from resistics import time as t

    rng = ctx.rng

    def rand_limit(n, K):
        kind = rng.choice(["none", "t", "t", "s", "both"])
        q = rng.choice([rng.randint(-2, n * K + 1), rng.randint(0, n - 1) * K])
        sm = rng.choice([rng.randint(0, n - 1), rng.randint(-1, n)])
        return {"hast": kind in ("t", "both"), "q": q if kind in ("t", "both") else 0,
                "hass": kind in ("s", "both"), "s": sm if kind in ("s", "both") else 0}  # fmt: skip

    cases = sorted(ctx.cases, key=json.dumps)
    for _ in range(600 if ctx.thorough else 120):
        n, K = rng.choice([2, 3, 10, 500, 4000]), rng.choice([1, 2, 4])
        cases.append({"n": n, "K": K, "metaOnly": rng.random() < 0.2, "given": rng.random() < 0.5,
                      "scalings": rng.random() < 0.6, "from": rand_limit(n, K), "to": rand_limit(n, K),
                      "fails": rng.choice(["none", "none", "none", "metadata", "data", "scale"])})  # fmt: skip
    stores = {}

    def store(n, fs):
        """A numpy recording on disk, for readers which extend the built-in ones"""
        if (n, fs) not in stores:
            chans = CH[: rng.randint(1, 4)]
            data = np.array([np.arange(n) + 10000.0 * k for k in range(len(chans))])
            td = rs.time_data(fs, n, chans, s.to_datetime("2021-03-04 05:06:07"), data)
            path = ctx.work / f"read{len(stores)}"
            t.TimeWriterNumpy().run(path, td)
            stores[(n, fs)] = (path, t.TimeReaderNumpy().run(path, metadata_only=True), data)
        return stores[(n, fs)]

    for q in cases:
        fs = rng.choice([1, 2, 64, 128, 0.5, 0.25])
        path, md, data = store(q["n"], fs)
        log = []
        base = rng.choice([t.TimeReader, t.TimeReaderNumpy])
        cls = reader_class(base, path, md, data, log, q["fails"])
        reader = cls() if q["scalings"] and rng.random() < 0.5 else cls(apply_scalings=q["scalings"])
        kw = {}
        for end in ("from", "to"):
            lim = q[end]
            if lim["hast"]:
                when = md.first_time + s.to_timedelta(lim["q"] / (fs * q["K"]))
                kw[end + "_time"] = s.datetime_to_string(when) if rng.random() < 0.5 else when
            if lim["hass"]:
                kw[end + "_sample"] = lim["s"]
        if q["metaOnly"] or rng.random() < 0.3:
            kw["metadata_only"] = q["metaOnly"]
        given = md.copy(deep=True)
        if q["given"]:
            kw["metadata"] = given
        before = rs.canon(given)

        def observe(r):
            if isinstance(r, t.TimeMetadata):
                return {"is_metadata": True}
            v = np.asarray(r.data)
            raw, times = v, 0
            while times < 3 and not np.array_equal(raw, data[:, int(raw[0, 0]) : int(raw[0, 0]) + v.shape[1]]):
                raw, times = (raw - 1) / 2, times + 1
            first = rs.tick(r.metadata.first_time, md.first_time, fs, 1)
            last = rs.tick(r.metadata.last_time, md.first_time, fs, 1)
            return {"is_metadata": False, "scaled": times, "first": rs.ii(raw[0, 0]), "last": rs.ii(raw[0, -1]),
                    "n": v.shape[1], "n_samples": rs.ii(r.metadata.n_samples), "first_time": first["t"],
                    "last_time": last["t"], "dev": max(first["dev"], last["dev"])}  # fmt: skip

        tr.call("read", q, lambda: reader.run(path, **kw), observe,
                after=lambda: {"parts": log, "given_same": rs.canon(given) == before})  # fmt: skip


def folders(tr, ctx):
    from resistics import time as t

    rng = ctx.rng
    tokens = rs.Tokens()
    for k in range(700 if ctx.thorough else 160):
        path = ctx.work / f"folder{k}"
        path.mkdir()
        kind = rng.choice(["ascii", "numpy", "json"] if rng.random() < 0.2 else ["ascii", "numpy"])
        n, chans = rng.randint(2, 40), rng.sample(CH, rng.randint(1, 5))
        data = np.array([np.arange(n) * rng.choice([1, -3]) + 100 * c for c in range(len(chans))], dtype=float)
        ext = {"ascii": ".txt", "numpy": ".npy", "json": ".any"}[kind]
        kw = {}
        if kind == "json":
            if rng.random() < 0.5:
                kw["extension"] = ext
        elif rng.random() < 0.5:
            ext = rng.choice([".dat", ".asc", ".x"])
            kw["extension"] = ext
        head, sep = 0, " "
        if kind == "ascii":
            head = rng.choice([0, 1, 2, 7])
            sep = rng.choice([" ", ",", ";", "\t", "  "])
            if head or rng.random() < 0.5:
                kw["n_header"] = head
            if sep.strip() or rng.random() < 0.3 and sep != "  ":
                kw["delimiter"] = sep

        # every channel in the one data file; further files may be listed with it
        main = "data" + ext
        rows = [sep.join(str(x) for x in row) for row in data.T]
        if kind == "numpy":
            with (path / main).open("wb") as f:
                np.save(f, data)
        else:
            lines = [rng.choice(["17.5 header", "1,2,3", "x"]) for _ in range(head)] + rows
            (path / main).write_text("\n".join(lines) + "\n")
        lists = {c: [main] for c in chans}
        files = ["there"]
        for e in range(rng.choice([0, 0, 1, 2, 3])):
            state = rng.choice(["there", "there", "missing", "othertype"])
            name = f"more{e}" + (ext if state != "othertype" else rng.choice([".ats", ".md", "", ext + "x"]))
            if state != "missing":
                (path / name).write_text("1")
            elif rng.random() < 0.3:
                (path / name).mkdir()  # a folder is not a data file
            files.append(state)
            mine = lists[rng.choice(chans)]
            mine.insert(rng.randint(1, len(mine)), name)
        if rng.random() < 0.1:
            (path / main).unlink()
            files[0] = "missing"
        md = rs.time_metadata(rng.choice([1, 64, 0.5]), n, chans, rs.base_time())
        for c in chans:
            md.chans_metadata[c].data_files = lists[c]
        meta = rng.choice(["whole"] * 8 + ["missing", "broken", "cut", "empty", "other"])
        if meta != "missing":
            md.write(path / "metadata.json")
            text = (path / "metadata.json").read_text()
            if meta == "broken":
                (path / "metadata.json").write_text(text.replace('"fs"', '"fx"'))
            elif meta == "cut":
                (path / "metadata.json").write_text(text[: rng.randint(1, len(text) - 2)].rstrip().rstrip("}"))
            elif meta == "empty":
                (path / "metadata.json").write_text("")
            elif meta == "other":
                (path / "metadata.json").write_text("[1, 2]")
        cls = {"ascii": t.TimeReaderAscii, "numpy": t.TimeReaderNumpy, "json": t.TimeReaderJSON}[kind]
        only = kind == "json" or rng.random() < 0.5
        limits, a, b = {}, 0, n - 1
        if not only and rng.random() < 0.5:
            a, b = sorted(rng.sample(range(n), 2))
            limits = {"from_sample": a, "to_sample": b}
            if a == 0 and rng.random() < 0.5:
                limits.pop("from_sample")
            if b == n - 1 and rng.random() < 0.5:
                limits.pop("to_sample")
        i = {"folder": {"meta": meta, "files": files}, "kind": kind, "metaOnly": only,
             "extension": kind != "json" or "extension" in kw, "values": rs.ilist(data[:, a : b + 1]),
             "part": [a, b], "n": n, "meta": tokens(rs.descriptive(md))}  # fmt: skip
        before = rs.tree_digest(path)

        def observe(r):
            if only:
                lists_kept = [r.chans_metadata[c].data_files for c in chans] == [lists[c] for c in chans]
                return {"meta": tokens(rs.descriptive(r)), "lists_kept": lists_kept, "values": []}
            same = rs.descriptive(r.metadata)
            if limits:
                # the span is another one
                same.update({k: v for k, v in rs.descriptive(md).items() if k in ("first_time", "last_time", "n_samples")})
            return {"meta": tokens(same), "lists_kept": True,
                    "values": [rs.ilist(r[c]) for c in chans]}  # fmt: skip

        tr.call("folder", i, lambda: cls(**kw).run(path, metadata_only=only, **limits), observe,
                after=lambda: {"untouched": rs.tree_digest(path) == before})  # fmt: skip


def c34(tr, ctx):
    requests(tr, ctx)
    folders(tr, ctx)
