"""C02: partial reads and subsections"""
import json
import numpy as np
import rs
from drv_sampling import RATES, FIRSTS

EXACT = [1, 2, 4, 5, 10, 16, 50, 64, 100, 128, 250, 256, 500, 512, 1000, 4096, 0.5, 0.25, 0.0625, 12.5]


def c02(tr, ctx):
    from resistics import sampling as s
    from resistics import time as t

    rng = ctx.rng
    CH = ["Hy", "Ex", "Hx", "Ey", "Hz"]

    def qtime(first, fs, K, q):
        dt = s.to_timedelta(1 / fs)
        if q % K == 0:
            return first + (q // K) * dt
        return rs.mk_time(rs.secs(first) + rs.Fraction(q) / K * rs.dsecs(dt))

    def as_arg(x, form):
        if form == "text":
            return s.datetime_to_string(x)
        return x

    def observe(td, chans, first, fs, K):
        md = td.metadata
        data = []
        for c, name in enumerate(chans, start=1):
            v = np.asarray(td[name])
            x = rs.ilist(v)
            assert v.ndim == 1
            data.append({
                "len": len(x), "first": x[0] % 100000, "last": x[-1] % 100000, "chan": x[0] // 100000,
                "steps_of_one": all(b - a == 1 for a, b in zip(x, x[1:])),
            })  # fmt: skip
        return {
            "chans": list(md.chans), "want_chans": chans, "data": data, "n_samples": rs.ii(md.n_samples),
            "first": rs.tick(md.first_time, first, fs, K), "last": rs.tick(md.last_time, first, fs, K),
            "fs_kept": md.fs == fs,
        }  # fmt: skip

    count = [0]

    def session(n, K, fs, first, chans, ops, kind):
        count[0] += 1
        base = ctx.work / f"s{count[0]}"
        data = np.array([np.arange(n) + 100000.0 * (k + 1) for k in range(len(chans))])
        td = rs.time_data(fs, n, chans, first, data.astype(np.float32 if kind == "f4" else float))

        def start():
            if kind == "ascii":
                base.mkdir()
                lines = ["head"] * 3 + [",".join(str(int(x)) for x in row) for row in data.T]
                (base / "data.txt").write_text("\n".join(lines) + "\n")
                md = td.metadata.copy(deep=True)
                for c in chans:
                    md.chans_metadata[c].data_files = ["data.txt"]
                md.write(base / "metadata.json")
            else:
                t.TimeWriterNumpy().run(base, td)

        info = {"n": n, "K": K, "fs": str(fs), "chans": chans, "kind": kind}
        tr.call("start", info, start)
        reader = t.TimeReaderAscii(n_header=3, delimiter=",") if kind == "ascii" else t.TimeReaderNumpy()
        numpy_reader = t.TimeReaderNumpy()
        shared = {}  # metadata read once per store and handed to several reads
        mem = td
        store = base
        nobs = lambda r: observe(r, chans, first, fs, K)
        for k, op in enumerate(ops):
            i = {"from": op["from"], "to": op["to"], "step": k, "session": count[0]}
            form = rng.choice(["text", "time"])
            if op["op"] == "write":
                store = ctx.work / f"s{count[0]}-{k}"
                reader = numpy_reader
                tr.call("write", i, lambda: t.TimeWriterNumpy().run(store, mem))
            elif op["op"] == "sub":
                ft, tt = (as_arg(qtime(first, fs, K, op[x]["q"]), "text") for x in ("from", "to"))
                if rng.random() < 0.5:
                    r = tr.call("sub", i, lambda: mem.subsection(ft, tt), nobs)
                else:
                    r = tr.call("sub", i, lambda: t.Subsection(from_time=ft, to_time=tt).run(mem), nobs)
                mem = mem if r is None else r
            else:
                kw = {}
                for end in ("from", "to"):
                    lim = op[end]
                    if lim["hast"]:
                        kw[end + "_time"] = as_arg(qtime(first, fs, K, lim["q"]), form)
                    if lim["hass"]:
                        kw[end + "_sample"] = lim["s"]
                if rng.random() < 0.4:
                    if store not in shared or rng.random() < 0.2:
                        shared[store] = reader.run(store, metadata_only=True)
                    kw["metadata"] = shared[store]
                r = tr.call("read", i, lambda: reader.run(store, **kw), nobs)
                mem = mem if r is None else r

    def rand_limit(n, K, times_only):
        kind = "t" if times_only else rng.choice(["none", "t", "t", "s", "both"])
        q = rng.choice([rng.randint(-2, n * K + 1), rng.randint(0, n - 1) * K])
        sm = rng.choice([rng.randint(0, n - 1), rng.randint(-1, n)])
        return {"hast": kind in ("t", "both"), "q": q if kind in ("t", "both") else 0,
                "hass": kind in ("s", "both"), "s": sm if kind in ("s", "both") else 0}  # fmt: skip

    for case in sorted(ctx.cases, key=json.dumps):
        fs = rng.choice(RATES)
        session(case["n"], case["K"], fs, s.to_datetime(rng.choice(FIRSTS)), CH[: rng.randint(1, 5)], case["ops"],
                rng.choice(["f8", "f8", "f4", "ascii"]))  # fmt: skip
    for _ in range(150 if ctx.thorough else 40):
        fs = rng.choice(EXACT + RATES)
        n = rng.choice([rng.randint(2, 30), rng.randint(30, 3000)])
        K = rng.choice([1, 2, 4, 5])
        ops = []
        for _ in range(rng.randint(3, 8)):
            op = rng.choice(["read", "read", "sub", "sub", "write"])
            a, b = rand_limit(n, K, op == "sub"), rand_limit(n, K, op == "sub")
            if a["hast"] and b["hast"] and a["q"] > b["q"] and rng.random() < 0.8:
                a, b = b, a
            ops.append({"op": op, "from": a, "to": b})
        kind = rng.choice(["f8", "f4", "ascii"]) if n < 2000 else "f8"
        session(n, K, fs, s.to_datetime(rng.choice(FIRSTS)), rng.sample(CH, rng.randint(1, 5)), ops, kind)
