"""C24: operations on single samples"""
import json
import numpy as np
import rs

FNS = {
    "half": lambda x: x / 2,
    "square": lambda x: x**2,
    "flip": lambda x: x[::-1],
    "less_first": lambda x: x - x[0],
}


def samplewise(tr, ctx):
    from resistics import time as t, sampling as s

    rng = ctx.rng
    CH = ["Ex", "Ey", "Hx", "Hy", "Hz", "Bx"]

    def milli(x):
        return [[rs.NOTNUM if v != v else int(round(float(v) * 1000)) if abs(v) < 1e6 else rs.NOTINT for v in row] for row in np.asarray(x, dtype=float)]

    def build(o, one_form):
        if o["op"] == "fill":
            return t.InterpolateNans()
        if o["op"] == "mean":
            return t.RemoveMean()
        if o["op"] == "apply":
            return t.ApplyFunction(fncs={c: FNS[f] for c, f in zip(o["chans"], o["fns"])})
        vals = [v / 4 for v in o["vals"]]
        vals = [int(v) if v == int(v) and one_form else v for v in vals]
        arg = vals[0] if o["all"] else dict(zip(o["chans"], vals))
        return t.Add(add=arg) if o["op"] == "add" else t.Multiply(multiplier=arg)

    def session(names, x, ops, dtype, fs):
        n = x.shape[1]
        first = rs.base_time(rng.choice(["2021-01-01", "1999-12-31 23:59:59.999999"]))
        td = rs.time_data(fs, n, names, first, x.astype(dtype), **rs.details(rng), chan_kw=rs.chan_details(rng, names))
        if rng.random() < 0.3:
            td.data = np.asfortranarray(td.data)
        tr.call("start", {"x": milli(td.data)}, lambda: None)
        for o in ops:
            p = build(o, rng.random() < 0.5)
            if rng.random() < 0.3 and o["op"] != "apply":
                p = type(p)(**json.loads(p.json()))
            before, meta = np.array(td.data), rs.descriptive(td.metadata)
            if o["op"] == "mean" and np.isnan(before.astype(float)).any():
                continue
            if o["op"] == "fill" and np.isnan(before.astype(float)).all(axis=1).any():
                continue
            big = np.nanmax(np.abs(before.astype(float)))
            if big > 2000 or ("square" in o["fns"] and big > 40):
                break

            def observe(r):
                y = np.asarray(r.data)
                assert y.shape == (len(names), n)
                eq = (y == before) | (np.isnan(y.astype(float)) & np.isnan(before.astype(float)))
                # channels are fetched by name
                got = [r[c] for c in names]
                assert all(np.array_equal(a, b, equal_nan=True) for a, b in zip(got, y.astype(got[0].dtype)))
                return {"y": milli(y), "names": list(r.metadata.chans), "equal": eq.astype(int).tolist(),
                        "meta": rs.canon(rs.descriptive(r.metadata)) == rs.canon(meta)}  # fmt: skip

            r = tr.call("run", {"o": o, "names": names, "dtype": str(before.dtype), "fs": str(fs)}, lambda: p.run(td), observe)
            if r is None:
                return
            td = r

    def op(op, chans=(), vals=(), fns=(), all_=False):
        return {"op": op, "chans": list(chans), "vals": list(vals), "fns": list(fns), "all": all_}

    for case in sorted(ctx.cases, key=json.dumps):
        x = np.array([[np.nan if v == rs.NOTNUM else v / 4 for v in row] for row in case["first"]])
        a, b = rng.sample(CH, 2)
        name = {"A": a, "B": b, "Z": "Zz"}
        ops = [dict(o, chans=[name[c] for c in o["chans"]]) for o in case["ops"]]
        for o in ops:
            for key in ("vals", "fns"):
                if not o["all"]:
                    o[key] = o[key][: len(o["chans"])]
        session([a, b], x, ops, rng.choice(["f8", "f4"]), rng.choice([1, 128.0, 1 / 3]))

    for _ in range(400 if ctx.thorough else 80):
        names = rng.sample(CH, rng.randint(1, 6))
        n = rng.choice([2, 3, rng.randint(4, 12), rng.randint(12, 40)])
        dtype = rng.choice(["f8", "f8", "f4", "i4", "i2", "i8"])
        x = np.array([[float(rng.randint(-40, 40)) for _ in range(n)] for _ in names])
        if dtype in ("f8", "f4"):
            x = x + rng.choice([0, 0.25, 0.125])
            for row in x:
                kind = rng.random()
                if kind < 0.3:
                    continue
                if kind < 0.5:
                    # long gaps reaching the ends
                    a = rng.randint(0, n - 1)
                    row[: a] = np.nan
                    if rng.random() < 0.5:
                        row[rng.randint(a + 1, n):] = np.nan
                else:
                    q = rng.choice([0.2, 0.5, 0.9])
                    row[[k for k in range(n) if rng.random() < q]] = np.nan
                if np.isnan(row).all():
                    row[rng.randint(0, n - 1)] = 7
        ops = []
        for _ in range(rng.randint(2, 6)):
            kind = rng.choice(["fill", "fill", "mean", "mean", "add", "mult", "apply"])
            chans = rng.sample(names + ["Zz", "By"], rng.randint(0, len(names) + 1))
            if kind in ("fill", "mean"):
                ops.append(op(kind, all_=True))
            elif kind == "apply":
                ops.append(op(kind, chans, fns=[rng.choice(list(FNS)) for _ in chans]))
            elif rng.random() < 0.3:
                ops.append(op(kind, vals=[rng.randint(-10, 10)], all_=True))
            else:
                ops.append(op(kind, chans, vals=[rng.randint(-10, 10) for _ in chans]))
        session(names, x, ops, dtype, rng.choice([1, 50, 128.0, 1 / 3]))
