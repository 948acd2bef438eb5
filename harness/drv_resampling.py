"""C25: resampling, decimating and shifting"""
import json
from fractions import Fraction
import numpy as np
import scipy.signal
import rs

STEPS = []
_decimate = scipy.signal.decimate


def _recording(x, q, *args, **kwargs):
    STEPS.append(int(q))
    return _decimate(x, q, *args, **kwargs)


scipy.signal.decimate = _recording


def resampling(tr, ctx):
    from resistics import time as t

    rng = ctx.rng
    CH = ["Hy", "Ex", "Hx", "Ey", "Hz"]

    def frac(x):
        """A fraction in lowest terms and the distance to it in 1e-9"""
        x = Fraction(x)
        f = x.limit_denominator(4000)
        return [f.numerator, f.denominator, int(min(abs(x - f) * 10**9, 10**9))] if abs(f.numerator) < 2**31 - 1 else [rs.NOTINT, 1, 0]

    def slow(n, chans, out_ratio):
        """Slow signals, slow compared with every rate they are going to have"""
        ts = np.arange(n)
        rows = []
        for k, _ in enumerate(chans):
            period = 60 * out_ratio * rng.choice([1, 1.5, 2.3])
            rows.append((300 + 50 * k) * np.sin(2 * np.pi * ts / period + rng.random() * 6) + 100 * (k + 1))
        return np.array(rows)

    def session(n, fs, ops, dtype):
        chans = rng.sample(CH, rng.randint(1, 4))
        first = rs.base_time(rng.choice(["2021-01-01", "1999-12-31 23:59:59.999999", "2020-02-28 23:59:58.123456_789012_345678_000000"]))
        slowest = Fraction(1)
        per = Fraction(1)
        for o in ops:
            if o["op"] != "shift":
                per *= Fraction(o["b"], o["a"]) if o["op"] == "resample" else o["a"]
                slowest = max(slowest, per)
        x = slow(n, chans, float(slowest)).astype(dtype)
        td = rs.time_data(fs, n, chans, first, x, chan_kw=rs.chan_details(rng, chans), **rs.details(rng))
        tr.call("start", {"n": n, "fs": str(fs)}, lambda: None)
        off, per = Fraction(0), Fraction(1)
        for o in ops:
            a, b = o["a"], o["b"]
            cur = td.metadata.fs
            n = td.data.shape[1]
            if o["op"] == "resample":
                p = t.Resample(new_fs=cur * a / b)
                nper = per * b / a
            elif o["op"] == "decimate":
                if n < 30 * a or a > 60:
                    break
                # primes above this are beyond what the filter can do in one step
                p = t.Decimate(factor=a, max_single_factor=b) if b != 3 or rng.random() < 0.5 else t.Decimate(factor=a)
                nper = per * a
            else:
                p = t.ShiftTimestamps(shift=a / b / cur)
                nper = per
                if a < b:
                    off += per * Fraction(a, b)
            if n < 4 or nper.denominator * nper.numerator > 2000 or off.denominator * nper.denominator > 2000 or n * max(a, 1) > 20000:
                break
            per = nper
            before, meta = np.array(td.data), rs.descriptive(td.metadata)
            if rng.random() < 0.3:
                p = type(p)(**json.loads(p.json()))
            del STEPS[:]

            def observe(r):
                steps = list(STEPS)
                y = np.asarray(r.data)
                md = r.metadata
                out = {
                    "n": y.shape[1], "n_md": rs.ii(md.n_samples), "lens": [len(r[c]) for c in md.chans],
                    "period": frac(Fraction(fs) / Fraction(md.fs)),
                    "first": frac((rs.secs(md.first_time) - rs.secs(first)) * Fraction(fs)),
                    "last": frac((rs.secs(md.last_time) - rs.secs(first)) * Fraction(fs)),
                    "chans": list(md.chans), "want_chans": chans, "steps": steps, "common": [], "between": [],
                }  # fmt: skip
                # what the axis does not touch
                d = rs.descriptive(md)
                for key in ("fs", "n_samples", "first_time", "last_time"):
                    d[key] = meta[key]
                out["meta"] = rs.canon(d) == rs.canon(meta)
                alone = []
                for k, c in enumerate(chans):
                    one = rs.time_data(cur, n, [c], td.metadata.first_time, before[k : k + 1])
                    alone.append(np.allclose(p.run(one).data[0], y[k], rtol=1e-6, atol=1e-4))
                    assert np.array_equal(r[c], y[k])
                out["alone"] = all(alone)
                m = lambda v: int(round(float(v) * 1000))
                if o["op"] == "shift":
                    idx = sorted(set([0, y.shape[1] - 1] + [rng.randrange(y.shape[1]) for _ in range(6)]))
                    out["between"] = [[[m(before[k, j]), m(before[k, j + 1]), m(y[k, j])] for j in idx] for k in range(len(chans))]
                else:
                    f = Fraction(a, b) if o["op"] == "resample" else Fraction(1, a)
                    up, down = f.numerator, f.denominator
                    margin = 15 * max(down, 1) if o["op"] == "resample" else 12 * a
                    lo, hi = -(-margin // down), (n - 1 - margin) // down
                    ms = sorted(set([rng.randint(lo, hi) for _ in range(8)] + [lo, hi])) if hi >= lo else []
                    out["common"] = [[[up * q, down * q, m(y[k, up * q]), m(before[k, down * q])] for q in ms] for k in range(len(chans))]
                return out

            r = tr.call(o["op"], dict(a=a, b=b, n=n, fs=str(cur), dtype=dtype), lambda: p.run(td), observe)
            if r is None:
                if o["op"] == "shift" and a >= b:
                    continue
                return
            td = r

    for case in sorted(ctx.cases, key=json.dumps):
        session(case["n"], rng.choice([1, 128.0, 50, 1 / 3, 4096]), case["ops"], rng.choice(["f8", "f8", "f4"]))

    RATES = [(128, 50), (50, 128), (256, 64), (4096, 4095), (250, 100), (0.5, 0.2), (100, 1), (10, 3), (65536, 24000), (16, 24)]
    for _ in range(400 if ctx.thorough else 70):
        n = rng.choice([rng.randint(30, 400), rng.randint(400, 3000)])
        fs = rng.choice([1, 2, 50, 128.0, 1 / 3, 0.1, 512, 24000, 65536])
        ops = []
        for _ in range(rng.randint(1, 4)):
            kind = rng.choice(["resample", "decimate", "decimate", "shift", "shift"])
            if kind == "resample":
                if rng.random() < 0.5:
                    f = Fraction(rng.randint(1, 9), rng.randint(1, 9))
                else:
                    x, y = rng.choice(RATES)
                    f = Fraction(y).limit_denominator(1000) / Fraction(x).limit_denominator(1000)
                ops.append({"op": kind, "a": f.numerator, "b": f.denominator})
            elif kind == "decimate":
                ops.append({"op": kind, "a": rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 21, 24, 25, 27, 28, 30, 32, 33, 35, 36]), "b": rng.choice([2, 3, 3, 4, 5, 6, 7, 8, 10])})
            else:
                b = rng.choice([2, 3, 5, 8, 10])
                ops.append({"op": kind, "a": rng.randint(1, b + 2), "b": b})
        session(n, fs, ops, rng.choice(["f8", "f8", "f4"]))
    # long recordings, ratios of large numbers
    for _ in range(30 if ctx.thorough else 3):
        a, b = rng.choice([(9973, 10007), (5003, 9941), (9001, 4099), (101, 103), (997, 1499), (2049, 2050), (1279, 1280), (9999, 10000)])
        n = min(rng.randint(90000, 120000), 2 * 10**9 // max(a, b))
        fs = rng.choice([1, 128.0, 50, 1 / 3, 4096])
        x = 1000 * np.sin(2 * np.pi * np.arange(n) / rng.choice([500, 640, 777]) + rng.random() * 6)
        td = rs.time_data(fs, n, ["Ex"], None, x[np.newaxis, :])
        m = lambda v: int(round(float(v) * 1000))

        def observe(r):
            y, md = np.asarray(r.data)[0], r.metadata
            q = Fraction(fs) / Fraction(md.fs)
            f = q.limit_denominator(20000)
            js = [rng.randint(200, min(y.size - 200, n * a // b - 200)) for _ in range(12)]
            return {"n": y.size, "n_md": rs.ii(md.n_samples), "period": [f.numerator, f.denominator, int(min(abs(q - f) * 10**12, 10**9))],
                    "last": rs.ii((rs.secs(md.last_time) - rs.secs(md.first_time)) * Fraction(md.fs), tol=1e-9), "first": md.first_time == td.metadata.first_time,
                    "values": [[j, m(x[j * b // a]), m(x[j * b // a + 1]), m(y[j])] for j in js if j * b // a + 1 < n]}  # fmt: skip

        tr.call("large", {"a": a, "b": b, "n": n, "fs": str(fs)}, lambda: t.Resample(new_fs=fs * a / b).run(td), observe)
