"""C32: filters"""
import json
import numpy as np
import rs

CH = ["Ex", "Ey", "Hx", "Hy", "Hz", "Bx"]
BEYOND = 100000


def filters(tr, ctx):
    from resistics import time as t

    rng = ctx.rng

    def freq(w, fs):
        return np.arctan(w / 1000) * fs / np.pi

    def warped(f, fs):
        return int(round(1000 * np.tan(np.pi * f / fs)))

    def build(f, fs, lo=None, hi=None):
        lo, hi = freq(f["lo"], fs) if lo is None else lo, freq(f["hi"], fs) if hi is None else hi
        kw = {} if f["order"] == 10 and rng.random() < 0.7 else {"order": f["order"]}
        if f["kind"] == "low":
            p = t.LowPass(cutoff=hi, **kw)
        elif f["kind"] == "high":
            p = t.HighPass(cutoff=lo, **kw)
        elif f["kind"] == "band":
            p = t.BandPass(cutoff_low=lo, cutoff_high=hi, **kw)
        elif f.get("default"):
            p = t.Notch(notch=f["default"] * fs, **kw)
        else:
            p = t.Notch(notch=(lo + hi) / 2, band=hi - lo, **kw)
        if rng.random() < 0.3:
            p = type(p)(**json.loads(p.json()))
        return p

    def session(fs, tones, chain, dtype):
        n = rng.choice([6000, 7001])
        names = rng.sample(CH, rng.randint(1, 4))
        k = np.arange(n)
        ramp = n // 5
        taper = np.minimum(1, np.minimum(k, n - 1 - k) / ramp)
        taper = np.sin(np.pi / 2 * taper) ** 2
        mid = slice(int(n * 0.35), int(n * 0.65))
        has = [[int(rng.random() < 0.5) for _ in tones] for _ in names]
        ph = [[rng.uniform(0, 2 * np.pi) if w else 0 for w in tones] for _ in names]
        ang = [2 * np.pi * freq(w, fs) / fs * k for w in tones]
        amp = rng.choice([1, 100, 1e-3])
        x = np.array([taper * amp * sum([h * np.cos(a + p) for h, a, p in zip(hs, ang, ps)], np.zeros(n)) for hs, ps in zip(has, ph)])
        td = rs.time_data(fs, n, names, rs.base_time(rng.choice(["2021-01-01", "1999-12-31 23:59:59.999999"])), x.astype(dtype), **rs.details(rng), chan_kw=rs.chan_details(rng, names))
        if rng.random() < 0.3:
            td.data = np.asfortranarray(td.data)
        basis = []
        for w, a in zip(tones, ang):
            basis += [np.cos(a)] + ([np.sin(a)] if w else [])
        basis = np.array(basis)[:, mid].T
        inv = np.linalg.pinv(basis)

        def amplitudes(y):
            res, rest = [], 0
            for row, ps in zip(y, ph):
                c = inv @ row[mid].astype(float)
                rest = max(rest, float(np.max(np.abs(row[mid] - basis @ c))) / amp)
                c, out, pos = c / amp, [], 0
                for w, p in zip(tones, ps):
                    if w:
                        # c0 cos(a) + c1 sin(a) = A cos(a + p) + B sin(a + p)
                        a, b = c[pos], c[pos + 1]
                        out.append([a * np.cos(p) - b * np.sin(p), a * np.sin(p) + b * np.cos(p)])
                        pos += 2
                    else:
                        out.append([c[pos], 0])
                        pos += 1
                res.append(np.clip(np.round(np.array(out) * 1000), -100000, 100000).astype(int).tolist())
            return res, int(min(round(rest * 1000), 100000))

        first = {}
        tr.call("start", {"tones": list(tones), "has": has}, lambda: None)
        for f in chain:
            lo, hi = f.pop("f_lo", None), f.pop("f_hi", None)
            p = build(f, fs, lo, hi)
            meta = rs.descriptive(td.metadata)

            def observe(r):
                y = np.asarray(r.data)
                got = [r[c] for c in names]
                assert all(np.array_equal(a, b) for a, b in zip(got, y))
                a, rest = amplitudes(y)
                return {"amp": a, "rest": rest, "n": int(y.shape[1]), "dtype": str(y.dtype), "names": list(r.metadata.chans), "meta": rs.canon(rs.descriptive(r.metadata)) == rs.canon(meta)}

            r = tr.call("run", {"f": {k: v for k, v in f.items() if k != "default"}, "n": n, "dtype": str(td.data.dtype), "names": names, "fs": str(fs)}, lambda: p.run(td), observe)
            if r is None:
                return
            td = r

    FS = [128.0, 10, 0.5, 1 / 3, 4096.0, 1, 2.0]
    for case in sorted(ctx.cases, key=json.dumps):
        chain = [dict(f) for f in case["f"]]
        tones = sorted(rng.sample([0, 20, 60, 130, 250, 333, 500, 800, 1000, 1500, 2400, 4000, 6300], 5))
        session(rng.choice(FS), tones, chain, rng.choice(["f8", "f8", "f4"]))

    for _ in range(80 if ctx.thorough else 16):
        # around the cutoffs, default bands, bands that reach to the Nyquist frequency
        fs = rng.choice(FS)
        chain = []
        for _ in range(rng.randint(1, 2)):
            kind = rng.choice(["low", "high", "band", "notch", "notch", "notch"])
            order = rng.choice([2, 3, 5, 10, 10])
            a = rng.uniform(0.03, 0.3)
            b = a + rng.uniform(0.05, 0.15)
            f = {"kind": kind, "order": order, "lo": warped(a * fs, fs), "hi": warped(b * fs, fs), "f_lo": a * fs, "f_hi": b * fs}
            if kind == "notch" and rng.random() < 0.4:
                c = rng.uniform(0.1, 0.4)
                f.update(default=c, lo=warped((c - 0.05) * fs, fs), hi=warped((c + 0.05) * fs, fs))
                f.pop("f_lo"), f.pop("f_hi")
            elif kind == "notch" and rng.random() < 0.4:
                f.update(hi=BEYOND, f_hi=fs * rng.choice([0.5, 0.53, 0.6]), f_lo=fs * 0.35, lo=warped(fs * 0.35, fs))
            if kind == "low":
                f["lo"] = 0
            if kind == "high":
                f["hi"] = 0
            chain.append(f)
        tones = {0, rng.choice([40, 150, 400]), rng.choice([800, 1300, 3000])}
        for f in chain:
            for key in ("lo", "hi"):
                if 0 < f[key] < 7000:
                    tones.add(f[key])
        tones = sorted(tones)
        # tones that are too close cannot be told apart
        keep = []
        for w in tones:
            if not keep or freq(w, 1) - freq(keep[-1], 1) > 0.012:
                keep.append(w)
        session(fs, keep, chain, "f8")

    for k in range(60 if ctx.thorough else 14):
        # the order decides what is left of a tone a little beyond a cutoff
        order = [1, 3, 8, 10, 12, 14, 16][k % 7]
        kind = rng.choice(["low", "high", "band"])
        lo, hi = rng.choice([250, 400, 600]), rng.choice([1500, 2000, 2600])
        beyond = lambda: rng.choice([1.04, 1.06, 1.09])
        tones = [int(lo / beyond()), 1000, int(hi * beyond())]
        f = {"kind": kind, "order": order, "lo": 0 if kind == "low" else lo, "hi": 0 if kind == "high" else hi}
        session(rng.choice(FS), tones, [f], "f8")

    for k in range(32 if ctx.thorough else 8):
        # cutoffs close to the Nyquist frequency, and low ones
        kind = ["high", "low", "band", "high"][k % 4]
        lo, hi = rng.choice([(9000, 14000), (12700, 16000), (7000, 12700)]) if k % 8 < 4 else (rng.choice([40, 60]), rng.choice([120, 200]))
        order = rng.choice([3, 4, 6])
        tones = sorted({0, 15, 400, 1000, 5500} | ({int(lo * 0.8), int(hi * 1.3)} if lo > 1000 else {int(hi * 1.5), int(lo * 0.7)}))
        f = {"kind": kind, "order": order, "lo": 0 if kind == "low" else lo, "hi": 0 if kind == "high" else hi}
        session(rng.choice(FS), [w for n, w in enumerate(tones) if n == 0 or freq(w, 1) - freq(tones[n - 1], 1) > 0.004], [f], "f8")

    for _ in range(30 if ctx.thorough else 8):
        fs = rng.choice(FS)
        td = rs.time_data(fs, 300, ["Ex", "Hy"])
        for kind, lo, hi, notch in [("low", 0, rng.choice([501, 600, 1000]), 0), ("high", rng.choice([501, 700]), 0, 0), ("band", rng.randint(10, 400), rng.choice([501, 530, 2000]), 0),
                                    ("band", rng.randint(200, 400), rng.randint(20, 199), 0), ("notch", 0, 0, rng.choice([501, 530, 900]))]:  # fmt: skip
            def run():
                x = {k: v / 1000 * fs for k, v in (("lo", lo), ("hi", hi), ("notch", notch))}
                p = {"low": lambda: t.LowPass(cutoff=x["hi"]), "high": lambda: t.HighPass(cutoff=x["lo"]), "band": lambda: t.BandPass(cutoff_low=x["lo"], cutoff_high=x["hi"]),
                     "notch": lambda: t.Notch(notch=x["notch"], **({"band": 0.02 * fs} if rng.random() < 0.5 else {}))}[kind]()
                return p.run(td)

            tr.call("refuse", {"kind": kind, "lo": lo, "hi": hi, "notch": notch, "refused": True}, run, lambda r: {})
