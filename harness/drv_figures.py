"""C33: figures and tables show the data they are made from"""
from fractions import Fraction
import numpy as np
import pandas as pd
import rs

SCALE = 2520


def rows_of(fig, n_rows):
    """The traces of every row of a figure, in order"""
    res = [[] for _ in range(n_rows)]
    for t in fig.data:
        k = int((t.yaxis or "y")[1:] or 1)
        while k > len(res):
            res.append([])
        res[k - 1].append(t)
    return res


def ticks(x, first, fs):
    """Times, which figures hold to the microsecond, as sample numbers (NOTINT when not on a sample)"""
    ref = pd.Timestamp(first.isoformat())
    res = []
    for t in pd.to_datetime(list(x)):
        if t != t:
            res.append(rs.NOTNUM)
            continue
        at = Fraction((t - ref).value, 10**9)
        k = round(at * Fraction(fs))
        res.append(rs.ii(k) if abs(at - k / Fraction(fs)) <= Fraction(3, 10**6) else rs.NOTINT)
    return res


def mean_int(y):
    """A mean of up to ten whole numbers in units of 1/SCALE"""
    y = float(y)
    if y != y or abs(y) == float("inf"):
        return rs.NOTNUM
    q = Fraction(y).limit_denominator(10)
    return rs.ii(q * SCALE) if abs(q - Fraction(y)) <= 1e-5 * max(1, abs(y)) else rs.NOTINT


def c33(tr, ctx):
    from resistics import time as t, decimate as d, calibrate as c, transfunc as tf, project as pj
    from resistics.sampling import to_timedelta

    rng = ctx.rng
    CH = {"a": "Ex", "b": "Hy", "c": "Hz", "d": "Ey"}

    def ints(n):
        v = [rng.randint(-9000, 9000) for _ in range(n)]
        if n and rng.random() < 0.3:
            v[rng.randrange(n)] = 2**22
        return v

    # --- recordings drawn one after the other
    def drawing(chans, ops):
        chans = [CH[x] for x in chans]
        tr.event("start", {"chans": chans})
        fig = None
        refs = [[] for _ in chans]  # first time and frequency of every trace of every row
        for k, has in enumerate(ops):
            has = [CH[x] for x in has]
            n = rng.choice([2, 5, 12, 30])
            fs = rng.choice([1, 10, 128, 0.5, 1 / 3, 4096, 1000])
            first = rng.choice([rs.base_time(), rs.mk_time(rs.secs(rs.base_time()) + Fraction(rng.randint(0, 10**9), 10**6))])
            data = [ints(n) for _ in has]
            td = rs.time_data(fs, n, has, first, np.array(data, dtype=rng.choice(["f8", "f4", "f8"])))
            limit = rng.choice([0, 10000, n, 3, 4, max(n - 1, 3)])
            limit = 0 if limit == 0 else max(limit, 3)
            there = [x in has for x in chans]
            ys = [data[has.index(x)] if x in has else [] for x in chans]
            legend = f"rec {k}"
            kw = {"max_pts": None if limit == 0 else limit, "legend": legend, "color": rng.choice(["red", "blue"])}
            if limit == 10000:
                kw.pop("max_pts")
            if fig is not None:
                kw.update(fig=fig, chans=chans)
            elif chans != has or rng.random() < 0.5:
                if not set(chans) <= set(has):
                    # labels need the channels' details: draw on a figure that is there already
                    from resistics.plot import get_time_fig

                    fig = get_time_fig(chans, {x: x for x in chans})
                    kw.update(fig=fig)
                kw["chans"] = chans
            i = {"ys": ys, "there": there, "limit": limit, "legend": legend}

            def observe(f):
                got = rows_of(f, len(chans))
                pts, names = [], []
                for r, ts in enumerate(got):
                    row = []
                    for j, x in enumerate(ts):
                        if j >= len(refs[r]) if r < len(refs) else True:
                            if r < len(refs):
                                refs[r].append((first, fs))
                            names.append(str(x.name))
                        a, b = refs[r][j] if r < len(refs) else (first, fs)
                        row.append([[p, rs.ii(v)] for p, v in zip(ticks(x.x, a, b), x.y)] if len(x.x) == len(x.y) else [])
                    pts.append(row)
                return {"rows": pts, "names": names}

            res = tr.call("draw", i, lambda: td.plot(**kw), observe)
            if res is None:
                return
            fig = res

    def levels():
        n_levels = rng.choice([1, 2, 3, 11, 13])
        chans = rng.sample(["Ex", "Ey", "Hx", "Hy"], rng.randint(1, 3))
        fs0 = 2.0 ** rng.randint(0, 6) * rng.choice([1, 2, 2.5, 30])
        first = rs.base_time()
        lev, data = [], {}
        for k in range(n_levels):
            n = rng.randint(2, 15)
            fs = fs0 / 2**k
            lev.append(dict(fs=fs, n_samples=n, first_time=first, last_time=first + (n - 1) * to_timedelta(1 / fs)))
            data[k] = np.array([ints(n) for _ in chans], dtype=float)
        md = dict(fs=[x["fs"] for x in lev], chans=chans, n_levels=n_levels, first_time=first, last_time=lev[0]["last_time"],
                  chans_metadata=rs.chan_meta({x: {"name": x} for x in chans}), levels_metadata=lev)  # fmt: skip
        dec = d.DecimatedData(d.DecimatedMetadata(**md), data)
        limit = rng.choice([0, 10000, 5])
        kw = {} if limit == 10000 else {"max_pts": limit or None}
        i = {"ys": [[data[k][r].astype(int).tolist() for k in range(n_levels)] for r in range(len(chans))], "limit": limit}
        obs = lambda f: {"rows": [[[[p, rs.ii(v)] for p, v in zip(ticks(x.x, first, lev[min(j, n_levels - 1)]["fs"]), x.y)]
                                   for j, x in enumerate(row)] for row in rows_of(f, len(chans))]}  # fmt: skip
        tr.call("levels", i, lambda: dec.plot(**kw), obs)

    # --- spectra
    def spectra(n_levels, sizes, n_freqs, same=False, chans=None, **level):
        """Spectra data whose magnitudes are whole numbers"""
        from resistics import spectra as sp

        chans = chans or rng.sample(["Ex", "Ey", "Hx", "Hy"], rng.randint(1, 3))
        data, mag, lev = {}, [[] for _ in chans], []
        for k in range(n_levels):
            m = np.array([[[5 * rng.randint(1, 300) for _ in range(n_freqs)] for _ in chans] for _ in range(sizes[k])])
            if rng.random() < 0.2:  # a channel without any signal
                m[:, rng.randrange(len(chans))] = 0
            if rng.random() < 0.2:
                m[:, :, 0] = 0
            if same:
                m[:] = m[:1]
            unit = np.array([rng.choice([1, -1, 1j, -1j, 0.6 + 0.8j, -0.8 + 0.6j]) for _ in range(m.size)]).reshape(m.shape)
            data[k] = (m * unit).astype(rng.choice(["c16", "c8"]))
            for r in range(len(chans)):
                mag[r].append(m[:, r, :].tolist())
            fs = level.get("fs", 64.0 / 2**k)
            lev.append(dict(dict(fs=fs, n_wins=sizes[k], win_size=16, olap_size=4, index_offset=3), **{x: y for x, y in level.items() if x not in ("first", "last")},
                            n_freqs=n_freqs, freqs=[0.25 * (x + 1) * fs / n_freqs for x in range(n_freqs)]))  # fmt: skip
        first = level.get("first", rs.base_time())
        md = dict(fs=[x["fs"] for x in lev], chans=chans, n_levels=n_levels, first_time=first, last_time=level.get("last", first + to_timedelta(3600.0)),
                  chans_metadata=rs.chan_meta({x: {"name": x} for x in chans}), levels_metadata=lev, ref_time=rs.base_time())  # fmt: skip
        return sp.SpectraData(sp.SpectraMetadata(**md), data), mag, [x["freqs"] for x in lev]

    def pts(x, freqs):
        pos = {f: k for k, f in enumerate(freqs)}
        at = lambda f: pos.get(min(freqs, key=lambda g: abs(g - f)), -1) if min(abs(g - f) for g in freqs) < 1e-9 * max(freqs) else -1
        return [[at(float(a)), mean_int(b)] for a, b in zip(x.x, x.y)] if len(x.x) == len(x.y) else []

    def means():
        n_levels = rng.choice([1, 2, 4, 12])
        same = rng.random() < 0.5
        s, mag, freqs = spectra(n_levels, [rng.randint(1, 10) for _ in range(n_levels)], rng.randint(1, 9), same)
        limit = rng.choice([0, 10000, 4] if same else [0, 10000])
        kw = {} if limit == 10000 else {"max_pts": limit or None}
        obs = lambda f: {"rows": [[pts(x, freqs[min(j, n_levels - 1)]) for j, x in enumerate(row)] for row in rows_of(f, len(mag))]}
        tr.call("means", {"mag": mag, "limit": limit}, lambda: s.plot(**kw), obs)

    def minutes(ts):
        v = (pd.Timestamp(ts) - pd.Timestamp("2021-01-01")).value
        return rs.ii(Fraction(v, 60 * 10**9)) if pd.Timestamp(ts) == pd.Timestamp(ts) else rs.NOTNUM

    def stack(case, section):
        """Windows every inc minutes from start (minutes of the first day of the reference time)"""
        n, inc, ln = case["n"], case["inc"], case["len"]
        start = case["start"] * case["inc"] if section else case["start"]
        # one sample a minute; windows are inc samples apart, beginning a whole number of increments after the reference time
        n_freqs = rng.randint(1, 4)
        off_wins = -(-case["start"] // inc)
        start = off_wins * inc
        fs = 1 / 60
        levels = rng.choice([1, 2])
        times = [start + k * inc for k in range(n)]
        first = rs.mk_time(rs.secs(rs.base_time()) + 60 * start)
        last = rs.mk_time(rs.secs(rs.base_time()) + 60 * (times[-1] + inc + 3))
        s, mag, freqs = spectra(levels, [n] * levels, n_freqs, fs=fs, win_size=inc + 3, olap_size=3, index_offset=off_wins, first=first, last=last)
        level = rng.randrange(levels)
        m = [x[level] for x in mag]
        if section:
            i = {"times": times, "origin": 1440 * (start // 1440), "len": ln, "mag": m}

            def observe(f):
                maps = []
                for row in rows_of(f, len(m)):
                    h = row[0] if len(row) == 1 else None
                    if h is None:
                        maps.append({"mid2": [], "freqs": [], "cols": [], "empty": []})
                        continue
                    z = np.array(h.z, dtype=float)
                    maps.append({"mid2": [rs.ii(2 * Fraction((pd.Timestamp(x) - pd.Timestamp("2021-01-01")).value, 60 * 10**9)) for x in h.x],
                                 "freqs": [p[0] for p in pts(type("P", (), {"x": list(h.y), "y": [0] * len(h.y)}), freqs[level])],
                                 "cols": [[mean_int(10 ** float(v)) for v in z[:, k]] for k in range(z.shape[1])],
                                 "empty": [bool(np.all(np.isnan(z[:, k]))) for k in range(z.shape[1])]})  # fmt: skip
                return {"maps": maps}

            tr.call("section", i, lambda: s.plot_level_section(level, grouping=f"{ln}T"), observe)
            return
        whole = rng.random() < 0.2
        origin = 1440 * (start // 1440) + (0 if whole else case["off"])
        days = 1440 * (-(-(times[-1] + inc + 3) // 1440) - start // 1440)
        kw = {} if whole else {"grouping": f"{ln}T", "offset": f"{case['off']}T"}
        if not whole and case["off"] == 0 and rng.random() < 0.5:
            kw.pop("offset")
        i = {"times": times, "origin": origin, "len": days if whole else ln, "mag": m}

        def observe(f):
            rows = []
            for row in rows_of(f, len(m)):
                rows.append([{"at": minutes(x.name), "pts": pts(x, freqs[level]), "empty": bool(np.all(np.isnan(np.asarray(x.y, dtype=float))))} for x in row])
            return {"rows": rows}

        tr.call("stack", i, lambda: s.plot_level_stack(level, **kw), observe)

    # --- transfer functions
    def component(z):
        return tf.Component(real=[float(x[0]) for x in z], imag=[float(x[1]) for x in z])

    def impedance(z):
        n = len(z)
        k = [rng.choice([1, 2, 7, 30]) for _ in z]
        scaled = lambda zz: [[a * x, b * x] for (a, b), x in zip(zz, k)]
        keys = ["ExHx", "ExHy", "EyHx", "EyHy"]
        rng.shuffle(keys)
        zs = {key: scaled(rng.sample(z, n)) for key in keys}
        zs[keys[0]] = scaled(z)
        periods = sorted({5 * rng.choice([1, 2, 3, 10, 100, 1000]) * (j + 1) for j in range(50)})
        periods = sorted(rng.sample(periods, n))
        freqs = [1 / p for p in periods]
        comps = {key: component(v) for key, v in zs.items()}
        fig, before = None, 0
        for turn in range(rng.choice([1, 1, 2])):
            shown = rng.choice([["ExHy", "EyHx", "ExHx", "EyHy"], rng.sample(keys, rng.randint(1, 4))])
            kw = {} if shown == ["ExHy", "EyHx", "ExHx", "EyHy"] else {"to_plot": shown}
            if fig is not None:
                kw["fig"] = fig
                kw["legend"] = "again"
            old = [(list(x.x), list(x.y), x.name) for x in fig.data] if fig is not None else []

            def observe(f):
                rows = rows_of(f, 2)
                new = [r[len(old) // 2 :] for r in rows]
                xs = [[rs.ii(v) for v in x.x] for r in new for x in r]
                return {"kept": [(list(x.x), list(x.y), x.name) for x in list(f.data)[: len(old)]] == old, "xs": xs,
                        "res": [[rs.ii(v) for v in x.y] for x in new[0]], "phase": [[rs.ii(v) for v in x.y] for x in new[1]]}  # fmt: skip

            i = {"keys": shown, "z": [zs[key] for key in shown], "periods": periods}
            fig = tr.call("impedance", i, lambda: tf.ImpedanceTensor.plot(freqs, comps, **kw), observe)
            if fig is None:
                return
        # the same through the functions
        key = keys[0]
        i = {"keys": [key], "z": [zs[key]], "periods": periods}
        tr.call("impedance", i, lambda: (tf.ImpedanceTensor.get_resistivity(np.array(periods, dtype=float), comps[key]), tf.ImpedanceTensor.get_phase(key, comps[key])),
                lambda r: {"kept": True, "xs": [periods], "res": [[rs.ii(v) for v in r[0]]], "phase": [[rs.ii(v) for v in r[1]]]})  # fmt: skip

    def tipper():
        n = rng.randint(1, 6)
        pair = lambda: [rng.choice([-1, 1]) * rng.choice([1, 2, 9]), rng.choice([-1, 0, 1])]
        re = [pair() for _ in range(n)]
        im = [pair() for _ in range(n)]
        re, im = [[a, b * abs(a)] for a, b in re], [[a, b * abs(a)] for a, b in im]
        comps = {"HzHx": tf.Component(real=[float(x[0]) for x in re], imag=[float(x[0]) for x in im]),
                 "HzHy": tf.Component(real=[float(x[1]) for x in re], imag=[float(x[1]) for x in im])}  # fmt: skip
        periods = sorted(rng.sample(range(1, 50), n))
        i = {"re": re, "im": im, "periods": periods}
        tp = tf.Tipper()

        def observe(f):
            rows = rows_of(f, 2)
            (ln,), (ra, ia) = rows
            x = {tuple(rs.ii(v) for v in s.x) for s in (ln, ra, ia)}
            return {"length2": [rs.ii(float(v) ** 2) for v in ln.y], "real": [rs.ii(v) for v in ra.y], "imag": [rs.ii(v) for v in ia.y],
                    "x": list(x.pop()) if len(x) == 1 else []}  # fmt: skip

        tr.call("tipper", i, lambda: tp.plot([1 / p for p in periods], comps), observe)
        tr.call("tipper", i, lambda: (tp.get_length(comps), tp.get_real_angle(comps), tp.get_imag_angle(comps)),
                lambda r: {"length2": [rs.ii(float(v) ** 2) for v in r[0]], "real": [rs.ii(v) for v in r[1]], "imag": [rs.ii(v) for v in r[2]], "x": periods})  # fmt: skip

    # --- tables
    def calibration():
        n = rng.randint(2, 8)
        f, m, p = sorted(rng.sample(range(1, 999), n)), [rng.randint(1, 999) for _ in range(n)], [rng.randint(-180, 180) for _ in range(n)]
        cal = c.CalibrationData(serial=1, sensor="X", static_gain=1, magnitude_unit="mV/nT", phase_unit="radians", file_path="x",
                                chopper=False, frequency=[float(x) for x in f], magnitude=[float(x) for x in m], phase=[float(x) for x in p])  # fmt: skip
        i = {"table": [list(x) for x in zip(f, m, p)], "rows": [[[f, m]], [[f, p]]]}

        def both():
            return cal.plot(), cal.to_dataframe()

        def observe(r):
            fig, df = r
            return {"table": [[rs.ii(k), rs.ii(row["magnitude"]), rs.ii(row["phase"])] for k, row in df.iterrows()],
                    "rows": [[[[rs.ii(v) for v in x.x], [rs.ii(v) for v in x.y]] for x in row] for row in rows_of(fig, 2)]}  # fmt: skip

        tr.call("table", i, both, observe)

    def plan():
        fs = float(2 ** rng.randint(4, 12))
        n_levels, per_level = rng.randint(1, 5), rng.randint(1, 4)
        p = d.DecimationSetup(n_levels=n_levels, per_level=per_level).run(fs)
        i = {"table": [[rs.ii(p.dec_fs[k], 1000), p.dec_factors[k], p.dec_increments[k]] + [rs.ii(p.get_eval_freq(k, j), 1000, tol=1) for j in range(per_level)]
                       for k in range(n_levels)]}  # fmt: skip
        tr.call("table", i, p.to_dataframe, lambda df: {"table": [[rs.ii(r["fs"], 1000), rs.ii(r["factors"]), rs.ii(r["increments"])]
                                                                  + [rs.ii(r[j], 1000, tol=1) for j in range(per_level)] for _, r in df.iterrows()]})  # fmt: skip

    def timeline():
        site_names = rng.sample(["s1", "s2", "far"], rng.randint(1, 3))
        span = {}
        for s in site_names:
            for k in range(rng.choice([1, 2, 3]) if rng.random() < 0.9 else 0):
                a = rng.randint(0, 5000)
                span[(s, f"m{k}")] = (a, a + rng.randint(1, 900), rng.choice([128, 16, 0.5]))
        # recorded together: the same names and times at several sites, or at one site
        for k in list(span):
            if rng.random() < 0.4:
                o = rng.choice(site_names)
                span[(o, k[1] if o != k[0] else "again")] = span[k] if rng.random() < 0.7 else (*span[k][:2], 32)
        at = lambda m: rs.mk_time(rs.secs(rs.base_time()) + 60 * m)

        def meas(s, m):
            a, b, fs = span[(s, m)]
            n = int((b - a) * 60 * fs) + 1
            from resistics.time import TimeReaderNumpy

            return pj.Measurement(site_name=s, dir_path=ctx.work / s / m, reader=TimeReaderNumpy(), metadata=rs.time_metadata(fs, n, ["Ex"], at(a)))

        site = lambda s: pj.Site(dir_path=ctx.work / s, begin_time=at(0), end_time=at(9000), measurements={m: meas(s, m) for x, m in sorted(span, key=lambda _: rng.random()) if x == s})
        proj = pj.Project(dir_path=ctx.work, begin_time=at(0), end_time=at(9000), metadata=pj.ProjectMetadata(ref_time=at(rng.randint(0, 400))),
                          sites={s: site(s) for s in site_names})  # fmt: skip
        fs_i = lambda x: rs.ii(float(x), 10)

        def bars(f):
            res = []
            for x in f.data:
                for base, dur, y in zip(x.base, x.x, x.y):
                    a = minutes(base)
                    res.append([str(y), a, a + rs.ii(float(dur) / 60000), fs_i(x.name)])
            return res

        table = lambda df: [[r["site"], r["name"], minutes(r["first_time"]), minutes(r["last_time"]), fs_i(r["fs"])] for _, r in df.iterrows()]
        rows = lambda ks: [[s, m, span[(s, m)][0], span[(s, m)][1], fs_i(span[(s, m)][2])] for s, m in ks]
        i = {"bars": [[s, *span[(s, m)][:2], fs_i(span[(s, m)][2])] for s, m in span], "table": rows(span)}
        tr.call("timeline", i, lambda: (proj.plot(), proj.to_dataframe()), lambda r: {"bars": bars(r[0]), "table": table(r[1])})
        for s in site_names:
            ks = [k for k in span if k[0] == s]
            i = {"bars": [[m, *span[(s, m)][:2], fs_i(span[(s, m)][2])] for _, m in ks], "table": rows(ks)}
            tr.call("timeline", i, lambda: (proj[s].plot(), proj[s].to_dataframe()), lambda r: {"bars": bars(r[0]), "table": table(r[1])})

    for case in ctx.cases:
        x = case["c"]
        if case["kind"] == "draw":
            drawing(x["chans"], x["ops"])
        elif case["kind"] == "angle":
            impedance([list(v) for v in x])
        else:
            stack(x, False)
            stack(x, True)
    for _ in range(60 if ctx.thorough else 8):
        levels()
        means()
        means()
        tipper()
        calibration()
        plan()
        timeline()
        drawing(rng.sample("abcd", 2), [rng.sample("abcd", rng.randint(1, 4)) for _ in range(3)])
