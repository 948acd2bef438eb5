"""C08 (windows of a recording), C09 (windows of two recordings), C10 (window set-up)"""
from fractions import Fraction
import numpy as np
import rs
from drv_sampling import slack

CH = ["Hy", "Ex", "Hx", "Ey", "Hz"]
EXACT = [1, 2, 4, 5, 8, 10, 16, 32, 50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 0.5, 0.25, 0.1]
OTHER = [3, 7, 24000, 65536, 4096, 0.3, 300]


def level_values(start, n, step, chans, lab):
    """Values that name their channel and their place: samples at start, start + step, ..."""
    at = (start + step * np.arange(n)) if lab == "tick" else np.arange(n)
    return np.array([1e8 * (CH.index(c) + 1) + at % 10**7 for c in chans])


def decimated(fs, first, n, factors, chans, start=0, lab="no", dtype="f8"):
    """n: samples per level"""
    from resistics import decimate as d

    lm, data = [], {}
    for k, (m, f) in enumerate(zip(n, factors)):
        x = rs.time_metadata(fs / f, m, chans, first)
        lm.append(d.DecimatedLevelMetadata(fs=fs / f, n_samples=m, first_time=first, last_time=x.last_time))
        data[k] = level_values(start, m, f, chans, lab).astype(dtype)
    x = rs.time_metadata(fs, n[0], chans, first)
    md = d.DecimatedMetadata(fs=[y.fs for y in lm], chans=list(chans), n_levels=len(n), first_time=first, last_time=x.last_time,
                             chans_metadata=x.chans_metadata, levels_metadata=lm)  # fmt: skip
    return d.DecimatedData(md, data)


def exact_levels(fs, factors):
    """Are the sample periods of all levels exact, so that they add up to exact times?"""
    from resistics.sampling import to_timedelta

    return all(rs.dsecs(to_timedelta(1 / (fs / f))) == Fraction(f) / Fraction(fs) for f in factors)


class Rec:
    """A recording in decimation levels, K0 ticks to a sample of the first level"""

    def __init__(self, rng, fs, K0, r, n, factors, chans, ref=None, lab="no", shift=0):
        """shift: samples of the first level between the reference time and the zero of the ticks, a whole
        number of window increments at every level"""
        self.shift, self.factors = shift, factors
        self.ref = ref or rs.base_time(rng.choice(["2021-01-01 00:00:00", "2019-12-31 23:59:59", "2020-02-28 12:00:00.500000"]))
        from resistics.sampling import to_timedelta

        # in the code's own sample periods, which are rounded for some sampling frequencies
        dt = rs.dsecs(to_timedelta(1 / fs))
        self.zero = rs.mk_time(rs.secs(self.ref) + shift * dt)
        self.first = rs.mk_time(rs.secs(self.zero) + Fraction(r) / K0 * dt)
        self.fs, self.K0, self.chans = fs, K0, chans
        self.dec = decimated(fs, self.first, n, factors, chans, start=r // K0, lab=lab)
        self.i = {"r": r, "n": n, "K": [K0 * f for f in factors], "chans": chans}

    def tick(self, t):
        from resistics.sampling import to_datetime
        import pandas as pd

        return rs.tick(to_datetime(t) if isinstance(t, pd.Timestamp) else t, self.zero, self.fs, self.K0)

    def behind(self, v, inc):
        """Windows of a level between the reference time and the zero of the ticks"""
        assert self.shift % (inc * self.factors[v]) == 0
        return self.shift // (inc * self.factors[v])


def first_number(w, chans, k=0):
    """Sample number a window starts with, channel codes, and whether all values run on"""
    v = np.asarray(w)
    nos = v % 10**7
    ok = bool(np.all(np.diff(nos, axis=-1) == 1)) and bool(np.all(nos[:, 0] == nos[0, 0]))
    codes = [CH[int(x) - 1] if 1 <= x <= 5 else "?" for x in v[:, 0] // 10**8]
    ok = ok and bool(np.all(v // 10**8 == (v[:, :1] // 10**8)))
    return int(nos[0, 0]), [chans.index(c) + 1 if c in chans else 0 for c in codes], ok


def observe(rec, win):
    md = win.metadata
    L = []
    for k, m in enumerate(md.levels_metadata):
        v = win.get_level(k)
        rows = [first_number(x, rec.chans) for x in v]
        codes = rows[0][1] if all(x[1] == rows[0][1] for x in rows) else []
        # the channel accessor agrees
        ok = all(np.array_equal(win.get_chan(k, c), v[:, j]) for j, c in enumerate(md.chans))
        L.append({"n": rs.ii(m.n_wins), "n_data": v.shape[0], "n_samples": v.shape[2], "size": rs.ii(m.win_size),
                  "olap": rs.ii(m.olap_size), "offset": rs.ii(int(m.index_offset) - (rec.behind(k, m.win_size - m.olap_size) if rec.shift else 0)), "from": [x[0] for x in rows],
                  "consecutive": all(x[2] for x in rows), "chans": codes if ok else [],
                  "ratio": rs.ii(rec.fs * rec.K0 / m.fs, tol=1e-9), "listed_ratio": rs.ii(rec.fs * rec.K0 / md.fs[k], tol=1e-9)})  # fmt: skip
    return {"levels": L, "keys": sorted(int(x) for x in win.data), "n_levels": rs.ii(md.n_levels), "chans": list(md.chans),
            "ref": rs.tick(md.ref_time, rec.ref, rec.fs, rec.K0), "first": rec.tick(md.first_time),
            "last_same": md.last_time == rec.dec.metadata.last_time}  # fmt: skip


def params(sizes, olaps, least):
    from resistics.window import WindowParameters

    return WindowParameters(n_levels=len(sizes), min_n_wins=least, win_sizes=sizes, olap_sizes=olaps)


def table(tr, rec, k, size, olap, timed):
    from resistics import window as w

    m = rec.dec.metadata.levels_metadata[k]
    i = dict(rec.i, n=[rec.i["n"][k]], K=[rec.i["K"][k]], form="given", sizes=[size], olaps=[olap], timed=timed,
             slack=slack(rec.fs))  # fmt: skip

    def obs(df):
        out = {"global": [rs.ii(int(x) - rec.behind(k, size - olap)) for x in df["global"]], "local": rs.ilist(df["local"].tolist()),
               "from": rs.ilist(df["from_sample"].tolist()), "to": rs.ilist(df["to_sample"].tolist()), "starts": [], "ends": []}  # fmt: skip
        if timed:
            out["starts"] = [rec.tick(x) for x in df["win_start"]]
            out["ends"] = [rec.tick(x) for x in df["win_end"]]
        return out

    tr.call("table", i, lambda: w.get_win_table(rec.ref, m, size, olap), obs)


def windows(tr, rec, sizes, olaps, least, fetch=(), rng=None):
    from resistics import window as w

    i = dict(rec.i, form="given", sizes=sizes, olaps=olaps, least=least)
    win = tr.call("windows", i, lambda: w.Windower().run(rec.ref, params(sizes, olaps, least), rec.dec), lambda x: observe(rec, x))
    if win is None or rng is None:
        return win
    for k, m in enumerate(win.metadata.levels_metadata):
        for by in ("local", "global"):
            base = 0 if by == "local" else m.index_offset
            for no in {base, base - 1, base + m.n_wins - 1, base + m.n_wins, base + rng.randint(0, m.n_wins), rng.randint(-2, 5)}:
                fn = win.get_local if by == "local" else win.get_global
                tr.call("fetch", dict(i, level=k, by=by, number=no), lambda: fn(k, no),
                        lambda x: dict(zip(("from", "c", "consecutive"), first_number(x, rec.chans))))  # fmt: skip
    return win


def target(tr, rng, rec, least, tgt, min_size, prop):
    from resistics import window as w

    i = dict(rec.i, form="target", prop=prop, target=tgt, min_size=min_size, least=least)
    proc = w.WindowerTarget(target=tgt, min_size=min_size, olap_proportion=prop[0] / prop[1])
    n = len(rec.i["n"])
    # set up for other sizes: the target windower finds its own
    p = params([rng.randint(3, 300) for _ in range(n)], [1] * n, least)
    win = tr.call("windows", i, lambda: proc.run(rec.ref, p, rec.dec), lambda x: observe(rec, x))
    if win is not None and rng.random() < 0.5:
        # and when it is set up for the sizes it finds, with other overlaps
        sizes = [x.win_size for x in win.metadata.levels_metadata]
        sizes += [rng.randint(3, 300) for _ in range(n - len(sizes))]
        p2 = params(sizes, [rng.choice([1, x - 1, rng.randint(1, x - 1)]) for x in sizes], least)
        tr.call("windows", i, lambda: proc.run(rec.ref, p2, rec.dec), lambda x: observe(rec, x))


def random_rec(rng, big, max_factor=8, **kw):
    fs = kw.pop("fs", None) or rng.choice(EXACT + OTHER)
    K0 = rng.choice([1, 1, 2, 4, 5])
    factors = [1]
    for _ in range(rng.randint(0, 3)):
        factors.append(factors[-1] * rng.choice([1, 2, 2, 3, 4]))
    factors = [f for f in factors if f <= max_factor]
    n0 = rng.randint(20, 600)
    n = [-(-n0 // f) for f in factors]
    r = rng.choice([0, 0, rng.randint(0, 50), rng.randint(0, 10**6) if big else 7, rng.randint(0, 3 * 10**7) if big else 11])
    if not exact_levels(fs, factors):
        r = r % 300
    chans = kw.pop("chans", None) or rng.sample(CH, rng.choice([1, 1, 2, 3, 4, 5]))
    return Rec(rng, fs, K0, r, n, factors, chans, **kw)


def c08(tr, ctx):
    rng = ctx.rng
    for c in ctx.cases:
        fs = rng.choice(EXACT)
        chans = rng.sample(CH, rng.choice([1, 2, 4]))
        rec = Rec(rng, fs, c["K"], c["r"][0], [c["n"][0]], [1], chans)
        if c["n"][0] < 2:
            continue
        least = rng.choice([1, 1, 2, 3])
        windows(tr, rec, [c["size"]], [c["olap"]], least, rng=rng if rng.random() < 0.3 else None)
        table(tr, rec, 0, c["size"], c["olap"], True)
    for k in range(400 if ctx.thorough else 70):
        rec = random_rec(rng, True)
        L = len(rec.i["n"])
        sizes = [rng.randint(2, max(2, rec.i["n"][v] // 2)) for v in range(L)]
        # windows of one length of time, or as they come; any overlap
        olaps = [rng.choice([1, s // 4 or 1, s // 2 or 1, s - 1, rng.randint(1, s - 1)]) for s in sizes]
        counts_least = rng.choice([1, 2, 5, 8])
        windows(tr, rec, sizes, olaps, counts_least, rng=rng)
        v = rng.randrange(L)
        table(tr, rec, v, sizes[v], olaps[v], True)
        if k % 3 == 0:
            target(tr, rng, rec, rng.choice([1, 3, 5]), rng.choice([3, 10, 50]), rng.choice([4, 8, 20]), rng.choice([[1, 4], [1, 2], [3, 4]]))


def c09(tr, ctx):
    from resistics import window as w, spectra as sp

    rng = ctx.rng

    def pair(fs, K0, rs_, ns, factors, sizes, olaps, least, chans, shift=0):
        ref = rs.base_time(rng.choice(["2021-01-01 00:00:00", "2019-06-30 23:59:59"]))
        recs = [Rec(rng, fs, K0, r, n, factors, chans, ref=ref, lab="tick", shift=shift) for r, n in zip(rs_, ns)]
        inputs = [dict(x.i, form="given", sizes=sizes, olaps=olaps, least=least) for x in recs]
        ft = sp.FourierTransform(win_fnc="hann", detrend=None, workers=1)

        def run():
            out = []
            for x in recs:
                win = w.Windower().run(x.ref, params(sizes, olaps, least), x.dec)
                out.append((win, ft.run(win), x))
            return out

        def obs(out):
            (wa, sa, ra), (wb, sb, rb) = out
            L = []
            for v in range(min(wa.metadata.n_levels, wb.metadata.n_levels)):
                ma, mb = wa.metadata.levels_metadata[v], wb.metadata.levels_metadata[v]
                inc = w.inc_duration(ma.win_size, ma.olap_size, ma.fs)
                ta, tb = ([ra.tick(t) for t in w.get_win_starts(x.ref_time, m.win_size, m.olap_size, m.fs, m.n_wins, m.index_offset)]
                          for x, m in ((wa.metadata, ma), (wb.metadata, mb)))  # fmt: skip
                ea, eb = ([ra.tick(t) for t in w.get_win_ends(
                    w.get_win_starts(x.ref_time, m.win_size, m.olap_size, m.fs, m.n_wins, m.index_offset), m.win_size, m.fs)]
                    for x, m in ((wa.metadata, ma), (wb.metadata, mb)))  # fmt: skip
                ua, ub = ([ra.tick(t) for t in s.get_timestamps(v)] for s in (sa, sb))
                rows = []
                for g in range(ma.index_offset, ma.index_offset + ma.n_wins):
                    a, b = g - ma.index_offset, g - mb.index_offset
                    if not 0 <= b < mb.n_wins:
                        continue
                    rows.append({
                        "g": rs.ii(int(g) - (ra.behind(v, ma.win_size - ma.olap_size) if shift else 0)), "ta": ta[a], "tb": tb[b], "sa": ua[a], "sb": ub[b], "ea": ea[a], "eb": eb[b],
                        "exact": ra.tick(w.win_to_datetime(ra.ref, g, inc)),
                        "same": bool(np.array_equal(wa.get_global(v, g), wb.get_global(v, g))),
                        "spec_same": bool(np.allclose(sa.get_level(v)[a], sb.get_level(v)[b], rtol=1e-12)),
                    })  # fmt: skip
                L.append(rows)
            return {"levels": L}

        tr.call("pair", {"a": inputs[0], "b": inputs[1], "slack": slack(fs)}, run, obs)

    for c in ctx.cases:
        if min(c["n"]) < 2:
            continue
        pair(rng.choice(EXACT), c["K"], c["r"], [[c["n"][0]], [c["n"][1]]], [1], [c["size"]], [c["olap"]], rng.choice([1, 1, 2]),
             rng.sample(CH, rng.choice([1, 2])))  # fmt: skip
    for k in range(300 if ctx.thorough else 60):
        K0 = rng.choice([1, 1, 1, 2, 4])
        factors = [[1], [1, 2], [1, 2, 4], [1, 1, 3], [1, 4, 8]][rng.randrange(5)]
        n0 = [rng.randint(100, 500) for _ in range(2)]
        ns = [[-(-n // f) for f in factors] for n in n0]
        r = rng.choice([0, rng.randint(0, 300), rng.randint(0, 10**7)])
        fs = rng.choice(EXACT)
        if not exact_levels(fs, factors):
            r = r % 300
        # aligned at every level, at the first level only, or not at all
        d = rng.choice([K0 * factors[-1], K0, K0, 1]) * rng.randint(0, 60)
        sizes = [rng.randint(2, max(2, ns[0][v] // 3)) for v in range(len(factors))]
        olaps = [rng.choice([1, s // 4 or 1, rng.randint(1, s - 1)]) for s in sizes]
        pair(fs, K0, [r, r + d], ns, factors, sizes, olaps, rng.choice([1, 2]), rng.sample(CH, rng.choice([1, 2, 3])))
    # many windows after the reference time: global numbers, and samples before them, of any size
    for k in range(40 if ctx.thorough else 12):
        factors = [[1], [1, 2], [1, 2, 4]][rng.randrange(3)]
        fs = rng.choice([64, 128, 512, 4096, 65536, 1000])
        ns = [[-(-n // f) for f in factors] for n in (rng.randint(100, 400), rng.randint(100, 400))]
        sizes = [rng.choice([8, 10, 16, 25]) for _ in factors]
        olaps = [rng.choice([1, x // 4, x // 2, x - 1]) for x in sizes]
        step = int(np.lcm.reduce([(x - o) * f for x, o, f in zip(sizes, olaps, factors)]))
        far = rng.choice([2**31 - 50, 2**31 + 10**6, 3 * 10**9, 2**32 + 1, 10**7])
        if not exact_levels(fs, factors):
            continue
        r = rng.randint(0, 100)
        pair(fs, 1, [r, r + rng.randint(0, 40)], ns, factors, sizes, olaps, 1, rng.sample(CH, 2), shift=step * (far // step))
    # single recordings, long after the reference time
    for k in range(100 if ctx.thorough else 20):
        rec = random_rec(rng, True, fs=rng.choice(EXACT))
        v = rng.randrange(len(rec.i["n"]))
        size = rng.randint(2, max(2, rec.i["n"][v] // 2))
        table(tr, rec, v, size, rng.randint(1, size - 1), True)


def c10(tr, ctx):
    from resistics import window as w

    rng = ctx.rng
    frac = lambda x: [Fraction(x).numerator, Fraction(x).denominator]
    for k in range(3000 if ctx.thorough else 400):
        levels = rng.randint(1, 6)
        fs = [rng.choice([512, 1000, 100, 4096, 24000, 65536, 10, 333, rng.randint(1, 70000)]) / 2 ** rng.randint(0, 8) for _ in range(levels)]
        kw, i = {}, {"levels": levels, "fs": [frac(x) for x in fs], "has_sizes": False, "has_olaps": False, "sizes": [], "olaps": []}
        i["min_size"], i["min_olap"], i["factor"], i["prop"], i["least"] = 128, 32, 4, [1, 4], 5
        if rng.random() < 0.8:
            i["min_size"] = kw["min_size"] = rng.choice([4, 16, 64, 128, 256, 1024])
            i["min_olap"] = kw["min_olap"] = rng.choice([1, 2, 16, 32, 64])
            i["factor"] = kw["win_factor"] = rng.choice([1, 2, 3, 4, 5, 7, 10])
            i["prop"] = rng.choice([[1, 4], [1, 2], [1, 8], [3, 4], [5, 16], [1, 3], [2, 7]])
            kw["olap_proportion"] = i["prop"][0] / i["prop"][1]
            i["least"] = kw["min_n_wins"] = rng.choice([1, 5, 12])
        if i["prop"][1] in (3, 7) and (kw.get("win_sizes") or True):
            # proportions that are not exact in binary: avoid products that are whole numbers
            sizes = [max(Fraction(x) // i["factor"], i["min_size"]) for x in fs]
            if any(s % i["prop"][1] == 0 for s in sizes):
                continue
        if rng.random() < 0.35:
            i["has_sizes"], i["sizes"] = True, [rng.randint(2, 3000) for _ in range(levels + rng.choice([-1, 0, 0, 1, 2]))]
            if i["prop"][1] in (3, 7):
                i["sizes"] = [x + 1 if x % i["prop"][1] == 0 else x for x in i["sizes"]]
            kw["win_sizes"] = list(i["sizes"])
        if rng.random() < 0.35:
            i["has_olaps"], i["olaps"] = True, [rng.randint(1, 300) for _ in range(levels + rng.choice([-1, 0, 0, 1, 2]))]
            kw["olap_sizes"] = list(i["olaps"])
        setup = w.WindowSetup(**kw)
        if k % 3 == 0:
            # the set-up has been used before, for another recording
            less = rng.randint(1, levels)
            try:
                setup.run(less, [rng.choice([64, 1000, 33]) / 2 ** v for v in range(less)])
            except Exception:
                pass
        obs = lambda p: {"sizes": rs.ilist(p.win_sizes), "olaps": rs.ilist(p.olap_sizes), "levels": rs.ii(p.n_levels),
                         "least": rs.ii(p.min_n_wins),
                         "by_level": [[rs.ii(p.get_win_size(v)), rs.ii(p.get_olap_size(v))] for v in range(p.n_levels)]}  # fmt: skip
        p = tr.call("setup", i, lambda: setup.run(levels, fs), obs)
        if k % 4 == 0:
            # the same set-up again, for another number of levels
            more = rng.randint(1, levels)
            tr.call("setup", dict(i, levels=more, fs=i["fs"][:more]), lambda: setup.run(more, fs[:more]), obs)
        if p is not None and k % 10 == 0:
            v = rng.choice([-1, 0, levels - 1, levels])
            for fn in (p.get_win_size, p.get_olap_size):
                tr.call("level", {"levels": levels, "level": v}, lambda: fn(v))
    # sizes found by target count, and that windows of the set-up's sizes come out of windowing
    for k in range(300 if ctx.thorough else 60):
        rec = random_rec(rng, False)
        prop = rng.choice([[1, 4], [1, 2], [3, 4], [1, 8], [3, 8]])
        target(tr, rng, rec, rng.choice([1, 2, 5]), rng.choice([1, 3, 10, 40, 100]), rng.choice([8, 9, 16, 30]), prop)
        L = len(rec.i["n"])
        sizes = [rng.randint(2, max(2, rec.i["n"][v] // 3)) for v in range(L)]
        windows(tr, rec, sizes, [rng.randint(1, s - 1) for s in sizes], 1)
