"""C11 (spectra), C12 (evaluation frequencies), C29 (smoothing)"""
import math
import numpy as np
import rs

CH = ["Hy", "Ex", "Hx", "Ey", "Hz"]


def smooth5(n):
    while True:
        m = n
        for p in (2, 3, 5):
            while m % p == 0:
                m //= p
        if m == 1:
            return n
        n += 1


def taper(name, n):
    """Coefficients of a taper for spectra (periodic), from its definition"""
    t = [2 * math.pi * k / n for k in range(n)]
    if name == "boxcar":
        return [1.0] * n
    if name == "hann":
        return [0.5 - 0.5 * math.cos(x) for x in t]
    if name == "hamming":
        return [0.54 - 0.46 * math.cos(x) for x in t]
    if name == "blackman":
        return [0.42 - 0.5 * math.cos(x) + 0.08 * math.cos(2 * x) for x in t]
    if name == "dpss":
        from scipy.signal.windows import dpss

        return list(dpss(n, 5))
    kind, beta = name
    assert kind == "kaiser"
    return [float(np.i0(beta * math.sqrt(max(0.0, 1 - (2 * k / n - 1) ** 2))) / np.i0(beta)) for k in range(n)]


def turn(m):
    return [[round(1e4 * math.cos(2 * math.pi * k / m)), round(1e4 * math.sin(2 * math.pi * k / m))] for k in range(m)]


def meta_of(md):
    d = rs.descriptive(md)
    d.pop("levels_metadata", None)
    return dict(d, chan_order=list(md.chans))


def level_in(m, tok):
    return {"n": m.n_wins, "size": m.win_size, "olap": m.olap_size, "offset": m.index_offset, "fs": tok(float(m.fs))}


def carried(out, tok, freq):
    """freq: projection of a level's frequencies"""
    md = out.metadata
    return {"meta": tok(meta_of(md)), "n_levels": rs.ii(md.n_levels), "keys": sorted(int(k) for k in out.data),
            "levels": [dict(level_in(m, tok), n_freqs=rs.ii(m.n_freqs), freqs=freq(v, m),
                            shape=list(out.data[v].shape)) for v, m in enumerate(md.levels_metadata)]}  # fmt: skip


def windowed(rng, tok, sizes, ns, chans, dtype, x=None, fs0=None):
    """Windowed data with integer samples"""
    w = rs.level_product("windowed", rng, len(sizes), chans, "f8", **({"fs0": fs0} if fs0 else {}))
    from resistics.window import WindowedData, WindowedLevelMetadata

    levels = [WindowedLevelMetadata(fs=w.metadata.fs[v], n_wins=ns[v], win_size=sizes[v], olap_size=max(1, sizes[v] // 4),
                                    index_offset=rng.choice([0, 3, 10**6])) for v in range(len(sizes))]  # fmt: skip
    md = w.metadata.copy(deep=True)
    md.levels_metadata = levels
    if x is None:
        x = [[[[rng.randint(-9, 9) for _ in range(sizes[v])] for _ in chans] for _ in range(ns[v])] for v in range(len(sizes))]
    data = {v: np.array(x[v], dtype=dtype) for v in range(len(sizes))}
    return WindowedData(md, data), x


def run_fft(tr, tok, win, x, name, detrend, dtype, ks_of, workers=1):
    from resistics.spectra import FourierTransform

    md = win.metadata
    sizes = [m.win_size for m in md.levels_metadata]
    ms = [smooth5(n) for n in sizes]
    ks = [ks_of(m) for m in ms]
    i = {"taper": str(name), "detrend": detrend or "none", "dtype": dtype, "chans": list(md.chans), "meta": tok(meta_of(md)),
         "levels": [level_in(m, tok) for m in md.levels_metadata], "x": x, "ks": ks,
         "w": [[round(1e4 * c) for c in taper(name, n)] for n in sizes], "circ": [turn(m) for m in ms]}  # fmt: skip

    def obs(s):
        o = carried(s, tok, lambda v, m: [rs.ii(f / m.fs, 1e6, tol=1) for f in m.freqs])
        o["X"] = [rs.clist(s.get_level(v)[..., [min(k, s.data[v].shape[-1] - 1) for k in ks[v]]] * math.sqrt(ms[v]), 1000, tol=1)
                  for v in range(len(sizes))]  # fmt: skip
        return o

    return tr.call("fft", i, lambda: FourierTransform(win_fnc=name, detrend=detrend, workers=workers).run(win), obs)


TAPERS = ["boxcar", "hann", "hamming", "blackman", ("kaiser", 14), ("kaiser", 3), "dpss"]


def c11(tr, ctx):
    from resistics.spectra import FourierTransform

    rng, tok = ctx.rng, rs.Tokens()
    # windows of the model
    by = {}
    for c in ctx.cases:
        by.setdefault((c["kind"], c["taper"]), []).append(c["x"])
    for (kind, name), xs in sorted(by.items()):
        for k in range(0, len(xs) - 1, 2 if not ctx.thorough else 8):
            grp = xs[k : k + (2 if not ctx.thorough else 8)]
            chans = rng.sample(CH, len(grp) if len(grp) <= 5 else 4)
            grp = grp[: len(chans)]
            dt = rng.choice(["f8", "f4", "i4", "i8", "f8"])
            win, x = windowed(rng, tok, [4], [1], chans, dt, x=[[grp]])
            run_fft(tr, tok, win, x, name, None if kind == "none" else kind, dt, lambda m: [0, 1, 2])
    for k in range(300 if ctx.thorough else 60):
        L = rng.randint(1, 3)
        sizes = [rng.choice([4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 20, 22]) for _ in range(L)]
        ns = [rng.choice([1, 1, 2, 3]) for _ in range(L)]
        chans = rng.sample(CH, rng.choice([1, 1, 2, 3]))
        dt = rng.choice(["f8", "f8", "f4", "i4"])
        win, x = windowed(rng, tok, sizes, ns, chans, dt)
        names = TAPERS if min(sizes) > 10 else TAPERS[:-1]
        pick = lambda m: sorted({0, m // 2, 1, rng.randint(0, m // 2)} & set(range(m // 2 + 1)))
        run_fft(tr, tok, win, x, rng.choice(names), rng.choice([None, "constant", "linear", "linear"]), dt, pick,
                rng.choice([1, -2, 2]))  # fmt: skip
    # the frequency axis of any size, and that the samples of a cell alone determine its spectrum
    for k in range(200 if ctx.thorough else 40):
        L = rng.randint(1, 3)
        sizes = [rng.randint(11, 400) for _ in range(L)]
        ns = [rng.choice([1, 2, 7]) for _ in range(L)]
        chans = rng.sample(CH, rng.choice([1, 2, 4]))
        x = [np.random.default_rng(rng.randint(0, 2**31)).normal(size=(ns[v], len(chans), sizes[v])) * 10.0 ** rng.randint(-3, 6) for v in range(L)]
        dt = rng.choice(["f8", "f4"])
        win, _ = windowed(rng, tok, sizes, ns, chans, dt, x=x)
        kw = dict(win_fnc=rng.choice(TAPERS), detrend=rng.choice([None, "constant", "linear"]), workers=1)
        md = win.metadata
        i = {"taper": str(kw["win_fnc"]), "detrend": kw["detrend"] or "none", "dtype": dt, "chans": list(chans),
             "meta": tok(meta_of(md)), "levels": [level_in(m, tok) for m in md.levels_metadata], "x": [[]] * L, "ks": [[]] * L,
             "w": [[]] * L, "circ": [[]] * L}  # fmt: skip
        ft = FourierTransform(**kw)
        s = tr.call("fft", i, lambda: ft.run(win), lambda s: dict(carried(s, tok, lambda v, m: [rs.ii(f / m.fs, 1e6, tol=1) for f in m.freqs]), X=[]))
        if s is None:
            continue

        def cell(v, a, c):
            from resistics.window import WindowedData

            one = md.copy(deep=True)
            one.levels_metadata = [md.levels_metadata[v].copy(deep=True)]
            one.n_levels, one.fs, one.levels_metadata[0].n_wins = 1, [md.fs[v]], 1
            one.chans, one.n_chans, one.chans_metadata = [chans[c]], 1, {chans[c]: md.chans_metadata[chans[c]]}
            return ft.run(WindowedData(one, {0: win.data[v][a : a + 1, c : c + 1].copy()})).data[0][0, 0]

        def alone():
            tol = 1e-9 if dt == "f8" else 1e-3
            ok = True
            for _ in range(4):
                v = rng.randrange(L)
                a, c = rng.randrange(ns[v]), rng.randrange(len(chans))
                y = s.data[v][a, c]
                ok = ok and np.allclose(cell(v, a, c), y, rtol=tol, atol=tol * np.max(np.abs(y)))
            return ok

        def adds():
            w2, _ = windowed(rng, tok, sizes, ns, chans, "f8", x=[np.roll(y, 3, axis=-1) for y in x])
            w3, _ = windowed(rng, tok, sizes, ns, chans, "f8", x=[2 * y - 3 * np.roll(y, 3, axis=-1) for y in x])
            w1, _ = windowed(rng, tok, sizes, ns, chans, "f8", x=x)
            s1, s2, s3 = ft.run(w1), ft.run(w2), ft.run(w3)
            return all(np.allclose(2 * s1.data[v] - 3 * s2.data[v], s3.data[v], rtol=1e-9, atol=1e-9 * np.max(np.abs(s1.data[v]))) for v in range(L))

        tr.call("alone", {"sizes": sizes, "n": ns, "chans": list(chans), "taper": str(kw["win_fnc"]), "detrend": kw["detrend"] or "none"},
                lambda: {"alone": bool(alone()), "adds": bool(adds())}, lambda o: o)  # fmt: skip


def spectra(rng, f, ns, chans, v, unit, dtype="c16"):
    """Spectra with Gaussian integer values v[level][window][channel][bin] at frequencies f times the unit"""
    from resistics.spectra import SpectraData, SpectraLevelMetadata

    s = rs.level_product("spectra", rng, len(f), chans, "c16")
    md = s.metadata.copy(deep=True)
    md.levels_metadata = [
        SpectraLevelMetadata(fs=md.fs[k], n_wins=ns[k], win_size=rng.randint(8, 99), olap_size=rng.randint(1, 7), index_offset=rng.choice([0, 5, 10**6]),
                             n_freqs=len(f[k]), freqs=[x * unit for x in f[k]]) for k in range(len(f))]  # fmt: skip
    data = {}
    for k in range(len(f)):
        a = np.array(v[k], dtype=float)
        data[k] = (a[..., 0] + 1j * a[..., 1]).astype(dtype)
    return SpectraData(md, data)


def gauss(rng, m=99):
    return [rng.randint(-m, m), rng.randint(-m, m)]


def c12(tr, ctx):
    from resistics.decimate import DecimationParameters, DecimationSetup
    from resistics.spectra import EvaluationFreqs

    rng, tok = ctx.rng, rs.Tokens()

    def run(f, evals, ns, chans, v, unit, dtype="c16"):
        s = spectra(rng, f, ns, chans, v, unit, dtype)
        md = s.metadata
        more = rng.choice([0, 0, 1])  # the plan may have more levels than there are spectra
        L = len(f)
        plan = DecimationParameters(
            fs=md.fs[0], n_levels=L + more, per_level=len(evals[0]), min_samples=256,
            eval_freqs=[x * unit for y in evals + [evals[0]] * more for x in y],
            dec_factors=[1] * (L + more), dec_increments=[1] * (L + more), dec_fs=[md.fs[0]] * (L + more))  # fmt: skip
        i = {"chans": list(chans), "f": f, "evals": evals, "v": v, "meta": tok(meta_of(md)),
             "levels": [level_in(m, tok) for m in md.levels_metadata]}  # fmt: skip

        def obs(o):
            d = carried(o, tok, lambda k, m: [rs.ii(x / unit, tol=1e-9) for x in m.freqs])
            d["vals"] = [rs.clist(o.get_level(k), 1000, tol=1) for k in range(L)]
            return d

        tr.call("evals", i, lambda: EvaluationFreqs().run(plan, s), obs)

    cases = list(ctx.cases)
    rng.shuffle(cases)
    while len(cases) >= 2:
        L = rng.choice([1, 2])
        cs = [cases.pop() for _ in range(L)]
        per = rng.choice([1, 2, 4])
        evals = [[rng.randint(0, c["f"][-1] + 2) for _ in range(per)] for c in cs]
        chans = rng.sample(CH, rng.choice([1, 2]))
        ns = [rng.choice([1, 2]) for _ in cs]
        v = [[[[[x * (1 + a) + 7 * b, y - a + b] for x, y in c["v"]] for b in range(len(chans))] for a in range(n)] for c, n in zip(cs, ns)]
        run([c["f"] for c in cs], evals, ns, chans, v, rng.choice([1.0, 0.25, 0.1, 3.0, 1 / 3]))
    for k in range(600 if ctx.thorough else 90):
        L = rng.randint(1, 4)
        f = []
        for _ in range(L):
            nb = rng.choice([1, 2, 3, 5, 9, 17])
            step = rng.choice([1, 2, 5, 12, 60])
            if rng.random() < 0.6:
                f.append([step * j for j in range(nb)])
            else:
                f.append(sorted(rng.sample(range(200), nb)))
        per = rng.randint(1, 6)
        evals = [[rng.choice([rng.randint(0, max(f[a]) + 3), rng.choice(f[a])]) for _ in range(per)] for a in range(L)]
        if rng.random() < 0.5:
            evals = [sorted(set(x), reverse=True) for x in evals]
            per = min(len(x) for x in evals)
            evals = [x[:per] for x in evals]
        ns = [rng.choice([1, 1, 2, 4]) for _ in range(L)]
        chans = rng.sample(CH, rng.choice([1, 1, 2, 4]))
        v = [[[[gauss(rng) for _ in f[a]] for _ in chans] for _ in range(ns[a])] for a in range(L)]
        run(f, evals, ns, chans, v, rng.choice([1.0, 0.5, 0.1, 7.0, 1 / 7]), rng.choice(["c16", "c16", "c8"]))


def c29(tr, ctx):
    from resistics.spectra import SpectraSmootherUniform, SpectraSmootherGaussian

    rng, tok = ctx.rng, rs.Tokens()
    GAINS = [[1, 0], [-2, 3], [0, 7]]

    def table(sigma):
        R = int(4 * sigma + 0.5)
        w = [math.exp(-0.5 * (d / sigma) ** 2) for d in range(R + 1)]
        tot = w[0] + 2 * sum(w[1:])
        return [round(1e6 * x / tot) for x in w]

    def run(proc, kind, ns, prop, sigma, chans, extra):
        L = len(ns)
        vals = [[[[gauss(rng, 50) for _ in range(n)] for _ in chans] for _ in range(extra)] for n in ns]
        v = []
        for a, n in enumerate(ns):
            imp = [[[GAINS[c] if j == k else [0, 0] for k in range(n)] for c in range(len(chans))] for j in range(n)]
            v.append(imp + vals[a])
        s = spectra(rng, [list(range(n)) for n in ns], [n + extra for n in ns], chans, v, 0.5)
        md = s.metadata
        i = {"kind": kind, "prop": prop, "sigma": str(sigma), "table": table(sigma), "table_one": table(1), "chans": list(chans),
             "gains": GAINS[: len(chans)], "v": vals, "meta": tok(meta_of(md)),
             "levels": [dict(level_in(m, tok), n_freqs=m.n_freqs, freqs_tok=tok(list(m.freqs))) for m in md.levels_metadata]}  # fmt: skip

        def obs(o):
            d = carried(o, tok, lambda k, m: [0] * len(m.freqs))
            for k, m in enumerate(o.metadata.levels_metadata):
                d["levels"][k]["freqs_tok"] = tok(list(m.freqs))
            d["W"] = [rs.ilist(o.get_level(k)[:n, 0].real, 1e6, tol=1) for k, n in enumerate(ns)]
            d["impulses"] = [rs.clist(o.get_level(k)[:n], 1000, tol=1) for k, n in enumerate(ns)]
            d["vals"] = [rs.clist(o.get_level(k)[n:], 1000, tol=1) for k, n in enumerate(ns)]
            return d

        tr.call("smooth", i, lambda: proc.run(s), obs)

    cases = list(ctx.cases)
    rng.shuffle(cases)
    while len(cases) >= 2:
        c = cases.pop()
        same = [x for x in cases if x["prop"] == c["prop"]]
        ns = [c["n"]] + ([rng.choice(same)["n"]] if same and rng.random() < 0.6 else [])
        run(SpectraSmootherUniform(length_proportion=c["prop"][0] / c["prop"][1]), "uniform", ns, c["prop"], 1,
            rng.sample(CH, rng.choice([1, 2])), 1)  # fmt: skip
    run(SpectraSmootherUniform(), "uniform", [25, 13], [1, 10], 1, ["Ex", "Hy"], 1)
    for k in range(60 if ctx.thorough else 12):
        sigma = rng.choice([1, 1, 0.5, 1.5, 2])
        ns = [rng.randint(int(8 * max(sigma, 1) + 2), int(8 * max(sigma, 1) + 2) + 6) for _ in range(rng.choice([1, 2]))]
        run(SpectraSmootherGaussian(sigma=sigma), "gaussian", ns, [1, 1], sigma, rng.sample(CH, rng.choice([1, 2])), 1)
    run(SpectraSmootherGaussian(), "gaussian", [27], [1, 1], 3, ["Hx"], 1)
