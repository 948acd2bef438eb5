"""C06 (decimation plans) and C07 (decimated data)"""
import math
import numpy as np
import rs


def c06(tr, ctx):
    from resistics import decimate as d

    rng = ctx.rng

    def steps(fs, x):
        """Half octaves below a quarter of the sampling frequency"""
        return rs.ii(2 * math.log2(fs / 4 / x), tol=1e-9)

    def plan(fs, div, levels, per, freqs, unit):
        default = freqs is None
        i = {"fs": fs if not default else 0, "d": div, "levels": levels, "per": per, "freqs": freqs or [], "default": default}
        f = fs * unit
        kw = {} if default else {"eval_freqs": [x * unit for x in freqs]}
        val = (lambda x: steps(f, x)) if default else (lambda x: rs.ii(x, 1 / unit, tol=1e-12))
        rows = lambda t: [[val(x) for x in r] for r in t]

        def observe(p):
            df = p.to_dataframe()
            return {
                "freqs": rows([p.get_eval_freqs(k) for k in range(levels)]),
                "table": rows(p.to_numpy().tolist()),
                "frame": rows(df[list(range(per))].values.tolist()),
                "singles": [[val(p.get_eval_freq(k, j)) for j in range(per)] for k in range(levels)],
                "items": [[val(p[k, j]) for j in range(per)] for k in range(levels)],
                "factors": rs.ilist([p.get_total_factor(k) for k in range(levels)]),
                "incs": rs.ilist([p.get_incremental_factor(k) for k in range(levels)]),
                "ratios": [rs.ii(f / p.get_fs(k), tol=1e-9) for k in range(levels)],
            }

        setup = lambda: d.DecimationSetup(n_levels=levels, per_level=per, div_factor=div, min_samples=rng.choice([1, 64]), **kw).run(f)
        p = tr.call("plan", i, setup, observe)
        if p is None:
            return
        # access by level and index, where all frequencies differ
        if not default and len(set(freqs)) < len(freqs):
            return
        where = {p.eval_freqs[k * per + j]: [k, j] for k in range(levels) for j in range(per)}
        for what, fn in (
            ("level", lambda l, j: p.get_eval_freqs(l)), ("item", lambda l, j: p[l]), ("freq", lambda l, j: p.get_eval_freq(l, j)),
            ("item2", lambda l, j: p[l, j]), ("factor", lambda l, j: p.get_total_factor(l)),
            ("inc", lambda l, j: p.get_incremental_factor(l)), ("fs", lambda l, j: p.get_fs(l)),
        ):  # fmt: skip
            l = rng.choice([-1, 0, levels - 1, levels, rng.randint(-2, levels + 1)])
            j = rng.choice([-1, 0, per - 1, per, rng.randint(-2, per + 1)])
            if what in ("freq", "item2"):
                obs = lambda r: {"at": where[r]}
            elif what in ("level", "item"):
                obs = lambda r: {"at": [k for k in range(levels) if list(r) == [x for x, w in where.items() if w[0] == k]]}
            else:
                lst = {"factor": p.dec_factors, "inc": p.dec_increments, "fs": p.dec_fs}[what]
                obs = lambda r: {"at": [l] if r == lst[l] else [k for k in range(levels) if lst[k] == r][:1]}
            tr.call("access", {"levels": levels, "per": per, "level": l, "idx": j, "what": what}, lambda: fn(l, j), obs)

    UNITS = [1.0, 0.25, 64.0, 1 / 1024]
    for c in ctx.cases:
        plan(c["fs"], c["d"], len(c["freqs"]) // c["per"], c["per"], c["freqs"], rng.choice(UNITS))
    n = 2000 if ctx.thorough else 150
    for k in range(n):
        levels, per, div = rng.randint(1, 8), rng.randint(1, 6), rng.choice([2, 2, 3, 4, 5, 10])
        if levels * per <= 56 and k % 3 == 0:
            plan(rng.choice([128, 1000, 4096, 24000, 65536, 3, 10]), div, levels, per, None, rng.choice([1.0, 1.0, 0.1, 1 / 3]))
            continue
        fs = rng.choice([2**20, 3**8 * 16, 10**6, 2**6 * 3**4 * 5**3, 128, 10, rng.randint(100, 10**6)])
        tops = sorted([max(1, fs // (2 * rng.choice([1, 2, 3, 4, 8, 9, 27, 100, 128, rng.randint(1, 500)]))) for _ in range(levels)])[::-1]
        if rng.random() < 0.35:  # close to where a level may just be decimated once more
            j = rng.randrange(levels)
            tops[j] = max(1, fs // (4 * div ** rng.randint(0, 5)) + rng.choice([-1, 0, 1, 1]))
            tops = sorted(tops)[::-1]
        freqs = []
        for t in tops:
            row = [t] + [rng.randint(1, t) for _ in range(per - 1)]
            rng.shuffle(row)
            freqs += row
        r = rng.random()
        if r < 0.12:
            freqs[rng.randrange(len(freqs))] = fs // 2 + 1 + rng.randint(0, 3)
        elif r < 0.22:
            freqs = freqs[:-1] if rng.random() < 0.5 else freqs + [1]
        if freqs:
            plan(fs, div, levels, per, freqs, rng.choice(UNITS))
    for k in range(200 if ctx.thorough else 30):
        q, f = rng.randint(1, 3000), rng.randint(1, 300)
        u = rng.choice(UNITS)
        fs = 4 * q * u
        obs = lambda r: {"steps": [steps(fs, x) for x in r]}
        if f <= q:
            i = {"form": "min", "q": q, "f": f, "n": 0}
            tr.call("freqs", i, lambda: d.get_eval_freqs(fs, f_min=f * u), obs)
            tr.call("freqs", i, lambda: d.get_eval_freqs_min(fs, f * u), obs)
        m = rng.randint(1, 60)
        i = {"form": "size", "q": q, "f": 0, "n": m}
        tr.call("freqs", i, lambda: d.get_eval_freqs(fs, n_freqs=m), obs)
        tr.call("freqs", i, lambda: d.get_eval_freqs_size(fs, m), obs)


def c07(tr, ctx):
    from resistics import decimate as d
    from resistics.time import Resample, Decimate, TimeData, TimeMetadata

    rng = ctx.rng
    CH = ["Hy", "Ex", "Hx", "Ey", "Hz"]

    def one(n, fs, factors, least, resample, single, chans, params=None):
        first = rs.atto_time(rng)
        first = rs.mk_time(round(rs.secs(first) * 1000) / rs.Fraction(1000))
        np_rng = np.random.default_rng(rng.randint(0, 2**31))
        centre = n // 2
        data = np.array([(np.arange(n) - centre) * 1.0, *np_rng.normal(size=(len(chans) - 1, n)) * 100])
        dtype = rng.choice(["f8", "f8", "f4"])
        data = data.astype(dtype)
        td = rs.time_data(fs, n, chans, first, data)
        p = params or d.DecimationParameters(fs=fs, n_levels=len(factors), per_level=2, min_samples=least,
                                             eval_freqs=[1.0] * 2 * len(factors), dec_factors=factors)  # fmt: skip
        dec = d.Decimator(resample=resample, max_single_factor=single)
        # the same channels among different others, in another order
        keep = rng.randrange(len(chans))
        others = np_rng.normal(size=(3, n)).astype(dtype)
        pos = rng.randint(0, 3)
        mixed = np.insert(others, pos, data[keep], axis=0)
        names = [c for c in CH if c != chans[keep]][:3]
        names.insert(pos, chans[keep])
        td2 = rs.time_data(fs, n, names, first, mixed)
        same = lambda a, b: bool(a.shape == b.shape and a.dtype == b.dtype
                                 and np.allclose(a, b, rtol=1e-5 if dtype == "f4" else 1e-9, atol=1e-4 if dtype == "f4" else 1e-7))  # fmt: skip

        def observe(r):
            md = r.metadata
            lm = md.levels_metadata
            out = {"keys": sorted(int(x) for x in r.data), "n_levels": rs.ii(md.n_levels), "chans": list(md.chans), "levels": [],
                   "first": rs.tick(md.first_time, first, fs, 1), "last": rs.tick(md.last_time, first, fs, 1)}  # fmt: skip
            r2 = dec.run(p, td2)
            prev, prev_fs, before = data, fs, 1
            for k, m in enumerate(lm):
                v = r.get_level(k)
                inc = factors[k] // before
                step = prev
                if inc != 1:
                    x = rs.time_data(prev_fs, prev.shape[1], chans, first, prev)
                    proc = Resample(new_fs=prev_fs / inc) if resample else Decimate(factor=inc, max_single_factor=single)
                    step = proc.run(x).data
                j = centre // factors[k]
                dev = (float(v[0][j]) - (j * factors[k] - centre)) / factors[k] * 10 if j < v.shape[1] else 0.0
                out["levels"].append({
                    "n": v.shape[1], "n_chans": v.shape[0], "meta_n": rs.ii(m.n_samples),
                    "ratio": rs.ii(fs / m.fs, tol=1e-9), "listed_ratio": rs.ii(fs / md.fs[k], tol=1e-9),
                    "first": rs.tick(m.first_time, first, fs, 1), "last": rs.tick(m.last_time, first, fs, 1),
                    "as_before": bool(v.shape == prev.shape and np.array_equal(v, prev)), "as_step": same(v, step),
                    "alone": same(v[keep], r2.get_level(k)[pos]),
                    # short levels are all filter edges
                    "centre": int(round(max(-99, min(99, dev)))) if prev.shape[1] > 60 * inc else 0,
                })  # fmt: skip
                prev, prev_fs, before = v, m.fs, factors[k]
            return out

        i = {"n": n, "factors": factors, "least": least, "chans": chans, "resample": resample, "single": single}
        tr.call("decimate", i, lambda: dec.run(p, td), observe)

    def chans():
        return rng.sample(CH, rng.randint(1, 5))

    # the model's plans and recordings
    for c in ctx.cases:
        levels = len(c["freqs"]) // c["per"]
        try:
            p = d.DecimationSetup(n_levels=levels, per_level=c["per"], div_factor=c["d"], min_samples=c["least"],
                                  eval_freqs=[float(x) for x in c["freqs"]]).run(float(c["fs"]))  # fmt: skip
        except ValueError:
            continue  # judged by C06
        if c["n"] > 1:
            one(c["n"], float(c["fs"]), list(p.dec_factors), c["least"], True, 3, chans(), p)
    for k in range(300 if ctx.thorough else 60):
        incs = [rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8]) for _ in range(rng.randint(1, 6))]
        factors = np.cumprod(incs).tolist()
        while factors[-1] > 300:
            factors.pop()
        resample = rng.random() < 0.5
        single = rng.choice([3, 4, 5, 9])
        n = rng.choice([rng.randint(300, 1200), rng.randint(300, 3000), factors[-1] * 120])
        # filters of the decimating variant need some samples in every step
        least = rng.choice([2, 10, 50, 256] if resample else [max(incs) * 30, 256, 300])
        fs = rng.choice([128.0, 1000.0, 4096.0, 10.0, 0.5])
        lens = [math.ceil(n / f) for f in factors]
        if not resample and (n < 30 * incs[0]):
            continue
        # exactly at the minimum
        if rng.random() < 0.4:
            least2 = rng.choice(lens) + rng.choice([0, 1])
            least = least2 if resample or least2 >= max(incs) * 30 else least
        one(n, fs, factors, least, resample, single, chans())
