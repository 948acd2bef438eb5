"""C26: channels, levels, windows and frequencies by name and number"""
import json
import numpy as np
import rs


def accessors(tr, ctx):
    from resistics import time as t, sampling as s

    rng = ctx.rng
    CH = ["Ex", "Ey", "Hx", "Hy", "Hz", "E1", "Bz"]
    N = 7

    def pattern(v, dtype=float):
        return (np.arange(N) + 100 * v).astype(dtype)

    def token(a):
        a = np.asarray(a)
        if a.shape != (N,):
            return rs.NOTINT
        v = rs.ii(a[0] / 100)
        return v if v >= 0 and np.array_equal(a, pattern(v, a.dtype)) else rs.NOTINT

    def numbers(md, lm, n_chans, n):
        """What follows from the sampling frequency and the number of samples"""
        x = md if lm is None else lm
        fs = x.fs
        # in thousandths of a sample period, of the sampling frequency
        names = [k for k in ("dt", "duration", "nyquist") if hasattr(type(x), k)]
        scale = {"dt": lambda v: float(v) * fs * 1000, "duration": lambda v: float(rs.dsecs(v) * rs.Fraction(fs)) * 1000,
                 "nyquist": lambda v: float(v) / fs * 1000}  # fmt: skip
        tr.call("numbers", {"names": names, "n": n, "n_chans": n_chans}, lambda: [getattr(x, k) for k in names],
                lambda r: {"v": [rs.ii(scale[k](v)) for k, v in zip(names, r)], "n_chans": rs.ii(md.n_chans)})  # fmt: skip

    def recordings(chans, ops):
        types = [rng.choice(["electric", "magnetic", "unknown"]) if rng.random() < 0.3 else ("electric" if c[0] == "E" else "magnetic") for c in chans]
        dtype = rng.choice([float, np.float32, np.int32])
        other = np.float32 if dtype is float else float
        # the channels are in the order of the list, whatever the order their details are in
        order = rng.sample(chans, len(chans))
        td0 = rs.time_data(16, N, chans, None, np.array([pattern(k + 1) for k in range(len(chans))]).astype(dtype),
                           chan_kw={c: {"chan_type": ty, "serial": "0"} for c, ty in zip(chans, types)})  # fmt: skip
        td0.metadata.chans_metadata = {c: td0.metadata.chans_metadata[c] for c in order}
        tds = [td0]
        tr.call("start", {"chans": chans, "types": types}, lambda: None)

        def look():
            objs = []
            for td in tds:
                objs.append({
                    "vals": [token(td.get_chan(c)) for c in chans], "items": [token(td[c]) for c in chans],
                    "index": [td.get_chan_index(c) for c in chans], "metas": [int(td.metadata[c].serial) for c in chans],
                })  # fmt: skip
            return {"objs": objs}

        for o in ops:
            k, c, v = o["obj"], o["chan"], o["val"]
            if k > len(tds):
                continue
            td = tds[k - 1]
            i = {"obj": k, "chan": c, "val": v, "size": o["size"], "type": o["type"]}
            if o["op"] == "copy":
                r = tr.call("copy", i, td.copy, lambda r: tds.append(r) or look())
                if r is None:
                    return
            elif o["op"] == "meta":
                tr.call("meta", i, lambda: setattr(td.metadata[c], "serial", str(v)), after=look)
            elif o["op"] == "set":
                a = pattern(v, dtype if o["type"] else other)
                if not o["size"]:
                    a = rng.choice([a[:-1], np.append(a, 1).astype(a.dtype), a[:1]])
                if rng.random() < 0.5:
                    tr.call("set", i, lambda: td.set_chan(c, a), after=look)
                else:
                    tr.call("set", i, lambda: td.__setitem__(c, a), after=look)
                # the array handed over stays the caller's own
                a[:] = 0
            if rng.random() < 0.6:
                c = rng.choice(CH)
                j = rng.randint(1, len(tds))
                fn = rng.choice([lambda: tds[j - 1].get_chan(c), lambda: tds[j - 1][c]])
                tr.call("get", {"obj": j, "chan": c}, fn, lambda r: {"val": token(r)})
            if rng.random() < 0.2:
                j = rng.randint(1, len(tds))
                numbers(tds[j - 1].metadata, None, len(chans), N)
            if rng.random() < 0.3:
                md = tds[-1].metadata

                def types_seen(_):
                    ty = md.get_chan_types()
                    return {"electric": md.get_electric_chans(), "magnetic": md.get_magnetic_chans(), "any_electric": md.any_electric(),
                            "any_magnetic": md.any_magnetic(), "types": ty, "of_type": [md.get_chans_with_type(x) for x in ty]}  # fmt: skip

                tr.call("types", {"obj": len(tds)}, lambda: None, types_seen)

    def random_ops(chans):
        ops, n = [], 1
        for _ in range(rng.randint(3, 12)):
            op = rng.choice(["set", "set", "set", "meta", "copy"])
            if op == "copy" and n < 4:
                n += 1
            elif op == "copy":
                continue
            k = rng.randint(1, n if op != "copy" else n - 1)
            c = rng.choice(chans) if op == "meta" or rng.random() < 0.8 else rng.choice(CH)
            ops.append({"op": op, "obj": k, "chan": c, "val": rng.randint(1, 30), "size": rng.random() < 0.85, "type": rng.random() < 0.85})
        return ops

    def code(a):
        """The codes of an array, a quarter turn on each 1e8"""
        a = np.asarray(a)
        if a.dtype.kind == "c":
            turn = np.round(np.angle(a) / (np.pi / 2)).astype(int) % 4
            back = np.abs(a * (-1j) ** turn - np.abs(a)) > 1e-3
            a = np.abs(a) + 1e8 * turn
            a[back] = np.nan
        return rs.ilist(a, tol=1e-7)

    def product():
        kind = rng.choice(["decimated", "windowed", "spectra", "spectra"])
        chans = rng.sample(CH, rng.randint(1, 5))
        n_levels = rng.randint(1, 4)
        p = rs.level_product(kind, rng, n_levels, chans, complex if kind == "spectra" else float)
        lev = []
        for l in range(n_levels):
            lm = p.metadata.levels_metadata[l]
            if kind == "decimated":
                n, size, off = 1, lm.n_samples, 0
            else:
                n, size, off = lm.n_wins, (lm.win_size if kind == "windowed" else lm.n_freqs), lm.index_offset
            lev.append({"n": n, "size": size, "off": off})
            numbers(p.metadata, lm, len(chans), size)
            w, c, q = np.meshgrid(np.arange(n), np.arange(len(chans)), np.arange(size), indexing="ij")
            a = 1000000.0 * l + 10000 * w + 100 * c + q
            if kind == "spectra":
                a = a * (1j ** ((w + c + q) % 4))
            # level 0, window 0, channel 0, position 0 has the code 0 and no angle
            p.data[l] = a[0] if kind == "decimated" else a
        prod = {"kind": kind, "chans": chans, "lev": lev}
        tr.call("prod", {"prod": prod}, lambda: None)
        md = p.metadata

        def ask(q, l, num=0, cs=(), fn=None, obs=None):
            x = {"q": q, "lev": l, "num": num, "chans": list(cs)}
            tr.call("ask", {"x": x}, fn, lambda r: {"v": code(r) if obs is None else obs(r)})

        for _ in range(14):
            l = rng.choice(list(range(n_levels)) * 3 + [n_levels, n_levels + 2, -1])
            inside = 0 <= l < n_levels
            L = lev[l] if inside else {"n": 2, "size": 2, "off": 0}
            c = rng.choice(chans * 3 + CH)
            q = rng.choice({"decimated": ["level", "times", "times"], "windowed": ["level", "local", "global", "chan"],
                            "spectra": ["level", "chan", "chans", "freq", "magphs", "times"]}[kind])  # fmt: skip
            if q == "level":
                ask(q, l, fn=lambda: p.get_level(l))
            elif q == "local":
                k = rng.choice([0, L["n"] - 1, L["n"], -1, rng.randint(0, L["n"])])
                ask(q, l, k, fn=lambda: p.get_local(l, k))
            elif q == "global":
                k = L["off"] + rng.choice([0, L["n"] - 1, L["n"], -1, rng.randint(0, L["n"])])
                ask(q, l, k, fn=lambda: p.get_global(l, k))
            elif q == "chan":
                ask(q, l, cs=[c], fn=lambda: p.get_chan(l, c))
            elif q == "chans":
                cs = rng.sample(chans, rng.randint(1, len(chans)))
                if rng.random() < 0.2:
                    cs.insert(rng.randint(0, len(cs)), rng.choice(CH))
                ask(q, l, cs=cs, fn=lambda: p.get_chans(l, cs))
            elif q == "freq":
                k = rng.choice([0, L["size"] - 1, L["size"], -1, rng.randint(0, L["size"])])
                # windows and channels in this order, with or without axes of length one
                ask(q, l, k, fn=lambda: p.get_freq(l, k), obs=lambda r: code(np.asarray(r).reshape(-1)))
            elif q == "magphs":
                def both(r):
                    mag, phs = r
                    return code(mag * np.exp(1j * phs))
                ask(q, l, fn=lambda: p.get_mag_phs(l), obs=both)
            elif kind == "decimated":
                lm = md.levels_metadata[l] if inside else None
                exact = rng.random() < 0.5
                if rng.random() < 0.5:
                    want = list(range(L["size"]))
                    fn = lambda: p.get_timestamps(l, estimate=not exact)
                else:
                    want = [rng.randint(0, 20) for _ in range(3)]
                    fn = lambda: p.get_timestamps(l, samples=np.array(want), estimate=not exact)
                tr.call("times", {"known": inside, "lev": l, "want": want}, fn,
                        lambda r: {"t": [rs.tick(s.to_datetime(x), lm.first_time, lm.fs, 1) for x in r]})  # fmt: skip
            else:
                lm = md.levels_metadata[l] if inside else None
                want = [(L["off"] + k) * (lm.win_size - lm.olap_size) for k in range(L["n"])] if inside else []
                tr.call("times", {"known": inside, "lev": l, "want": want}, lambda: p.get_timestamps(l),
                        lambda r: {"t": [rs.tick(s.to_datetime(x), md.ref_time, lm.fs, 1) for x in r]})  # fmt: skip

    for case in sorted(ctx.cases, key=json.dumps):
        recordings(case["chans"], case["ops"])
    for _ in range(300 if ctx.thorough else 50):
        chans = rng.sample(CH, rng.randint(1, 6))
        recordings(chans, random_ops(chans))
    tr.event("start", {"chans": ["Ex"], "types": ["electric"]})
    for _ in range(1200 if ctx.thorough else 120):
        product()
