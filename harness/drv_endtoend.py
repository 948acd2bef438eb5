"""C31: the transfer function in the recordings is what processing finds"""
import json
import numpy as np
import rs

CH = ["Ex", "Ey", "Hx", "Hy", "Hz"]


def endtoend(tr, ctx):
    from resistics import letsgo as lg, time as t, decimate as d, window as w, spectra as sp, regression as r, calibrate as c
    from resistics.config import Configuration
    from resistics.transfunc import TransferFunction, ImpedanceTensor, Tipper

    rng = ctx.rng
    count = [0]
    UNIT = [(1, 0), (0, 1), (-1, 0), (0, -1)]

    def tf_of():
        k = rng.random()
        if k < 0.3:
            return ImpedanceTensor(**({"cross_chans": rng.choice([["Hy", "Hx"], ["Hx", "Hy", "Hz"], ["Hx"]])} if rng.random() < 0.4 else {}))
        if k < 0.4:
            return Tipper()
        out = rng.sample(CH, rng.randint(1, 3))
        rest = [x for x in CH if x not in out]
        inp = rng.sample(rest, rng.randint(1, 2))
        cross = {"cross_chans": rng.sample(rest, len(inp))} if rng.random() < 0.4 else {}
        return TransferFunction(variation="mine", out_chans=out, in_chans=inp, **cross)

    def solver():
        return rng.choice([r.SolverScikitOLS(n_jobs=1), r.SolverScikitOLS(n_jobs=1, fit_intercept=True), r.SolverScikitHuber(), r.SolverScikitTheilSen(n_jobs=1),
                           r.SolverScikitTheilSen(n_jobs=1, n_subsamples=0.9), r.SolverScikitRANSAC(), r.SolverScikitWLS(n_jobs=1, n_iter=3)])  # fmt: skip

    def processors(fs, project, same_extent, mult):
        """Time processors that leave what is in the data in the data"""
        res = []
        if mult:
            res.append(t.Multiply(multiplier={k: v / 4 for k, v in mult.items()}))
        if same_extent:
            pool = [t.RemoveMean(), t.InterpolateNans(), t.LowPass(cutoff=fs * 0.35), t.HighPass(cutoff=fs * 0.004), t.BandPass(cutoff_low=fs * 0.005, cutoff_high=fs * 0.4)]
            if not project:
                pool += [t.Decimate(factor=2), t.Resample(new_fs=fs * 3 / 4), t.ShiftTimestamps(shift=0.25 / fs)]
            res += rng.sample(pool, rng.randint(0, 2))
        rng.shuffle(res)
        return res

    def config(name, tf, fs, project, same_extent, mult, n_levels, cal_chans):
        div = rng.choice([2, 2, 3])
        return Configuration(
            name=name,
            time_readers=rng.choice([[t.TimeReaderNumpy()], [t.TimeReaderAscii(), t.TimeReaderNumpy()]]),
            time_processors=processors(fs, project, same_extent, mult),
            dec_setup=d.DecimationSetup(n_levels=n_levels, per_level=rng.choice([2, 3]), min_samples=100, div_factor=div),
            decimator=rng.choice([d.Decimator(), d.Decimator(resample=False), d.Decimator(max_single_factor=3)]),
            win_setup=rng.choice([w.WindowSetup(min_size=16, min_olap=4, win_factor=8, min_n_wins=4, olap_proportion=0.25),
                                  w.WindowSetup(min_size=24, min_olap=6, win_factor=4, min_n_wins=5, olap_proportion=0.5)]),
            windower=rng.choice([w.Windower(), w.Windower(), w.WindowerTarget(target=20, min_size=16)]) if same_extent else w.Windower(),
            fourier=rng.choice([sp.FourierTransform(workers=1), sp.FourierTransform(workers=1, detrend="constant"), sp.FourierTransform(workers=1, win_fnc="hann"),
                                sp.FourierTransform(workers=1, win_fnc=("kaiser", 9), detrend=None)]),
            spectra_processors=rng.choice([[], [], [sp.SpectraSmootherUniform(length_proportion=0.2)], [sp.SpectraSmootherGaussian()]]),
            sensor_calibrator=c.SensorCalibrator(chans=cal_chans, readers=[c.SensorCalibrationJSON(file_str="IC_$sensor$extension")]),
            tf=tf,
            solver=solver(),
        )  # fmt: skip

    def responses(chans):
        """The response of every channel's sensor"""
        return {x: (rng.choice([1, 2, 3]), rng.randint(0, 3)) if rng.random() < 0.6 else None for x in chans}

    def write_cal(path, resp, extra=()):
        path.mkdir(exist_ok=True, parents=True)
        for s, (g, k) in resp.items():
            (path / f"IC_{s}.json").write_text(json.dumps({"serial": 1, "sensor": s, "static_gain": rng.choice([1, 1, 7]), "frequency": [1e-5, 1, 1e5], "magnitude": [g] * 3, "phase": [k * np.pi / 2] * 3}))

    def noise(n, k):
        g = np.random.default_rng(rng.randint(0, 2**31))
        x = g.normal(size=(k, n))
        return np.cumsum(x, axis=1) * 0.1 + x * 5 if rng.random() < 0.5 else x * 10

    def store(path, fs, n, first, chans, rows, sensor):
        order = rng.sample(range(len(chans)), len(chans))
        td = rs.time_data(fs, n, [chans[k] for k in order], first, np.array([rows[k] for k in order]),
                          chan_kw={x: {"name": x, "sensor": sensor.get(x, "")} for x in chans})  # fmt: skip
        t.TimeWriterNumpy().run(path, td)

    def rec(ref, fs, start, n, role_chans, world, noisy=()):
        """Rows of the channels: those of the world between start and start + n"""
        chans = list(role_chans)
        return chans, [world[x][start : start + n] for x in chans]

    def world_of(n, tf, Z, base):
        """Values of all channels over all times; outputs follow from the inputs"""
        v = dict(zip(CH, noise(n, len(CH))))
        for a, o in enumerate(tf.out_chans):
            v[o] = sum(Z[a][b] * base[i] for b, i in enumerate(tf.in_chans))
        return v

    def expectation(tf, Z, mult, resp, cal_chans, where, calibrated):
        """The numbers the channels of the roles were multiplied with and the responses divided out"""
        def resp_of(site, x):
            rr = resp.get((site, x))
            if not calibrated or rr is None or (cal_chans is not None and x not in cal_chans):
                return [1, 0]
            g, k = rr
            return [g * UNIT[k][0], g * UNIT[k][1]]

        return dict(
            z=Z, out=list(tf.out_chans), inp=list(tf.in_chans),
            mo=[mult.get(x, 4) for x in tf.out_chans], mi=[mult.get(x, 4) for x in tf.in_chans],
            ro=[resp_of(where["out"], x) for x in tf.out_chans], ri=[resp_of(where["in"], x) for x in tf.in_chans],
        )  # fmt: skip

    def observe(tf, freqs):
        def f(s):
            s, stored = s
            comp = [[rs.clist(np.clip(s.components[f"{o}{i}"].to_numpy().real, -1e5, 1e5) * 1000 + 1j * np.clip(s.components[f"{o}{i}"].to_numpy().imag, -1e5, 1e5) * 1000, tol=1e9)
                     for i in tf.in_chans] for o in tf.out_chans]  # fmt: skip
            same = len(s.freqs) == len(freqs) and np.allclose(s.freqs, freqs, rtol=1e-9)
            lens = {len(x.real) for x in s.components.values()} | {len(x.imag) for x in s.components.values()}
            assert len(lens) == 1
            return {"comp": comp, "same_freqs": bool(same), "n": lens.pop(), "out": list(s.tf.out_chans), "inp": list(s.tf.in_chans), "stored": stored}

        return f

    def plan_of(cfg, fs, n):
        """How many levels there will be and the evaluation frequencies of them"""
        x = rs.time_data(fs, n, ["Hx"])
        for p in cfg.time_processors:
            x = p.run(x)
        dp = cfg.dec_setup.run(x.metadata.fs)
        dec = cfg.decimator.run(dp, x)
        wp = cfg.win_setup.run(dec.metadata.n_levels, dec.metadata.fs)
        win = cfg.windower.run(x.metadata.first_time, wp, dec)
        k = win.metadata.n_levels
        assert k >= 1 and all(win.metadata.levels_metadata[j].n_wins >= 4 for j in range(k))
        return [f for j in range(k) for f in dp.get_eval_freqs(j)], [win.metadata.levels_metadata[j].n_wins for j in range(k)]

    def draw(project, same_extent=True):
        for _ in range(200):
            tf = tf_of()
            fs = rng.choice([128.0, 64, 10, 0.5, 512])
            mult = {x: rng.choice([-8, 1, 2, 12]) for x in rng.sample(CH, rng.randint(0, 3))}
            cal_chans = rng.choice([None, None, ["Hx", "Hy"], ["Ey", "Hx"]])
            n_levels = rng.choice([1, 2, 3]) if same_extent else 1
            cfg = config(rng.choice(["default", "mine", "a"]), tf, fs, project, same_extent, mult, n_levels, cal_chans)
            n = rng.randint(900, 2200)
            try:
                freqs, wins = plan_of(cfg, fs, n)
            except Exception:
                continue
            # equations enough for the unknowns with some to spare
            if min(wins) * len(tf.cross_chans) * rng.choice([1, 1]) < 4 * len(tf.in_chans):
                continue
            Z = [[rng.choice([-9, -3, -1, 0, 1, 2, 5]) for _ in tf.in_chans] for _ in tf.out_chans]
            return tf, fs, mult, cal_chans, cfg, n, freqs, Z
        raise RuntimeError("no configuration found")

    def quick():
        tf, fs, mult, cal_chans, cfg, n, freqs, Z = draw(False)
        count[0] += 1
        base = ctx.work / f"q{count[0]}"
        world = world_of(n, tf, Z, dict(zip(CH, noise(n, len(CH)))))
        src = dict(zip(tf.in_chans, noise(n, len(tf.in_chans))))
        for a, o in enumerate(tf.out_chans):
            world[o] = sum(Z[a][b] * src[i] for b, i in enumerate(tf.in_chans))
        world.update(src)
        resp = {x: (rng.choice([1, 2, 3]), rng.randint(0, 3)) if rng.random() < 0.6 else None for x in CH}
        used = [x for x in CH if x in set(tf.out_chans) | set(tf.in_chans) | set(tf.cross_chans) or rng.random() < 0.5]
        store(base / "rec", fs, n, rs.base_time("2021-05-01 00:00:00.25"), used, [world[x] for x in used], {x: f"S{x}" for x in used})
        write_cal(base / "cal", {f"S{x}": v for x, v in resp.items() if v})
        calibrated = rng.random() < 0.6
        i = expectation(tf, Z, mult, {("s", x): v for x, v in resp.items()}, cal_chans, {"out": "s", "in": "s"}, calibrated)
        tr.call("solve", dict(i, entry="quick_tf", n_freqs=len(freqs)),
                lambda: (lg.quick_tf(base / "rec", cfg, **({"calibration_path": base / "cal"} if calibrated else {})), True), observe(tf, freqs))  # fmt: skip

    def project(case):
        same = case["same"]
        tf, fs, mult, cal_chans, cfg, n, freqs, Z = draw(True, same)
        count[0] += 1
        base = ctx.work / f"p{count[0]}"
        first = rs.base_time("2021-05-01 00:00:00")
        at = lambda k: rs.mk_time(rs.secs(first) + rs.Fraction(k) / rs.Fraction(fs))
        lg.new(base, {"ref_time": str(at(-rng.choice([0, 1, 37, 5000])))})
        out, ins, cross = "s1", case["in"], case["cross"]
        where = {"out": out, "in": ins or out, "cross": cross or ins or out}
        sites = sorted(set(where.values()))
        chans_of = {s: set() for s in sites}
        for role, names in (("out", tf.out_chans), ("in", tf.in_chans), ("cross", tf.cross_chans)):
            chans_of[where[role]] |= set(names)
        resp = {(s, x): (rng.choice([1, 2, 3]), rng.randint(0, 3)) if rng.random() < 0.5 else None for s in sites for x in CH}
        write_cal(base / "calibrate", {f"{s}{x}": v for (s, x), v in resp.items() if v})

        def fill(Z, meas):
            """Data of all sites for measurements {name: {site: (start, n)}}"""
            for name, extent in meas.items():
                lo, hi = min(a for a, _ in extent.values()), max(a + k for a, k in extent.values())
                src = dict(zip(CH, noise(hi - lo, len(CH))))
                other = {s: dict(zip(CH, noise(hi - lo, len(CH)))) for s in sites}
                for s, (a, k) in extent.items():
                    v = {}
                    for x in CH:
                        if s == where["in"] and x in tf.in_chans:
                            v[x] = src[x]
                        elif s == where["out"] and x in tf.out_chans:
                            o = tf.out_chans.index(x)
                            v[x] = sum(Z[o][b] * src[y] for b, y in enumerate(tf.in_chans))
                        elif x in src and s == where["cross"]:
                            v[x] = 0.5 * other[s][x] + src[x]
                        else:
                            v[x] = other[s][x]
                    names = sorted(chans_of[s] | {x for x in CH if rng.random() < 0.4})
                    store(base / "time" / s / name, fs, k, at(a), names, [v[x][a - lo : a - lo + k] for x in names], {x: f"{s}{x}" for x in names})

        meas, pos = {}, rng.choice([0, 3, 64])
        for m in range(case["n_meas"]):
            if same:
                extent = {s: (pos, n) for s in sites}
            else:
                shift = {s: rng.choice([0, 0, 5, 50, 131]) for s in sites}
                extent = {s: (pos + shift[s], n - rng.choice([0, 77, 200])) for s in sites}
            meas[rng.choice("abc") + str(m)] = extent
            pos += n + rng.choice([150, 200, 1000])
        fill(Z, meas)
        wrong = [[x + 4 for x in row] for row in Z]
        if case["decoy"] and len(sites) > 1:
            # recordings of the output's site with nothing at the same time elsewhere, of another relation
            fill_only = {s: (pos + 10000, n) for s in [out]}
            saved = dict(where)
            world = dict(zip(CH, noise(n, len(CH))))
            names = sorted(chans_of[out])
            store(base / "time" / out / "z9", fs, n, at(pos + 10000), names, [world[x] for x in names], {x: f"{out}{x}" for x in names})
        if case["decoy"]:
            # and of another sampling frequency at the same time
            for s in sites:
                a, k = list(meas.values())[0][s]
                world = dict(zip(CH, noise(2 * k, len(CH))))
                names = sorted(chans_of[s])
                store(base / "time" / s / "fast", fs * 2, 2 * k, at(a), names, [world[x] for x in names], {x: f"{s}{x}" for x in names})
            world = dict(zip(CH, noise(n, len(CH))))
            store(base / "time" / "s9" / "m0", fs, n, at(0), CH, [world[x] for x in CH], {})
        env = lg.load(base, cfg)
        other = env.config.copy(update={"name": "another", "time_processors": [t.Multiply(multiplier={"Ex": 50, "Hx": 3})]})

        def evals():
            for s in env.proj:
                for m in s:
                    if m.metadata.fs != fs and rng.random() < 0.5:
                        continue
                    lg.process_time_to_evals(env, s.name, m.name)
                    if case["decoy"] and rng.random() < 0.5:
                        lg.process_time_to_evals(lg.ResisticsEnvironment(proj=env.proj, config=other), s.name, m.name)

        if case["redo"]:
            # everything done once with other data
            good = {}
            for s in sites:
                for m in meas:
                    p = base / "time" / s / m / "data.npy"
                    files = sorted((base / "time" / s / m).glob("*.npy"))
                    for p in files:
                        good[p] = p.read_bytes()
                        np.save(p, np.random.default_rng(3).normal(size=np.load(p).shape))
            evals()
            lg.process_evals_to_tf(env, fs, out, in_site=ins, cross_site=cross)
            for p, b in good.items():
                p.write_bytes(b)
        try:
            evals()
        except Exception as e:
            tr.event("evals", {"why": f"{type(e).__name__}: {e}"[:200]}, ok=False)
            return
        i = expectation(tf, Z, mult, resp, cal_chans, where, True)
        post = rng.choice([None, None, "x"])

        def go():
            s = lg.process_evals_to_tf(env, fs, out, in_site=ins, cross_site=cross, postfix=post)
            back = lg.get_solution(env, out, cfg.name, fs, tf.name, tf.variation, postfix=post)
            return s, bool(rs.canon(json.loads(back.json())) == rs.canon(json.loads(s.json())))

        tr.call("solve", dict(i, entry="project", n_freqs=len(freqs), case={k: v if v is not None else "" for k, v in case.items()}), go, observe(tf, freqs))

    for _ in range(120 if ctx.thorough else 24):
        quick()
    for _ in range(100 if ctx.thorough else 20):
        same = rng.random() < 0.6
        ins, cross = rng.choice([(None, None), (None, None), ("s2", None), (None, "s2"), ("s2", "s3"), ("s2", "s2"), ("s2", "s1"), ("s1", "s3")])
        project({"same": same, "in": ins, "cross": cross, "n_meas": rng.choice([1, 2, 3]), "decoy": rng.random() < 0.5, "redo": rng.random() < 0.2})
