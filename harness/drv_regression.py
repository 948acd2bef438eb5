"""C16 (regression preparation) and C17 (solution)"""
import numpy as np
import rs

CH = ["Hy", "Ex", "Hx", "Ey", "Hz", "E2"]


def gauss(rng, m):
    return [rng.randint(-m, m), rng.randint(-m, m)]


def cmul(a, b):
    return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]


def random_tf(rng, disjoint=False):
    from resistics.transfunc import TransferFunction, ImpedanceTensor, Tipper

    k = rng.random()
    if k < 0.25 and not disjoint:
        tf = ImpedanceTensor(**({"cross_chans": rng.sample(CH, rng.randint(1, 3))} if rng.random() < 0.5 else {}))
    elif k < 0.35 and not disjoint:
        tf = Tipper()
    else:
        out = rng.sample(CH, rng.randint(1, 3))
        pool = [c for c in CH if c not in out] if disjoint else CH
        inp = rng.sample(pool, rng.randint(1, 3))
        kw = {"cross_chans": rng.sample(CH, rng.randint(1, 4))} if rng.random() < 0.6 else {}
        tf = TransferFunction(variation=rng.choice(["generic", "test 2"]), out_chans=out, in_chans=inp, **kw)
    return tf


def windows(rng, tf, n, Z=None, m=30, same=False):
    """Values of the channels in n windows; outputs from Z when given

    same: one channel has one value per window whatever its role (data of a single site)
    """
    res = []
    for _ in range(n):
        val = {c: gauss(rng, m) for c in CH}
        role = (lambda c: val[c]) if same else (lambda c: gauss(rng, m))
        w = {"inp": [role(c) for c in tf.in_chans], "cross": [role(c) for c in tf.cross_chans], "out": [role(c) for c in tf.out_chans]}
        if Z is not None:
            w["out"] = []
            for z in Z:
                s = [0, 0]
                for a, b in zip(z, w["inp"]):
                    p = cmul(a, b)
                    s = [s[0] + p[0], s[1] + p[1]]
                w["out"].append(s)
            if same:
                # a cross channel may be an output channel
                over = dict(zip(tf.out_chans, w["out"]))
                w["cross"] = [over.get(c, x) for c, x in zip(tf.cross_chans, w["cross"])]
        res.append(w)
    return res


def gathered(tf, freqs, data, tok, rng):
    from resistics.gather import SiteCombinedData, SiteCombinedMetadata, GatheredData
    from resistics.common import History, Record

    def part(key, chans, site):
        d = {f: np.array([[complex(*x) for x in w[key]] for w in wins]).reshape(len(wins), len(chans)) for f, wins in enumerate(data)}
        rec = Record(creator={"name": site, "v": rng.randint(0, 99)}, messages=[site], record_type="process")
        md = SiteCombinedMetadata(site_name=site, fs=128, measurements=["m1"], chans=list(chans), n_evals=len(freqs), eval_freqs=freqs,
                                  histories={"m1": History(records=[rec])}, system=rng.choice(["", "x"]))  # fmt: skip
        return SiteCombinedData(md, d)

    a, b, c = part("out", tf.out_chans, "sA"), part("inp", tf.in_chans, "sB"), part("cross", tf.cross_chans, "sC")
    return GatheredData(a, b, c), {"out_data": tok(a.metadata), "in_data": tok(b.metadata), "cross_data": tok(c.metadata)}


def spectra(tf, per, freqs, data, tok, rng):
    """All frequencies of a level have the same number of windows"""
    from resistics.spectra import SpectraData, SpectraMetadata
    from resistics.time import ChanMetadata
    from resistics.common import History, Record

    chans = list(CH)
    rng.shuffle(chans)
    lms, d = [], {}
    for v in range(len(freqs) // per):
        wins = [data[v * per + k] for k in range(per)]
        n = len(wins[0])
        a = np.array([[complex(*gauss(rng, 50)) for _ in range(per)] for _ in range(n * len(chans))]).reshape(n, len(chans), per)
        for k in range(per):
            for w in range(n):
                for key, names in (("inp", tf.in_chans), ("cross", tf.cross_chans), ("out", tf.out_chans)):
                    for c, x in zip(names, wins[k][w][key]):
                        a[w, chans.index(c), k] = complex(*x)
        d[v] = a
        lms.append(dict(fs=128.0 / 2**v, n_wins=n, win_size=8, olap_size=2, index_offset=3, n_freqs=per, freqs=freqs[v * per : (v + 1) * per]))
    rec = Record(creator={"name": "spec", "v": rng.randint(0, 99)}, messages=["spec"], record_type="process")
    md = SpectraMetadata(fs=[x["fs"] for x in lms], chans=chans, n_levels=len(lms), first_time=rs.base_time(), last_time=rs.base_time(),
                         chans_metadata={c: ChanMetadata(name=c, data_files=[]) for c in chans}, levels_metadata=lms,
                         ref_time=rs.base_time(), history=History(records=[rec]))  # fmt: skip
    return SpectraData(md, d), {"data": tok(md)}


def prepare_of(kind):
    from resistics import regression as r

    return r.RegressionPreparerGathered() if kind == "gathered" else r.RegressionPreparerSpectra()


def tf_tok(tok, tf):
    return tok(dict(tf.dict(), cls=type(tf).__name__))


def base(tf, freqs, data, tok):
    return {"out_chans": tf.out_chans, "in_chans": tf.in_chans, "cross_chans": tf.cross_chans, "freqs": freqs, "data": data,
            "tf": tf_tok(tok, tf)}  # fmt: skip


def make(rng, tok, tf, kind, n_wins=None, Z=None, m=30):
    """Inputs, data object of either kind"""
    if kind == "gathered":
        freqs = sorted(rng.sample(range(2, 4000), rng.randint(1, 5)), reverse=rng.random() < 0.8)
        zs = Z(len(freqs)) if Z else [None] * len(freqs)
        data = [windows(rng, tf, n_wins() if n_wins else rng.randint(0, 5), z, m) for z in zs]
        obj, con = gathered(tf, [float(x) for x in freqs], data, tok, rng)
    else:
        per, lev = rng.choice([1, 2, 3]), rng.randint(1, 3)
        freqs = rng.sample(range(2, 4000), per * lev)
        zs = Z(len(freqs)) if Z else [None] * len(freqs)
        data = []
        for v in range(lev):
            n = n_wins() if n_wins else rng.randint(1, 5)
            data += [windows(rng, tf, n, zs[v * per + k], m, same=True) for k in range(per)]
        obj, con = spectra(tf, per, [float(x) for x in freqs], data, tok, rng)
    return dict(base(tf, freqs, data, tok), kind=kind, contributors=con), obj, zs


def c16(tr, ctx):
    from resistics.transfunc import TransferFunction

    rng, tok = ctx.rng, rs.Tokens()

    def observe(r):
        eqs, same = [], True
        for f in range(r.n_freqs):
            rows = None
            for ch in r.tf.out_chans:
                obs, preds = r.get_inputs(f, ch)
                p = rs.ilist(preds)
                if rows is None:
                    rows = [[x, []] for x in p]
                same = same and len(obs) == len(p) == len(rows) and all(x == y[0] for x, y in zip(p, rows))
                for row, y in zip(rows, rs.ilist(obs)):
                    row[1].append(y)
            eqs.append(rows)
        return {"freqs": rs.ilist(r.freqs), "n_freqs": rs.ii(r.n_freqs), "eqs": eqs, "same_preds": bool(same),
                "obs_chans": [list(x) for x in r.obs], "contributors": {k: tok(v) for k, v in r.metadata.contributors.items()},
                "tf": tf_tok(tok, r.tf)}  # fmt: skip

    def run(i, tf, x):
        tr.call("prepare", i, lambda: prepare_of(i["kind"]).run(tf, x), observe)

    for n, c in enumerate(ctx.cases):
        wins = c["wins"]
        chans = rng.sample(CH, 2 + len(CH) - 2)
        n_in, n_cross = len(wins[0]["inp"]), len(wins[0]["cross"])
        tf = TransferFunction(out_chans=chans[:1], in_chans=chans[1 : 1 + n_in], cross_chans=chans[1 + n_in : 1 + n_in + n_cross])
        if n % 2:
            x, con = gathered(tf, [50.0], [wins], tok, rng)
            kind = "gathered"
        else:
            x, con = spectra(tf, 1, [50.0], [wins], tok, rng)
            kind = "spectra"
        run(dict(base(tf, [50], [wins], tok), kind=kind, contributors=con), tf, x)
    for n in range(300 if ctx.thorough else 45):
        tf = random_tf(rng)
        i, x, _ = make(rng, tok, tf, ["gathered", "spectra"][n % 2], m=rng.choice([3, 30, 900]))
        run(i, tf, x)


def c17(tr, ctx):
    from resistics import regression as r

    rng, tok = ctx.rng, rs.Tokens()
    solvers = [("SolverScikitOLS", {}), ("SolverScikitOLS", {"fit_intercept": True}), ("SolverScikitHuber", {}), ("SolverScikitTheilSen", {}),
               ("SolverScikitTheilSen", {"n_subsamples": 0.9}), ("SolverScikitRANSAC", {}), ("SolverScikitWLS", {"n_iter": 4})]  # fmt: skip
    recs = lambda h: [tok(x.dict()) for x in h.records]

    def solvable(data, tf):
        for wins in data:
            a = np.array([[complex(*p) * complex(*c).conjugate() for p in w["inp"]] for w in wins for c in w["cross"]])
            full = np.vstack((a.real, a.imag))
            if len(wins) * tf.n_cross < tf.n_in + 1 or np.linalg.matrix_rank(a, tol=1.0) < tf.n_in:
                return False
            if np.linalg.cond(np.hstack((a.real, -a.imag))) > 1e5 and np.linalg.cond(a) > 1e4:
                return False
        return True

    def solve(name, kw, i, tf, x):
        reg = prepare_of(i["kind"]).run(tf, x)
        i["history"] = recs(reg.metadata.history)
        i["solver"] = name
        i["contributors"] = {k: tok(v) for k, v in reg.metadata.contributors.items()}

        def observe(s):
            keys = list(s.components)
            try:
                s.get_component("nothing")
                refused = False
            except ValueError:
                refused = True
            back = type(s).parse_raw(s.json())
            return {"keys": keys, "components": {k: rs.clist(s[k]) for k in keys},
                    "tensors": [rs.clist(s.get_tensor(f)) for f in range(s.n_freqs)], "freqs": rs.ilist(s.freqs), "n_freqs": rs.ii(s.n_freqs),
                    "periods": [round(1e6 * x) for x in s.periods], "tf": tf_tok(tok, s.tf),
                    "contributors": {k: tok(v) for k, v in s.contributors.items()}, "history": recs(s.history),
                    "stored_same": tok(back) == tok(s) and type(back.tf) is type(s.tf), "unknown_refused": refused}  # fmt: skip

        tr.call("solve", i, lambda: getattr(r, name)(**kw).run(reg), observe)

    def once(kind, name, kw, tf=None):
        for _ in range(20):
            tf2 = tf or random_tf(rng, disjoint=kind == "spectra")

            def row():
                how = rng.choice(["any"] * 4 + ["zero", "one", "real", "imaginary"])
                v = [gauss(rng, 9) for _ in tf2.in_chans]
                if how == "one":
                    k = rng.randrange(len(v))
                    return [[1, 0] if n == k else [0, 0] for n in range(len(v))]
                return {"any": v, "zero": [[0, 0] for _ in v], "real": [[a[0], 0] for a in v], "imaginary": [[0, a[1]] for a in v]}[how]

            def Z(n):
                rows = lambda: [row() for _ in tf2.out_chans]
                zs = [rows() for _ in range(n)]
                if rng.random() < 0.2:
                    zs = [zs[0]] * n
                if rng.random() < 0.2:
                    zs[rng.randrange(n)] = [[[0, 0] for _ in tf2.in_chans] for _ in tf2.out_chans]
                if rng.random() < 0.2:
                    zs = [[z[0]] * len(z) for z in zs]
                return zs

            need = tf2.n_in + 2
            i, x, zs = make(rng, tok, tf2, kind, n_wins=lambda: need + rng.randint(0, 5), Z=Z)
            if solvable(i["data"], tf2):
                i["Z"] = zs
                return solve(name, kw, i, tf2, x)

    for n in range(190 if ctx.thorough else 35):
        name, kw = solvers[n % len(solvers)]
        once(["gathered", "spectra"][(n // len(solvers)) % 2], name, kw)
