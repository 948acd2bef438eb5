"""C18: the store of transfer function solutions of a project"""
import numpy as np
import rs
from drv_gather import CH


def c18(tr, ctx):
    from resistics import project as pj, letsgo as lg
    from resistics.config import Configuration
    from resistics.decimate import DecimationSetup
    from resistics.regression import SolverScikitOLS
    from resistics.spectra import SpectraDataWriter, SpectraData, SpectraMetadata
    from resistics.time import TimeReaderNumpy, ChanMetadata
    from resistics.transfunc import TransferFunction, ImpedanceTensor, Tipper

    rng = ctx.rng
    tok = rs.Tokens()
    np_rng = np.random.default_rng(rng.randint(0, 2**31))
    count = [0]

    def tf_of(a):
        if a["tf"] == "impedancetensor":
            return ImpedanceTensor(variation=a["var"])
        if a["tf"] == "tipper":
            return Tipper(variation=a["var"])
        return TransferFunction(variation=a["var"], out_chans=["Ex"], in_chans=["Hx", "Hy"], cross_chans=["Ey", "Hy"])

    TFNAME = {"impedancetensor": "ImpedanceTensor", "tipper": "Tipper", "transferfunction": "TransferFunction"}

    def session(ops, tag):
        count[0] += 1
        root = ctx.work / f"sol{count[0]}"
        addresses = list({rs.json.dumps(a, sort_keys=True): a for a in ops}.values())
        near = []
        for a in rng.sample(addresses, min(3, len(addresses))):
            k = rng.choice(["site", "cfg", "fs", "post", "tf"])
            b = dict(a, **{k: rng.choice({"site": ["s1", "s2"], "cfg": ["c1", "c2"], "fs": ["16", "64"], "post": ["-", "rr", ""],
                                          "tf": ["tipper", "impedancetensor"]}[k])})  # fmt: skip
            near.append(b)
        scan = list({rs.json.dumps(a, sort_keys=True): a for a in addresses + near}.values())
        tr.event("start", {"tag": tag})
        fss = sorted({a["fs"] for a in scan})
        sites = sorted({a["site"] for a in scan} | {"s1", "s2"})
        cfgs = sorted({a["cfg"] for a in scan})
        dec_setup = DecimationSetup(n_levels=1, per_level=2)

        def evals(site, cfg, fs):
            f = float(fs)
            plan = dec_setup.run(f)
            n = rng.randint(5, 9)
            chans = list(CH)
            rng.shuffle(chans)
            a = np_rng.normal(size=(n, len(chans), 2)) + 1j * np_rng.normal(size=(n, len(chans), 2))
            lm = dict(fs=f, n_wins=n, win_size=8, olap_size=2, index_offset=0, n_freqs=2, freqs=plan.get_eval_freqs(0))
            md = SpectraMetadata(fs=[f], chans=chans, n_levels=1, first_time=rs.base_time(), last_time=rs.base_time(),
                                 chans_metadata={c: ChanMetadata(name=c, data_files=[]) for c in chans}, levels_metadata=[lm],
                                 ref_time=rs.base_time())  # fmt: skip
            SpectraDataWriter().run(pj.get_meas_evals_path(root, site, "m" + fs, cfg), SpectraData(md, {0: a}))

        for s in sites:
            for c in cfgs:
                for f in fss:
                    evals(s, c, f)
        mk = lambda s: pj.Site(dir_path=root / "time" / s, begin_time=rs.base_time(), end_time=rs.base_time(), measurements={
            "m" + f: pj.Measurement(site_name=s, dir_path=root / "time" / s / ("m" + f), reader=TimeReaderNumpy(),
                                    metadata=rs.time_metadata(float(f), 100, CH, rs.base_time())) for f in fss})  # fmt: skip
        proj = pj.Project(dir_path=root, begin_time=rs.base_time(), end_time=rs.base_time(),
                          metadata=pj.ProjectMetadata(ref_time=rs.base_time()), sites={s: mk(s) for s in sites})  # fmt: skip
        env = lambda a: lg.ResisticsEnvironment(proj=proj, config=Configuration(
            name=a["cfg"], tf=tf_of(a), dec_setup=dec_setup, solver=SolverScikitOLS()))  # fmt: skip

        def digests():
            res = {}
            for p in sorted(root.rglob("*")):
                if p.is_file():
                    r = p.relative_to(root).parts
                    res[r] = rs.tree_digest(p.parent) if False else p.read_bytes()
            return res

        def places(before, now):
            ch = [k for k in set(before) | set(now) if before.get(k) != now.get(k)]
            return sorted({(k[1], k[2]) if k[0] == "results" and len(k) == 4 else ("outside", "/".join(k)) for k in ch})

        for a in ops:
            evals(a["site"], a["cfg"], a["fs"])
            post = {} if a["post"] == "-" else {"postfix": a["post"]}
            kw = {}
            if rng.random() < 0.4:
                kw["in_site"] = rng.choice(sites)
            if rng.random() < 0.4:
                kw["cross_site"] = rng.choice(sites)
            before = digests()
            tr.call("compute", {"a": a, "tag": tag, "kw": kw}, lambda: lg.process_evals_to_tf(env(a), float(a["fs"]), a["site"], **kw, **post),
                    lambda r: {"sol": tok(r), "changed": [list(x) for x in places(before, digests())]})  # fmt: skip

            def scan_all():
                got = []
                for b in scan:
                    post = {} if b["post"] == "-" else {"postfix": b["post"]}
                    try:
                        t = tok(lg.get_solution(env(b), b["site"], b["cfg"], float(b["fs"]), TFNAME[b["tf"]], b["var"], **post))
                    except Exception:
                        t = 0
                    got.append({"a": b, "sol": t})
                return {"got": got}

            tr.call("scan", {"addresses": scan, "tag": tag}, scan_all, lambda r: r)

    for c in ctx.cases:
        ops = c["ops"]
        if rng.random() < 0.6:  # come back to an address
            ops = ops[:5] + [rng.choice(ops[:5])] + ops[5:6]
        session(ops, "plain")
    base = {"site": "s1", "cfg": "c1", "fs": "16", "tf": "impedancetensor", "var": "a", "post": "-"}
    others = [("16.5", "16.25"), ("0.25", "0.5"), ("1000000", "1000000.5"), ("128", "12.8")]
    for f, g in others:
        session([dict(base, fs=f), dict(base, fs=g), dict(base, fs=f, post="x"), dict(base, fs=f)], "plain")
    session([dict(base, var="A"), dict(base, var="a"), dict(base, var="a", post="A"), dict(base, site="s10"), dict(base, cfg="c1 b")], "plain")
    odd = [("post", "r1.1", "r1.2"), ("post", "run.json", "run"), ("post", "json", "-"), ("var", "v2.1", "v2.2"), ("var", "x.json", "x"),
           ("post", "-1", "1"), ("post", "Ünï", "u"), ("cfg", "c1.0", "c1.1"), ("site", "s1.a", "s1.b"), ("cfg", "c", "c c"), ("post", "a+b", "a b"),
           ("var", "processing_one", "processing_two"), ("var", "processing_one", "processing_on"), ("post", "rr" * 40 + "1", "rr" * 40 + "2"),
           ("cfg", "configuration" * 5, "configuration" * 5 + "2"), ("site", "station_north_01", "station_north_02"),
           ("cfg", "long run", "long_run"), ("site", "s 1", "s_1"), ("cfg", "C1", "c1"), ("site", "S1", "s1"), ("cfg", "a-b", "a_b"), ("site", " s1", "s1")]
    for k, v, v2 in odd:
        session([dict(base, **{k: v}), dict(base, **{k: v2}), dict(base), dict(base, **{k: v})], "plain")
    session([dict(base, var="a_b"), dict(base, var="a", post="b")], "variation a_b or postfix b")
    session([dict(base, var="a b"), dict(base, var="a_b")], "variation a b or a_b")
    session([dict(base, fs="0.1"), dict(base, fs="0.1000001")], "sampling frequency 0.1 or 0.1000001 Hz")
