"""C14 (selection of windows across sites) and C15 (gathering their spectra)"""
import shutil
import numpy as np
import rs

CH = ["Hy", "Ex", "Hx", "Ey", "Hz", "E2"]
CFG = "cfg A"
FINE = 2.0**-28 * (1 + 1j)


def spectra(fs, chans, levels, freqs, ident, per):
    """Evaluation frequency data whose values tell where they come from"""
    from resistics.spectra import SpectraData, SpectraMetadata
    from resistics.time import ChanMetadata
    from resistics.common import History, Record

    # (values carry a small part that is lost when they are rounded)
    first = rs.base_time()
    lms, data = [], {}
    for v, (off, n) in enumerate(levels):
        lms.append(dict(fs=fs / 2**v, n_wins=n, win_size=8, olap_size=2, index_offset=off, n_freqs=per,
                        freqs=[float(x) for x in freqs[v * per : (v + 1) * per]]))  # fmt: skip
        a = np.empty((n, len(chans), per), dtype=np.complex128)
        for c, ch in enumerate(chans):
            for k in range(per):
                a[:, c, k] = ident * 100000 + (v + 1) * 10000 + (CH.index(ch) + 1) * 100 + k + 1 + 1j * (off + np.arange(n)) + FINE
        data[v] = a
    rec = Record(creator={"name": "made", "id": ident}, messages=["made"], record_type="process")
    md = SpectraMetadata(fs=[x["fs"] for x in lms], chans=chans, n_levels=len(levels), first_time=first, last_time=first + rs.mk_delta(1000),
                         system=f"sys{ident}", chans_metadata={c: ChanMetadata(name=c, data_files=[]) for c in chans},
                         levels_metadata=lms, ref_time=first, history=History(records=[rec]))  # fmt: skip
    return SpectraData(md, data)


def made(history):
    return rs.ii(history.records[0].creator["id"]) if history.records and "id" in history.records[0].creator else 0


def unfine(a):
    a = np.asarray(a).astype(np.complex128) - FINE
    return rs.clist(np.where((a.real == np.rint(a.real)) & (a.imag == np.rint(a.imag)), a, -1))


def part(p):
    md = p.metadata
    return {"site": md.site_name, "chans": list(md.chans), "freqs": rs.ilist(md.eval_freqs), "n_evals": md.n_evals,
            "keys": sorted(p.data), "rows": [unfine(p.data[k]) for k in sorted(p.data)], "meas": list(md.measurements),
            "histories": [{"meas": m, "made": made(h)} for m, h in sorted(md.histories.items())]}  # fmt: skip


def gather(tr, ctx, what):
    from resistics import project as pj, gather as g
    from resistics.decimate import DecimationParameters
    from resistics.spectra import SpectraDataWriter
    from resistics.time import TimeReaderNumpy, TimeWriterNumpy
    from resistics.transfunc import TransferFunction

    rng = ctx.rng
    count = [0]

    def params(fs, n, per):
        freqs = [8000 - 7 * k for k in range(n * per)]
        return freqs, DecimationParameters(fs=fs, n_levels=n, per_level=per, min_samples=8, eval_freqs=freqs,
                                           dec_factors=[2**k for k in range(n)])  # fmt: skip

    def build(sites, fs, per, n_plan):
        """sites: [[{fs, evals, levels}]]"""
        count[0] += 1
        root = ctx.work / f"proj{count[0]}"
        freqs, dec = params(fs, n_plan, per)
        names = rng.sample(["site1", "site10", "Site1", "a b", "remote"], len(sites))
        ident = 0
        desc, built = [], {}
        for name, site in zip(names, sites):
            mnames = rng.sample(["m1", "m2", "m10", "run 3", "0", "zz"], len(site))
            ms, meas = [], {}
            for mname, m in zip(mnames, site):
                ident += 1
                chans = list(CH)
                rng.shuffle(chans)
                path = pj.get_meas_evals_path(root, name, mname, CFG)
                # an evaluation of another configuration and of a name like this one are not to be used
                if rng.random() < 0.4:
                    other = pj.get_meas_evals_path(root, name, mname, rng.choice(["cfg", "cfg A2"]))
                    SpectraDataWriter().run(other, spectra(fs, chans, [[0, 9]], freqs, 40 + ident, per))
                if m["evals"]:
                    SpectraDataWriter().run(path, spectra(m["fs"], chans, m["levels"], freqs, ident, per))
                else:
                    how = rng.randint(0, 3)
                    if how == 1:
                        path.mkdir(parents=True)
                    if how == 2:
                        path.mkdir(parents=True)
                        (path / "metadata.json").write_text('{"fs": [')
                    if how == 3:
                        TimeWriterNumpy().run(path, rs.time_data(fs, 10))
                meas[mname] = pj.Measurement(site_name=name, dir_path=root / "time" / name / mname,
                                             metadata=rs.time_metadata(m["fs"], 100, CH, rs.base_time()), reader=TimeReaderNumpy())  # fmt: skip
                ms.append(dict(name=mname, id=ident, made=ident, fs=m["fs"], evals=m["evals"], levels=[list(x) for x in m["levels"]]))
            built[name] = pj.Site(dir_path=root / "time" / name, measurements=meas, begin_time=rs.base_time(), end_time=rs.base_time())
            desc.append({"name": name, "meas": ms})
        proj = pj.Project(dir_path=root, begin_time=rs.base_time(), end_time=rs.base_time(),
                          metadata=pj.ProjectMetadata(ref_time=rs.base_time()), sites=built)  # fmt: skip
        return root, proj, dec, {"sites": desc, "fs": fs, "per": per, "freqs": freqs, "names": CH}

    def seen(sel):
        levels = []
        sites = [s.name for s in sel.sites]
        per = sel.dec_params.per_level
        for v in range(sel.n_levels):
            tabs = [sel.get_eval_wins(v, k) for k in range(per)]
            wins = [[rs.ii(x) for x in t.index] for t in tabs]
            frm = [t[sites].values.tolist() for t in tabs]
            same = all(w == wins[0] and f == frm[0] for w, f in zip(wins, frm))
            levels.append({"wins": wins[0] if same else [-1], "from": frm[0], "n_wins": [rs.ii(sel.get_n_wins(v, k)) for k in range(per)]})
        return {"levels": levels, "n_levels": rs.ii(sel.n_levels), "sites": sites, "meas": [list(sel.get_measurements(s)) for s in sel.sites],
                "freqs": rs.ilist(sel.get_eval_freqs()), "n_evals": rs.ii(sel.get_n_evals())}  # fmt: skip

    def tf_of():
        out, inp = rng.sample(CH, rng.randint(1, 3)), rng.sample(CH, rng.randint(1, 3))
        kw = {}
        if rng.random() < 0.6:
            kw["cross_chans"] = rng.sample(CH, rng.randint(1, 4))
        tf = TransferFunction(out_chans=out, in_chans=inp, **kw)
        return tf, {"out_chans": out, "in_chans": inp, "cross_chans": kw.get("cross_chans", inp)}

    def one(sites, fs=64, per=None):
        per = per or rng.choice([1, 2, 3])
        n_max = max([len(m["levels"]) for s in sites for m in s] + [1])
        root, proj, dec, i = build(sites, fs, per, n_max + rng.choice([0, 0, 1]))
        names = [s["name"] for s in i["sites"]]
        for _ in range(2 if ctx.thorough or what == "gather" else 1):
            req = rng.sample(names, rng.choice([len(names), len(names), rng.randint(1, len(names))]))
            if what == "select" and rng.random() < 0.3:
                req = req + rng.sample(req, 1)
            if what == "select" and rng.random() < 0.04:
                req = req + ["nosite"]
            j = dict(i, request=req)
            sel = [None]

            def select():
                sel[0] = g.Selector().run(CFG, proj, list(req), dec)
                return sel[0]

            if what == "select":
                tr.call("select", j, select, seen)
                continue
            try:
                select()
            except Exception:
                usable = all(any(m["evals"] and m["fs"] == fs for m in s["meas"]) for s in i["sites"] if s["name"] in req)
                if usable:
                    tr.event("gather", dict(j, out=req[0], **{"in": "-", "cross": "-"}, out_chans=[], in_chans=[], cross_chans=[]),
                             ok=False, err="selection failed")  # fmt: skip
                continue
            for _ in range(2):
                tf, ch = tf_of()
                roles = {"out": rng.choice(req), "in": rng.choice(req + ["-"]), "cross": rng.choice(req + ["-"])}
                kw = {}
                if roles["in"] != "-":
                    kw["in_name"] = roles["in"]
                if roles["cross"] != "-":
                    kw["cross_name"] = roles["cross"]
                tr.call("gather", dict(j, **roles, **ch), lambda: g.ProjectGather().run(CFG, proj, sel[0], tf, roles["out"], **kw),
                        lambda r: {"parts": [part(r.out_data), part(r.in_data), part(r.cross_data)]})  # fmt: skip
        shutil.rmtree(root, ignore_errors=True)

    for c in ctx.cases:
        one(c["site"], fs=1 if c["site"][0][0]["fs"] == 1 else 64, per=rng.choice([1, 2]))

    def rand_site(big):
        res = []
        for _ in range(rng.randint(1, 4)):
            n = rng.choice([1, 2, 3, 4])
            off = rng.choice([0, 0, 5, 300 if big else 7])
            levels = []
            for v in range(n):
                levels.append([off + rng.randint(0, 12), rng.randint(1, 14)])
                off //= 2
            res.append({"fs": rng.choice([64, 64, 64, 64, 16]), "evals": rng.random() < 0.85, "levels": levels})
        return res

    n = {"select": 400 if ctx.thorough else 30, "gather": 250 if ctx.thorough else 12}[what]
    for k in range(n):
        one([rand_site(k % 4 == 0) for _ in range(rng.choice([1, 2, 2, 3]))])
    if what == "gather":
        for k in range(400 if ctx.thorough else 20):
            per = rng.choice([1, 2, 4])
            levels = [[rng.randint(0, 500), rng.randint(1, 9)] for _ in range(rng.randint(1, 4))]
            freqs, dec = params(64, len(levels) + rng.choice([0, 1]), per)
            chans = list(CH)
            rng.shuffle(chans)
            x = spectra(64, chans, levels, freqs, 7, per)
            tf, ch = tf_of()
            i = dict(ch, name=f"meas {k}", id=7, made=7, levels=levels, per=per, freqs=freqs, names=CH)
            tr.call("quick", i, lambda: g.QuickGather().run(ctx.work / i["name"], dec, tf, x),
                    lambda r: {"parts": [part(r.out_data), part(r.in_data), part(r.cross_data)]})  # fmt: skip


def c14(tr, ctx):
    gather(tr, ctx, "select")


def c15(tr, ctx):
    gather(tr, ctx, "gather")
