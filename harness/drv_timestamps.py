"""C27: timestamps as text and JSON"""
import json
from datetime import datetime, timedelta
from decimal import Decimal
import numpy as np
import pandas as pd
import rs
from attotime import attodatetime


def fields(t):
    """Y, M, D, h, m, s and the digit groups of the fraction, exactly"""
    sub = Decimal(t.nanosecond)
    pico = int(sub * 1000)
    rest = sub * 1000 - pico
    atto = int(rest * 10**6)
    rest = rest * 10**6 - atto
    yocto = rest * 10**6
    y = int(yocto) if yocto == int(yocto) else rs.NOTINT
    return [t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, pico, atto, y]


def make(f):
    return attodatetime(*f[:6], f[6], Decimal(f[7]) / 1000 + Decimal(f[8]) / 10**9 + Decimal(f[9]) / 10**15)


def text_of(f):
    return "%04d-%02d-%02d %02d:%02d:%02d.%06d_%06d_%06d_%06d" % tuple(f)


def codes(text):
    return [int(c) if c.isdigit() else 1000 + ord(c) for c in text]


def limbs(delta):
    sub = Decimal(delta.nanoseconds)
    pico = int(sub * 1000)
    rest = (sub * 1000 - pico) * 10**6
    atto = int(rest)
    y = (rest - atto) * 10**6
    return [int(delta.days), int(delta.seconds), int(delta.microseconds), pico, atto, rs.ii(y)]


def c27(tr, ctx):
    from resistics import sampling as s
    from resistics import time as t, decimate as d, window as w, spectra as sp, project as pj, common as cm

    rng = ctx.rng
    group = lambda: rng.choice([0, 1, 10, 999999, 500000, 123456, rng.randint(0, 999999), 100000, 61035, 9])

    def rand_fields(ns_only=False, us_only=False):
        y = rng.choice([1970, 1999, 2000, 2016, 2020, 2021, 2024, 1900, 2100, rng.randint(1901, 2199)])
        m = rng.choice([1, 2, 3, 6, 12, rng.randint(1, 12)])
        last = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
        dd = rng.choice([1, last, rng.randint(1, last)])
        h, mi, se = rng.choice([(0, 0, 0), (23, 59, 59), (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))])
        f = [y, m, dd, h, mi, se, group(), group(), group(), 0]
        if ns_only:
            f[7], f[8] = rng.randint(0, 999) * 1000, 0
        if us_only:
            f[7] = f[8] = 0
        return f

    def near(f):
        """An instant close to another one: differing in one place only"""
        g = list(f)
        k = rng.choice([6, 7, 8])
        g[k] = rng.choice([max(0, g[k] - 1), min(999999, g[k] + 1), group()])
        if rng.random() < 0.3:
            g = [2021, 1, 1, 0, 0, 0, 0, 0, 0, 0]
        return g

    reps = 900 if ctx.thorough else 130
    for _ in range(reps):
        f = rand_fields()
        x = make(f)
        assert fields(x) == f
        tr.call("format", {"f": f}, lambda: s.datetime_to_string(x), lambda r: {"text": codes(r)})
        txt = text_of(f)
        for fn in (s.datetime_from_string, s.to_datetime, s.HighResDateTime.validate):
            tr.call("parse", {"f": f, "text": codes(txt)}, lambda: fn(txt), lambda r: {"f": fields(r)})
        tr.call("roundtrip", {"f": f}, lambda: s.to_datetime(s.datetime_to_string(x)),
                lambda r: {"f": fields(r), "equal": r == x})  # fmt: skip
        g = rng.choice([rand_fields(), near(f), near(f), list(f)])
        y = make(g)
        # also compare instants which went through text
        if rng.random() < 0.5:
            y = s.to_datetime(s.datetime_to_string(y))
        tr.call("order", {"a": f, "b": g}, lambda: (x, y),
                lambda r: {"lt": r[0] < r[1], "le": r[0] <= r[1], "eq": r[0] == r[1], "ne": r[0] != r[1],
                           "ge": r[0] >= r[1], "gt": r[0] > r[1]})  # fmt: skip
        # further apart the library's own subtraction rounds
        g[0] = f[0] + rng.randint(-3, 3) if (g[1], g[2]) != (2, 29) else f[0] - f[0] % 4
        if f[0] - f[0] % 4 in (1900, 2100):
            g[:3] = f[:3]
        y = s.to_datetime(s.datetime_to_string(make(g)))
        (a, xa), (b, xb) = sorted([(f, s.to_datetime(text_of(f))), (g, y)], reverse=True)
        tr.call("difference", {"a": a, "b": b}, lambda: xa - xb, lambda r: {"d": limbs(r)})

    # stored metadata: every class which carries timestamps
    chan = {"Ex": {"name": "Ex"}}
    common = lambda: dict(fs=[10.0], chans=["Ex"], n_levels=1, chans_metadata=chan, levels_metadata=[])

    def classes(ts):
        a, b, c = ts
        yield t.TimeMetadata, dict(fs=10, chans=["Ex"], n_samples=5, first_time=a, last_time=b, chans_metadata=chan), {
            "first_time": 0, "last_time": 1}  # fmt: skip
        lev = dict(fs=10, n_samples=5, first_time=b, last_time=c)
        yield d.DecimatedMetadata, dict(common(), first_time=a, last_time=b, levels_metadata=[lev]), {
            "first_time": 0, "last_time": 1, "levels_metadata.0.first_time": 1, "levels_metadata.0.last_time": 2}  # fmt: skip
        yield w.WindowedMetadata, dict(common(), first_time=a, last_time=b, ref_time=c), {
            "first_time": 0, "last_time": 1, "ref_time": 2}  # fmt: skip
        yield sp.SpectraMetadata, dict(common(), first_time=a, last_time=b, ref_time=c), {
            "first_time": 0, "last_time": 1, "ref_time": 2}  # fmt: skip
        yield pj.ProjectMetadata, dict(ref_time=a), {"ref_time": 0}

    def get(md, path):
        for p in path.split("."):
            md = md[int(p)] if p.isdigit() else getattr(md, p)
        return md

    for k in range(60 if ctx.thorough else 12):
        fs = [rand_fields() for _ in range(3)]
        for cls, kw, where in classes([make(x) for x in fs]):
            times = [{"name": n, "f": fs[j]} for n, j in where.items()]
            i = {"cls": cls.__name__, "times": times}
            obs = lambda r: {"times": [{"name": n, "f": fields(get(r, n))} for n in where]}
            md = cls(**kw)
            tr.call("json", dict(i, via="text"), lambda: cls.parse_raw(md.json()), obs)
            tr.call("json", dict(i, via="dict"), lambda: cls(**json.loads(md.json())), obs)
            p = ctx.work / f"md{k}.json"

            def via_file():
                md.write(p)
                return cls.parse_file(p)

            tr.call("json", dict(i, via="file"), via_file, obs)
            # twice, so that what was read is written again
            def twice():
                via_file().write(p)
                return cls.parse_file(p)

            tr.call("json", dict(i, via="file twice"), twice, obs)
        site = pj.Site(dir_path=ctx.work / "site", measurements={}, begin_time=make(fs[0]), end_time=make(fs[1]))
        tr.call("json", {"cls": "Site", "via": "text",
                         "times": [{"name": "begin_time", "f": fs[0]}, {"name": "end_time", "f": fs[1]}]},
                lambda: pj.Site.parse_raw(site.json()),
                lambda r: {"times": [{"name": n, "f": fields(getattr(r, n))} for n in ("begin_time", "end_time")]})  # fmt: skip

    # ordinary ways to give a date
    for _ in range(300 if ctx.thorough else 60):
        f = rand_fields(us_only=True)
        iso = "%04d-%02d-%02dT%02d:%02d:%02d.%06d" % tuple(f[:7])
        forms = {
            "datetime": datetime(*f[:7]),
            "timestamp": pd.Timestamp(datetime(*f[:7])),
            "iso": iso,
            "spaced": iso.replace("T", " "),
            "full": text_of(f),
            "highres": make(f),
        }
        if f[6] == 0:
            forms["seconds"] = iso[:-7]
        if f[3:7] == [0, 0, 0, 0]:
            forms["day"] = iso[:10]
        tr.call("forms", {"f": f}, lambda: [(n, s.to_datetime(v)) for n, v in forms.items()],
                lambda r: {"got": [{"form": n, "f": fields(v)} for n, v in r]})  # fmt: skip
        tr.call("forms", {"f": f}, lambda: [(n, s.HighResDateTime.validate(v)) for n, v in forms.items()],
                lambda r: {"got": [{"form": n, "f": fields(v)} for n, v in r]})  # fmt: skip
        # and through a metadata field
        tr.call("forms", {"f": f}, lambda: [(n, pj.ProjectMetadata(ref_time=v).ref_time) for n, v in forms.items()],
                lambda r: {"got": [{"form": n, "f": fields(v)} for n, v in r]})  # fmt: skip
        back = lambda: [("back", s.to_datetime(s.to_timestamp(make(f))))]
        tr.call("forms", {"f": f}, back, lambda r: {"got": [{"form": n, "f": fields(v)} for n, v in r]})
        # nanosecond pandas timestamps keep their nanoseconds
        g = rand_fields(ns_only=True)
        ts = pd.Timestamp(datetime(*g[:7])) + pd.Timedelta(g[7] // 1000, "ns")
        tr.call("forms", {"f": g}, lambda: s.to_datetime(ts), lambda r: {"got": [{"form": "ns", "f": fields(r)}]})
        tr.call("forms", {"f": g}, lambda: s.to_datetime("%04d-%02d-%02d %02d:%02d:%02d.%06d" % tuple(g[:7]) + "%03d" % (g[7] // 1000)),
                lambda r: {"got": [{"form": "ns text", "f": fields(r)}]})  # fmt: skip
