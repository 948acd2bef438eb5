"""Common part of the conformance drivers: runs under the project's interpreter.

Imports the code under test from /repo, builds inputs, runs single public calls
under a time limit, and writes what was observed, projected onto the variables of
the specification, as one JSON event per call.
"""
import os
import sys
import json
import signal
import hashlib
from pathlib import Path
from fractions import Fraction
from decimal import Decimal
from datetime import date

HERE = Path(__file__).resolve().parent
REPO = os.environ.get("RS_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, str(HERE / "stubs")]

import warnings

warnings.filterwarnings("ignore")
from loguru import logger

logger.remove()

import numpy as np
from attotime import attodatetime, attotimedelta

#: observed value that is not an integer (or is outside the 32 bit range of TLC)
NOTINT = -2000000011
#: observed value that is not a number
NOTNUM = -2000000033


class CaseTimeout(BaseException):
    pass


class TooManyTimeouts(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


signal.signal(signal.SIGALRM, _alarm)


def ii(x, scale=1, tol=1e-6):
    """Project a number to an integer (after scaling); NOTINT when it is not one"""
    try:
        x = x.item() if hasattr(x, "item") else x
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int) and scale == 1:
            return x if abs(x) < 2**31 - 1 else NOTINT
        x = float(x) * scale
    except Exception:
        return NOTNUM
    if x != x or x in (float("inf"), float("-inf")):
        return NOTNUM
    r = round(x)
    if abs(x - r) > tol * max(1.0, abs(x)) or abs(r) >= 2**31 - 1:
        return NOTINT
    return int(r)


def ilist(a, scale=1, tol=1e-6):
    """Project a (nested) array of numbers"""
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [ilist(x, scale, tol) for x in a]
    return ii(a, scale, tol)


def clist(a, scale=1, tol=1e-6):
    """Project a (nested) array of complex numbers to <<re, im>> pairs"""
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [clist(x, scale, tol) for x in a]
    a = complex(a)
    return [ii(a.real, scale, tol), ii(a.imag, scale, tol)]


class Tokens:
    """Interns arbitrary values as small integers, equal values to equal tokens"""

    def __init__(self):
        self.d = {}

    def __call__(self, value):
        key = canon(value)
        return self.d.setdefault(key, len(self.d) + 1)


def canon(v):
    """A canonical hashable form of nested values including arrays and times"""
    if isinstance(v, np.ndarray):
        return (
            "a",
            str(v.dtype),
            v.shape,
            hashlib.sha256(np.ascontiguousarray(v).tobytes()).hexdigest(),
        )
    if isinstance(v, np.generic):
        return canon(v.item())
    if isinstance(v, attodatetime):
        return ("t", secs(v))
    if isinstance(v, dict):
        return ("d",) + tuple(sorted(((str(k), canon(x)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return ("l",) + tuple(canon(x) for x in v)
    if isinstance(v, float) and v != v:
        return ("nan",)
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return (type(v).__name__, v)
    if isinstance(v, (int, float)):
        return ("n", float(v))
    if isinstance(v, complex):
        return ("c", v)
    if hasattr(v, "dict"):
        return ("m", type(v).__name__, canon(v.dict()))
    return ("o", str(v))


class Tracer:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0
        self.limit = 20
        self.timeouts = 0

    def call(self, ev, inputs, fn, observe=None, limit=None, after=None):
        """Run one public call and log it. fn() is the call, observe(result) projects

        after() observes the surroundings and is logged whether the call succeeded or not

        Whatever happens is logged: an exception of the call as ok = False, an
        observation that cannot be projected as err = "observation".
        """
        self.n += 1
        rec = {"ev": ev, "id": self.n, "ok": False, "err": "", "i": inputs, "o": {}}
        res = None
        signal.alarm(limit or self.limit)
        try:
            res = fn()
            rec["ok"] = True
            if observe is not None:
                try:
                    rec["o"] = observe(res)
                except CaseTimeout:
                    raise
                except Exception as e:
                    rec["ok"] = False
                    rec["err"] = f"observation {type(e).__name__}: {e}"[:300]
        except CaseTimeout:
            rec["ok"] = False
            rec["err"] = "timeout"
        except Exception as e:
            rec["err"] = f"{type(e).__name__}: {e}"[:300]
        finally:
            signal.alarm(0)
        if after is not None:
            rec["o"] = dict(rec["o"], **after())
        self.f.write(json.dumps(rec) + "\n")
        if rec["err"] == "timeout":
            self.timeouts += 1
            if self.timeouts >= 4:
                raise TooManyTimeouts()
        return res if rec["ok"] else None

    def event(self, ev, inputs, o=None, ok=True, err=""):
        self.n += 1
        rec = {"ev": ev, "id": self.n, "ok": ok, "err": err, "i": inputs, "o": o or {}}
        self.f.write(json.dumps(rec) + "\n")

    def close(self):
        self.f.close()


# ---------------------------------------------------------------- exact times


def secs(t):
    """Exact seconds since 0001-01-01 of a high resolution time, as a Fraction"""
    d = date(t.year, t.month, t.day).toordinal()
    s = d * 86400 + t.hour * 3600 + t.minute * 60 + t.second
    return s + Fraction(t.microsecond, 10**6) + Fraction(Decimal(t.nanosecond)) / 10**9


def dsecs(delta):
    return (
        delta.days * 86400
        + delta.seconds
        + Fraction(delta.microseconds, 10**6)
        + Fraction(Decimal(delta.nanoseconds)) / 10**9
    )


ATTO = 10**18


def mk_time(x):
    """High resolution time from exact seconds since 0001-01-01, to the attosecond"""
    a = round(Fraction(x) * ATTO)
    s, a = divmod(a, ATTO)
    us, a = divmod(a, 10**12)
    d, s = divmod(s, 86400)
    dd = date.fromordinal(d)
    return attodatetime(
        dd.year,
        dd.month,
        dd.day,
        s // 3600,
        s // 60 % 60,
        s % 60,
        us,
        Decimal(a).scaleb(-9),
    )


def mk_delta(x):
    a = round(Fraction(x) * ATTO)
    s, a = divmod(a, ATTO)
    us, a = divmod(a, 10**12)
    return attotimedelta(
        seconds=s, microseconds=us, nanoseconds=Decimal(a).scaleb(-9)
    )


def base_time(s="2021-01-01 00:00:00"):
    from resistics.sampling import to_datetime

    return to_datetime(s)


def tick(t, ref, fs, K):
    """Nearest tick of a time and its distance in millionths of a sample period"""
    x = (secs(t) - secs(ref)) * Fraction(fs) * K
    r = round(x)
    dev = abs(x - r) / K * 10**6
    if abs(r) >= 2**31 - 1:
        return {"t": NOTINT, "dev": 0}
    return {"t": int(r), "dev": int(min(round(dev), 10**6))}


# ------------------------------------------------------------------- builders


def time_metadata(fs, n, chans, first, **kw):
    from resistics.time import get_time_metadata
    from resistics.sampling import to_timedelta

    last = first + (n - 1) * to_timedelta(1 / fs)
    chan_kw = kw.pop("chan_kw", {})
    d = {
        "fs": fs,
        "chans": list(chans),
        "n_samples": n,
        "first_time": first,
        "last_time": last,
    }
    d.update(kw)
    return get_time_metadata(
        d, {c: dict({"name": c}, **chan_kw.get(c, {})) for c in chans}
    )


def time_data(fs, n, chans=("Ex", "Ey", "Hx", "Hy"), first=None, data=None, **kw):
    from resistics.time import TimeData

    if first is None:
        first = base_time()
    if data is None:
        data = np.array(
            [np.arange(n) + 10000.0 * (k + 1) for k in range(len(chans))], dtype=float
        )
    return TimeData(time_metadata(fs, n, chans, first, **kw), np.array(data))


def details(rng):
    """Random descriptive metadata of a recording"""
    return {
        "system": rng.choice(["", "SPAM", "ADU 07", "unité"]),
        "serial": rng.choice(["", "17", "A-3"]),
        "wgs84_latitude": rng.choice([-999.0, 51.477928, -0.1 * 3]),
        "wgs84_longitude": rng.choice([-999.0, 0.30000000000000004, 179.9999999]),
        "easting": rng.choice([-999.0, 1e6 / 3]),
        "northing": rng.choice([-999.0, 5e-324, 12.5]),
        "elevation": rng.choice([-999.0, 0.0, 88.8]),
    }


def chan_details(rng, chans):
    return {
        c: {
            "name": c,
            "data_files": rng.choice([None, ["a.ats"]]),
            "chan_type": rng.choice([None, None, "electric", "magnetic", "unknown"]),
            "chan_source": rng.choice([None, "chan 1"]),
            "sensor": rng.choice(["", "MFS06", "LEMI120"]),
            "serial": rng.choice(["", "307", "0307"]),
            "gain1": rng.choice([1, 0.1, 16]),
            "gain2": rng.choice([1, 1 / 3]),
            "scaling": rng.choice([1, 1e-9]),
            "chopper": rng.choice([True, False]),
            "dipole_dist": rng.choice([1, 60.5]),
            "sensor_calibration_file": rng.choice(["", "cal.txt"]),
            "instrument_calibration_file": rng.choice(["", "inst.txt"]),
        }
        for c in chans
    }


def atto_time(rng, near=None):
    """A random time with a fraction down to ten attoseconds

    attotime adds and subtracts times with 28 decimal digits, that is to ten attoseconds
    """
    t = secs(base_time()) + rng.randint(0, 10**7)
    a = rng.choice([0, rng.randint(0, 10**17 - 1) * 10, rng.randint(0, 10**6) * 10**12, 61035156250000])
    return mk_time(t + Fraction(a, ATTO))


def level_product(kind, rng, n_levels, chans, dtype, sizes=None, **over):
    """A decimated, windowed or spectra product with random values, built directly"""
    from resistics import decimate as d, window as w, spectra as sp
    from resistics.time import ChanMetadata

    np_rng = np.random.default_rng(rng.randint(0, 2**31))
    first, last, ref = sorted(atto_time(rng) for _ in range(3))
    fs0 = over.pop("fs0", rng.choice([128.0, 1 / 3, 4096.0, 10.0]))
    levels, data = [], {}
    for k in range(n_levels):
        fs = fs0 / 2**k
        n = sizes[k] if sizes else rng.randint(1, 6)
        if kind == "decimated":
            levels.append(dict(fs=fs, n_samples=n, first_time=first, last_time=atto_time(rng)))
            shape = (len(chans), n)
        else:
            size = rng.randint(4, 9)
            lm = dict(fs=fs, n_wins=n, win_size=size, olap_size=rng.randint(1, 3),
                      index_offset=rng.choice([0, 7, 10**6 + k]))  # fmt: skip
            m = size
            if kind == "spectra":
                m = rng.randint(1, 5)
                lm.update(n_freqs=m, freqs=[x * fs / 3 for x in range(m)])
            levels.append(lm)
            shape = (n, len(chans), m)
        v = np_rng.normal(size=shape)
        if np.dtype(dtype).kind == "c":
            v = v + 1j * np_rng.normal(size=shape)
        if np.dtype(dtype).kind == "i":
            v = v * 1000
        elif rng.random() < 0.6:
            # all below one, tiny, huge
            v = v * rng.choice([1e-3, 1e-9, 1e-36, 1e6, 1e30])
        v = v.astype(dtype)
        if rng.random() < 0.3 and np.dtype(dtype).kind != "i":
            v.flat[0] = np.nan
        data[k] = np.asfortranarray(v) if rng.random() < 0.3 else v
    md = dict(details(rng), fs=[x["fs"] for x in levels], chans=list(chans), n_levels=n_levels, first_time=first,
              last_time=last, chans_metadata=chan_meta(chan_details(rng, chans)), levels_metadata=levels, **over)  # fmt: skip
    if kind == "decimated":
        return d.DecimatedData(d.DecimatedMetadata(**md), data)
    md["ref_time"] = ref
    if kind == "windowed":
        return w.WindowedData(w.WindowedMetadata(**md), data)
    return sp.SpectraData(sp.SpectraMetadata(**md), data)


def chan_meta(d):
    """Channel types which are not named are found from the channel name"""
    from resistics.time import ChanMetadata

    return {c: ChanMetadata(**x) for c, x in d.items()}


def descriptive(md):
    """Metadata of a product without history, file details and names of data files"""
    d = md.dict()
    d.pop("history", None)
    d.pop("file_info", None)
    for c in d.get("chans_metadata", {}).values():
        c.pop("data_files", None)
    return d


def tree_digest(path):
    """Names and contents of everything below a path"""
    path = Path(path)
    h = hashlib.sha256()
    if not path.exists():
        return "absent"
    for p in sorted(path.rglob("*")):
        h.update(str(p.relative_to(path)).encode() + b"\0")
        if p.is_file():
            h.update(b"f" + p.read_bytes())
    return h.hexdigest()
