"""C01 (sample numbers and times) and C27 (timestamps as text)"""
from fractions import Fraction
import numpy as np
import rs

RATES = [1, 2, 4, 5, 10, 16, 25, 30, 50, 60, 64, 100, 128, 200, 250, 256, 300, 500, 512,
         1000, 1024, 2048, 4096, 8192, 24000, 65536, 0.5, 0.1, 0.25, 0.0625, 3, 7, 12.5,
         0.033333333, 1 / 3]  # fmt: skip


def slack(fs):
    """Millionths of a sample in two nanoseconds, to which pandas timestamps are rounded"""
    return int(np.ceil(2e-9 * fs * 1e6)) + 1


FIRSTS = [
    "2021-01-01 00:00:00",
    "1999-12-31 23:59:59.999999",
    "2020-02-28 23:59:58.123456_789012_345678_000000",
    "2015-06-30 12:00:00.000061_035156_250000_000000",
]


def c01(tr, ctx):
    from resistics import sampling as s

    rng = ctx.rng

    def q_time(first, fs, K, q):
        # whole samples in the code's own sample period, which is a rounded decimal for some rates
        dt = s.to_timedelta(1 / fs)
        if q % K == 0:
            return first + (q // K) * dt
        return rs.mk_time(rs.secs(first) + Fraction(q) / K * rs.dsecs(dt))

    def small(case, fs, first):
        n, K, qa, qb = case["n"], case["K"], case["qa"], case["qb"]
        last = first + (n - 1) * s.to_timedelta(1 / fs)
        t = q_time(first, fs, K, qa)
        t2 = q_time(first, fs, K, qb)
        base = {"n": n, "K": K}
        # times on a sample may also come from the code itself
        if K == 1 and qa >= 0 and qa % 2:
            t = s.sample_to_datetime(fs, first, qa)
        tr.call("from", dict(base, q=qa, fs=str(fs)), lambda: s.from_time_to_sample(fs, first, last, t),
                lambda r: {"sample": rs.ii(r)})  # fmt: skip
        tr.call("to", dict(base, q=qb, fs=str(fs)), lambda: s.to_time_to_sample(fs, first, last, t2),
                lambda r: {"sample": rs.ii(r)})  # fmt: skip
        tr.call("range", dict(base, qa=qa, qb=qb, fs=str(fs)),
                lambda: s.datetimes_to_samples(fs, first, last, t, t2),
                lambda r: {"from": rs.ii(r[0]), "to": rs.ii(r[1])})  # fmt: skip
        for which, fn, q, tt in (("from", s.check_from_time, qa, t), ("to", s.check_to_time, qb, t2)):
            tr.call("clip", dict(base, q=q, which=which), lambda: fn(first, last, tt),
                    lambda r: {"time": rs.tick(r, first, fs, K)})  # fmt: skip

    def one(fs, first, n, K, sample, q, q2):
        dt = s.to_timedelta(1 / fs)
        last = first + (n - 1) * dt
        base = {"n": n, "K": K, "fs": str(fs)}
        for bounded in (False, True):
            tr.call("time", dict(base, sample=sample, bounded=bounded),
                    lambda: s.sample_to_datetime(fs, first, sample, n if bounded else None),
                    lambda r: {"time": rs.tick(r, first, fs, K)})  # fmt: skip
        tr.call("sample", dict(base, sample=sample), lambda: s.check_sample(n, sample))
        # the time of a sample, used as a start and as an end
        if 0 <= sample < n:
            t = s.sample_to_datetime(fs, first, sample)
            tr.call("from", dict(base, q=sample * K), lambda: s.from_time_to_sample(fs, first, last, t),
                    lambda r: {"sample": rs.ii(r)})  # fmt: skip
            tr.call("to", dict(base, q=sample * K), lambda: s.to_time_to_sample(fs, first, last, t),
                    lambda r: {"sample": rs.ii(r)})  # fmt: skip
            d = sample * K + rng.choice([0, 0, 1, K - 1]) % K
            method = rng.choice(["floor", "ceil", "round"])
            delta = rs.mk_delta(Fraction(d) / K / Fraction(fs)) if d % K else sample * dt
            tr.call("count", dict(base, d=d, method=method), lambda: s.to_n_samples(delta, fs, method=method),
                    lambda r: {"n": rs.ii(r)})  # fmt: skip
        t, t2 = q_time(first, fs, K, q), q_time(first, fs, K, q2)
        tr.call("range", dict(base, qa=q, qb=q2), lambda: s.datetimes_to_samples(fs, first, last, t, t2),
                lambda r: {"from": rs.ii(r[0]), "to": rs.ii(r[1])})  # fmt: skip
        a, b = sorted((sample, rng.randint(0, n)))
        if rng.random() < 0.2:
            a, b = b, a
        tr.call("times", dict(base, **{"from": a, "to": b}), lambda: s.samples_to_datetimes(fs, first, a, b),
                lambda r: {"from": rs.tick(r[0], first, fs, K), "to": rs.tick(r[1], first, fs, K)})  # fmt: skip

    def array(fs, first, n, samples):
        K = 4
        base = {"K": K, "fs": str(fs), "samples": samples, "slack": 0}
        obs = lambda r: {"times": [rs.tick(x, first, fs, K) for x in r]}
        if samples == list(range(n)):
            tr.call("array", base, lambda: s.datetime_array(first, fs, n_samples=n), obs)
        scalar = lambda r: dict(obs(r), agree=[x == s.sample_to_datetime(fs, first, k) for x, k in zip(r, samples)])
        tr.call("array", base, lambda: s.datetime_array(first, fs, samples=np.array(samples)), scalar)
        # the estimate is to the nanosecond, however many samples
        from resistics.sampling import to_datetime

        loose = dict(base, slack=slack(fs))
        obs2 = lambda r: {"times": [rs.tick(to_datetime(x), first, fs, K) for x in r]}
        tr.call("array", loose, lambda: s.datetime_array_estimate(first, fs, samples=np.array(samples)), obs2)
        if samples == list(range(n)):
            tr.call("array", loose, lambda: s.datetime_array_estimate(first, fs, n_samples=n), obs2)
            long = s.datetime_array_estimate(first, fs, n_samples=20001)
            tr.call("array", dict(loose, samples=[0, 9999, 20000]), lambda: [long[0], long[9999], long[20000]], obs2)

    def drift(fs, first, n):
        obs = lambda r: {"drift": rs.ii(int(abs(rs.secs(r) - rs.secs(first) - Fraction(n) / Fraction(fs)) / n * 10**15))}
        base = {"fs": str(fs), "n": str(n)}
        tr.call("drift", base, lambda: s.sample_to_datetime(fs, first, n), obs)
        tr.call("drift", base, lambda: s.datetime_array(first, fs, samples=np.array([n]))[0], obs)
        tr.call("drift", base, lambda: s.samples_to_datetimes(fs, first, 0, n)[1], obs)

    def far(fs, first, whole, part, K):
        dt = s.to_timedelta(1 / fs)
        delta = whole * dt + rs.mk_delta(Fraction(part) / K * rs.dsecs(dt))
        last = first + 2 * whole * dt
        base = {"fs": str(fs), "whole": str(whole), "part": part, "K": K, "method": ""}
        obs = lambda r: {"n": rs.ii(int(r) - whole)}
        for method in ("floor", "ceil", "round"):
            if 2 * part == K and method == "round":
                continue
            tr.call("far", dict(base, which="count", method=method), lambda: s.to_n_samples(delta, fs, method=method), obs)
        tr.call("far", dict(base, which="from"), lambda: s.from_time_to_sample(fs, first, last, first + delta), obs)
        tr.call("far", dict(base, which="to"), lambda: s.to_time_to_sample(fs, first, last, first + delta), obs)

    firsts = [s.to_datetime(x) for x in FIRSTS]
    # far into long recordings
    ns_rates = [1e6 / (k + r / 1000) for k in (1, 7, 250, 1000, 40001) for r in rng.sample([0, 0.0003, 0.002, 0.011, 0.04, 0.3], 3)]
    for fs in rng.sample(RATES, 12) + ns_rates:
        drift(fs, rng.choice(firsts), rng.choice([10**6, 3 * 10**7 + 1, 10**8 + 7, 2**31 + 5, 5 * 10**9 + 1]))
    for n in (2**31 - 1, 2**31 + 1, 2**32 + 3, 10**10 + 7):
        drift(rng.choice([4096, 65536, 24000, 1000]), rng.choice(firsts), n)
    exact = [x for x in RATES if Fraction(10**15) % Fraction(x) == 0 and x > 60]
    for fs in rng.sample(exact, 8):
        whole = rng.choice([10**7 + 1, 3 * 10**8 + 7, 10**9 + 11, 2**31 + 9, 3 * 10**9 + 1])
        K = rng.choice([2, 4, 5, 8, 16] if whole > 10**8 else [8, 50, 200])
        far(fs, rng.choice(firsts), whole, rng.choice([0, 1, K - 1, rng.randint(0, K - 1)]), K)
    cases = list(ctx.cases)
    rng.shuffle(cases)
    for case in cases if ctx.thorough else cases[:250]:
        small(case, rng.choice(RATES), rng.choice(firsts))
    reps = 12 if ctx.thorough else 2
    for fs in RATES:
        for _ in range(reps):
            first = rng.choice(firsts)
            for mag in (6, 60, 1500, 10**5, 10**7):
                n = rng.randint(2, mag)
                K = rng.choice([2, 4, 5, 8])
                sample = rng.choice([rng.randint(0, n - 1), rng.randint(0, n - 1), 0, n - 1, n, -1])
                q = rng.choice([rng.randint(-3, n * K), rng.randint(-3, n * K), (n - 1) * K, (n - 1) * K + 1, -1])
                q2 = rng.choice([rng.randint(-3, n * K), (n - 1) * K, 0, -1, n * K + 5])
                one(fs, first, n, K, sample, q, q2)
        # runs of consecutive samples
        first = rng.choice(firsts)
        start = rng.choice([0, 280, 1000, 4095])
        for k in range(start, start + (60 if ctx.thorough else 8)):
            one(fs, first, start + 100, 4, k, k * 4 + 1, k * 4 + 7)
        array(fs, first, 7, list(range(7)))
        array(fs, first, 7, sorted(rng.sample(range(5000), 4)))
        array(fs, first, 7, sorted(rng.sample(range(10**8), 3)))
