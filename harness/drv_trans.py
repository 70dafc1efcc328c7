"""T01 scalers, T02 resampler / imputer / synchroniser."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from tslearn.preprocessing import (TimeSeriesScalerMinMax, TimeSeriesScalerMeanVariance, TimeSeriesResampler,
                                   TimeSeriesImputer, TimeSeriesFeatureSynchronizer)

nan = float("nan")


def fl(x, unit=1.0, off=0.0):
    if isinstance(x, list):
        return [fl(v, unit, off) for v in x]
    return nan if x == NAN else x * unit + off


def arr(A, unit=1.0, off=0.0):
    return np.array(fl(A, unit, off), float)


def data(rng, n, sz, d, lo, hi, miss=0.0, padp=0.5, minsz=1):
    """padded dataset of integers: series of different lengths, missing values inside"""
    A = []
    for _ in range(n):
        s = sz if rng.random() > padp else rng.randint(minsz, sz)
        const = rng.random() < 0.12
        c = rng.randint(lo, hi)
        x = [[NAN if rng.random() < miss else (c if const else rng.randint(lo, hi)) for _ in range(d)] for _ in range(s)]
        A.append(x + [[NAN] * d] * (sz - s))
    return A


def trim(A):
    m = max([t + 1 for s in A for t, p in enumerate(s) if any(v != NAN for v in p)] + [0])
    return [s[:m] for s in A]


def rep(rng, A, d, unit=1.0, off=0.0):
    a = arr(A, unit, off)
    r = rng.random()
    has = np.isnan(a).any()
    if r < 0.15 and not has:
        return a.tolist()
    if r < 0.3 and not has and unit == 1.0:
        return a.astype(int)
    if r < 0.4:
        return np.asfortranarray(a)
    if r < 0.5 and d == 1 and a.shape[1] > 0:
        return a[:, :, 0]
    return a


UNITS = [1.0, 1.0, 1.0, 0.25, 0.1, 3.0, 1e-6, 1e5, 0.7]


def t01(d):
    rng = d.rng
    while d.more() and d.n < (60000 if THOROUGH else 6000):
        n, sz, D = rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 4, 6]), rng.choice([1, 1, 2, 3])
        hi = rng.choice([1, 3, 5])
        perts, perf = rng.random() < 0.5, rng.random() < 0.5
        unit = rng.choice(UNITS if perts else [1.0, 1.0, 0.25, 0.1, 3.0])
        off = unit * rng.choice([0, 0, 0, 0, 100, -1000, 7])
        A = trim(data(rng, n, sz, D, -hi, hi, rng.choice([0, 0, 0.2])))
        if not A[0]:
            continue
        fit_transform = rng.random() < 0.4
        B = A if fit_transform or rng.random() < 0.2 else trim(data(rng, rng.choice([1, 2, 3]), rng.choice([1, 2, 4]), D, -hi, hi, rng.choice([0, 0, 0.2])))
        if not B[0]:
            continue
        a, b = rep(rng, A, D, unit, off), rep(rng, B, D, unit, off)
        if b is not a and fit_transform:
            b = a
        sa, sb = snapshot(a), snapshot(b)
        how = rng.choice(["kw", "set", "refit"])
        mm = d.part == "minmax"
        if mm:
            lo, hi_ = rng.choice([((0, 1), (1, 1)), ((0, 1), (1, 1)), ((-1, 1), (1, 1)), ((2, 1), (5, 1)), ((-3, 1), (-1, 2)), ((0, 1), (100, 1))])
            kw = dict(value_range=(lo[0] / lo[1], hi_[0] / hi_[1]), per_timeseries=perts, per_feature=perf)
            if kw["value_range"] == (0.0, 1.0) and rng.random() < 0.5:
                del kw["value_range"]
            cls = TimeSeriesScalerMinMax
        else:
            mu, std = rng.choice([(0.0, 1.0), (0.0, 1.0), (2.0, 0.5), (-1.5, 3.0), (0.0, 2.0)])
            kw = dict(mu=mu, std=std, per_timeseries=perts, per_feature=perf)
            cls = TimeSeriesScalerMeanVariance
        for q in ("per_timeseries", "per_feature"):
            if kw[q] and rng.random() < 0.5:
                del kw[q]
        d.note(f"{cls.__name__} {kw} fit {A} transform {B} unit {unit} off {off}")

        def go():
            if how == "kw":
                s = cls(**kw)
            elif how == "set":
                s = cls().set_params(**kw)
            else:
                s = cls(**kw).fit(np.arange(12.0).reshape(2, 2, 3))      # an earlier fit leaves no trace
            if fit_transform:
                return s.fit_transform(a)
            s.fit(a)
            if rng.random() < 0.2:
                s.transform(a)
            return s.transform(b)
        err, out = d.call(go)
        ev = dict(A=A, B=B, d=D, perts=perts, perfeat=perf, err=err, mod=not (same(a, sa) and same(b, sb)), how=how, fitt=fit_transform, u=unit, off=off)
        from fractions import Fraction
        fu = Fraction(unit).limit_denominator(10**7)
        rel = 1e-11 * max(1.0, abs(off / unit)) * 3
        if mm:
            d.emit("minmax", lo=list(lo), hi=list(hi_), unit=[fu.numerator, fu.denominator] if fu else [0, 1], out=fracs(out, 20000, rel) if not err else [], **ev)
        else:
            if not err:
                z = (to_np(out) - mu) / std
                z = z.tolist()
                z = [[[[NAN, 0, 1] if v != v else [(v > 1e-9) - (v < -1e-9)] + frac(v * v, 80000, 10 * rel) for v in p] for p in s] for s in z]
            d.emit("meanvar", unit=[fu.numerator, fu.denominator], out=z if not err else [], mu=int(mu * 10), std=int(std * 10), **ev)
        if rng.random() < 0.05:
            what = rng.choice(["range", "features", "unfitted"])

            def bad():
                if what == "range" and mm:
                    return cls(value_range=rng.choice([(1.0, 0.0), (2.0, 2.0)])).fit_transform(arr(A))
                if what == "unfitted":
                    return cls().transform(arr(A))
                return cls().fit(arr(A)).transform(np.zeros((2, 3, D + 1)))
            err, _ = d.call(bad)
            d.emit("refuse", what=what, err=err)


def t02(d):
    rng = d.rng
    while d.more() and d.n < (60000 if THOROUGH else 6000):
        n, sz, D = rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 1, 2, 3])
        unit = rng.choice([1.0, 1.0, 0.25, 8.0, 0.1, 3.7])
        pre = rng.random() < 0.3       # the transformer was fitted on (other) data before

        def run_(est, b, bb, **kw):
            def go():
                if pre:
                    est.fit(np.arange(2.0 * 4 * D).reshape(2, 4, D))
                    return est.transform(b, **kw)
                return est.fit_transform(b, **kw)
            s = snapshot(b)
            err, out = d.call(go)
            return err, out, not same(b, s)
        if d.part == "resample":
            B = trim(data(rng, n, sz, D, -9, 9))
            m = rng.choice([-1, 0, 1, 2, 3, 4, 5, 7, 11])
            b = rep(rng, B, D, unit)
            if rng.random() < 0.2:
                b = [[list(fl(p, unit)) for p in s if p[0] != NAN] for s in B]
            est = TimeSeriesResampler(sz=m) if m != -1 or rng.random() < 0.5 else TimeSeriesResampler()
            d.note(f"resample {m} {B} unit {unit}")
            err, out, mod = run_(est, b, B)
            d.emit("resample", B=B, d=D, sz=m, err=err, out=fracs(to_np(out) / unit, 2000) if not err else [], mod=mod, u=unit)
        elif d.part == "impute":
            B = data(rng, n, sz, D, -9, 9, rng.choice([0.1, 0.4, 0.7]))
            meth = rng.choice(["mean", "median", "ffill", "bfill", "linear", "constant", "callable"])
            keep = rng.random() < 0.5
            c = [rng.randint(-5, 5), 1]
            if meth == "constant" and rng.random() < 0.2:
                c = [NAN, 1]
            b = rep(rng, B, D, unit)
            kw = {} if keep and rng.random() < 0.5 else dict(keep_trailing_nans=keep)
            val = nan if c[0] == NAN else c[0] * unit
            if meth == "callable":
                est = TimeSeriesImputer(method=lambda ts: np.where(np.isnan(ts), val, ts), **kw)
            elif meth == "constant":
                est = TimeSeriesImputer(method=meth, value=val, **kw)
            else:
                est = TimeSeriesImputer(method=meth, **kw)
            d.note(f"impute {meth} {keep} {B} unit {unit} {c}")
            err, out, mod = run_(est, b, B)
            d.emit("impute", B=B, d=D, m="constant" if meth == "callable" else meth, how=meth, c=c, keep=keep, err=err, out=fracs(to_np(out) / unit, 2000) if not err else [], mod=mod, u=unit)
            if rng.random() < 0.01:
                err, _ = d.call(lambda: TimeSeriesImputer(method="nope").fit_transform(arr(B)))
                d.emit("refuse", what="unknown method", err=err)
        else:
            B = []
            szs = []
            for _ in range(n):
                f = [rng.randint(1, sz) for _ in range(D)]
                szs.append(f)
                B.append([[rng.randint(-9, 9) if t < f[k] else NAN for k in range(D)] for t in range(sz)])
            B = trim(B)
            L = len(B[0])
            ref = rng.randrange(D)
            T = []
            stamped = rng.random() < 0.5
            for i in range(n):
                cols = []
                for k in range(D):
                    t, c = rng.randint(0, 5), []
                    for _ in range(szs[i][k]):
                        c.append(t)
                        t += rng.randint(1, 4)
                    cols.append(c + [NAN] * (L - szs[i][k]))
                T.append([[cols[k][t] for k in range(D)] for t in range(L)])
            b = rep(rng, B, D, unit)
            kw = {}
            badstamps = stamped and rng.random() < 0.1 and any(s > 1 for f in szs for s in f)
            if stamped:
                un = rng.choice(["D", "h", "s", "ms"])
                ts = np.array([[[np.datetime64("NaT") if v == NAN else np.datetime64(v + 1000, un) for v in p] for p in s] for s in T], dtype=f"datetime64[{un}]")
                if badstamps:
                    i, k = rng.choice([(i, k) for i in range(n) for k in range(D) if szs[i][k] > 1])
                    t = rng.randrange(1, szs[i][k])
                    ts[i, t, k] = ts[i, t - 1, k] - rng.choice([0, 1])
                kw["timestamps"] = ts
            est = TimeSeriesFeatureSynchronizer(reference_feature_index=ref) if ref or rng.random() < 0.5 else TimeSeriesFeatureSynchronizer()
            d.note(f"sync {ref} {B} {T} unit {unit}")
            st = snapshot(kw)
            err, out, mod = run_(est, b, B, **kw)
            if badstamps:
                d.emit("refuse", what="timestamps that do not increase", err=err)
                continue
            d.emit("sync", B=B, d=D, ref=ref + 1, stamped=stamped, T=T if stamped else [], err=err, out=fracs(to_np(out) / unit, 5000) if not err else [], mod=mod or not same(kw, st), u=unit)
            if stamped and rng.random() < 0.05:
                err, _ = d.call(lambda: TimeSeriesFeatureSynchronizer().fit_transform(arr(B), timestamps=kw["timestamps"][:, :-1] if L > 1 else np.concatenate([kw["timestamps"]] * 2, axis=1)))
                d.emit("refuse", what="timestamps of another shape", err=err)


def main(d):
    {"T01": t01, "T02": t02}[d.prop](d)


run(main)
