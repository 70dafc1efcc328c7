"""F01 VARIMA: exact recurrences, least squares, forecasts with moving averages, automatic order selection."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from drv_cluster import quiet
from util import same_params
from statsmodels.tsa.stattools import kpss
from tslearn.forecasting import VARIMA, AutoVARIMA

SC, VS = 8192, 512


def main(d):
    rng = d.rng
    d.case_timeout = 120
    while d.more() and d.n < (30000 if THOROUGH else 2500):
        if d.part == "exact":
            exact(d, rng)
            ols(d, rng)
            if rng.random() < 0.1:
                refused(d, rng)
        elif d.part == "ma":
            forecast(d, rng)
        else:
            auto(d, rng)


def dataset(S, D):
    X = np.full((len(S), max(map(len, S)), D), np.nan)
    for i, s in enumerate(S):
        X[i, :len(s)] = s
    return X


def form(rng, X):
    r = rng.random()
    if np.isfinite(X).all():
        if r < 0.2:
            return X.tolist()
        if r < 0.3 and X.shape[2] == 1:
            return X[:, :, 0]
        if r < 0.4 and (X == np.round(X)).all():
            return X.astype(int)
    if r > 0.85:
        return np.asfortranarray(X)
    return X


def diff(x, d, S):
    x = np.asarray(x, float)
    if S:
        x = x[S:] - x[:-S]
    return np.diff(x, n=d, axis=0)


def regress(w, p, const):
    Z = np.array([np.concatenate([[1.0]] * const + [w[t - k - 1] for k in range(p)] or [[]]) for t in range(p, len(w))]).reshape(len(w) - p, -1)
    return Z


def extend(x, c, A, d, S, n):
    """integer recurrence, used to make series (the specification checks them)"""
    x = [list(v) for v in x]
    D = len(x[0])
    from math import comb
    for _ in range(n):
        y = np.array(x)
        s = y[S:] - y[:-S] if S else y
        w = np.diff(s, n=d, axis=0)
        nw = [(c[o] if c else 0) + sum(int(w[len(w) - 1 - k][i]) * A[k][i][o] for k in range(len(A)) for i in range(D)) for o in range(D)]
        v = [nw[o] - sum((-1) ** k * comb(d, k) * int(s[len(s) - k][o]) for k in range(1, d + 1)) for o in range(D)]
        if S:
            v = [v[o] + x[len(x) - S][o] for o in range(D)]
        x.append(v)
    return x


def exact(d, rng):
    D = rng.choice([1, 1, 2, 3])
    p, dd, S = rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 0, 0, 1, 2, 4])
    if D == 3:
        p = min(p, 2)
    const = rng.random() < 0.6
    A = [[[rng.choice([-1, 0, 0, 1]) for _ in range(D)] for _ in range(D)] for _ in range(p)]
    c = [rng.randint(-2, 2) for _ in range(D)] if const else []
    m = p + dd + S

    def one(k):
        x = [[rng.randint(-3, 3) for _ in range(D)] for _ in range(max(m, 1) if m else 1)]
        if m == 0:
            x = [list(c) if const else [0] * D]
        return extend(x, c, A, dd, S, k)
    n = rng.choice([1, 2, 3])
    k = p * D + const + 2
    X = []
    for i in range(n):
        x = one(k + rng.choice([0, 1, 3, 6]))
        w = diff(x, dd, S)
        Z = regress(w, p, const)
        if Z.shape[1]:
            if Z.shape[0] < Z.shape[1]:
                return
            sv = np.linalg.svd(Z, compute_uv=False)
            if sv[-1] < 1e-3 * sv[0] or sv[-1] < 0.05:
                return
        X.append(x)
    h = rng.choice([1, 2, 3, 5])
    if max(abs(v) for x in X for q in extend(x, c, A, dd, S, h) for v in q) > 20000:
        return
    B = [[[rng.randint(-5, 5) for _ in range(D)] for _ in range(m + 1 + rng.choice([0, 1, 4]))] for _ in range(rng.choice([1, 2]))]
    if max(abs(v) for x in B for q in extend(x, c, A, dd, S, h) for v in q) > 20000:
        return
    unit = rng.choice([1.0, 1.0, 0.25, 16.0]) if True else 1.0
    est = VARIMA(p=p, d=dd, q=0, with_constant=const, seasonal_period=S or rng.choice([None, 0]))
    Xa, Ba = dataset(X, D) * unit, dataset(B, D) * unit
    Z, Zb = form(rng, Xa), form(rng, Ba)
    s, sb, sp = snapshot(Z), snapshot(Zb), est.get_params()
    d.note(f"{sp} c {c} A {A} X {X} B {B} unit {unit} h {h}")

    def go():
        if rng.random() < 0.3:
            out = est.fit_predict(Z, n=h)
        else:
            if rng.random() < 0.3:
                est.fit(np.cumsum(np.ones((2, m + 6, D)), axis=1))
            out = est.fit(Z).predict(n=h)
        outb = est.predict(Zb, n=h)
        return dict(out=[[scaleds(v / unit, 16) for v in x] for x in out], outb=[[scaleds(v / unit, 16) for v in x] for x in outb])
    err, v = d.call(quiet, go)
    d.emit("continue", shard=d.n, err=err, mod=not (same(Z, s) and same(Zb, sb)), pmod=not same_params(est.get_params(), sp), A=X, B=B, c=c, AR=A, d=dd, S=S, n=h, **(v or {}))


def small(a, lim):
    a = np.asarray(a, float)
    return a.size == 0 or (np.isfinite(a).all() and np.abs(a).max() < lim)


def noise(rng, n, D, MA=0.0, AR=0.0, a=3):
    e = [[rng.randint(-a, a) for _ in range(D)] for _ in range(n)]
    x = []
    for t in range(n):
        v = []
        for o in range(D):
            z = e[t][o] + (MA * e[t - 1][(o + 1) % D] if t else 0) + (AR * x[t - 1][o] if t else 0)
            v.append(int(max(-30, min(30, round(z)))))
        x.append(v)
    return x


def integrate(x, dd, S):
    y = np.array(x)
    for _ in range(dd):
        y = np.cumsum(y, axis=0)
    if S:
        for t in range(S, len(y)):
            y[t] += y[t - S]
    return y.tolist()


def ols(d, rng):
    D, p, dd, S = rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 2]), rng.choice([0, 0, 1]), rng.choice([0, 0, 2])
    const = rng.random() < 0.6
    if p == 0 and not const:
        return
    X = []
    for _ in range(rng.choice([1, 2, 3])):
        x = integrate(noise(rng, p * D + 4 + dd + S + rng.choice([0, 3, 8]), D, AR=rng.choice([0, 0.6, -0.5])), dd, S)
        Z = regress(diff(x, dd, S), p, const)
        if Z.shape[0] <= Z.shape[1] or np.linalg.cond(Z) > 300:
            return
        X.append(x)
    kw = dict(p=p, d=dd, q=0, with_constant=const, seasonal_period=S or None)
    est = VARIMA(**kw)
    Xa = dataset(X, D)
    d.note(f"ols {kw} {X}")

    def coefs(m):
        return np.concatenate([np.ravel(m.intercept_), np.ravel(m.ar_coeffs_)])

    def go():
        each = [VARIMA(**kw).fit(np.array([x], float)) for x in X]
        est.fit(Xa)
        return each
    err, each = d.call(quiet, go)
    if err:
        d.emit("mean", shard=d.n, err=err, mod=False, pmod=False)
        return
    if not all(small(coefs(m), 15.9) for m in each + [est]):
        return
    m, x = each[0], X[0]
    d.emit("ols", shard=d.n, err="", mod=False, pmod=False, x=x, D=D, d=dd, S=S, const=bool(const), c=scaleds(m.intercept_, SC), AR=[[scaleds(r, SC) for r in a] for a in m.ar_coeffs_])
    d.emit("mean", shard=d.n, err="", mod=False, pmod=False, coef=scaleds(coefs(est), SC), each=[scaleds(coefs(m), SC) for m in each])


def start(X, p, q, const, dd, S, D):
    P = []
    for x in X:
        w = diff(x, dd, S)
        Z = regress(w, p, const)
        b = np.linalg.lstsq(Z, w[p:], rcond=None)[0] if Z.shape[1] else np.zeros((0, D))
        r = w[p:] - Z @ b
        b2 = np.linalg.lstsq(regress(r, q, False), r[q:], rcond=None)[0] if q else np.zeros((0, D))
        P.append(np.concatenate([b, b2]))
    P = np.mean(P, axis=0)
    c = P[:1].ravel() if const else np.zeros(0)
    k = int(const)
    return c, P[k:k + p * D].reshape(p, D, D), P[k + p * D:].reshape(q, D, D)


def forecast(d, rng):
    D, p, q = rng.choice([1, 1, 2]), rng.choice([0, 0, 1, 2]), rng.choice([1, 1, 2, 3, 0])
    dd, S = rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 2])
    if D == 2:
        q, p = min(q, 2), min(p, 1)
    const = rng.random() < 0.5
    n = rng.choice([1, 1, 2, 3])

    def one(T):
        return integrate(noise(rng, T, D, MA=rng.choice([0.5, 0.8, -0.6]), AR=rng.choice([0, 0, 0.5])), dd, S)
    T = p * D + q * D + dd + S + q + p + rng.choice([5, 9, 15])
    X = [one(T if rng.random() < 0.7 else T - rng.choice([1, 2, 4])) for _ in range(n)]
    Y = [one(p + q + dd + S + 1 + rng.choice([0, 1, 2, 6])) for _ in range(rng.choice([1, 2]))]
    if max(abs(v) for x in X + Y for z in x for v in z) > 60:
        return
    kw = dict(p=p, d=dd, q=q, with_constant=const, seasonal_period=S or None, max_iter=rng.choice([0, 1, 20, 50]))
    est = VARIMA(**kw)
    Xa, Ya = dataset(X, D), dataset(Y, D)
    Z, Zy = form(rng, Xa), form(rng, Ya)
    s, sy, sp = snapshot(Z), snapshot(Zy), est.get_params()
    h = rng.choice([1, 2, 3])
    d.note(f"forecast {kw} X {X} Y {Y} h {h}")

    def go():
        old = rng.random() < 0.3
        if old:
            est.fit(np.random.RandomState(0).randint(-3, 4, size=(1, T + 3, D)))
        if rng.random() < 0.3:
            out = est.fit_predict(Z, n=h)
        else:
            out = est.fit(Z).predict(n=h)
        outy = est.predict(Zy, n=h)
        outx = est.predict(Z, n=h)
        out1 = est.predict(n=1)
        fresh = VARIMA(**kw).fit(Xa)
        refit = all(np.array_equal(getattr(fresh, a), getattr(est, a)) for a in ("intercept_", "ar_coeffs_", "ma_coeffs_", "lle_"))
        return out, outy, outx, out1, refit
    err, v = d.call(quiet, go)
    mod, pm = not (same(Z, s) and same(Zy, sy)), not same_params(est.get_params(), sp)
    if err:
        d.emit("forecast", shard=d.n, err=err, mod=mod, pmod=pm)
        return
    out, outy, outx, out1, refit = v
    shp = est.ar_coeffs_.shape == (p, D, D) and est.ma_coeffs_.shape == (q, D, D) and np.shape(est.intercept_) == ((D,) if const else (0,)) and out.shape == (n, h, D) and (est.n_ts_, est.n_samples_, est.n_features_in_) == (n, max(map(len, X)), D)
    c0, A0, M0 = start(X, p, q, const, dd, S, D)
    ma = np.abs(est.ma_coeffs_).sum(axis=1).max(axis=1).sum() if q else 0
    ok = small(est.intercept_, 4) and small(est.ar_coeffs_, 3.5) and small(est.ma_coeffs_, 3.5) and ma < 1.3 and small(out, 1000) and small(outy, 1000)
    if not ok:
        d.emit("mean", shard=d.n, err="", mod=mod, pmod=pm, coef=[0], each=[[0]])
        return
    m0 = np.abs(M0).sum(axis=1).max(axis=1).sum() if q else 0
    st = bool(q) and small(c0, 4) and small(A0, 3.5) and small(M0, 3.5) and m0 < 1.3
    N = sum(len(x) - dd - S for x in X)
    var = float(np.exp(-2 * est.lle_ / N - 1 - np.log(2 * np.pi))) * VS * VS / 4
    dof = N - n * max(p, q)
    lik = var * dof < 5e8 and np.isfinite(var)

    def vs(o):
        return [[scaleds(r, VS) for r in x] for x in o]

    def cs(M):
        return [[scaleds(r, SC) for r in a] for a in M]
    # rounding per prediction: one unit per product plus half a unit of each coefficient times the value
    B = 2 + (p + q) * D * (2 + 64 * VS // (2 * SC) + 1) + 1
    d.emit("forecast", shard=d.n, err="", mod=mod, pmod=pm, X=X, Y=Y, D=D, d=dd, S=S, n=h, B=B, c=scaleds(est.intercept_, SC), AR=cs(est.ar_coeffs_), MA=cs(est.ma_coeffs_),
           c0=scaleds(c0, SC) if st else [], AR0=cs(A0) if st else [], MA0=cs(M0) if st else [], nostart=not st, nolik=not lik, var=int(round(var)) if lik else 0,
           out=vs(out), outy=vs(outy), outx=vs(outx), out1=vs(out1), shp=bool(shp), refit=bool(refit))


def auto(d, rng):
    D, n, T = rng.choice([1, 1, 2]), rng.choice([1, 2, 3]), rng.choice([24, 30, 40])
    S = rng.choice([0, 0, 0, 3])
    kind = rng.choice([0, 0, 1, 2])
    X = [integrate(noise(rng, T if rng.random() < 0.7 else T - 3, D, MA=rng.choice([0, 0.8]), AR=rng.choice([0, 0.7])), kind, S) for _ in range(n)]
    if rng.random() < 0.2:   # features of different stationarity
        X = [[[v[o] + (3 * t if o == 0 else 0) for o in range(D)] for t, v in enumerate(x)] for x in X]
    kw = dict(max_p=rng.choice([0, 1, 2, 2]), max_d=rng.choice([0, 1, 2]), max_q=rng.choice([0, 1, 2]), seasonal_period=S or None, max_iter=rng.choice([5, 15]))
    if rng.random() < 0.4:
        kw["default_d_for_non_stationarity"] = rng.choice([None, 1, 0])
    est = AutoVARIMA(**kw)
    Xa = dataset(X, D)
    Z = form(rng, Xa)
    s, sp = snapshot(Z), est.get_params()
    h = rng.choice([1, 3])
    d.note(f"auto {kw} {X}")
    st = []
    for dd in range(kw["max_d"] + 1):
        ok = True
        for x in X:
            w = diff(x, dd, S)
            for o in range(D):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        ok &= bool(kpss(w[:, o], regression="c")[1] > 0.05)
                    except Exception:
                        return
        st.append(ok)
    want = "ValueError" if not any(st) and kw.get("default_d_for_non_stationarity", 0) is None else ""
    err, _ = d.call(quiet, est.fit, Z)
    if want:
        d.emit("refused", shard=d.n, err=err, want=want)
        return
    if err:
        d.emit("auto", shard=d.n, err=err, mod=False, pmod=False)
        return
    b = est.best_estimator_

    def fit(p, q, const):
        m = VARIMA(p, b.d, q, with_constant=const, seasonal_period=kw["seasonal_period"], max_iter=kw["max_iter"])
        try:
            quiet(m.fit, Xa)
        except ValueError:
            return None, np.inf
        return m, 2 * (p + q + (2 if const else 1) - m.lle_)

    def crit(v):
        return 2000000000 if v == np.inf or np.isnan(v) else -2000000000 if v == -np.inf else int(round(max(-1e6, min(1e6, v)) * 1000))

    def go():
        m, c = fit(b.p, b.q, b.with_constant)
        nb = []
        for p in (b.p - 1, b.p, b.p + 1):
            for q in (b.q - 1, b.q, b.q + 1):
                if 0 <= p <= kw["max_p"] and 0 <= q <= kw["max_q"]:
                    nb.append([p, q, int(b.with_constant), crit(fit(p, q, b.with_constant)[1])])
        nb.append([b.p, b.q, int(not b.with_constant), crit(fit(b.p, b.q, not b.with_constant)[1])])
        k = b.d < 2
        first = [(0, 0, k)] + ([(1, 0, k)] if kw["max_p"] else []) + ([(0, 1, k)] if kw["max_q"] else []) + ([(2, 2, k)] if kw["max_p"] > 1 and kw["max_q"] > 1 else []) + ([(0, 0, False)] if b.d <= 1 else [])
        f = m.predict(n=h)
        fc = np.array_equal(f, est.predict(n=h), equal_nan=True) and np.array_equal(m.predict(Xa, n=h), est.predict(Z, n=h), equal_nan=True)
        return dict(crit=crit(c), nb=nb, start=[crit(fit(*t)[1]) for t in first], fc=bool(fc))
    err, v = d.call(quiet, go)
    d.emit("auto", shard=d.n, err=err, mod=not same(Z, s), pmod=not same_params(est.get_params(), sp), d=b.d, p=b.p, q=b.q, maxp=kw["max_p"], maxq=kw["max_q"], maxd=kw["max_d"], dflt=kw.get("default_d_for_non_stationarity", 0) or 0, st=st,
           seas=(b.seasonal_period or 0) == S, attr=(est.n_ts_, est.n_samples_, est.n_features_in_) == (n, Xa.shape[1], D), **(v or {}))


def refused(d, rng):
    p, dd, q, S = rng.choice([0, 1, 2]), rng.choice([0, 1, 2]), rng.choice([0, 0, 1]), rng.choice([0, 2])
    m = p + dd + q + S + 1
    est = VARIMA(p, dd, q, seasonal_period=S or None, with_constant=False)
    X = np.array([[[rng.randint(-3, 3)] for _ in range(m + 6)] for _ in range(2)], float)
    bad = X[:, :m].copy()
    bad[1, m - 1:] = np.nan
    d.note(f"too short {est}")
    err, _ = d.call(quiet, est.predict, n=2)
    d.emit("refused", err=err, want="NotFittedError")
    if m > 1:
        err, _ = d.call(quiet, est.fit, bad)
        d.emit("refused", err=err, want="ValueError")
    e2, _ = d.call(quiet, est.fit, X)
    d.emit("refused", err=e2, want="")
    if m > 1:
        err, _ = d.call(quiet, est.predict, bad)
        d.emit("refused", err=err, want="ValueError")
    err, _ = d.call(quiet, est.predict, X[:, :m])
    d.emit("refused", err=err, want="")
    err, _ = d.call(quiet, est.predict, np.zeros((1, m + 2, 2)))
    d.emit("refused", err=err, want="ValueError")


run(main)
