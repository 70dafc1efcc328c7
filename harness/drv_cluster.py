"""C02 k-means, C03 kernel k-means, C05 density-based clustering, C06 silhouette."""
import contextlib
import io
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from cons import CONS
from drv_bary import data, strip, arr, rep, npaths
from math import lcm, sqrt, isqrt
import torch
from tslearn.clustering import TimeSeriesKMeans, KernelKMeans, TimeSeriesDBSCAN, silhouette_score
from tslearn.metrics import cdist_dtw, cdist_soft_dtw, cdist_gak, cdist_ctw, cdist_soft_dtw_normalized, cdist_frechet
from tslearn.utils import to_time_series_dataset

nan = float("nan")


def erep(rng, A, D, unit, nanok=True):
    """the forms of a dataset that estimators take"""
    a = arr(A, unit)
    r = rng.random()
    has = bool(np.isnan(a).any())
    if r < 0.1:
        return a.tolist()
    if r < 0.2:
        return torch.tensor(a)
    if r < 0.3 and D == 1:
        return a[:, :, 0]
    if r < 0.4 and nanok:
        return np.concatenate([a, np.full((len(A), 1, D), nan)], axis=1)
    if r < 0.5 and not has and unit == 1.0:
        return a.astype(int)
    if r < 0.55:
        return np.asfortranarray(a)
    return a


SAK = [c for c in CONS if c[0]["t"] != "ita"]
UNITS = [1.0, 1.0, 1.0, 0.25, 100.0]


def main(d):
    rng = d.rng
    while d.more() and d.n < (60000 if THOROUGH else 6000):
        PARTS[d.part](d, rng)


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


# ---------------------------------------------------------------- k-means
def kmeans(d, rng):
    if rng.random() < 0.04:
        return retry(d, rng, False)
    {0: kmrun, 1: cover, 2: kmbest, 3: kmfit, 4: kmfit}.get(rng.randrange(9), lloyd)(d, rng)


def retry(d, rng, kern):
    """initialisations that mostly leave a cluster empty: attempts are repeated, up to ten"""
    N = 40
    metric = rng.choice(["euclidean", "dtw"])
    seed0 = rng.randrange(10 ** 6)
    ni = rng.choice([1, 1, 2, 3])
    if kern:
        # far apart: an assignment stays what it is; 6 of 27 have no empty cluster
        X = (np.arange(3)[:, None, None] * 50.0 + d.nprng.randint(0, 3, (3, rng.choice([2, 3]), 1)))
        mk = lambda s: KernelKMeans(n_clusters=3, n_init=ni, max_iter=rng.choice([2, 10]), random_state=s)  # noqa
    else:
        # two centres drawn among seven series, six of which are equal: 2 of 7 draws do
        L = rng.choice([1, 2, 3])
        X = np.zeros((7, L, 1)) + rng.randint(-3, 3)
        X[rng.randrange(7)] += rng.choice([2.0, 5.0])
        mk = lambda s: TimeSeriesKMeans(n_clusters=2, n_init=ni, init="random", metric=metric, max_iter=rng.choice([1, 5]), random_state=s)  # noqa
    d.note(f"retry {'kernel k-means' if kern else metric} {X.tolist()} n_init={ni} seeds {seed0}+")

    def go():
        return sum(mk(seed0 + i).fit(X)._X_fit is not None for i in range(N))
    err, v = d.call(go)
    d.emit("retry", err=err, mod=False, n=N, succ=int(v or 0))


def lloyd(d, rng):
    metric = rng.choice(["euclidean", "dtw"])
    D = rng.choice([1, 1, 2, 3])
    k = rng.choice([1, 2, 2, 3, 3])
    n = rng.randint(max(k, 2), 6)
    L = rng.choice([1, 2, 3, 4]) if metric == "dtw" else rng.choice([1, 2, 3, 5])
    hi = rng.choice([2, 5, 9])
    gc, gkw = rng.choice(SAK) if metric == "dtw" and rng.random() < 0.5 else SAK[0]
    A = data(rng, n, L, D, hi, metric == "dtw" and rng.random() < 0.5)
    L = len(A[0])
    m = L if metric == "euclidean" else rng.choice([L, L, 1, 2, 3])
    C = [[[rng.randint(-hi, hi) for _ in range(D)] for _ in range(m)] for _ in range(k)]
    if metric == "dtw" and any(npaths(c, strip(s), D) > 2 for c in C for s in A):
        return
    unit = rng.choice(UNITS)
    a = erep(rng, A, D, unit, metric == "dtw")
    c0 = np.array(C, float) * unit
    if unit == 1.0 and rng.random() < 0.2 and metric == "euclidean":
        c0 = c0.astype(int)
    kw = dict(metric_params=dict(gkw)) if gkw or rng.random() < 0.3 else {}
    if rng.random() < 0.2:
        kw["n_jobs"] = rng.choice([1, 2])
    if rng.random() < 0.1:
        kw["dtw_inertia"] = metric == "dtw"
    s, sc = snapshot(a), c0.copy()
    d.note(f"lloyd {metric} {A} init {C} {kw} unit {unit}")
    est = TimeSeriesKMeans(n_clusters=k, max_iter=1, metric=metric, max_iter_barycenter=1, init=c0, random_state=0, **kw)

    def go():
        est.fit(a)
        if getattr(est, "_X_fit", None) is None:
            return None
        lab = [int(x) + 1 for x in est.labels_]
        T = np.asarray(est.transform(a), float) / unit
        return est.cluster_centers_ / unit, lab, T, [int(x) + 1 for x in est.predict(a)], float(est.inertia_) / unit ** 2, int(est.n_iter_)
    err, v = d.call(go)
    cm = dict(metric=metric, A=A, C0=C, d=D, gc=gc, un=unit)
    mod = not (same(a, s) and same(c0, sc))
    if err == "" and v is None:
        # every attempt left a cluster empty: nothing is specified
        d.emit("lloyd0", **cm) if False else None
        return
    if err:
        d.emit("lloyd", err=err, mod=mod, C1=[], u=0, T2=[], lab=[], pred=[], inert=0, iter=0, **cm)
        return
    C1, lab, T, pred, inert, it = v
    C1 = fracs(C1, 2000)
    u = 1
    for c in C1:
        for p in c:
            for q in p:
                u = lcm(u, q[1])
    if u > 60 or (u * 2 * hi) ** 2 * max(L, m) * 2 * D * n > 1.5e9:
        u = 0
    d.emit("lloyd", err="", mod=mod, C1=C1, u=u, T2=ivals(T ** 2 * u * u, 1e-8), lab=lab, pred=pred, inert=ival(inert * n * u * u, 1e-8), iter=it, **cm)


def blobs(d, rng, n, L, D, k, var):
    """k groups of random walks, 3 digits after the comma"""
    P = d.nprng.randn(k, L, D).cumsum(1) * rng.choice([0.5, 1, 3])
    X = [np.round(P[i % k] + 0.5 * d.nprng.randn(L, D), 3) for i in range(n)]
    rng.shuffle(X)
    if var:
        X = [x[:rng.randint(2, L)] for x in X]
    return X


def kmrun(d, rng):
    metric = rng.choice(["euclidean", "dtw"])
    D, k = rng.choice([1, 1, 2]), rng.choice([2, 2, 3])
    n, L = rng.choice([6, 10, 20]), rng.choice([4, 6, 10])
    X = blobs(d, rng, n, L, D, rng.choice([k, k + 1]), metric == "dtw" and rng.random() < 0.4)
    Xa = to_time_series_dataset(X)
    L = Xa.shape[1]
    full = [i for i in range(n) if len(X[i]) == L]
    if len(full) < k:
        return
    gc, gkw = rng.choice(SAK) if metric == "dtw" and rng.random() < 0.5 else SAK[0]
    c0 = Xa[rng.sample(full, k)].copy()
    K = rng.choice([1, 2, 3, 6, 10])
    tol = rng.choice([0.0, 1e-6, 1e-2, 0.1, 1.0])
    mib = rng.choice([1, 2, 5]) if metric == "dtw" else 100
    kw = dict(metric=metric, max_iter_barycenter=mib, metric_params=dict(gkw), n_clusters=k, random_state=0)
    d.note(f"kmrun {[x.tolist() for x in X]} {c0.tolist()} {kw} K={K} tol={tol}")

    def dist0():
        D0 = np.sqrt(((Xa[:, None] - c0[None]) ** 2).sum((2, 3))) if metric == "euclidean" else cdist_dtw(Xa, c0, **gkw)
        return float((D0.min(1) ** 2).mean())

    def go():
        chain, costs = [c0], [dist0()]
        for _ in range(K):
            e = TimeSeriesKMeans(max_iter=1, init=chain[-1], **kw).fit(Xa)
            if e._X_fit is None:
                return None
            chain.append(e.cluster_centers_)
            costs.append(float(e.inertia_))
        e = TimeSeriesKMeans(max_iter=K, tol=tol, init=c0, n_jobs=rng.choice([None, None, 2]), **kw).fit(Xa)
        return chain, costs, e.cluster_centers_, float(e.inertia_), int(e.n_iter_)
    err, v = d.call(go)
    if err:
        d.emit("kmrun", err=err, mod=False, chain=[], costs=[], out=[], tol=0, maxit=0, inert=0, iter=0)
        return
    if v is None:
        return
    chain, costs, out, inert, it = v
    S = 1e6
    if max(costs) > 1800 or max(np.abs(c).max() for c in chain) > 1800:
        S = 1e4

    def flat(c):
        return scaleds(np.asarray(c).reshape(k, -1), S)
    d.emit("kmrun", err="", mod=False, chain=[flat(c) for c in chain], costs=[scaled(c, S) for c in costs], out=flat(out), tol=scaled(tol, S),
           maxit=K, inert=scaled(inert, S), iter=it, metric=metric)


def cover(d, rng):
    metric = rng.choice(["euclidean", "dtw"])
    D, n, L = rng.choice([1, 2, 3]), rng.choice([2, 3, 4, 5]), rng.choice([2, 3, 5])
    X = np.round(d.nprng.randn(n, L, D) * 2, 2)
    init = rng.choice(["k-means++", "random", "array"])
    ia = init if init != "array" else X[rng.sample(range(n), n)].copy()
    d.note(f"cover {metric} {X.tolist()} {init}")
    est = TimeSeriesKMeans(n_clusters=n, metric=metric, init=ia, random_state=rng.randrange(99), max_iter=rng.choice([1, 5, 50]), n_init=rng.choice([1, 2]))

    def go():
        est.fit(X)
        return scaled(est.inertia_, 1e6), [int(x) for x in est.labels_]
    err, v = d.call(go)
    d.emit("cover", err=err, mod=False, inert=v[0] if v else 0, lab=v[1] if v else [], metric=metric, init=init)


def kmbest(d, rng):
    metric = rng.choice(["euclidean", "euclidean", "dtw"])
    k, n, L, D = rng.choice([2, 3, 4]), rng.choice([8, 15, 25]), rng.choice([3, 6]), rng.choice([1, 2])
    X = blobs(d, rng, n, L, D, k + 2, metric == "dtw" and rng.random() < 0.4)
    Xa = to_time_series_dataset(X)
    kw = dict(n_clusters=k, metric=metric, init=rng.choice(["random", "k-means++"]), random_state=rng.randrange(999), max_iter=rng.choice([1, 2, 10]), max_iter_barycenter=2)
    more = rng.choice([2, 4])
    d.note(f"kmbest {[x.tolist() for x in X]} {kw} n_init={more}")

    def go():
        a = TimeSeriesKMeans(n_init=1, **kw).fit(Xa)
        b = TimeSeriesKMeans(n_init=more, **kw).fit(Xa)
        return (scaled(a.inertia_, 1e5), scaled(b.inertia_, 1e5)) if a._X_fit is not None else None
    err, v = d.call(go)
    if err or v:
        d.emit("kmbest", err=err, mod=False, one=v[0] if v else 0, best=v[1] if v else 0)


def rdist(metric, X, C, kw):
    if metric == "euclidean":
        return np.sqrt(((X[:, None] - C[None]) ** 2).sum((2, 3)))
    return (cdist_dtw if metric == "dtw" else cdist_soft_dtw)(X, C, **kw)


def kmfit(d, rng):
    metric = rng.choice(["euclidean", "dtw", "dtw", "softdtw"])
    k, n, L, D = rng.choice([1, 2, 3]), rng.choice([5, 8, 12]), rng.choice([3, 5, 8]), rng.choice([1, 1, 2, 3])
    X = blobs(d, rng, n, L, D, k, metric != "euclidean" and rng.random() < 0.5)
    Xa = to_time_series_dataset(X)
    L = Xa.shape[1]
    s = rng.choice([1.0, 1.0, 10.0, 0.1])
    Xa = Xa * s
    mp = None
    if metric == "dtw" and rng.random() < 0.5:
        mp = dict(rng.choice(SAK)[1])
    elif metric == "softdtw":
        mp = rng.choice([None, dict(gamma=0.1), dict(gamma=1.0), dict(gamma=0.5)])
    ini = rng.choice(["k-means++", "random", "array"])
    ia = ini if ini != "array" else d.nprng.randn(k, L, D) * s
    kw = dict(n_clusters=k, metric=metric, metric_params=mp, init=ia, random_state=rng.randrange(99), max_iter=rng.choice([1, 2, 5]), max_iter_barycenter=rng.choice([1, 3]),
              n_init=rng.choice([1, 1, 2]), n_jobs=rng.choice([None, None, 2]), dtw_inertia=rng.random() < 0.2, tol=rng.choice([1e-6, 0.0, 1.0]))
    if rng.random() < 0.1:
        kw["verbose"] = 1
    rin = Xa
    r = rng.random()
    if r < 0.2:
        rin = Xa.tolist()
    elif r < 0.3:
        rin = torch.tensor(Xa)
    elif r < 0.4 and metric != "euclidean":
        rin = np.concatenate([Xa, np.full((n, 2, D), nan)], axis=1)
    # other series to predict: other lengths are allowed unless the distance is Euclidean
    Ym = L if metric == "euclidean" else rng.choice([L, L + 2, max(2, L - 1)])
    Y = d.nprng.randn(rng.choice([1, 3]), Ym, D) * s
    sx, si, sp = snapshot(rin), snapshot(ia), snapshot(mp)
    sY = Y.copy()
    d.note(f"kmfit {Xa.tolist()} {kw} predict {Y.tolist()}")
    est = TimeSeriesKMeans(**kw)

    def go():
        quiet(est.fit, rin)
        if est._X_fit is None:
            return None
        C = est.cluster_centers_
        out = dict(lab=[int(x) + 1 for x in est.labels_], pred0=[int(x) + 1 for x in quiet(est.predict, rin)], pred=[int(x) + 1 for x in quiet(est.predict, Y)],
                   T=quiet(est.transform, Y), shape=list(C.shape), full=bool(np.isfinite(C).all()), inert=float(est.inertia_), iter=int(est.n_iter_))
        p = mp or {}
        out["R"], out["R0"] = rdist(metric, Y, C, p), rdist(metric, Xa, C, p)
        if kw["dtw_inertia"] and metric != "dtw":
            D0 = cdist_dtw(Xa, C)
        else:
            D0 = out["R0"]
        out["S0"] = [float(D0[i, out["lab"][i] - 1]) ** 2 for i in range(n)]
        e2 = TimeSeriesKMeans(**kw)
        out["fp"] = [int(x) + 1 for x in quiet(e2.fit_predict, rin)]
        return out
    err, v = d.call(go)
    mod = not (same(rin, sx) and same(Y, sY))
    pmod = not (same(ia, si) and same(mp, sp))
    cm = dict(metric=metric, kk=k, maxit=kw["max_iter"], want=[k, L, D])
    if err:
        d.emit("kmfit", err=err, mod=mod, pmod=pmod, T=[], R=[], R0=[], lab=[], pred0=[], pred=[], inert=0, S0=[], shape=[], full=True, iter=1, fp=[], exc=d.last_exc if err != "Hang" else "", **cm)
        return
    if v is None:
        return
    S = 1e5 if max(np.abs(v["R"]).max(), np.abs(v["R0"]).max()) < 1000 else 1e3
    big = max(v["S0"])
    S2 = 1e5 if big * n < 15000 else 1e2
    if big * n * S2 > 1.8e9:
        return
    if metric == "dtw":     # admissible region between center and series must exist
        pass
    d.emit("kmfit", err="", mod=mod, pmod=pmod, T=scaleds(v["T"], S), R=scaleds(v["R"], S), R0=scaleds(v["R0"], S), lab=v["lab"], pred0=v["pred0"], pred=v["pred"],
           inert=scaled(v["inert"], S2), S0=[scaled(x, S2) for x in v["S0"]], shape=v["shape"], full=v["full"], iter=v["iter"], fp=v["fp"], **cm)


# ---------------------------------------------------------------- kernel k-means
KERNELS = [("linear", {}, lambda u, v: u @ v.T), ("polynomial", dict(degree=2, gamma=1, coef0=1), lambda u, v: (u @ v.T + 1) ** 2),
           ("poly", dict(degree=3, gamma=1, coef0=0), lambda u, v: (u @ v.T) ** 3), ("linear", None, lambda u, v: u @ v.T)]


def kernel(d, rng):
    if rng.random() < 0.02:
        return retry(d, rng, True)
    if rng.random() < 0.25:
        return gak(d, rng)
    D, k = rng.choice([1, 1, 2]), rng.choice([1, 2, 2, 3])
    n, L, hi = rng.randint(max(3, k), 5 if k == 3 else 6), rng.choice([1, 2, 3]), rng.choice([2, 3, 4])
    name, kp, f = rng.choice(KERNELS)
    kp = None if kp is None else dict(kp)
    X = d.nprng.randint(-hi, hi + 1, (n, L, D))
    Y = d.nprng.randint(-hi, hi + 1, (rng.choice([1, 2, 4]), L, D))
    K = f(X.reshape(n, -1), X.reshape(n, -1))
    KY = f(Y.reshape(len(Y), -1), X.reshape(n, -1))
    if max(abs(K).max(), abs(KY).max()) > 3000:
        return
    sw = [rng.randint(1, 4) for _ in range(n)] if rng.random() < 0.6 else [1] * n
    ws = rng.choice([1.0, 0.5, 10.0])
    w = None if set(sw) == {1} and rng.random() < 0.7 else np.array(sw) * ws
    a, b = X.astype(float), Y.astype(float)
    if rng.random() < 0.2:
        a = X
    elif rng.random() < 0.2:
        a = X.tolist()
    elif rng.random() < 0.1:
        a = torch.tensor(X.astype(float))
    kw = dict(n_clusters=k, kernel=name, kernel_params=kp, random_state=rng.randrange(999), n_jobs=rng.choice([None, None, 2]))
    maxit = rng.choice([1, 2, 3, 50])
    s, sb, sp, sw_ = snapshot(a), b.copy(), snapshot(kp), snapshot(w)
    d.note(f"kernel {X.tolist()} weights {w} {kw} max_iter={maxit} predict {Y.tolist()}")
    cm = dict(K=K.tolist(), KY=KY.tolist(), sw=sw, kk=k)
    if rng.random() < 0.25:
        def go():
            p = dict(kw, max_iter=maxit)
            one = KernelKMeans(n_init=1, **p).fit(a, sample_weight=w)
            more = KernelKMeans(n_init=rng.choice([2, 3, 5]), **p).fit(a, sample_weight=w)
            return (scaled(one.inertia_, 1e3), scaled(more.inertia_, 1e3)) if one._X_fit is not None else None
        err, v = d.call(go)
        if err or v:
            d.emit("kmbest", err=err, mod=False, one=v[0] if v else 0, best=v[1] if v else 0)
        return
    if rng.random() < 0.6:
        est = KernelKMeans(max_iter=maxit, n_init=rng.choice([1, 1, 2, 4]), tol=rng.choice([1e-6, 0.0, 5.0]), **kw)

        def go():
            est.fit(a, sample_weight=w)
            if est._X_fit is None:
                return None
            p = [int(x) + 1 for x in est.predict(b)]
            fp = [int(x) + 1 for x in est.labels_]
            if w is None:
                fp = [int(x) + 1 for x in KernelKMeans(**est.get_params()).fit_predict(a)]
            return [int(x) + 1 for x in est.labels_], float(est.inertia_), p, fp, int(est.n_iter_)
        err, v = d.call(go)
        mod = not (same(a, s) and same(b, sb) and same(w, sw_))
        if err or v:
            v = v or ([], 0, [], [], 1)
            d.emit("kernel", err=err, mod=mod, pmod=not same(kp, sp), lab=v[0], inert=frac(v[1], 2000, 1e-10), pred=v[2], fp=v[3], iter=v[4], maxit=maxit, **cm)
        return
    # one attempt stopped after 1, 2, ... iterations
    tolden = rng.choice([1000, 10, 1])

    def go():
        labs, inerts, its = [], [], []
        for i in range(1, 6):
            e = KernelKMeans(max_iter=i, n_init=1, tol=1 / tolden, verbose=1, **kw)
            o = io.StringIO()
            with contextlib.redirect_stdout(o):
                e.fit(a, sample_weight=w)
            if "Resumed" in o.getvalue():
                break
            labs.append([int(x) + 1 for x in e.labels_])
            inerts.append(frac(e.inertia_, 2000, 1e-10))
            its.append(int(e.n_iter_))
        return labs, inerts, its
    err, v = d.call(go)
    v = v or ([], [], [])
    d.emit("kchain", err=err, mod=not (same(a, s) and same(w, sw_)), labs=v[0], inerts=v[1], iters=v[2], tolden=tolden, **cm)


def gak(d, rng):
    D, k = rng.choice([1, 2]), rng.choice([1, 2, 2])
    n, L = rng.randint(3, 6), rng.choice([2, 3, 5])
    X = blobs(d, rng, n, L, D, k, rng.random() < 0.5)
    Xa = to_time_series_dataset(X)
    Y = to_time_series_dataset(blobs(d, rng, 3, rng.choice([L, L + 1]), D, 2, rng.random() < 0.5))
    sg = rng.choice([None, 0.5, 2.0, 5.0, "auto"])
    kp = {} if sg is None else dict(sigma=sg)
    if rng.random() < 0.3 and sg is None:
        kp = None
    kw = dict(n_clusters=k, kernel_params=kp, random_state=rng.randrange(999), n_jobs=rng.choice([None, None, 2]), n_init=rng.choice([1, 3]), max_iter=rng.choice([1, 3, 50]))
    sw = [rng.randint(1, 4) for _ in range(n)] if rng.random() < 0.5 else [1] * n
    sp = snapshot(kp)
    sx = Xa.copy()
    Xb = Xa * 3
    d.note(f"gak {Xa.tolist()} weights {sw} {kw}")

    def go():
        est = KernelKMeans(**kw).fit(Xa, sample_weight=np.array(sw, float))
        if est._X_fit is None:
            return None
        sigma = 1.0 if sg is None else est.sigma_gak_ if sg == "auto" else sg
        out = dict(lab=[int(x) + 1 for x in est.labels_], inert=scaled(est.inertia_, 1e6), pred=[int(x) + 1 for x in est.predict(Y)],
                   K=scaleds(cdist_gak(Xa, sigma=sigma), 1e6), KY=scaleds(cdist_gak(Y, Xa, sigma=sigma), 1e6))
        # fitted again to something else: as if it were new
        est.fit(Xb)
        fresh = KernelKMeans(**kw).fit(Xb)
        r = est._X_fit is None
        if not r:
            r = bool((est.labels_ == fresh.labels_).all() and est.inertia_ == fresh.inertia_ and est.sigma_gak_ == fresh.sigma_gak_)
        out["refit"] = r
        return out
    err, v = d.call(go)
    if err or v:
        v = v or dict(lab=[], inert=0, pred=[], K=[], KY=[], refit=True)
        d.emit("gak", err=err, mod=not same(Xa, sx), pmod=not same(kp, sp), sw=sw, kk=k, **v)


# ---------------------------------------------------------------- DBSCAN
def eps_of(rng, e2):
    if isqrt(e2) ** 2 == e2 and rng.random() < 0.7:
        return float(isqrt(e2))
    return sqrt(e2 + 0.5)


def dbscan(d, rng):
    D, n = rng.choice([1, 1, 2]), rng.choice([1, 2, 4, 6, 8, 10])
    L, hi = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 4])
    metric = rng.choice(["dtw", "dtw", "frechet", "euclidean", "precomputed", "ctw", "softdtw_normalized"])
    mts = rng.choice([1, 2, 2, 3, 4])
    kw = dict(n_jobs=rng.choice([None, None, 1, 2]))
    cm = dict(metric=metric, mts=mts, gc=SAK[0][0], D=[], A=[], d=D)
    unit = 1.0
    if metric == "precomputed":
        M = d.nprng.randint(0, 8, (n, n))
        M = np.triu(M, 1) + np.triu(M, 1).T
        e2 = rng.randint(0, 6)
        eps = e2 + rng.choice([0.0, 0.5])
        cm["D"] = M.tolist()
        a = M.astype(float)
        if rng.random() < 0.2:
            a = M
    elif metric in ("ctw", "softdtw_normalized"):
        n = min(n, 6)
        X = blobs(d, rng, n, max(L, 2), D, 2, rng.random() < 0.4)
        a = to_time_series_dataset(X)
        mp = rng.choice([None, {}, dict(gamma=0.5)]) if metric == "softdtw_normalized" else rng.choice([None, dict(max_iter=5), dict(sakoe_chiba_radius=2)])
        if mp is not None:
            kw["metric_params"] = mp
        err, M = d.call(lambda: (cdist_ctw if metric == "ctw" else cdist_soft_dtw_normalized)(a, **(mp or {})))
        if err or not np.isfinite(M).all():
            return
        # symmetric only up to rounding (and, for ctw, up to the order of the arguments): scenarios with clear gaps only
        v = sorted(set(np.round(M.ravel(), 6)))
        i = rng.randrange(len(v))
        if i + 1 < len(v) and v[i + 1] - v[i] < 1e-3:
            return
        eps = v[i] + (min(0.5, (v[i + 1] - v[i]) / 2) if i + 1 < len(v) else 1.0)
        if eps <= 0:
            return
        cm["D"] = scaleds(M, 1e5)
        e2 = scaled(eps, 1e5)
        cm["metric"] = "given"
        unit = 1.0
    else:
        A = data(rng, n, L, D, hi, metric != "euclidean" and rng.random() < 0.5)
        unit = rng.choice(UNITS)
        a = erep(rng, A, D, unit, metric != "euclidean")
        if metric != "euclidean" and rng.random() < 0.5:
            gc, g = rng.choice(SAK if rng.random() < 0.7 else [c for c in SAK if c[0]["t"] == "sak" and c[0]["r"] == 0])
            kw["metric_params"] = dict(g)
            cm["gc"] = gc
        e2 = rng.choice([0, 1, 1, 2, 4, 4, 5, 9, 16, 25])
        eps = eps_of(rng, e2) * unit
        cm["A"] = A
    if eps <= 0:
        eps, e2 = (1.0, 1) if metric != "given" else (eps, e2)
        eps = eps * unit
    s, sp = snapshot(a), snapshot(kw)
    d.note(f"dbscan {metric} {cm['A'] or cm['D']} eps {eps} min_ts {mts} {kw}")
    est = TimeSeriesDBSCAN(eps=eps, min_ts=mts, metric=metric, **kw)

    def go():
        est.fit(a)
        f = to_time_series_dataset(a)
        f = f if hasattr(f, "shape") else np.asarray(f)
        c = est.components_
        ci = est.core_ts_indices_
        ok = len(c) == len(ci) and (len(ci) == 0 or bool(np.array_equal(to_np(c), to_np(f)[ci], equal_nan=True)))
        return [int(x) for x in ci], [int(x) for x in est.labels_], ok, [int(x) for x in TimeSeriesDBSCAN(eps=eps, min_ts=mts, metric=metric, **kw).fit_predict(a)]
    err, v = d.call(go)
    v = v or ([], [], True, [])
    d.emit("dbscan", err=err, mod=not same(a, s), pmod=not same(kw, sp), e2=e2, core=v[0], lab=v[1], comp=v[2], fp=v[3], u=unit, **cm)


# ---------------------------------------------------------------- silhouette
def relabel(rng, lab):
    r = rng.random()
    if r < 0.5:
        return np.array(lab)
    if r < 0.7:
        return list(lab)
    if r < 0.85:
        return np.array([x * 3 - 1 for x in lab])
    return np.array(["c%d" % (7 - x) for x in lab])


def sil(d, rng):
    n = rng.randint(3, 9)
    k = rng.randint(2, n - 1)
    lab = [i + 1 for i in range(k)] + [rng.randint(1, k) for _ in range(n - k)]
    rng.shuffle(lab)
    if len(set(lab)) < 2 or len(set(lab)) > n - 1:
        return
    ls = relabel(rng, lab)
    sl = snapshot(ls)
    r = rng.random()
    if r < 0.35:
        M = d.nprng.randint(0, 30, (n, n))
        M = np.triu(M, 1) + np.triu(M, 1).T
        a = M.astype(float)
        s = a.copy()
        kw = dict(sample_size=n, random_state=rng.randrange(9)) if rng.random() < 0.2 else {}
        d.note(f"sil precomputed {M.tolist()} {lab} {kw}")
        err, out = d.call(silhouette_score, a, ls, metric="precomputed", **kw)
        d.emit("sil", metric="precomputed", D=M.tolist(), lab=lab, err=err, mod=not (same(a, s) and same(ls, sl)), out=scaled(out, 1e6) if not err else 0)
        return
    D, L = rng.choice([1, 1, 2]), rng.choice([1, 2, 4])
    A = data(rng, n, L, D, 4, rng.random() < 0.6)
    if r < 0.6:
        c, c2 = rng.randint(1, 3), rng.randint(0, 3)

        def f(x, y, c=1, c2=0):
            return c * abs(float(x.sum()) - float(y.sum())) + c2 * abs(len(x) - len(y))
        a = rep(rng, A, D, 1.0)
        s = snapshot(a)
        mp = {}
        kw = {}
        (mp if rng.random() < 0.5 else kw)["c"] = c
        (mp if rng.random() < 0.5 else kw)["c2"] = c2
        if "c" in kw and rng.random() < 0.3:
            mp["c"] = c + 1     # a keyword comes before the entry of metric_params
        if mp or rng.random() < 0.5:
            kw["metric_params"] = mp
        smp = snapshot(mp)
        d.note(f"sil callable {A} {lab} {kw}")
        err, out = d.call(silhouette_score, a, ls, metric=f, **kw)
        d.emit("sil", metric="callable", A=A, c=c, c2=c2, lab=lab, err=err, mod=not (same(a, s) and same(ls, sl) and same(mp, smp)), out=scaled(out, 1e6) if not err else 0)
        return
    metric = rng.choice(["dtw", None, "softdtw", "euclidean"])
    unit = rng.choice(UNITS)
    mp, kw = {}, {}
    if metric in ("dtw", None) and rng.random() < 0.6:
        mp = dict(rng.choice(SAK)[1])
    elif metric == "softdtw" and rng.random() < 0.6:
        mp = dict(gamma=rng.choice([0.1, 0.5, 2.0]))
    elif metric == "euclidean":
        A = data(rng, n, L, D, 4, False)
    a = rep(rng, A, D, unit)
    if metric == "euclidean" and np.isnan(to_np(to_time_series_dataset(a))).any():
        a = arr(A, unit)
    f = to_np(to_time_series_dataset(a))
    ref = {"dtw": cdist_dtw, None: cdist_dtw, "softdtw": cdist_soft_dtw_normalized, "euclidean": lambda x: np.sqrt(((x[:, None] - x[None]) ** 2).sum((2, 3)))}[metric]
    smp = snapshot(mp)
    if mp and rng.random() < 0.4:
        kw.update(mp)
        mp = {}
        if metric == "softdtw" and rng.random() < 0.5:
            mp = dict(gamma=5.0)
        smp = snapshot(mp)
    if mp or rng.random() < 0.3:
        kw["metric_params"] = mp
    if rng.random() < 0.3:
        kw["n_jobs"] = rng.choice([1, 2])
        if rng.random() < 0.3:
            kw.setdefault("metric_params", mp)["n_jobs"] = 1
            smp = snapshot(mp)
    s = snapshot(a)
    d.note(f"sil {metric} {A} {lab} unit {unit} {kw}")

    def go():
        o = silhouette_score(a, ls, metric=metric, **kw) if metric is not None or rng.random() < 0.5 else silhouette_score(a, ls, **kw)
        p = {k_: v for k_, v in {**mp, **kw}.items() if k_ not in ("n_jobs", "metric_params")}
        M = np.asarray(ref(f, **p), float)
        np.fill_diagonal(M, 0)
        return float(o), float(silhouette_score(M, ls, metric="precomputed"))
    err, v = d.call(go)
    d.emit("silm", metric=str(metric), err=err, mod=not (same(a, s) and same(mp, smp) and same(ls, sl)), out=scaled(v[0], 1e6) if v else 0, ref=scaled(v[1], 1e6) if v else 0)


PARTS = {"kmeans": kmeans, "kmeans2": kmeans, "kernel": kernel, "kernel2": kernel, "dbscan": dbscan, "dbscan2": dbscan, "sil": sil, "sil2": sil}
if __name__ == "__main__":
    run(main)
