"""N01 nearest neighbours: histories of fits, queries and failing calls on one estimator."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from cons import CONS, NONE
from drv_bary import data, arr, strip
from drv_cluster import erep, quiet, UNITS
from util import same_params
from tslearn.metrics import cdist_soft_dtw, cdist_ctw
from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor
from tslearn.piecewise import SymbolicAggregateApproximation

LABELS = [[0, 1, 2, 3], [-3, 5, 6, 40], ["a", "b", "bb", "c"], [True, False], [2, 7]]
KS = [1, 1, 2, 2, 3, 3, 5, 50]


def main(d):
    rng = d.rng
    while d.more() and d.n < (60000 if THOROUGH else 6000):
        history(d, rng, d.part)


def setting(rng):
    """(metric, metric_params, constraint)"""
    m = rng.choice(["dtw", "dtw", "dtw", "frechet", "frechet", "euclidean", "euclidean", "sqeuclidean", "cityblock", "softdtw", "sax", "ctw"])
    gc, p = NONE, None
    if m == "dtw" or m == "frechet":
        gc, p = rng.choice(CONS)
        p = dict(p)
        if gc["t"] == "ita":
            gc, p = NONE, None
    elif m == "softdtw":
        p = rng.choice([None, dict(gamma=rng.choice([0.1, 1.0])), dict(gamma_sdtw=rng.choice([0.5, 10.0]))])
    elif m == "sax":
        p = dict(n_segments=rng.choice([1, 2, 3]), alphabet_size_avg=rng.choice([3, 5, 6]), scale=rng.random() < 0.5)
    elif m == "ctw":
        p = rng.choice([None, dict(max_iter=3), dict(n_components=1)])
    if m not in ("euclidean", "sqeuclidean", "cityblock") and rng.random() < 0.15:
        p = dict(p or {}, **rng.choice([dict(n_jobs=3), dict(verbose=0), dict(n_jobs=None, verbose=0)]))
    return m, p, gc


def libD(m, p, X, Y, unit):
    p = {k: v for k, v in (p or {}).items() if k not in ("n_jobs", "verbose")}
    if m == "softdtw":
        return cdist_soft_dtw(Y, X, gamma=p.get("gamma", p.get("gamma_sdtw", 1.0)))
    if m == "ctw":
        return cdist_ctw(Y, X, **p)
    s = SymbolicAggregateApproximation(**p).fit(X)
    a, b = s.transform(Y), s.transform(X)
    return np.array([[s.distance_sax(u, v) for v in b] for u in a])


def history(d, rng, kind):
    D = rng.choice([1, 1, 1, 2, 3])
    m, p, gc = setting(rng)
    k = rng.choice(KS)
    nj = 2 if rng.random() < 0.02 else None
    kw = dict(n_neighbors=k, metric=m, metric_params=p, n_jobs=nj)
    cls = {"search": KNeighborsTimeSeries, "vote": KNeighborsTimeSeriesClassifier, "mean": KNeighborsTimeSeriesRegressor}[kind]
    w = "uniform"
    if kind != "search":
        w = rng.choice(["uniform", "uniform", "distance"])
        kw["weights"] = w
    est = cls(**kw)
    for rnd in range(rng.choice([1, 1, 2, 3])):
        if rnd:
            m, p, gc = setting(rng)
            k = rng.choice(KS)
            nxt = dict(metric=m, metric_params=p, n_neighbors=k)
            if kind != "search":
                w = nxt["weights"] = rng.choice(["uniform", "distance"])
            if rng.random() < 0.3:
                fail(d, rng, est, kind, D)
            est.set_params(**nxt)
            if rng.random() < 0.3:
                D = rng.choice([1, 2])
        # ---- fit
        var = m in ("dtw", "frechet", "softdtw") and rng.random() < 0.6
        n = rng.choice([1, 2, 3, 4, 6, 9])
        sz = rng.choice([1, 2, 3, 4, 5]) if m != "sax" else rng.choice([3, 4, 6])
        if m == "ctw":
            sz, n = rng.choice([4, 5]), min(n, 4)
        hi = rng.choice([1, 2, 4]) if m != "ctw" else 30
        A = series(rng, n, sz, D, hi, var)
        unit = rng.choice(UNITS) if m in ("dtw", "frechet", "euclidean", "sqeuclidean", "cityblock") else rng.choice([1.0, 0.25])
        X = erep(rng, A, D, unit, nanok=m in ("dtw", "frechet", "softdtw"))
        labs = rng.choice(LABELS)
        C = min(len(labs), n)
        y0 = [rng.randrange(len(labs)) for _ in range(n)]
        multi = kind != "search" and rng.random() < 0.2
        y1 = [rng.randrange(len(labs)) for _ in range(n)]
        if kind == "mean":
            v0, v1 = [rng.randint(-5, 5) for _ in range(n)], [rng.randint(-5, 5) for _ in range(n)]
            y = np.array([v0, v1], dtype=float).T if multi else v0
            y = np.array(y) if rng.random() < 0.5 else y
        else:
            y = [[labs[a], labs[b]] for a, b in zip(y0, y1)] if multi else [labs[a] for a in y0]
            if multi and rng.random() < 0.9 or rng.random() < 0.5:
                y = np.array(y)
        d.note(f"{kind} fit {m} {p} k {k} {w} X {A} unit {unit} y {y if kind != 'search' else None} form {type(X).__name__}")
        sX, sy, sp = snapshot(X), snapshot(y), snapshot(est.get_params())
        err, _ = d.call(quiet, est.fit, X, y) if kind != "search" else d.call(quiet, est.fit, X)
        mod = not (same(X, sX) and (kind == "search" or same(y, sy)))
        if err:
            d.emit("knn", err=f"fit:{err}", mod=mod, pmod=False)
            return
        base = dict(metric=m, gc=gc, lib=m in ("softdtw", "sax", "ctw"))
        # ---- queries
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.15:
                fail(d, rng, est, kind, D)
            own = rng.random() < 0.3
            B = A if own or rng.random() < 0.2 else series(rng, rng.choice([1, 2, 3]), sz if m in ("euclidean", "sqeuclidean", "cityblock") or not (var or m == "sax") else rng.choice([1, 2, 3, 4]) + 3 * (m == "sax"), D, hi, var)
            Y = None if own else erep(rng, B, D, unit, nanok=m in ("dtw", "frechet", "softdtw"))
            if own or kind == "search" or rng.random() < 0.35:
                search(d, rng, est, k, A, B, Y, D, unit, base, mod, sp)
            else:
                decide(d, rng, est, kind, w, k, A, B, Y, unit, base, labs, (y0, y1), (v0, v1) if kind == "mean" else None, multi, sp)
            mod = False


def series(rng, n, sz, D, hi, var):
    return data(rng, n, sz, D, hi, var)


def project(m, v, unit):
    if m == "cityblock":
        return ivals(v / unit)
    if m == "sqeuclidean":
        return ivals(v / unit ** 2)
    if m in ("dtw", "frechet", "euclidean"):
        return ivals((v / unit) ** 2)
    return scaleds(v, 1e5)


def search(d, rng, est, k, A, B, Y, D, unit, base, mod, sp):
    kk = rng.choice([None, None, 1, 2, 3, 20])
    own = Y is None
    # two-dimensional queries of several dimensions per time step would be ambiguous
    sY = snapshot(Y)
    d.note(f"kneighbors {base} params {est.get_params()} X {A} query {None if own else B} n {kk} form {type(Y).__name__} unit {unit}")
    err, v = d.call(quiet, est.kneighbors, *([] if own else [Y]), n_neighbors=kk)
    ind = dist = Dm = []
    alone = []
    if not err:
        dist, ind = v
        dist = project(base["metric"], np.asarray(dist), unit)
        ind = (np.asarray(ind) + 1).tolist()
        err2, al = d.call(quiet, est.kneighbors, *([] if own else [Y]), n_neighbors=kk, return_distance=False)
        alone = (np.asarray(al) + 1).tolist() if not err2 else [[0]]
    if base["lib"]:
        err2, Dm = d.call(lambda: scaleds(libD(base["metric"], est.metric_params, arr(A, unit), arr(B, unit), unit), 1e5))
        if err2:
            return
    d.emit("knn", err=err, mod=mod or not same(Y, sY), pmod=not same_params(est.get_params(), sp), A=[strip(a) for a in A], B=[strip(b) for b in B], selfq=own, kk=kk or k, ind=ind, dist=dist, alone=alone,
           D=Dm, eps=2 if base["lib"] else 0, **base)


def decide(d, rng, est, kind, w, k, A, B, Y, unit, base, labs, ys, vs, multi, sp):
    m = base["metric"]
    if w == "distance" and base["lib"]:
        return
    sY = snapshot(Y)
    d.note(f"predict {base} params {est.get_params()} X {A} query {B} unit {unit} y {vs or ys} labels {labs}")
    err, v = d.call(quiet, lambda: (est.predict(Y), est.kneighbors(arr(B, unit))))
    proba = []
    if not err and kind == "vote":
        err, proba = d.call(quiet, est.predict_proba, Y)
    mod, pmod = not same(Y, sY), not same_params(est.get_params(), sp)
    if err and base["lib"] and d.call(lambda: libD(m, est.metric_params, arr(A, unit), arr(B, unit), unit))[0]:
        return          # the metric itself is not defined there (degenerate canonical correlation)
    if err:
        d.emit("vote", err=err, mod=mod, pmod=pmod)
        return
    pred, (dist, ind) = v
    ind = (ind + 1).tolist()
    u = unit ** 2 if m == "sqeuclidean" else unit
    dist = scaleds(np.asarray(dist) / u, 1e4)
    for o in range(2 if multi else 1):
        po = np.asarray(pred)[:, o] if multi else np.asarray(pred)
        if kind == "mean":
            d.emit("mean", err="", mod=mod, pmod=pmod, ind=ind, dist=dist, weights=w, y=vs[o], pred=scaleds(po, 100))
            continue
        used = sorted({labs[a] for a in ys[o]})
        code = {c: i + 1 for i, c in enumerate(used)}
        # multi-output labels of mixed types become strings
        cl = est.classes_[o] if multi else est.classes_
        P = proba[o] if multi else proba
        d.emit("vote", err="", mod=mod, pmod=pmod, ind=ind, dist=dist, weights=w, C=len(used), y=[code[labs[a]] for a in ys[o]], clsok=[str(c) for c in cl] == [str(c) for c in used],
               pred=[code.get(type(labs[0])(c), 0) for c in po], proba=scaleds(P, 1000))


def fail(d, rng, est, kind, D):
    """a call that cannot succeed leaves the estimator as it was"""
    sp = snapshot(est.get_params())
    bad = rng.choice(["dims", "dims", "metric", "params", "unfitted"])
    x = np.zeros((2, 7, D + 1))
    if bad == "unfitted":
        other = type(est)(metric=rng.choice(["dtw", "euclidean", "sax"]))
        d.note(f"unfitted {other}")
        sp = snapshot(other.get_params())
        err, _ = d.call(quiet, rng.choice([other.kneighbors] + ([] if kind == "search" else [other.predict])), np.zeros((2, 3, D)))
        d.emit("fails", what=str(other), err=err, pmod=not same_params(other.get_params(), sp), mod=False)
        return
    if not hasattr(est, "_d"):
        return
    if bad == "dims":
        f = rng.choice([est.kneighbors] + ([] if kind == "search" else [est.predict]))
        d.note(f"query of another dimension {est.get_params()} {f}")
        sx = x.copy()
        err, _ = d.call(quiet, f, x)
        d.emit("fails", what=str(f), err=err, pmod=not same_params(est.get_params(), sp), mod=not same(x, sx))
        return
    # a failing fit on another estimator with the same settings
    other = type(est)(**est.get_params())
    if bad == "metric":
        other.set_params(metric=rng.choice(["nope", "dtww"]))
    else:
        other.set_params(metric=rng.choice(["dtw", "frechet", "softdtw"]), metric_params=dict(no_such_parameter=1))
    sp = snapshot(other.get_params())
    d.note(f"bad settings {other.get_params()}")

    def go():
        z = np.zeros((2, 3, D))
        other.fit(z, [0, 1]) if kind != "search" else other.fit(z)
        return other.kneighbors(z)
    err, _ = d.call(quiet, go)
    d.emit("fails", what=str(other), err=err, pmod=not same_params(other.get_params(), sp), mod=False)
    # still usable once repaired
    other.set_params(metric="euclidean", metric_params=None, n_neighbors=1)
    A = [rseries(rng, -3, 3, 3, D) for _ in range(4)]
    X = arr(A, 1.0)
    err, v = d.call(quiet, lambda: (other.fit(X, [0, 1, 0, 1]) if kind != "search" else other.fit(X)).kneighbors(X))
    dist, ind = v if not err else (np.zeros((0, 0)), np.zeros((0, 0)))
    d.emit("knn", err=err, mod=False, pmod=other.metric != "euclidean", A=A, B=A, selfq=False, kk=1, ind=(ind + 1).astype(int).tolist(), dist=project("euclidean", dist, 1.0), alone=(ind + 1).astype(int).tolist(),
           D=[], eps=0, metric="euclidean", gc=NONE, lib=False)


run(main)
