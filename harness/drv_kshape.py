"""C04 cross-correlations and KShape."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from drv_cluster import quiet
import torch
from tslearn.clustering import KShape
from tslearn.metrics import cdist_normalized_cc, y_shifted_sbd_vec
from tslearn.preprocessing import TimeSeriesScalerMeanVariance


def main(d):
    rng = d.rng
    while d.more() and d.n < (60000 if THOROUGH else 6000):
        PARTS[d.part](d, rng)


def norms(x):
    return np.linalg.norm(x, axis=(1, 2))


def corr(d, rng):
    D, sz = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 4, 5, 8])
    hi = rng.choice([1, 3, 5])
    n = rng.choice([1, 2, 4, 7])
    X = d.nprng.randint(-hi, hi + 1, (n, sz, D))
    selfs = rng.random() < 0.35
    Y = X if selfs else d.nprng.randint(-hi, hi + 1, (rng.choice([1, 2, 4]), sz, D))
    unit = rng.choice([1.0, 1.0, 0.25, 100.0])
    x, y = X * unit, Y * unit
    if selfs and rng.random() < 0.5:
        y = x
    if rng.random() < 0.55:
        known = rng.random() < 0.6
        n1 = norms(x) if known else np.full(len(x), -1.0)
        n2 = norms(y) if known else np.full(len(y), -1.0)
        sx, sy = x.copy(), y.copy()
        d.note(f"cc {X.tolist()} {Y.tolist()} unit {unit} self {selfs} known {known}")
        err, F = d.call(cdist_normalized_cc, x, y, n1, n2, selfs)
        mod = not (same(x, sx) and same(y, sy))
        F2 = []
        if not err:
            a2, b2 = (X.astype(float) ** 2).sum((1, 2)), (Y.astype(float) ** 2).sum((1, 2))
            F2 = ivals(np.sign(F) * np.asarray(F) ** 2 * a2[:, None] * b2[None], 1e-7)
        d.emit("cc", X=X.tolist(), Y=Y.tolist(), selfs=selfs, err=err, mod=mod, F2=F2)
    else:
        known = rng.random() < 0.6
        r = y[0]
        nd = norms(x) if known else np.full(len(x), -1.0)
        sx, sr = x.copy(), r.copy()
        d.note(f"shift {X.tolist()} to {Y[0].tolist()} unit {unit}")
        err, out = d.call(y_shifted_sbd_vec, r, x, norm_ref=-1 if rng.random() < 0.5 else float(np.linalg.norm(r)), norms_dataset=nd)
        if not known and not (sr == 0).all() and (norms(sx) == 0).any():
            return
        d.emit("shift", X=X.tolist(), r=Y[0].tolist(), err=err, mod=not (same(x, sx) and same(r, sr)), out=ivals(out / unit) if not err else [])


def krep(rng, a):
    r = rng.random()
    if r < 0.15:
        return a.tolist()
    if r < 0.25:
        return torch.tensor(a)
    if r < 0.35 and a.shape[2] == 1:
        return a[:, :, 0]
    if r < 0.45 and (a == a.astype(int)).all():
        return a.astype(int)
    return a


def ties(x, c):
    v = np.array([sum((x[t + s] * c[t]).sum() for t in range(len(x)) if 0 <= t + s < len(x)) for s in range(1 - len(x), len(x))])
    return (v == v.max()).sum() > 1


def step(d, rng):
    D, sz = rng.choice([1, 1, 2]), rng.choice([2, 3, 3, 4])
    k = rng.choice([1, 2, 2, 3])
    n = rng.randint(k, 5)
    X = d.nprng.randint(-5, 6, (n, sz, D))
    C = d.nprng.randint(-5, 6, (k, sz, D))
    if any(ties(x, c) for x in X for c in C):
        return
    unit = rng.choice([1.0, 1.0, 0.25, 100.0])
    x, c = X * unit, C * rng.choice([1.0, unit])
    a = krep(rng, x)
    if unit == 1.0 and rng.random() < 0.3:
        c = c.astype(int)
    s, sc = snapshot(a), c.copy()
    d.note(f"step {X.tolist()} {C.tolist()} unit {unit}")
    est = KShape(n_clusters=k, init=c, max_iter=1)

    def go():
        est.fit(a)
        return None if est._X_fit is None else (est.cluster_centers_, [int(v) + 1 for v in est.labels_], int(est.n_iter_))
    err, v = d.call(go)
    if err or v is not None and est._X_fit is not None:
        S = 10000
        C1, lab, it = v or (np.zeros((0, sz, D)), [], 1)
        nn = (C1 ** 2).sum((1, 2))
        d.emit("step", A=X.tolist(), C0=C.tolist(), d=D, S=S, C1=scaleds(C1, S), lab=lab, iter=it, eqn=bool(np.allclose(nn, sz * D)), err=err, mod=not (same(a, s) and same(c, sc)))


def shapes(d, rng, n, sz, D, k):
    P = d.nprng.randn(k, sz, D).cumsum(1)
    X = np.stack([np.roll(P[i % k], rng.randint(-1, 1), axis=0) * rng.choice([1, 1, 3]) + 0.3 * d.nprng.randn(sz, D) for i in range(n)])
    return X[rng.sample(range(n), n)]


def ksrun(d, rng):
    D, k, n, sz = rng.choice([1, 1, 2]), rng.choice([2, 3]), rng.choice([6, 10, 20]), rng.choice([5, 8, 12])
    X = TimeSeriesScalerMeanVariance().fit_transform(np.round(shapes(d, rng, n, sz, D, k + rng.choice([0, 1])), 3))
    c0 = X[rng.sample(range(n), k)] if rng.random() < 0.7 else d.nprng.randn(k, sz, D)
    K = rng.choice([1, 2, 3, 6, 10])
    tol = rng.choice([0.0, 1e-6, 1e-3, 1e-2, 0.1])
    d.note(f"ksrun {X.tolist()} {c0.tolist()} K {K} tol {tol}")

    def go():
        chain, costs, cur = [], [], c0
        for _ in range(K):
            e = KShape(n_clusters=k, init=cur, max_iter=1).fit(X)
            if e._X_fit is None or not np.isfinite(e.inertia_):
                return None
            chain.append(e.cluster_centers_.copy())
            costs.append(float(e.inertia_))
            cur = chain[-1]
        e = KShape(n_clusters=k, init=c0, max_iter=K, tol=tol).fit(X)
        if e._X_fit is None:
            return None
        return chain, costs, e.cluster_centers_, float(e.inertia_), int(e.n_iter_)
    err, v = d.call(go)
    if not err and v is None:
        return
    chain, costs, out, inert, it = v or ([], [], np.zeros((0, sz, D)), 0, 1)
    S = 1e6
    d.emit("ksrun", err=err, mod=False, chain=[scaleds(c.reshape(k, -1), S) for c in chain], costs=[scaled(c, S) for c in costs], out=scaleds(out.reshape(len(out), -1), S) if len(out) else [],
           inert=scaled(inert, S), iter=it, maxit=K, tol=scaled(tol, S))


def ksfit(d, rng):
    D, k, n, sz = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([5, 9, 14]), rng.choice([3, 5, 8, 12])
    X = shapes(d, rng, n, sz, D, k)
    if rng.random() < 0.8:
        X = TimeSeriesScalerMeanVariance().fit_transform(X)
    if rng.random() < 0.2:
        ia = X[rng.sample(range(n), k)].copy()
    else:
        ia = "random"
    kw = dict(n_clusters=k, init=ia, max_iter=rng.choice([1, 2, 5, 100]), n_init=rng.choice([1, 1, 3]), random_state=rng.randrange(99), tol=rng.choice([1e-6, 1e-2, 0.0]), verbose=rng.random() < 0.1)
    Y = shapes(d, rng, rng.choice([1, 3, 2 * n]), sz, D, k) * rng.choice([1, 50]) + rng.choice([0, 10])
    a, b = krep(rng, X), krep(rng, Y)
    sa, sb, si = snapshot(a), snapshot(b), snapshot(ia)
    d.note(f"ksfit {X.tolist()} {kw} predict {Y.tolist()}")
    est = KShape(**kw)

    def dist(Z, C):
        return 1 - cdist_normalized_cc(Z, C, norms(Z), norms(C), False)

    def go():
        quiet(est.fit, a)
        if est._X_fit is None:
            return None
        C = est.cluster_centers_.copy()
        lab = [int(v) + 1 for v in est.labels_]
        R0 = dist(X, C)
        Z = TimeSeriesScalerMeanVariance().fit_transform(Y)
        out = dict(lab=lab, R0=scaleds(R0, 1e6), S0=[scaled(R0[i, lab[i] - 1] ** 2, 1e6) for i in range(n)], inert=scaled(est.inertia_, 1e6), iter=int(est.n_iter_),
                   pred=[int(v) + 1 for v in est.predict(b)], R=scaleds(dist(Z, C), 1e6), alone=[int(est.predict(Y[i:i + 1])[0]) + 1 for i in range(len(Y))],
                   mu=ivals(np.round(C.mean(1), 5)), sd=scaleds(np.round(C.std(1), 5), 1e6))
        out["fp"] = [int(v) + 1 for v in quiet(KShape(**kw).fit_predict, a)]
        return out
    err, v = d.call(go)
    if not err and v is None:
        return
    v = v or dict(lab=[], R0=[], S0=[], inert=0, iter=1, pred=[], R=[], alone=[], mu=[[]] * k, sd=[[]] * k, fp=[])
    d.emit("ksfit", err=err, mod=not (same(a, sa) and same(b, sb)), pmod=not same(ia, si), kk=k, maxit=kw["max_iter"], **v)


def ksbest(d, rng):
    D, k, n, sz = rng.choice([1, 2]), rng.choice([2, 3]), rng.choice([8, 14]), rng.choice([4, 8])
    X = TimeSeriesScalerMeanVariance().fit_transform(shapes(d, rng, n, sz, D, k + 1))
    kw = dict(n_clusters=k, random_state=rng.randrange(999), max_iter=rng.choice([1, 3, 20]))
    d.note(f"ksbest {X.tolist()} {kw}")

    def go():
        one = KShape(n_init=1, **kw).fit(X)
        more = KShape(n_init=rng.choice([2, 4]), **kw).fit(X)
        return (scaled(one.inertia_, 1e6), scaled(more.inertia_, 1e6)) if one._X_fit is not None else None
    err, v = d.call(go)
    if err or v:
        d.emit("kmbest", err=err, mod=False, one=v[0] if v else 0, best=v[1] if v else 0)


def model(d, rng):
    rng.choice([step, step, step, ksrun, ksrun, ksfit, ksfit, ksbest])(d, rng)


PARTS = {"corr": corr, "model": model, "model2": model}
run(main)
