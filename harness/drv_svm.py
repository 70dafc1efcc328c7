"""S01 support vector machines."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from drv_bary import data, arr, strip
from drv_cluster import erep, quiet
from util import same_params
from tslearn.metrics import cdist_gak, gamma_soft_dtw
from tslearn.svm import TimeSeriesSVC, TimeSeriesSVR

LABELS = [[0, 1, 2], [-3, 5, 40], ["a", "b", "c"], [2.0, 7.0, 9.0]]
KS, AS = 10000, 1000


def main(d):
    rng = d.rng
    while d.more() and d.n < (60000 if THOROUGH else 6000):
        if d.part == "svr":
            machine(d, rng, "svr")
        elif rng.random() < 0.25:
            ovo(d, rng)
        else:
            machine(d, rng, "svc")


def kernel_of(kw, gamma, X, Y):
    k = kw["kernel"]
    if k == "gak":
        return cdist_gak(Y, X, sigma=float(np.sqrt(gamma / 2)))
    a, b = X.reshape(len(X), -1), Y.reshape(len(Y), -1)
    dot = b @ a.T
    if k == "linear":
        return dot
    if k == "poly":
        return (gamma * dot + kw["coef0"]) ** kw["degree"]
    if k == "sigmoid":
        return np.tanh(gamma * dot + kw["coef0"])
    return np.exp(-gamma * ((b[:, None] - a[None]) ** 2).sum(-1))


def config(rng):
    k = rng.choice(["gak", "gak", "gak", "linear", "linear", "rbf", "poly"])
    kw = dict(kernel=k, C=rng.choice([0.5, 1.0, 2.0, 1.7]), tol=1e-4, degree=rng.choice([1, 2, 3]), coef0=rng.choice([0.0, 0.5, 1.0]), shrinking=rng.random() < 0.7,
              gamma=rng.choice(["auto", "auto", 1.0, 0.3, 5.0]), random_state=rng.randrange(50), n_jobs=2 if rng.random() < 0.02 else None)
    if k == "gak" and kw["gamma"] != "auto":
        kw["gamma"] = rng.choice([1.0, 3.0, 20.0])
    return kw


def gamma_of(kw, X):
    return float(gamma_soft_dtw(X, random_state=kw["random_state"])) if kw["gamma"] == "auto" else kw["gamma"]


def dataset(rng, kw, mn):
    D = rng.choice([1, 1, 2, 3])
    var = kw["kernel"] == "gak" and rng.random() < 0.5
    n = rng.choice([mn, mn + 1, 5, 7, 8])
    sz = rng.choice([1, 2, 3, 4]) if kw["kernel"] != "gak" else rng.choice([2, 3, 5])
    return D, data(rng, n, sz, D, 2, var, mn=2 if var else 1), data(rng, rng.choice([1, 2, 3]), sz, D, 2, var, mn=2 if var else 1), var


def same_length(A, B, D):
    """pad to a common length (kernels on series of one length need none of it)"""
    L = max(len(A[0]), len(B[0]))
    f = lambda Z: [z + [[NAN] * D] * (L - len(z)) for z in Z]  # noqa
    return f(A), f(B)


def machine(d, rng, kind):
    kw = config(rng)
    D, A, B, var = dataset(rng, kw, 3)
    unit = 0.25 if kw["kernel"] != "gak" else rng.choice([1.0, 0.25])
    n = len(A)
    if kind == "svc":
        labs = rng.choice(LABELS)[:2]
        t = [rng.randrange(2) for _ in range(n)]
        if len(set(t)) < 2:
            return
        y = [labs[v] for v in t]
        kw["probability"] = rng.random() < 0.1
        kw["decision_function_shape"] = rng.choice(["ovr", "ovo"])
        cw = rng.choice([None, None, {labs[0]: 0.5}, {labs[1]: 2.0}])
        kw["class_weight"] = cw
        cwt = [(cw or {}).get(v, 1.0) for v in y]
    else:
        y = [rng.randint(-4, 4) / 2 for _ in range(n)]
        kw["epsilon"] = rng.choice([0.1, 0.25, 0.0, 0.5])
        cwt = [1.0] * n
    sw = [rng.choice([1.0, 0.5, 2.0]) for _ in range(n)] if rng.random() < 0.3 else None
    cap = [kw["C"] * c * (s if sw else 1.0) for c, s in zip(cwt, sw or [1] * n)]
    if rng.random() < 0.5:
        y = np.array(y)
    A2 = A
    X = erep(rng, A2, D, unit, nanok=kw["kernel"] == "gak")
    Y = erep(rng, B, D, unit, nanok=kw["kernel"] == "gak")
    if kw["kernel"] != "gak" and len(A[0]) != len(B[0]):
        return
    cls = TimeSeriesSVC if kind == "svc" else TimeSeriesSVR
    est = cls(**kw)
    Xa, Ya = arr(A, unit), arr(B, unit)
    err0, g = d.call(gamma_of, kw, Xa)
    if err0 or not g > 0.02 or not math.isfinite(g):
        return
    K, Kq = kernel_of(kw, g, Xa, Xa), kernel_of(kw, g, Xa, Ya)
    if not (np.abs(K).max() < 6 and np.abs(Kq).max() < 6):
        return
    if rng.random() < 0.2:
        # an earlier fit with other settings leaves nothing behind
        est.set_params(kernel="gak", gamma=2.0)
        d.call(quiet, est.fit, Xa[::-1] if n % 2 else Xa[:, :, :1] * 3, list(y)[::-1])
        est.set_params(kernel=kw["kernel"], gamma=kw["gamma"])
    sX, sY, sy, sp = snapshot(X), snapshot(Y), snapshot(y), snapshot(est.get_params())
    d.note(f"{kind} {kw} X {A} y {y} sw {sw} query {B} unit {unit} forms {type(X).__name__} {type(Y).__name__}")

    def go():
        quiet(est.fit, X, y, sample_weight=sw)
        sup = np.asarray(est.support_)
        a = np.zeros(n)
        a[sup] = np.asarray(est.dual_coef_)[0]
        dec = est.decision_function if kind == "svc" else est.predict
        sv = est.support_vectors_
        svok = bool(np.array_equal(np.concatenate(sv) if kind == "svc" else sv, Xa[sup], equal_nan=True)) if Xa.shape[1] == np.asarray(est._X_fit).shape[1] else True
        if kind == "svc":
            svok = svok and [len(s) for s in sv] == [int((np.asarray(t)[sup] == c).sum()) for c in (0, 1)]
        out = dict(a=scaleds(a, AS), b=scaled(np.ravel(est.intercept_)[0], AS), f=scaleds(dec(Xa), KS), fq=scaleds(dec(Y), KS), alone=[scaled(dec(Ya[i:i + 1])[0], KS) for i in range(len(B))], sv=svok,
                   gam=bool(np.isclose(est.gamma_, g, rtol=1e-9)))
        if kind == "svc":
            code = {c: i + 1 for i, c in enumerate(labs)}
            out["pred"] = [code.get(type(labs[0])(c), 0) for c in est.predict(Y)]
            ok = True
            if kw["probability"]:
                P, LP = est.predict_proba(Y), est.predict_log_proba(Y)
                ok = P.shape == (len(B), 2) and bool(np.allclose(P.sum(1), 1) and np.allclose(np.log(P), LP) and (P >= 0).all())
            out["proba"] = ok
        return out
    err, v = d.call(go)
    v = v or {}
    lin = kw["kernel"] == "linear"
    d.emit(kind, err=err, mod=not (same(X, sX) and same(Y, sY) and same(y, sy)), pmod=not same_params(est.get_params(), sp), lin=lin, q=16, A=[strip(s) for s in A], B=[strip(s) for s in B],
           K=[] if lin else scaleds(K, KS), Kq=[] if lin else scaleds(Kq, KS), KS=KS, AS=AS, slack=400, y=[2 * c - 1 for c in t] if kind == "svc" else scaleds(list(y), KS),
           cap=scaleds(cap, AS), eps=scaled(kw.get("epsilon", 0), KS), **v)


def ovo(d, rng):
    kw = config(rng)
    D, A, B, var = dataset(rng, kw, 4)
    unit = 0.25 if kw["kernel"] != "gak" else 1.0
    n = len(A)
    labs = rng.choice(LABELS)
    t = [rng.randrange(3) for _ in range(n)]
    if len(set(t)) < 3 or kw["kernel"] != "gak" and len(A[0]) != len(B[0]):
        return
    y = [labs[v] for v in t]
    Xa, Ya = arr(A, unit), arr(B, unit)
    err0, g = d.call(gamma_of, kw, Xa)
    if err0 or not g > 0.02 or not math.isfinite(g):
        return
    K = kernel_of(kw, g, Xa, np.concatenate([Xa, Ya]) if len(A[0]) == len(B[0]) else Xa)
    if not np.abs(K).max() < 6:
        return
    X, Y = erep(rng, A, D, unit, nanok=kw["kernel"] == "gak"), erep(rng, B, D, unit, nanok=kw["kernel"] == "gak")
    est = TimeSeriesSVC(**kw, decision_function_shape="ovo")
    sX, sY, sp = snapshot(X), snapshot(Y), snapshot(est.get_params())
    d.note(f"ovo {kw} X {A} y {y} query {B} unit {unit}")

    def go():
        est.fit(X, y)
        F = est.decision_function(Y)
        P = [[[0] * 3 for _ in range(3)] for _ in B]
        Q = [[[0] * 3 for _ in range(3)] for _ in B]
        c = 0
        for i in range(3):
            for j in range(i + 1, 3):
                idx = [m for m in range(n) if t[m] in (i, j)]
                two = TimeSeriesSVC(**{**kw, "gamma": g}).fit(Xa[idx], [y[m] for m in idx]).decision_function(Ya)
                for p in range(len(B)):
                    P[p][i][j], Q[p][i][j] = scaled(F[p, c], KS), scaled(-two[p], KS)
                c += 1
        code = {c: i + 1 for i, c in enumerate(labs)}
        sup = np.asarray(est.support_)
        sv = est.support_vectors_
        svok = [len(s) for s in sv] == [int((np.asarray(t)[sup] == c).sum()) for c in range(3)]
        if Xa.shape[1] == np.asarray(est._X_fit).shape[1]:
            svok = svok and bool(np.array_equal(np.concatenate(sv), Xa[sup], equal_nan=True))
        return dict(P=P, Q=Q, pred=[code.get(type(labs[0])(c), 0) for c in est.predict(Y)], sv=svok, clsok=[str(c) for c in est.classes_] == [str(c) for c in labs],
                    tie=[bool((np.abs(F[p]) < 1e-3).any()) for p in range(len(B))])
    err, v = d.call(go)
    d.emit("ovo", err=err, mod=not (same(X, sX) and same(Y, sY)), pmod=not same_params(est.get_params(), sp), C=3, slack=300, **(v or {}))


run(main)
