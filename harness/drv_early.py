"""Y01 early classification: fits, decisions on complete series and prefixes, interleaved streams."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from drv_bary import arr
from drv_cluster import quiet
from util import same_params
from sklearn.model_selection import train_test_split
from tslearn.clustering import TimeSeriesKMeans
from tslearn.early_classification import NonMyopicEarlyClassifier
from tslearn.neighbors import KNeighborsTimeSeriesClassifier

ONE = 10000
LABELS = [[0, 1, 2], [-3, 5, 40], ["a", "b", "c"], [2.0, 7.0, 9.0]]


def main(d):
    rng = d.rng
    while d.more() and d.n < (60000 if THOROUGH else 6000):
        session(d, rng)


def make(rng, n, T, D, kinds):
    """series that share a beginning within a group and differ later"""
    P = [[[rng.randint(-3, 3) for _ in range(D)] for _ in range(T)] for _ in range(kinds)]
    if rng.random() < 0.5:
        s = rng.randint(1, T - 1)
        for p in P[1:]:
            p[:s] = [list(v) for v in P[0][:s]]
    g = [i % kinds for i in range(n)]
    return [[[v + (rng.choice([-1, 0, 0, 1])) for v in x] for x in P[k]] for k in g], g


def form(rng, a):
    r = rng.random()
    if r < 0.2:
        return a.tolist()
    if r < 0.3 and a.shape[2] == 1:
        return a[:, :, 0]
    if r < 0.4 and (a == a.astype(int)).all():
        return a.astype(int)
    if r < 0.5:
        return np.asfortranarray(a)
    return a


def session(d, rng):
    D, T, n = rng.choice([1, 1, 2]), rng.choice([3, 4, 6]), rng.choice([8, 10, 14])
    kk, C = rng.choice([1, 2, 3]), rng.choice([2, 2, 3])
    A, g = make(rng, n, T, D, rng.choice([2, 3, 4]))
    unit = rng.choice([1.0, 1.0, 0.25, 100.0])
    labs = rng.choice(LABELS)[:C]
    y0 = [(k if rng.random() < 0.85 else rng.randrange(C)) % C for k in g]
    if len(set(y0)) < C:
        return
    y = [labs[c] for c in y0]
    t0 = rng.choice([1, 1, 2, T])
    seed = rng.randrange(99)
    base = rng.choice([None, None, KNeighborsTimeSeriesClassifier(n_neighbors=rng.choice([1, 3]), metric=rng.choice(["dtw", "euclidean"])), "proba"])
    if base == "proba":
        base = KNeighborsTimeSeriesClassifier(n_neighbors=3, metric="cityblock", weights="distance")
    kw = dict(n_clusters=kk, base_classifier=base, min_t=t0, lamb=rng.choice([0.0, 1.0, 1.0, 10.0, 1000.0]), cost_time_parameter=rng.choice([1.0, 0.1, 0.05, 0.01, 0.01, 0.0, 0.15]), random_state=seed)
    Xa = arr(A, unit)
    ck = TimeSeriesKMeans(n_clusters=kk, random_state=seed).fit_predict(Xa)
    if min(np.bincount(ck, minlength=kk)) < 2:
        return
    X1, X2, c1, c2, y1, y2 = train_test_split(Xa, ck, np.array(y), test_size=0.5, stratify=ck, random_state=seed)
    if set(c2) != set(range(kk)):
        return
    est = NonMyopicEarlyClassifier(**kw)
    X = form(rng, Xa)
    yy = np.array(y) if rng.random() < 0.5 else y
    sX, sy, sp = snapshot(X), snapshot(yy), snapshot({k: v for k, v in est.get_params(deep=False).items() if k != "base_classifier"})
    sb = base.get_params() if base is not None else None
    d.note(f"fit {kw} X {A} unit {unit} y {y}")
    if rng.random() < 0.2:
        # an earlier fit leaves nothing behind
        d.call(quiet, est.fit, Xa[:, :2], y)
    err, _ = d.call(quiet, est.fit, X, yy)
    code = {c: i + 1 for i, c in enumerate(labs)}

    def codes(p):
        return [code.get(type(labs[0])(c), 0) if not (isinstance(c, (float, np.floating)) and np.isnan(c)) and str(c) != "nan" else 0 for c in p]
    if err:
        d.emit("fit", shard=0, err=err, mod=False)
        return
    times = sorted(int(t) for t in est.classifiers_)
    pm = not same_params({k: v for k, v in est.get_params(deep=False).items() if k != "base_classifier"}, sp) or (base is not None and (est.base_classifier is not base or hasattr(base, "classes_") or not same_params(base.get_params(), sb)))
    conf = scaleds(est.pyhatyck_, ONE)
    share = scaleds(est.pyck_, ONE)
    cl = [str(c) for c in est.classes_]
    d.emit("fit", shard=d.n, err="", mod=not (same(X, sX) and same(yy, sy)), pmod=pm, C=C, kk=kk, T=T, t0=t0, y=[c + 1 for c in y0], lab=(np.asarray(est.cluster_.labels_) + 1).tolist(), share=share, conf=conf, times=times,
           hc=(c2 + 1).tolist(), hy=codes(y2), hp=[codes(est.classifiers_[t].predict(X2[:, :t])) for t in times], clsok=cl == [str(c) for c in sorted(set(y1.tolist()))])
    common = dict(C=C, kk=kk, T=T, t0=t0, share=share, conf=conf, ct=scaled(kw["cost_time_parameter"], ONE))
    # ---- decisions on complete series
    for _ in range(2):
        B, _g = make(rng, rng.choice([1, 3, 6]), T, D, 2)
        if rng.random() < 0.6:
            B = [list(map(list, s)) for s in rng.sample(A, min(len(A), rng.choice([1, 4])))]
            for s in B:
                s[rng.randrange(T)][0] += rng.choice([0, 1, -2])
        batch(d, rng, est, B, unit, T, t0, D, common, codes, code, labs)
    for _ in range(2):
        B = rng.sample(A, rng.choice([1, 3])) if rng.random() < 0.6 else make(rng, 2, T, D, 2)[0]
        t = rng.randint(1, T)
        x = arr([s[:t] for s in B], unit)
        f = est.early_predict
        if t >= t0:
            p1 = probas(d, rng, est, x[0], kw["lamb"])
            if p1 is None:
                continue
        P = [scaleds(est.get_cluster_probas(s), ONE) for s in x] if t >= t0 else [[] for _ in x]
        z = form(rng, x)
        sz = snapshot(z)
        d.note(f"early_predict {kw} X {A} y {y} unit {unit} prefix {z.tolist() if hasattr(z, 'tolist') else z}")
        err, v = d.call(quiet, lambda: (f(z), [est.classifiers_[t].predict([s])[0] for s in x] if t >= t0 else []))
        if err:
            d.emit("prefix", err=err, mod=False)
        else:
            (pr, de), lab = v
            d.emit("prefix", shard=d.n, err="", mod=not same(z, sz), t=t, P=P, pred=codes(pr), delay=delays(de), lab=codes(lab), **common)
    streams(d, rng, est, A, unit, T, t0, D, codes, labs)


def delays(v):
    return [-1 if np.isnan(float(x)) else ival(x) for x in np.asarray(v, dtype=float)]


def probas(d, rng, est, s, lamb):
    c = np.asarray(est.cluster_.cluster_centers_)[:, :len(s)]
    dist = np.sqrt(((s[None] - c) ** 2).sum((1, 2)))
    m = dist.mean()
    x = lamb * (1 - dist / m) if m > 0 else 0 * dist
    err, p = d.call(est.get_cluster_probas, s)
    if m > 0 and m < 1e-9:
        return None
    d.emit("proba", shard=d.n, err=err, mod=False, x=[scaled(float(v), 4096) for v in x], p=scaleds(p, ONE) if not err else [])
    return p


def batch(d, rng, est, B, unit, T, t0, D, common, codes, code, labs):
    x = arr(B, unit)
    z = form(rng, x)
    s = snapshot(z)
    truth = [rng.choice(labs) for _ in B]
    d.note(f"predict {est} {B} unit {unit}")

    def go():
        pred, tm = est.predict_class_and_earliness(z)
        proba, ptm = est.predict_proba_and_earliness(z)
        w = x.copy()
        for i, t in enumerate(tm):
            w[i, int(t):] = unit * np.array([[rng.randint(-9, 9) for _ in range(D)] for _ in range(T - int(t))]).reshape(T - int(t), D)
        pred2, tm2 = est.predict_class_and_earliness(w)
        P = [[scaleds(est.get_cluster_probas(v[:t]), ONE) if t >= t0 else [] for t in range(1, T + 1)] for v in x]
        lab = [[codes([est.classifiers_[t].predict([v[:t]])[0]])[0] if t >= t0 else 0 for t in range(1, T + 1)] for v in x]
        labp = [[scaleds(est.classifiers_[t].predict_proba([v[:t]])[0], 1000) if t >= t0 else [] for t in range(1, T + 1)] for v in x]
        return dict(pred=codes(pred), time=ivals(tm), proba=scaleds(proba, 1000), ptime=ivals(ptm), pred2=codes(pred2), time2=ivals(tm2), P=P, lab=lab, labp=labp, pr=codes(est.predict(z)),
                    cost=scaled(est.early_classification_cost(z, truth), ONE))
    err, v = d.call(quiet, go)
    d.emit("batch", shard=d.n, err=err, mod=not same(z, s), truth=codes(truth), **common, **(v or {}))


def streams(d, rng, est, A, unit, T, t0, D, codes, labs):
    """two streams of one model, fed in turns; chunks of any size, malformed ones, empty ones, polls"""
    sh = rng.randrange(64)
    S = {}
    for j in range(rng.choice([1, 2])):
        g = f"g{d.n}-{j}"
        n = rng.choice([1, 1, 2, 3])
        proba = rng.random() < 0.4
        f = est.get_early_predict_proba_generator if proba else est.get_early_predict_generator
        err, gen = d.call(f, n) if n > 1 or rng.random() < 0.5 else d.call(f)
        d.emit("open", shard=sh, err=err, g=g, n=n)
        if err:
            return
        S[g] = dict(gen=gen, n=n, proba=proba, data=np.zeros((n, 0, D)), src=[rng.choice(A) for _ in range(n)])
    ncl = len(est.classes_)
    for _ in range(rng.choice([3, 6, 9])):
        g = rng.choice(sorted(S))
        s = S[g]
        n, have = s["n"], s["data"].shape[1]
        what = rng.choice(["chunk"] * 6 + ["poll", "bad"])
        chunk, arg = [], None
        if what == "chunk":
            k = rng.choice([1, 1, 1, 2, 3, 0])
            if have + k > T and rng.random() < 0.8:
                k = T - have
            rows = [[list(v) for v in (src[have:have + k] if rng.random() < 0.8 else make(rng, 1, max(k, 2), D, 1)[0][0][:k])] for src in s["src"]]
            rows = [r + [[0] * D] * (k - len(r)) for r in rows]
            chunk = rows
            arg = np.array(rows, float).reshape(n, k, D) * unit
            new = np.concatenate([s["data"], arg], axis=1)
            if rng.random() < 0.3 and k:
                arg = arg.tolist()
        elif what == "bad":
            arg = rng.choice([1, [[[1.0] * (D + 1)] * 1] * n, np.zeros((n + 1, 1, D)), np.zeros((n,)), [[1.0]], "x"])
        snap = snapshot(arg)
        d.note(f"stream {g} send {what} {arg} have {s['data'].tolist()} of {T}")
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            err, v = d.call(s["gen"].send, arg)
        warned = any(issubclass(w.category, RuntimeWarning) and "nvalid" in str(w.message) for w in ws)
        too = what == "chunk" and new.shape[1] > T
        if what == "chunk" and not too:
            s["data"] = new

        def proj(o):
            p, dl = o
            return [scaleds(p, 1000) if s["proba"] else codes(p), delays(dl)]
        out = b = []
        if not err:
            out = proj(v)
            f = est.early_predict_proba if s["proba"] else est.early_predict
            m = s["data"].shape[1]
            if m < max(1, t0):
                p0 = np.asarray(v[0])
                b = [[[NAN] * p0.shape[1] for _ in range(n)] if s["proba"] else [0] * n, [-1] * n]
            else:
                e2, o = d.call(f, s["data"])
                b = proj(o) if not e2 else [e2]
        d.emit("send", shard=sh, err=err, mod=not same(arg, snap), g=g, what=what, chunk=chunk, T=T, warned=warned, data=ivals(s["data"] / unit), out=out, batch=b)
        if err:
            return


run(main)
