"""W01: multi-layer perceptrons under histories of fit, partial_fit, replaced weights and calls (module MlpGen)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from drv_cluster import quiet
from sklearn.neural_network import MLPClassifier, MLPRegressor
from tslearn.neural_network import TimeSeriesMLPClassifier, TimeSeriesMLPRegressor

LN2 = math.log(2)


def weights(m):
    return [nums(x.ravel()) for x in list(getattr(m, "coefs_", [])) + list(getattr(m, "intercepts_", []))]


def table(o):
    o = np.asarray(o)
    if o.dtype.kind not in "fiu":
        return []
    return [[num(v) for v in np.ravel(r)] for r in o]


def container(rng, X):
    r = rng.randrange(6)
    if np.isnan(X).any():
        r += 2
    if r == 0:
        return X.tolist()
    if r == 1:
        return X.astype(np.int64)
    if r == 2:
        return np.asfortranarray(X)
    if r == 3:
        W = np.full((2 * X.shape[0], X.shape[1], X.shape[2] + 1), 7.0)
        W[::2, :, 1:] = X
        return W[::2, :, 1:]
    if r == 4 and X.shape[2] == 1:
        return X[:, :, 0]
    return X


def history(d, rng, h, beh):
    clf = d.part != "regressor"
    cls, ref = (TimeSeriesMLPClassifier, MLPClassifier) if clf else (TimeSeriesMLPRegressor, MLPRegressor)
    C = rng.choice([2, 2, 3]) if clf else 0
    labels = [(0, 1, 2), ("b", "a", "c"), (5, -1, 2), ("zz", "é", "A")][rng.randrange(4)][:C]
    ys = rng.choice([1, 1, 2]) if not clf else 1
    kw = dict(hidden_layer_sizes=rng.choice([(2,), (3, 2), (), (1, 2, 1), 2]), max_iter=rng.choice([1, 2, 4]), random_state=rng.randrange(9), activation=rng.choice(["relu", "identity"]), batch_size=rng.choice(["auto", 2, 3]))
    if rng.random() < 0.4:
        kw["warm_start"] = True
    if rng.random() < 0.3:
        kw["solver"] = rng.choice(["sgd", "adam"])
    if rng.random() < 0.2:
        kw["alpha"] = 0.5
    if rng.random() < 0.15:
        kw["shuffle"] = False
    a, b = rng.choice([((3, 2), (2, 3)), ((2, 3), (3, 2)), ((4, 1), (1, 4)), ((1, 3), (3, 1)), ((3, 1), (2, 1)), ((2, 2), (4, 1)), ((1, 1), (2, 1))])
    n = rng.choice([5, 6, 8])
    data = {}
    for f, s in ((1, a), (2, a), (3, b)):
        k = n + f % 2
        X = np.array([rseries(rng, -3, 3, *s) for _ in range(k)], dtype=float)
        if clf:
            y = [labels[i % C] for i in range(k)]
            rng.shuffle(y)
        else:
            y = [[rng.randint(-9, 9) / 4 for _ in range(ys)] for _ in range(k)]
            y = [v[0] for v in y] if ys == 1 else y
        data[f] = (X, y, 1 + (s != a))
    m, r = cls(**kw), ref(**kw)
    text = f"{cls.__name__}({kw}) shapes {a} {b} outputs {ys} labels {labels}"
    flat = lambda X: X.reshape(len(X), -1)
    d.emit("start", shard=h, text=text, warm=kw.get("warm_start", False), kind="classifier" if clf else "regressor", act=kw["activation"])
    order = sorted(labels)
    for o in beh:
        op, f = o["op"], o["f"]
        bad = f == 4
        X, y, shape = data[f if not bad else rng.choice([1, 3])]
        if op == "call":
            X = X[rng.sample(range(len(X)), rng.choice([1, 1, 2, len(X)]))]
        if bad and (op == "call" or rng.random() < 0.5):
            X = X.copy()
            X[rng.randrange(len(X)), rng.randrange(X.shape[1]), rng.randrange(X.shape[2])] = np.nan
        elif bad:
            y = y[:-1]
        Z = container(rng, X)
        s = snapshot([Z, y])
        d.note(f"{text} {o} {np.asarray(X).tolist()} {y} {type(Z).__name__}")
        if op in ("fit", "partial"):
            akw = {}
            if op == "partial" and clf:
                akw["classes"] = list(order)
            if op == "partial" and rng.random() < 0.2:
                akw["sample_weight"] = np.array([rng.randint(1, 3) for _ in X], dtype=float)
            yy = np.array(y) if rng.random() < 0.5 else y
            err, v = d.call(quiet, m.fit if op == "fit" else m.partial_fit, Z, yy, **akw)
            if not err:
                d.call(quiet, r.fit if op == "fit" else r.partial_fit, flat(X), yy, **akw)
            d.emit(op, shard=h, f=f, shape=shape, bad=bad, err=err, why=d.last_exc if err else "", w=weights(m), rw=weights(r), self_=v is m, mod=not same([Z, y], s),
                   shapes=err != "" or m.coefs_[0].shape[0] == X.shape[1] * X.shape[2] and m.n_features_in_ == X.shape[2])
        elif op == "set":
            if not hasattr(m, "coefs_") or not hasattr(r, "coefs_"):
                continue
            W = [[[rng.randint(-2, 2) for _ in range(x.shape[1])] for _ in range(x.shape[0])] for x in r.coefs_]
            B = [[rng.randint(-3, 3) for _ in x] for x in r.intercepts_]
            for e in (m, r):
                u = [1.0] * (len(W) - 1) + [LN2 if clf else 1.0]
                e.coefs_ = [np.array(w, dtype=float).reshape(len(w), -1) * q for w, q in zip(W, u)]
                e.intercepts_ = [np.array(b, dtype=float) * q for b, q in zip(B, u)]
            d.emit("set", shard=h, W=W, b=B)
        else:
            what = rng.choice(["predict", "predict_proba"]) if clf else "predict"
            err, v = d.call(quiet, getattr(m, what), Z)
            ev = dict(out=[], rout=[], iout=[], cls=[], pout=[])
            if not err:
                e2, rv = d.call(quiet, getattr(r, what), flat(X))
                v, rv = np.asarray(v), np.asarray(rv) if not e2 else None
                if clf and what == "predict":
                    ev["cls"] = [order.index(q) + 1 if q in order else 0 for q in v.tolist()]
                    ev["out"] = [[num(q)] for q in ev["cls"]]
                    ev["rout"] = [] if e2 else [[num(order.index(q) + 1)] for q in rv.tolist()]
                else:
                    ev["out"], ev["rout"] = table(v), [] if e2 else table(rv)
                    ev["pout"] = scaleds(v, 10**5) if clf else []
                    ev["iout"] = [] if clf else [ivals(np.atleast_1d(q)) for q in v]
            d.emit("call", shard=h, what=what, f=f, shape=shape, bad=bad, err=err, why=d.last_exc if err else "", X=np.nan_to_num(X).astype(int), mod=not same([Z, y], s), **ev)


def main(d):
    rng = d.rng
    behs = [json.loads(x) for x in open(os.environ["BEHAVIOURS_mlp"])]
    rng.shuffle(behs)
    h = 0
    while d.more() and d.n < (30000 if THOROUGH else 4000):
        history(d, rng, h, behs[h % len(behs)])
        h += 1


run(main)
