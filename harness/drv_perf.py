"""P01 forecasting errors: mae, mse, mase with weights, containers, scales; mismatched and incomplete data."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from drv_cluster import quiet
import torch
from tslearn.metrics import performance


def container(rng, X, whole):
    X = np.array(X, dtype=float)
    r = rng.randrange(9)
    if r == 0:
        return X.tolist()
    if r == 1 and whole:
        return X.astype(rng.choice([np.int64, np.int32]))
    if r == 2:
        return np.asfortranarray(X)
    if r == 3:
        return torch.tensor(X)
    if r == 4:
        return X.astype(np.float32)
    if r == 5:
        W = np.full((2 * X.shape[0], X.shape[1], X.shape[2] + 1), 7.0)
        W[::2, :, 1:] = X
        return W[::2, :, 1:]
    if r == 6 and X.shape[2] == 1:
        return X[:, :, 0]
    if r == 7 and X.shape[2] == 1 and X.shape[0] == 1:
        return X[0, :, 0].tolist()
    return X


def weights(rng, n, dflt):
    """-> (integer weights of the specification, argument or None)"""
    if rng.random() < 0.45:
        return [dflt] * n, None
    w = [rng.randint(0, 3) for _ in range(n)]
    if not sum(w):
        w[rng.randrange(n)] = 2
    c = rng.choice([list, tuple, np.array, lambda x: np.array(x, dtype=float), lambda x: np.array(x, dtype=float) / 4, torch.tensor])
    a = c(w)
    return w, a.double() if hasattr(a, "double") else a


def dataset(rng, n, T, d, hi):
    X = [rseries(rng, -hi, hi, T, d) for _ in range(n)]
    return X


def near(rng, Y, hi):
    P = [[[v if rng.random() < 0.3 else v + rng.randint(-hi, hi) for v in t] for t in s] for s in Y]
    return P


def error(d, rng):
    n, T, D = rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 4, 5]), rng.choice([1, 1, 2, 3])
    hi = rng.choice([1, 3, 6])
    Y = dataset(rng, n, T, D, hi)
    P = near(rng, Y, hi) if rng.random() < 0.6 else dataset(rng, n, T, D, hi)
    fn = rng.choice(["mae", "mse", "mase"])
    unit = rng.choice([1, 1, 0.25, 1024])
    u, ua = weights(rng, n, 1)
    w, wa = weights(rng, T, 1)
    multi = rng.choice(["raw", "uniform", "uniform", "weights"])
    v, va = [1] * D, {"raw": "raw_values", "uniform": "uniform_average"}.get(multi)
    if multi == "weights":
        v, va = weights(rng, D, 1)
        if va is None:
            va = v
    m = rng.choice([1, 1, 2, 3])
    X = dataset(rng, rng.choice([1, 2]), m + rng.choice([1, 2, 3]), D, 2)
    if rng.random() < 0.1:
        X = [[s[0] for _ in s] for s in X]
    whole = unit != 0.25
    a = [container(rng, np.array(Y) * unit, whole), container(rng, np.array(P) * unit, whole)]
    kw = {}
    if fn == "mase":
        a.append(container(rng, np.array(X) * unit, whole))
        if m != 1 or rng.random() < 0.3:
            kw["seasonal_period"] = m
    for k, x in (("ts_weights", ua), ("timestamps_weights", wa)):
        if x is not None or rng.random() < 0.2:
            kw[k] = x
    if multi != "uniform" or rng.random() < 0.3:
        kw["multioutput"] = va
    s = snapshot([a, kw])
    d.note(f"{fn} {Y} {P} {X} unit {unit} {kw} {[type(x).__name__ for x in a]}")
    err, o = d.call(quiet, getattr(performance, fn), *a, **kw)
    out, nd = [], -1
    if not err:
        o = np.asarray(to_np(o), dtype=float)
        nd = o.ndim
        f = {"mae": unit, "mse": unit * unit, "mase": 1}[fn]
        out = [[INF, 1] if x == np.inf else frac(x / f, 10**6, 2e-13) for x in o.ravel().tolist()]
    d.emit("error", fn=fn, err=err, why=d.last_exc if err else "", Y=Y, P=P, X=X, m=m, u=u, w=w, v=v, multi=multi, out=out, nd=nd, mod=not same([a, kw], s))


def refused(d, rng):
    n, T, D = rng.choice([1, 2, 3]), rng.choice([2, 3, 4]), rng.choice([1, 2])
    Y = np.array(dataset(rng, n, T, D, 3), dtype=float)
    P = np.array(near(rng, Y.tolist(), 3))
    kw = {}
    r = rng.randrange(6)
    if r == 0:
        P = P.reshape(n, D * T, 1) if D == 2 else np.concatenate([P, P], axis=2)
        t = "shape"
    elif r == 1:
        P = np.concatenate([P, P[:1]])
        t = "number of series"
    elif r == 2:
        P = P[:, 1:]
        t = "length"
    elif r == 3:
        Z = rng.choice([Y, P])
        Z[rng.randrange(n), -1] = np.nan
        t = "missing values"
    elif r == 4:
        kw["ts_weights"] = [1] * (n + 1)
        t = "weights of series"
    else:
        kw["timestamps_weights"] = [1] * (T - 1)
        t = "weights of time stamps"
    fn = rng.choice(["mae", "mse", "mase"])
    a = [container(rng, Y, False), container(rng, P, False)]
    if rng.random() < 0.5 and r in (0, 1, 2):
        a.reverse()
    if fn == "mase":
        a.append(np.arange(4.0 * D).reshape(1, 4, D))
    s = snapshot([a, kw])
    d.note(f"refused {t} {fn} {Y.tolist()} {P.tolist()} {kw}")
    err, _ = d.call(quiet, getattr(performance, fn), *a, **kw)
    d.emit("refused", fn=fn, text=t, err=err, Y=Y.shape, P=P.shape, mod=not same([a, kw], s))


def main(d):
    rng = d.rng
    while d.more() and d.n < (60000 if THOROUGH else 6000):
        if rng.random() < 0.07:
            refused(d, rng)
        else:
            error(d, rng)


run(main)
