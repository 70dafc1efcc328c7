"""L01: shapelet models; weights are replaced layer by layer and every look at the model is recorded."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from drv_cluster import quiet
from families import fast_shapelets
from tslearn.shapelets import grabocka_params_to_shapelet_size_dict as default_sizes
from util import same_params


def series(rng, n, D, scale):
    """integer series; with scaling, the range of every feature divides 8"""
    cols = []
    for _ in range(D):
        if scale:
            r = rng.choice([0, 1, 2, 4, 8])
            o = rng.randint(-5, 5)
            c = [o + rng.randint(0, r) for _ in range(n)]
            if r and n > 1:
                i, j = rng.sample(range(n), 2)
                c[i], c[j] = o, o + r
        else:
            c = [rng.randint(-3, 3) for _ in range(n)]
            if rng.random() < 0.3:
                c = [c[i % 3] for i in range(n)]
        cols.append(c)
    return [list(p) for p in zip(*cols)]


def eighths(a):
    """exact multiples of 1/8 (or 1/64) as integers, nested"""
    a = np.asarray(a, dtype=float)
    if a.ndim == 0:
        return NAN if np.isnan(a) else ival(float(a) * 8)
    return [eighths(x) for x in a]


def ints(a, u):
    a = np.asarray(a, dtype=float)
    return [ints(x, u) for x in a] if a.ndim else ival(float(a) * u)


def padded(X, n=0):
    n = max([len(x) for x in X] + [n])
    A = np.full((len(X), n, len(X[0][0])), np.nan)
    for i, x in enumerate(X):
        A[i, : len(x)] = x
    return A


def main(d):
    rng = d.rng
    d.case_timeout = 200
    LearningShapelets = fast_shapelets()
    warm = LearningShapelets(n_shapelets_per_size={2: 1}, max_iter=1)
    quiet(warm.fit, np.random.RandomState(0).rand(4, 5, 1), [0, 1, 0, 1])
    d.start()
    h = 0
    while d.more() and d.n < (60000 if THOROUGH else 6000):
        if d.part == "a" and rng.random() < 0.5:
            sizes(d, rng)
        model(d, rng, LearningShapelets, h)
        h += 1


def sizes(d, rng):
    for _ in range(10):
        n, sz, C, (ln, ld), r = rng.randint(2, 300), rng.randint(4, 300), rng.randint(2, 6), rng.choice([(1, 8), (1, 4), (1, 16), (3, 32), (1, 64)]), rng.randint(1, 4)
        d.note(f"grabocka_params_to_shapelet_size_dict({n}, {sz}, {C}, {ln}/{ld}, {r})")
        err, o = d.call(default_sizes, n, sz, C, ln / ld, r)
        d.emit("sizes", n=n, sz=sz, C=C, ln=ln, ld=ld, r=r, err=err, out=[] if err else [[int(a), int(b)] for a, b in o.items()])


LABELS = [lambda c: c, lambda c: 5 - 2 * c, lambda c: "cab"[c], lambda c: float(c - 1)]


def model(d, rng, cls, h):
    D, C, T, scale = rng.choice([1, 1, 2, 3]), rng.choice([2, 3]), rng.choice([7, 9]), rng.random() < 0.4
    n = rng.choice([6, 9])
    given = rng.choice([{3: 2}, {2: 1, 4: 2}, {4: 1, 2: 2}, {1: 1, 5: 1, 3: 1}, None, {T - 2: 2}])
    kw = dict(n_shapelets_per_size=given, max_iter=rng.choice([1, 2]), batch_size=rng.choice([2, 4, 256]), scale=scale, random_state=rng.randrange(9), weight_regularizer=rng.choice([0.0, 0.5]))
    auto = []
    if given is None:
        kw.update(shapelet_length=rng.choice([0.25, 0.125, 0.375]), total_lengths=rng.choice([1, 2]))
    extra = rng.choice([0, 0, 3])
    if extra:
        kw["max_size"] = T + extra
    var = rng.random() < 0.4
    lens = [T] + [rng.randint(T - 2, T) if var else T for _ in range(n - 1)]
    X = [series(rng, L, D, scale) for L in lens]
    lab = rng.choice(LABELS)
    y = [lab(i % C) for i in range(n)]
    rng.shuffle(y)
    A = padded(X)
    text = f"{kw} X={X} y={y}"
    d.note("fit " + text)
    m = cls(**kw)
    s, p = snapshot(A), m.get_params()
    err, _ = d.call(quiet, m.fit, A, y)
    if err:
        d.emit("fit-failed", shard=h, err=err, why=d.last_exc, text=text)
        return
    if given is None:
        l = kw["shapelet_length"]
        auto = [n, min(lens), C, int(l * 32), 32, kw["total_lengths"]]
    S = m.shapelets_
    order = [[int(a), int(b)] for a, b in m.n_shapelets_per_size_.items()]
    index = {repr(v): i + 1 for i, v in enumerate(sorted(set(y)))}
    d.emit("model", shard=h, err="", text=text, given=[[a, b] for a, b in given.items()] if given else [], auto=auto, sizes=order, scale=scale, d=D, shapes=[list(x.shape) for x in S],
           classes=[index.get(repr(x.item()), 0) for x in np.asarray(m.classes_)], expected=list(range(1, len(index) + 1)), niter=int(m.n_iter_), maxiter=kw["max_iter"],
           finite=all(np.isfinite(x).all() for x in S), mod=not (same(A, s) and same_params(p, m.get_params())))
    nS, out = sum(b for _, b in order), 1 if C == 2 else C
    cur = {}

    def layer(i):
        new = [[[rng.randint(0, 8) if scale else 8 * rng.randint(-3, 3) + rng.choice([0, 0, 4]) for _ in range(D)] for _ in range(order[i][0])] for _ in range(order[i][1])]
        if rng.random() < 0.4:   # a piece of a series
            x = rng.choice(X)
            t = rng.randrange(len(x) - order[i][0] + 1)
            if not scale:
                new[0] = [[8 * v for v in p] for p in x[t : t + order[i][0]]]
        return new

    def head():
        return [[rng.randint(-3, 3) for _ in range(out)] for _ in range(nS)], [rng.randint(-60, 60) for _ in range(out)]

    ev = lambda k, **f: d.emit(k, shard=h, text=text, **f)

    def set_layer(i):
        new = layer(i)
        d.note(f"{text} set_weights shapelets_{i} {new}")
        err, _ = d.call(m.set_weights, [np.array(new) / 8], layer_name=f"shapelets_{i}")
        cur[i] = new
        ev("shapelets", i=i + 1, new=new, err=err)

    def set_head():
        W, b = head()
        err, _ = d.call(m.set_weights, [np.array(W) / 64, np.array(b) / 64], layer_name="classification")
        ev("classes", W=W, b=b, err=err)

    for i in range(len(order)):
        set_layer(i)
    set_head()
    for _ in range(8 if not THOROUGH else 20):
        if not d.more(0.5):
            return
        r = rng.random()
        if r < 0.25:
            set_layer(rng.randrange(len(order)))
        elif r < 0.35:
            set_head()
        elif r < 0.45:
            new = [layer(i) for i in range(len(order))]
            W, b = head()
            ws = m.get_weights()
            # the classification layer comes last: kernel, bias
            err, _ = d.call(m.set_weights, [np.array(v) / 8 for v in new] + [np.array(W) / 64, np.array(b) / 64])
            ev("setall", S=sum(new, []), W=W, b=b, err=err, n=len(ws))
        if rng.random() < 0.3:
            ws = m.get_weights()
            by = [m.get_weights(f"shapelets_{i}")[0] for i in range(len(order))] + list(m.get_weights("classification"))
            W, b = m.get_weights("classification")
            ev("get", err="", shapelets=[eighths(x) for x in m.shapelets_], asts=eighths(m.shapelets_as_time_series_), layers=[eighths(m.get_weights(f"shapelets_{i}")[0]) for i in range(len(order))],
               W=ints(W, 64), b=ints(b, 64), all=len(ws) == len(by) and all(np.array_equal(u, v) for u, v in zip(ws, by)))
        L = max(a for a, _ in order)
        Q = [series(rng, rng.randint(L, T + extra), D, scale) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.5:
            Q.append(rng.choice(X))
        A = padded(Q, rng.choice([0, T]))
        if rng.random() < 0.3 and len({len(x) for x in Q}) == 1 and not np.isnan(A).any():
            A = A.tolist()
        for k, name in (("transform", "transform"), ("locate", "locate"), ("proba", "predict_proba"), ("predict", "predict")):
            if rng.random() < 0.4:
                continue
            d.note(f"{text} {name} {Q}")
            s = snapshot(A)
            err, o = d.call(quiet, getattr(m, name), A)
            mod = not same(A, s)
            if err:
                rows = []
            elif k == "transform":
                rows = scaleds(o, 1024)
            elif k == "locate":
                rows = [[ival(v) for v in r] for r in np.asarray(o)]
            elif k == "proba":
                with np.errstate(all="ignore"):
                    rows = [[scaled(r.sum(), 10**6), scaleds(np.clip(np.log(np.maximum(r, 1e-30)) - np.log(max(r[0], 1e-30)), -1000, 1000), 1024)] for r in np.asarray(o, dtype=float)]
            else:
                rows = [index.get(repr(v.item()), 0) for v in np.asarray(o)]
            ev(k, X=Q, rows=rows, err=err, why=d.last_exc if err else "", mod=mod)
    if rng.random() < 0.5:
        q = rng.choice(["short", "dim", "long", "one-class"])
        name = rng.choice(["predict", "predict_proba", "transform", "locate"])
        if q == "short":
            if L < 2:
                return
            err, _ = d.call(quiet, getattr(m, name), padded([series(rng, L - 1, D, scale), series(rng, T, D, scale)]))
        elif q == "dim":
            err, _ = d.call(quiet, getattr(m, name), padded([series(rng, T, D + 1, scale)]))
        elif q == "long":
            err, _ = d.call(quiet, getattr(m, name), padded([series(rng, T + extra + 1, D, scale)]))
        else:
            err, _ = d.call(quiet, cls(**kw).fit, padded(X), [y[0]] * n)
        ev("refused", what=q, ok=err != "", method=name)


if __name__ == "__main__":
    run(main)
