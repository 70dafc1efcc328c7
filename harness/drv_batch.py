"""B03: batches (generated by TLC, module BatchGen) of queries to fitted estimators."""
import copy
import os
import sys
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from drv_cluster import quiet
from families import FAMILIES


def varq(est, name):
    """whether the series of a query may have different lengths"""
    n, p = type(est).__name__, est.get_params(deep=False)
    if n.startswith("KNeighbors"):
        return p["metric"] in ("dtw", "softdtw", "frechet")
    if n == "TimeSeriesKMeans":
        return p["metric"] in ("dtw", "softdtw")
    if n == "KernelKMeans":
        return p["kernel"] == "gak"
    return n in ("LearningShapelets", "TimeSeriesScalerMinMax", "TimeSeriesScalerMeanVariance", "TimeSeriesResampler", "MatrixProfile", "VARIMA", "AutoVARIMA")


def entry(v):
    if isinstance(v, (float, np.floating)):
        return [0, num(v)]
    if isinstance(v, (bool, np.bool_, int, np.integer)):
        return [int(v)]
    return [zlib.crc32(repr(str(v)).encode()) % 10**9]


def row(v):
    """one row of an answer"""
    v = to_np(v)
    if v.ndim == 2 and v.dtype.kind == "f":
        nan = np.isnan(v).all(axis=1)
        n = len(v)
        while n and nan[n - 1]:
            n -= 1
        v = v[:n]
    return [entry(x) for x in v.ravel().tolist()] if v.ndim else [entry(v.item())]


def answer(v):
    if isinstance(v, (tuple, list)):
        # several answers per series
        parts = [answer(x) for x in v]
        return [sum(p, []) for p in zip(*parts)] if len({len(p) for p in parts}) == 1 else []
    return [row(x) for x in v]


def main(d):
    rng = d.rng
    behs = [json.loads(x) for x in open(os.environ["BEHAVIOURS_batch"])]
    rng.shuffle(behs)
    fams = [f for f in FAMILIES if f.part == d.part.rstrip("2")]
    rng.shuffle(fams)
    k = h = 0
    if d.part == "net":
        F = fams[0](rng)
        quiet(F["make"][0]().fit, *F["data"][0])
        d.start()
    while d.more() and d.n < (60000 if THOROUGH else 6000):
        h = estimator(d, rng, fams[k % len(fams)], behs, h)
        k += 1


def estimator(d, rng, fam, behs, h):
    F = fam(rng)
    d.note(f"{F['name']} {F['text']}")
    c, f = rng.randrange(2), rng.randrange(2)
    est = F["make"][c]()
    if d.call(quiet, est.fit, *copy.deepcopy(F["data"][f]))[0]:
        return h
    outs = [(n, a) for n, a in F["outs"] if a and getattr(a[0], "ndim", 0) == 3]
    outs = [o for o in outs if not d.call(quiet, getattr(est, o[0]), *snapshot(o[1]))[0]]
    rng.shuffle(outs)
    for name, a in outs:
        for r in range(2):
            if not d.more(0.3):
                return h
            pool = [np.array(x[~np.isnan(x).all(axis=1)], dtype=float) for x in a[0]]
            short = name == "predict" and F["name"].endswith("VARIMA")
            T = a[0].shape[1]
            base = [x for x in pool if len(x) == T] or [np.nan_to_num(np.array(a[0][0], dtype=float), nan=1.0)]
            while len(pool) < 4:
                x = base[rng.randrange(len(base))][::-1].copy()
                x[rng.randrange(T)] += rng.choice([0.25, -1.5, 3])
                pool.append(x)
            v = varq(est, name)
            if not v:
                pool = [np.resize(x, (T, x.shape[1])) for x in pool]
            elif not short:
                pool = [x[: rng.randint(max(2, T - 3), T)] if rng.random() < 0.5 and len(x) == T else x for x in pool]
                if F["name"] == "LearningShapelets":
                    m = max(est.n_shapelets_per_size_)
                    pool = [x if len(x) >= m else np.resize(x, (m, x.shape[1])) for x in pool]
            d.emit("start", shard=h, fam=F["name"], text=F["text"], c=c, f=f, method=name, n=4, pool=[x.tolist() for x in pool], single=F["name"] == "LearningShapelets")
            for b in behs[(h * 7) % len(behs)]:
                n = max(len(pool[i - 1]) for i in b["ids"]) + (b["pad"] if v else 0)
                X = np.full((len(b["ids"]), n, pool[0].shape[1]), np.nan)
                for i, j in enumerate(b["ids"]):
                    X[i, : len(pool[j - 1])] = pool[j - 1]
                if rng.random() < 0.2:
                    X = np.asfortranarray(X)
                s = snapshot(X)
                d.note(f"{F['name']}.{name} {F['text']} {b} {[x.tolist() for x in pool]}")
                err, o = d.call(quiet, getattr(est, name), X, *a[1:])
                d.emit("batch", shard=h, fam=F["name"], method=name, ids=b["ids"], pad=b["pad"], err=err, why=d.last_exc if err else "", rows=[] if err else answer(o), mod=not same(X, s))
            h += 1
    return h


if __name__ == "__main__":
    run(main)
