"""G01: random walk generators under histories of seeding and drawing (module WalkGen), moments of large draws."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from drv_cluster import quiet
from tslearn.generators import random_walk_blobs, random_walks

U = 65536


def call_params(rng):
    c = dict(fn=rng.choice(["walks", "walks", "blobs"]), n=rng.choice([1, 2, 3]), sz=rng.choice([1, 2, 5]), d=rng.choice([1, 2, 3]), mu=rng.choice([0, 0, -3, 2]),
             std=rng.choice([1, 1, 2, 3, 0]), blobs=1, noise=0)
    if c["fn"] == "blobs":
        c.update(mu=0, std=1, blobs=rng.choice([1, 2, 3]), noise=rng.choice([0, 1, 2]))
    return c


def draw(c, rs, rng):
    if c["fn"] == "walks":
        kw = dict(n_ts=c["n"], sz=c["sz"], d=c["d"], mu=float(c["mu"]), std=c["std"], random_state=rs)
        return random_walks(**{k: v for k, v in kw.items() if not (k == "mu" and v == 0 or k == "std" and v == 1 or k == "d" and v == 1 or k == "random_state" and v is None)}), None
    kw = dict(n_ts_per_blob=c["n"], sz=c["sz"], d=c["d"], n_blobs=c["blobs"], noise_level=float(c["noise"]), random_state=rs)
    return random_walk_blobs(**{k: v for k, v in kw.items() if not (k == "noise_level" and v == 1 or k == "n_blobs" and v == 2)})


def history(d, rng, h, beh):
    a, b = call_params(rng), call_params(rng)
    c = dict(a)
    if a["fn"] == "walks":
        c.update(mu=rng.choice([0, 1, -2]), std=rng.choice([1, 2, 3]))
    else:
        c.update(noise=rng.choice([0, 1, 3]))
    calls = [a, b, c, call_params(rng)]
    seeds = [None] + rng.sample([0, 1, 42, 2**31 - 1, 123456], 2)
    gens = [None, np.random.RandomState(seeds[1]), np.random.RandomState(seeds[1])]
    np.random.seed(seeds[1])
    d.emit("start", shard=h, calls=calls, seeds=seeds[1:])
    for o in beh:
        if o["op"] == "seed":
            if o["g"] == 0:
                np.random.seed(seeds[o["s"]])
            elif rng.random() < 0.5:
                gens[o["g"]].seed(seeds[o["s"]])
            else:
                gens[o["g"]] = np.random.RandomState(seeds[o["s"]])
            d.emit("seed", shard=h, g=o["g"], s=o["s"])
            continue
        rs = seeds[o["s"]] if o["op"] == "int" else gens[o["g"]]
        if o["op"] == "int" and rng.random() < 0.3:
            rs = np.int64(rs)
        if o["g"] == 0 and rng.random() < 0.3:
            rs = np.random.mtrand._rand
        cl = calls[o["c"] - 1]
        d.note(f"{seeds} {cl} {o} {rs}")
        err, v = d.call(quiet, draw, cl, rs, rng)
        X = y = []
        if not err:
            X, y = v
            X = scaleds(X, U) if np.asarray(X).ndim == 3 else []
            y = [] if y is None else ivals(y)
        d.emit("draw", shard=h, g=o["g"], s=o["s"], c=o["c"], err=err, why=d.last_exc if err else "", X=X, y=y, mod=False)


def moments(d, rng):
    n, sz, D = rng.choice([(3, 40, 5), (20, 30, 1), (2, 60, 5), (30, 10, 2), (600, 1, 1), (40, 5, 3), (1, 200, 3)])
    mu, std = rng.choice([(0, 1), (3, 2), (-1, 0.5), (0.25, 10)])
    seed = rng.randrange(10**6)
    what = rng.choice(["walks", "base", "noise", "noise"])
    lags = [1, D, sz * D]
    d.note(f"moments {what} {n} {sz} {D} {mu} {std} {seed}")

    def go():
        if what == "walks":
            X = np.asarray(random_walks(n_ts=n, sz=sz, d=D, mu=mu, std=std, random_state=seed))
            return (np.diff(X, axis=1, prepend=0) - mu) / std
        if what == "base":
            X = np.asarray(random_walk_blobs(n_ts_per_blob=1, sz=sz, d=D, n_blobs=n, noise_level=0, random_state=seed)[0])
            return np.diff(X, axis=1, prepend=0)
        X = np.asarray(random_walk_blobs(n_ts_per_blob=2 * n, sz=sz, d=D, n_blobs=1, noise_level=std, random_state=seed)[0])
        # independent differences of two members
        return (X[:n] - X[n:]) / std / 2 ** 0.5
    err, z = d.call(quiet, go)
    z = [] if err else [max(-10**4, min(10**4, int(round(100 * v)))) if np.isfinite(v) else 10**4 for v in z.ravel()]
    d.emit("moments", err=err, what=what, shape=[n, sz, D], mu=mu, std=std, seed=seed, z=z, lags=sorted({k for k in lags if 2 * k <= len(z)}))


def main(d):
    rng = d.rng
    behs = [json.loads(x) for x in open(os.environ["BEHAVIOURS_walk"])]
    rng.shuffle(behs)
    X, y = random_walk_blobs()
    d.emit("defaults", shape=list(X.shape), want=[200, 256, 1], labels=y.tolist() == [0] * 100 + [1] * 100)
    d.emit("defaults", shape=list(random_walks().shape), want=[100, 256, 1], labels=True)
    h = 0
    while d.more() and d.n < (30000 if THOROUGH else 4000):
        history(d, rng, h, behs[h % len(behs)])
        h += 1
        if h % 8 == 0:
            moments(d, rng)


run(main)
