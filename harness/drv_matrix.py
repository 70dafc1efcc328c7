"""M01 matrix profile: numpy and stumpy implementations, raw and standardised, datasets of unequal lengths."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from drv_cluster import quiet
from util import same_params
from tslearn.matrix_profile import MatrixProfile


def main(d):
    rng = d.rng
    d.case_timeout = 120
    # compiling stumpy is expensive: each part runs one of its two variants
    stump = {"b": True, "c": False}.get(d.part)
    while d.more() and d.n < (20000 if THOROUGH else 2500):
        if rng.random() < 0.05:
            refused(d, rng)
        impl = "stump" if stump is not None and rng.random() < 0.7 else "numpy"
        profile(d, rng, impl, stump if impl == "stump" else rng.random() < 0.5)


def series(rng, n):
    r = rng.random()
    if r < 0.25:   # periodic with a defect
        p = [rng.randint(-4, 4) for _ in range(rng.choice([2, 3, 4]))]
        x = [p[i % len(p)] for i in range(n)]
        if n:
            x[rng.randrange(n)] += rng.choice([0, 1, -3])
        return x
    if r < 0.4:    # flat stretches
        x = [rng.randint(-2, 2)] * n
        for _ in range(rng.choice([0, 1, 3])):
            if n:
                i = rng.randrange(n)
                x[i:] = [rng.randint(-2, 2)] * (n - i)
        return x
    return [rng.randint(-9, 9) for _ in range(n)]


def project(v, f, unit, m):
    out = []
    for x in v:
        x = float(x)
        out.append(NAN if np.isnan(x) else INF if np.isinf(x) and x > 0 else f(x))
    return out


def profile(d, rng, impl, scale):
    L = rng.choice([1, 2, 3, 4, 5, 8]) if impl == "numpy" else rng.choice([3, 4, 5, 8])
    n = rng.choice([1, 2, 3])
    sz = rng.choice([L, L + 1, L + 3, L + 6, 12, 16]) if L <= 12 else L + 4
    sz = max(sz, L)
    A = [series(rng, sz) for _ in range(n)]
    if rng.random() < 0.4 and n > 1:
        for i in range(1, n):
            A[i] = A[i][:rng.randint(1, sz)]
    unit = rng.choice([1.0, 1.0, 0.25, 1024.0])
    off = rng.choice([0, 0, 0, 1000]) if scale else 0
    X = np.full((n, sz, 1), np.nan)
    for i, a in enumerate(A):
        X[i, :len(a), 0] = np.array(a, float) * unit + off
    full = all(len(a) == sz for a in A)
    r = rng.random()
    Z = X
    if r < 0.15 and full:
        Z = X.tolist()
    elif r < 0.3 and full and unit != 0.25:
        Z = X.astype(int)
    elif r < 0.45:
        Z = np.asfortranarray(X)
    elif r < 0.55:
        W = np.full((n, 2 * sz, 2), 7.0)
        W[:, ::2, 1:] = X
        Z = W[:, ::2, 1:]
    elif r < 0.65 and full:
        Z = X[:, :, 0]
    est = MatrixProfile(subsequence_length=L, implementation=impl, scale=scale)
    s, sp = snapshot(Z), est.get_params()
    d.note(f"{est} scale {scale} {impl} L {L} X {A} unit {unit} off {off} form {type(Z).__name__} {getattr(Z, 'shape', '')}")

    def go():
        other = np.zeros((1, rng.choice([L, L + 2]), 1))
        if rng.random() < 0.5:
            est.fit(other)
            out = est.transform(Z)
            ft = est.fit_transform(Z)
        else:
            ft = est.fit_transform(Z)
            out = est.transform(Z)
        again = est.transform(Z)
        i = rng.randrange(n)
        al = np.asarray(est.transform(X[i:i + 1]), float)
        # one series without the padding of the dataset
        k = len(A[i])
        if k >= L:
            al2 = np.asarray(est.transform(X[i:i + 1, :k]), float)[0, :, 0]
        else:
            al2 = np.zeros(0)
        out = np.asarray(out, float)

        def eq(a, b):
            return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-6 * unit, equal_nan=True)
        if scale:
            f = lambda v: scaled(v * v, 1024)
        else:
            f = lambda v: ival((v / unit) ** 2, 1e-6)
        return dict(shape=list(out.shape), out=[project(row[:, 0], f, unit, L) for row in out], ft=eq(np.asarray(ft, float), out), again=eq(np.asarray(again, float), out),
                    alone=eq(al[0], out[i]) and (eq(al2, out[i, :max(k - L + 1, 0), 0]) if full or k >= L else True))
    err, v = d.call(quiet, go)
    d.emit("profile", shard=d.n, err=err, mod=not same(Z, s), pmod=not same_params(est.get_params(), sp), A=A, m=L, sz=sz, scale=scale, impl=impl, **(v or {}))


def refused(d, rng):
    X = np.arange(12.0).reshape(1, 6, 2)
    impl = rng.choice(["numpy", "stump"])
    d.note("several features")
    err, _ = d.call(quiet, lambda: MatrixProfile(subsequence_length=3, implementation=impl).fit_transform(X))
    d.emit("refused", err=err, want="NotImplementedError", mod=False)
    d.note("unknown implementation")
    err, _ = d.call(quiet, lambda: MatrixProfile(subsequence_length=3, implementation="fast").fit_transform(X[:, :, :1]))
    d.emit("refused", err=err, want="ValueError", mod=False)
    d.note("not fitted")
    err, _ = d.call(quiet, lambda: MatrixProfile(subsequence_length=3, implementation=impl).transform(X[:, :, :1]))
    d.emit("refused", err=err, want="NotFittedError", mod=False)


run(main)
