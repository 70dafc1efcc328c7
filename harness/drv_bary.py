"""C01 barycenters."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from cons import CONS
from tslearn.barycenters import (euclidean_barycenter, dtw_barycenter_averaging, dtw_barycenter_averaging_petitjean,
                                 dtw_barycenter_averaging_subgradient, softdtw_barycenter)
from tslearn.metrics import dtw, soft_dtw
import torch

nan = float("nan")
DBA = dict(mm=dtw_barycenter_averaging, petitjean=dtw_barycenter_averaging_petitjean)
UNITS = [1.0, 1.0, 1.0, 0.25, 100.0, 0.1]
OKC = [c for c in CONS if c[0]["t"] != "ita"] + [c for c in CONS if c[0]["t"] == "ita" and c[0]["b"] == 1]


def data(rng, n, L, d, hi, var, mn=1):
    A = []
    for _ in range(n):
        s = rng.randint(mn, L) if var else L
        A.append([[rng.randint(-hi, hi) for _ in range(d)] for _ in range(s)] + [[NAN] * d] * (L - s))
    m = max(len([p for p in s if p[0] != NAN]) for s in A)
    return [s[:m] for s in A]


def strip(s):
    return [p for p in s if p[0] != NAN]


def arr(A, unit=1.0):
    return np.array([[[nan if v == NAN else v * unit for v in p] for p in s] for s in A], float)


def rep(rng, A, d, unit):
    a = arr(A, unit)
    r = rng.random()
    if r < 0.2:
        return [(a[i][:len(strip(s))].tolist() if d > 1 or rng.random() < 0.5 else a[i][:len(strip(s)), 0].tolist()) for i, s in enumerate(A)]
    if r < 0.3:
        return torch.tensor(a)
    if r < 0.4 and d == 1:
        return a[:, :, 0]
    if r < 0.5:
        return np.concatenate([a, np.full((len(A), 1, d), nan)], axis=1)
    if r < 0.6 and not np.isnan(a).any() and unit == 1.0:
        return a.astype(int)
    return a


def npaths(b, x, d, r=None):
    """number of optimal alignments (a filter on scenarios only)"""
    n, m = len(b), len(x)
    C = [[0] * (m + 1) for _ in range(n + 1)]
    N = [[0] * (m + 1) for _ in range(n + 1)]
    big = 10**9
    for i in range(n + 1):
        for j in range(m + 1):
            if i == 0 or j == 0:
                C[i][j], N[i][j] = (0, 1) if i == j == 0 else (big, 0)
                continue
            p = [(C[a][c], N[a][c]) for a, c in ((i - 1, j - 1), (i - 1, j), (i, j - 1))]
            best = min(p)[0]
            C[i][j] = best + sum((b[i - 1][k] - x[j - 1][k]) ** 2 for k in range(d))
            N[i][j] = sum(q for c, q in p if c == best)
    return N[n][m]


def main(d):
    rng = d.rng
    while d.more() and d.n < (60000 if THOROUGH else 6000):
        {"simple": simple, "step": step, "run": run_, "soft": soft}[d.part](d, rng)


def weights(rng, n):
    r = rng.random()
    if r < 0.35:
        return None, [1] * n
    w = [rng.randint(1, 4) for _ in range(n)]
    s = rng.choice([1.0, 0.5, 1 / sum(w), 10.0])
    return np.array(w) * s, w


def simple(d, rng):
    D = rng.choice([1, 1, 2, 3])
    n, L, hi = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 5, 9])
    unit = rng.choice(UNITS)
    wa, w = weights(rng, n)
    A = data(rng, n, L, D, hi, False)
    a = rep(rng, A, D, unit)
    s, sw = snapshot(a), snapshot(wa)
    d.note(f"euclidean {A} {wa}")
    kw = {} if wa is None and rng.random() < 0.5 else dict(weights=wa)
    err, out = d.call(euclidean_barycenter, a, **kw)
    cm = dict(d=D, u=unit)
    mod = not (same(a, s) and same(wa, sw))
    d.emit("eucl", A=A, w=w, err=err, mod=mod, out=fracs(to_np(out) / unit, 500) if not err else [], **cm)
    A = data(rng, n, L, D, hi, rng.random() < 0.6)
    L = len(A[0])
    a = rep(rng, A, D, unit)
    s = snapshot(a)
    # starting points (no iteration)
    alg = rng.choice(["mm", "petitjean", "sub"])
    f = DBA.get(alg, dtw_barycenter_averaging_subgradient)
    m = rng.choice([L, L, 1, 2, L + 1, 2 * L, max(1, L - 1)])
    kw = {} if m == L and rng.random() < 0.5 else dict(barycenter_size=m)
    d.note(f"start {alg} {A} {kw}")
    err, out = d.call(f, a, max_iter=0, **kw)
    d.emit("start", A=A, m=m, alg=alg, err=err, mod=not same(a, s), out=fracs(to_np(out) / unit, 2000) if not err else [], **cm)
    b = [[rng.randint(-hi, hi) for _ in range(D)] for _ in range(m)]
    padn = rng.choice([0, 0, 0, 2])
    ba = pad(np.array(b, float) * unit, padn)
    if rng.random() < 0.15:
        ba = torch.tensor(ba)
    elif rng.random() < 0.2 and D == 1:
        ba = ba[:, 0]
    elif rng.random() < 0.2 and alg != "soft":
        ba = ba.tolist()
    sb = snapshot(ba)
    err, out = d.call(f, a, init_barycenter=ba, max_iter=0)
    d.emit("same", b=b, alg=alg, err=err, mod=not (same(a, s) and same(ba, sb)), out=fracs(to_np(out) / unit, 2000) if not err else [], **cm)
    d.note(f"softstart {A} {wa}")
    err, out = d.call(softdtw_barycenter, a, gamma=rng.choice([0.1, 1.0]), max_iter=0, weights=wa, n_jobs=rng.choice([None, 1]))
    d.emit("softstart", A=A, w=w, err=err, mod=not (same(a, s) and same(wa, sw)), out=fracs(to_np(out) / unit, 2000) if not err else [], **cm)
    bb = np.array(b, float) * unit
    sb = snapshot(bb)
    err, out = d.call(softdtw_barycenter, a, max_iter=0, init=bb)
    d.emit("same", b=b, alg="soft", err=err, mod=not (same(a, s) and same(bb, sb)), out=fracs(to_np(out) / unit, 2000) if not err else [], **cm)


def feasible(gc, n, m):
    """scenario filter: the Itakura region exists for these sizes"""
    from tslearn.metrics import itakura_mask
    if gc["t"] != "ita":
        return True
    try:
        itakura_mask(n, m, max_slope=gc["a"] / gc["b"])
        itakura_mask(m, n, max_slope=gc["a"] / gc["b"])
        return True
    except BaseException:
        return False


def scenario(d, rng, small=True):
    D = rng.choice([1, 1, 2, 3])
    n, L, hi = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 2, 3, 4, 5]), rng.choice([2, 5, 9])
    gc, kw = rng.choice(OKC) if rng.random() < 0.6 else OKC[0]
    if gc["t"] == "ita":
        n, L = min(n, 3), max(L, 3)
        A = data(rng, n, L, D, hi, False)
        m = L
    else:
        A = data(rng, n, L, D, hi, rng.random() < 0.5)
        m = rng.choice([len(A[0]), 1, 2, 3, 4])
    if not all(feasible(gc, m, len(strip(s))) for s in A):
        return None
    b = [[rng.randint(-hi, hi) for _ in range(D)] for _ in range(m)]
    return D, A, b, gc, kw


def step(d, rng):
    sc = scenario(d, rng)
    if sc is None:
        return
    D, A, b, gc, kw = sc
    k = 1
    for s in A:
        k *= npaths(b, strip(s), D)
    if k > 60:
        return
    unit = rng.choice(UNITS)
    wa, w = weights(rng, len(A))
    a = rep(rng, A, D, unit)
    ba = np.array(b, float) * unit
    s, sb, sk = snapshot(a), snapshot(ba), snapshot(kw)
    alg = rng.choice(["mm", "mm", "petitjean", "petitjean", "sub"])
    d.note(f"step {alg} {A} {b} {kw} {wa}")
    cm = dict(A=A, b=b, w=w, d=D, gc=gc, alg=alg, u=unit)
    if alg != "sub":
        ex = rng.choice([{}, {}, dict(n_jobs=2), dict(n_jobs=2), dict(n_jobs=1), dict(tol=0.0)])
        if rng.random() < 0.1 and alg == "mm":
            ex["n_init"] = rng.choice([1, 2, 3])
        if kw or rng.random() < 0.5:
            ex["metric_params"] = kw
        if wa is not None or rng.random() < 0.3:
            ex["weights"] = wa
        if rng.random() < 0.05:
            ex["verbose"] = True
        if rng.random() < 0.15:
            ex["barycenter_size"] = len(b) + 1         # the given start determines the size
        err, out = d.call(quiet, DBA[alg], a, init_barycenter=ba, max_iter=1, **ex)
        d.emit("step", err=err, mod=not (same(a, s) and same(ba, sb) and same(kw, sk)), out=fracs(to_np(out) / unit, 3000) if not err else [], jobs=str(ex.get("n_jobs")), **cm)
    else:
        if len(A) > 2 or len(b) * len(A[0]) > 9 or (len(A) == 2 and k > 6):
            return
        eta = rng.choice([(1, 4), (1, 2), (1, 8)])
        ex = {}
        if kw:
            ex["metric_params"] = kw
        if wa is not None:
            ex["weights"] = wa
        seed = rng.choice([0, 1, 2, np.random.RandomState(rng.randrange(99))])
        err, out = d.call(quiet, dtw_barycenter_averaging_subgradient, a, init_barycenter=ba, max_iter=1, initial_step_size=eta[0] / eta[1], final_step_size=eta[0] / eta[1],
                          random_state=seed, **ex)
        d.emit("sub", eta=list(eta), err=err, mod=not (same(a, s) and same(ba, sb) and same(kw, sk)), out=fracs(to_np(out) / unit, 200000) if not err else [], **cm)


def quiet(f, *a, **kw):
    if not kw.get("verbose"):
        return f(*a, **kw)
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


def run_(d, rng):
    D = rng.choice([1, 1, 2, 3])
    n, L = rng.choice([2, 3, 5, 8]), rng.choice([2, 4, 6, 12])
    gc, kw = rng.choice(OKC[:12]) if rng.random() < 0.5 else OKC[0]
    var = rng.random() < 0.5
    X = [np.round(d.nprng.randn(rng.randint(2, L) if var else L, D).cumsum(0), 3) for _ in range(n)]
    m = rng.choice([max(len(x) for x in X), 3, 7])
    b0 = np.round(d.nprng.randn(m, D), 3)
    wa, w = weights(rng, n)
    w_ = np.ones(n) if wa is None else wa
    alg = rng.choice(["mm", "petitjean"])
    K = rng.choice([1, 2, 3, 6, 12])
    tol = rng.choice([0.0, 1e-5, 1e-2, 0.1, 1.0])
    dflt = rng.random() < 0.15      # default iteration limit and tolerance
    if dflt:
        K, tol = 30, 1e-5
    ex = dict(metric_params=kw, weights=wa)
    d.note(f"run {alg} {[x.tolist() for x in X]} {b0.tolist()} {kw} {wa} K={K} tol={tol}")

    def cost(b):
        return float(sum(wi * dtw(x, b, **kw) ** 2 for wi, x in zip(w_, X)) / w_.sum())

    def go():
        chain = [b0]
        for _ in range(K):
            chain.append(quiet(DBA[alg], X, init_barycenter=chain[-1], max_iter=1, **ex))
        return chain, [cost(b) for b in chain[:-1]]
    err, v = d.call(go)
    if err:
        d.emit("run", costs=[], chain=[], out=[], maxit=0, tol=0, alg=alg, gc=gc, err=err, mod=False)
        return
    chain, costs = v
    sX, sb = snapshot(X), b0.copy()
    kw2 = dict(n_jobs=2) if rng.random() < 0.45 else {}
    err, out = d.call(quiet, DBA[alg], X, init_barycenter=b0, **({} if dflt else dict(max_iter=K, tol=tol)), **ex, **kw2)
    mod = not (same(X, sX) and same(b0, sb))
    S = 1e6
    if max(costs) > 1800 or max(abs(c).max() for c in chain) > 1800:
        S = 1e4
    d.emit("run", costs=[scaled(c, S) for c in costs], chain=scaleds(np.array(chain), S), out=scaleds(out, S) if not err else [], maxit=K,
           tol=scaled(tol, S), alg=alg, gc=gc, err=err, mod=mod, jobs=str(kw2))
    if rng.random() < 0.3:
        alg2 = "mm" if alg == "petitjean" else "petitjean"
        if gc["t"] != "ita":
            err, o2 = d.call(quiet, DBA[alg2], X, init_barycenter=b0, max_iter=1, **ex)
            # continuous data: alignments do not tie, both algorithms make the same step
            d.emit("agree", out=scaleds(o2, 1e5) if not err else [], ref=scaleds(chain[1], 1e5), alg=alg2, err=err, mod=False)


def soft(d, rng):
    D = rng.choice([1, 1, 2, 3])
    n, L = rng.choice([1, 2, 3, 5]), rng.choice([2, 3, 5, 9])
    var = rng.random() < 0.5
    X = [np.round(d.nprng.randn(rng.randint(1, L) if var else L, D), 3) for _ in range(n)]
    Lmax = max(len(x) for x in X)
    wa, w = weights(rng, n)
    w_ = np.ones(n) if wa is None else wa
    gamma = rng.choice([0.05, 0.3, 1.0, 1.0, 5.0])
    full = rng.random() < 0.7
    gc, kw = rng.choice([c for c in OKC[:12] if c[0]["t"] == "sak"]) if rng.random() < 0.3 else OKC[0]
    init = None
    if rng.random() < 0.5:
        init = np.round(d.nprng.randn(rng.choice([Lmax, 1, 3, Lmax + 2]), D), 3)
    if kw and init is not None:
        init = init[:Lmax]
    d.note(f"soft {[x.tolist() for x in X]} {None if init is None else init.tolist()} gamma {gamma} {kw} {wa}")
    from tslearn.utils import to_time_series_dataset
    Xa = X if rng.random() < 0.5 else to_time_series_dataset(X)
    if rng.random() < 0.1:
        Xa = torch.tensor(to_time_series_dataset(X))
    sX, si = snapshot(Xa), snapshot(init)
    ex = dict(n_jobs=2) if rng.random() < 0.2 else {}
    if gamma != 1.0 or rng.random() < 0.5:
        ex["gamma"] = gamma
    if full:
        ex.update(tol=1e-9, max_iter=400)
    elif rng.random() < 0.5:
        ex.update(max_iter=rng.choice([1, 2, 5]))

    def obj(Z):
        return float(sum(wi * soft_dtw(Z, x, gamma=gamma, **kw) for wi, x in zip(w_, X)))

    def go():
        start = softdtw_barycenter(Xa, max_iter=0, init=init, weights=wa)
        return start, softdtw_barycenter(Xa, init=init, weights=wa, **ex, **kw)
    err, v = d.call(go)
    if err:
        d.emit("soft", err=err, mod=False, shape=[], want=[], res=0, start=0, up=[], down=[], thr=0, full=full)
        return
    start, Z = v
    mod = not (same(Xa, sX) and (init is None or same(init, si)))
    want = [Lmax, D] if init is None else list(init.shape)
    scale = float(w_.sum())
    up, down = [], []
    if list(np.shape(Z)) == want:
        for _ in range(4 if full else 0):
            v = d.nprng.randn(*Z.shape)
            v *= 1e-3 / np.abs(v).max()
            up.append(scaled(obj(Z + v) / scale, 1e7))
            down.append(scaled(obj(Z - v) / scale, 1e7))
    d.emit("soft", err="", mod=mod, shape=list(np.shape(Z)), want=want, res=scaled(obj(Z) / scale, 1e5) if list(np.shape(Z)) == want else BAD,
           start=scaled(obj(start) / scale, 1e5), up=up, down=down, thr=200, full=full, gamma=gamma, gc=gc, ex=str(ex), winf=wa is not None)


if __name__ == "__main__":
    run(main)
