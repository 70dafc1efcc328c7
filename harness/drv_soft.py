"""E07..E12: soft-DTW, soft alignment / gradients, GAK, pairwise matrices, backend parity, CTW."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
import torch
from tslearn import metrics as M
from tslearn.backend import instantiate_backend, Backend
from tslearn.metrics.softdtw_variants import SoftDTW, SquaredEuclidean
from cons import CONS, NONE, sak, ita

LN2 = math.log(2.0)
Q20 = 2**20


def t64(a):
    return torch.tensor(np.array(a, float), dtype=torch.float64)


def series(d, n, dim, hi=None):
    hi = hi or d.rng.choice([1, 1, 2, 3])
    return rseries(d.rng, 0, hi, n, dim)


def pair(d, mx=7):
    rng = d.rng
    dim = rng.choice([1, 1, 2, 3])
    n, m = rng.randint(1, mx), rng.randint(1, mx)
    if rng.random() < 0.2:
        m = n
    hi = rng.choice([1, 1, 2, 2, 3, 6])
    x, y = rseries(rng, 0, hi, n, dim), rseries(rng, 0, hi, m, dim)
    if rng.random() < 0.07:
        y = [list(p) for p in x]
    return x, y


def arr(d, x, u, be, dtype=float):
    a = np.array(x, dtype=float) * u
    r = d.rng.random()
    if r < 0.25:
        a = pad(a, d.rng.randint(1, 3))
    if be == "tensor":
        return torch.tensor(a, dtype=torch.float64)
    if a.shape[1] == 1 and 0.3 < r < 0.45:
        return a.ravel()
    if 0.45 < r < 0.6:
        return a.tolist()
    return a


def gam(d):
    """(gamma, weight per unit cost g, unit u): costs g*c*gamma*ln2 are made of points scaled by u"""
    gamma = d.rng.choice([1.0, 1.0, 0.1, 0.01, 10.0, 1 / LN2, 1e-3, 100.0])
    g = d.rng.choice([1, 1, 1, 2, 3, 7])
    return gamma, g, math.sqrt(gamma * LN2 * g)


def zval(S, gamma, mult=1):
    S = float(to_np(S))
    return sf_pow2(-mult * S / (gamma * LN2))


def bes(tp):
    return [("pytorch", dict(be="pytorch")), ("tensor", {})] if tp else [("numpy", {}), ("numpy", dict(be="numpy"))]


# cdist_soft_dtw(gamma=0): see known_findings.json
G0_FIXED = [([[0], [3]], [[1], [1], [2]]), ([[0, 1], [4, 2]], [[2, 2]])]


def e07(d, tp):
    rng = d.rng
    B = bes(tp)
    for i, (x, y) in enumerate(G0_FIXED):
        for fn in ("cdist_soft_dtw", "cdist_soft_dtw_normalized"):
            for be, bkw in B[:2 if tp else 1]:
                a, b = (t64(x), t64(y)) if be == "tensor" else (np.array(x, float), np.array(y, float))
                err, v = d.call(getattr(M, fn), a[None], b[None], gamma=0.0, **bkw)
                d.emit("soft0", f=fn, be=be, x=x, y=y, g=1, gc=NONE, err=err, v=ival(v[0][0]) if not err else 0, sig=f"gamma0-{fn}-{i}-{be}")
    while d.more() and d.n < (40000 if THOROUGH else 7000):
        x, y = pair(d, 7 if rng.random() < 0.9 else 16)
        gamma, g, u = gam(d)
        gc, kw = rng.choice(CONS) if rng.random() < 0.7 else CONS[0]
        be, bkw = rng.choice(B)
        f = rng.choice(["soft_dtw", "soft_dtw", "cdist", "class", "norm", "norm", "cdistn", "g0", "g0n", "g0a"])
        d.note(f"{f} {x} {y} {gamma} {g} {kw} {be}")
        gkw = dict(gamma=gamma)
        if gamma == 1.0 and rng.random() < 0.5:
            gkw = {}
        a, b = arr(d, x, u, be), arr(d, y, u, be)
        base = dict(f=f, be=be, x=x, y=y, g=g, gc=gc, tol=16, kw=str(kw), gamma=str(gamma))
        if f == "soft_dtw":
            err, v = d.call(M.soft_dtw, a, b, **gkw, **kw, **bkw)
            d.emit("soft", err=err, z=zval(v, gamma) if not err else 0, **base)
        elif f == "cdist":
            a, b = (t64(x) * u, t64(y) * u) if be == "tensor" else (np.array(x, float) * u, np.array(y, float) * u)
            err, v = d.call(M.cdist_soft_dtw, a[None], b[None], **gkw, **kw, **bkw)
            d.emit("soft", err=err, z=zval(v[0][0], gamma) if not err else 0, **base)
        elif f == "class":
            base["gc"] = NONE
            a, b = (t64(x) * u, t64(y) * u) if tp else (np.array(x, float) * u, np.array(y, float) * u)
            cwb = bool(tp and rng.random() < 0.5)
            err, v = d.call(lambda: SoftDTW(SquaredEuclidean(a, b), gamma=gamma, compute_with_backend=cwb).compute())
            d.emit("soft", err=err, z=zval(v, gamma) if not err else 0, **base)
        elif f == "norm":
            err, v = d.call(M._soft_dtw.soft_dtw_normalized, a, b, **gkw, **kw, **bkw)
            d.emit("softn", err=err, z=zval(v, gamma) if not err else 0, **base)
        elif f == "cdistn":
            a, b = (t64(x) * u, t64(y) * u) if be == "tensor" else (np.array(x, float) * u, np.array(y, float) * u)
            err, v = d.call(M.cdist_soft_dtw_normalized, a[None], b[None], **gkw, **kw, **bkw)
            d.emit("softn", err=err, z=zval(v[0][0], gamma) if not err else 0, **base)
        else:
            a, b = arr(d, x, 1, be), arr(d, y, 1, be)
            if f == "g0":
                err, v = d.call(M.soft_dtw, a, b, gamma=0.0, **kw, **bkw)
            elif f == "g0n":
                err, v = d.call(M._soft_dtw.soft_dtw_normalized, a, b, gamma=0.0, **kw, **bkw)
            elif f == "g0a":
                err, v = d.call(M.soft_dtw_alignment, a, b, gamma=0.0, **kw, **bkw)
                d.emit("align0", err=err, v=ival(v[1]) if not err else 0, E=ivals(v[0]) if not err else [], **base)
                continue
            d.emit("soft0", err=err, v=ival(v) if not err else 0, **base)


def e08(d, tp):
    rng = d.rng
    B = bes(tp)
    lossp = d.part == "loss"
    if lossp:
        tp, B = True, bes(True)
        for dt in (torch.float32, torch.float64):
            for kw in ({}, dict(sakoe_chiba_radius=1), dict(itakura_max_slope=2.0)):
                q = torch.rand(2, 3, 1, dtype=dt, requires_grad=True)
                M.SoftDTWLossPyTorch(**kw)(q, q.detach() + 1).sum().backward()
        d.start()
    while d.more() and d.n < (40000 if THOROUGH else 2500):
        x, y = pair(d, 6)
        gamma, g, u = gam(d)
        gc, kw = rng.choice(CONS) if rng.random() < 0.7 else CONS[0]
        be, bkw = rng.choice(B)
        f = "loss" if lossp else rng.choice(["align", "align", "align", "jac", "class"] + (["auto", "auto", "autoalign"] if tp else []))
        d.note(f"{f} {x} {y} {gamma} {g} {kw} {be}")
        base = dict(f=f, be=be, x=x, y=y, g=g, gc=gc, tol=16, kw=str(kw), gamma=str(gamma), eps=64)
        if f == "align":
            a, b = arr(d, x, u, be), arr(d, y, u, be)
            err, v = d.call(M.soft_dtw_alignment, a, b, gamma=gamma, **kw, **bkw)
            d.emit("align", err=err, z=zval(v[1], gamma) if not err else 0, E=scaleds(v[0], Q20) if not err else [], **base)
        elif f == "class":
            base["gc"] = NONE
            a, b = (t64(x) * u, t64(y) * u) if tp else (np.array(x, float) * u, np.array(y, float) * u)
            cwb = bool(tp and rng.random() < 0.5)

            def go():
                s = SoftDTW(SquaredEuclidean(a, b), gamma=gamma, compute_with_backend=cwb)
                v = s.compute()
                return s.grad(), v
            err, v = d.call(go)
            d.emit("align", err=err, z=zval(v[1], gamma) if not err else 0, E=scaleds(v[0], Q20) if not err else [], **base)
        elif f == "jac":
            a, b = (t64(x), t64(y)) if tp else (np.array(x, float), np.array(y, float))
            E = [[rng.randint(0, 4) for _ in y] for _ in x]
            Ea = t64(E) if tp else np.array(E, float)
            cwb = bool(tp and rng.random() < 0.5)

            def go():
                s = SquaredEuclidean(a, b, compute_with_backend=cwb)
                return s.compute(), s.jacobian_product(Ea)
            err, v = d.call(go)
            d.emit("jac", err=err, f=f, be=be, x=x, y=y, E=E, D=ivals(v[0]) if not err else [], G=ivals(v[1]) if not err else [])
        elif f in ("auto", "autoalign"):
            a, b = t64(x) * u, t64(y) * u
            hx, hy = rng.choice([(True, False), (False, True), (True, True)])
            a.requires_grad_(hx)
            b.requires_grad_(hy)

            def go():
                s = M.soft_dtw(a, b, gamma=gamma, **kw) if f == "auto" else M.soft_dtw_alignment(a, b, gamma=gamma, **kw)[1]
                if torch.isfinite(s):
                    s.backward()
                return s
            err, s = d.call(go)
            gx = scaleds(a.grad / (2 * u), Q20) if hx and a.grad is not None else []
            gy = scaleds(b.grad / (2 * u), Q20) if hy and b.grad is not None else []
            if not err and not torch.isfinite(s):
                hx = hy = False
            d.emit("grad", err=err, z=zval(s, gamma) if not err else 0, gx=gx, gy=gy, hx=hx, hy=hy, w=1, norm=False, **base)
        else:  # SoftDTWLossPyTorch on a batch
            bsz = rng.randint(1, 3)
            n, m, dim = len(x), len(y), len(x[0])
            X = [x] + [rseries(rng, 0, 2, n, dim) for _ in range(bsz - 1)]
            Y = [y] + [rseries(rng, 0, 2, m, dim) for _ in range(bsz - 1)]
            W = [rng.randint(1, 3) for _ in range(bsz)]
            norm = rng.random() < 0.4
            dt = rng.choice([torch.float32, torch.float64])
            A = (t64(X) * u).to(dt).requires_grad_(True)
            Bt = (t64(Y) * u).to(dt)
            hy = rng.random() < 0.6
            Bt.requires_grad_(hy)
            df = None if rng.random() < 0.7 else (lambda p, q: ((p.unsqueeze(2) - q.unsqueeze(1)) ** 2).sum(3))

            def go():
                loss = M.SoftDTWLossPyTorch(gamma=gamma, normalize=norm, dist_func=df, **kw)
                L = loss(A, Bt)
                if torch.isfinite(L).all():
                    (L * torch.tensor(W, dtype=L.dtype)).sum().backward()
                return L
            err, L = d.call(go)
            for k in range(bsz):
                b2 = dict(base, x=X[k], y=Y[k], tol=8)
                fin = bool(not err and torch.isfinite(L).all())
                shp = not err and tuple(L.shape) == (bsz,)
                d.emit("grad", err=err if err or shp else "BadShape", z=zval(L[k], gamma, 1) if not err and shp else 0, w=W[k], norm=norm,
                       hx=fin, hy=hy and fin,
                       gx=scaleds(A.grad[k] / (2 * u), Q20) if fin else [], gy=scaleds(Bt.grad[k] / (2 * u), Q20) if fin and hy else [],
                       **{**b2, "eps": 4000})


def e09(d, tp):
    rng = d.rng
    B = bes(tp)
    while d.more() and d.n < (40000 if THOROUGH else 6000):
        be, bkw = rng.choice(B)
        if rng.random() < 0.15:
            N = rng.choice([2, 3, 6, 7, 10])
            dim = rng.choice([1, 2, 3])
            cols = rng.choice([q for q in range(1, N + 1) if N % q == 0])
            pts = rseries(rng, -5, 5, N, dim)
            if dim == 1 and len({tuple(p) for p in pts}) < 2:
                continue
            ds = np.array(pts, float).reshape(N // cols, cols, dim)
            extra = rng.choice([0, 0, 2])
            if extra:
                ds = np.concatenate([ds, np.full((ds.shape[0], extra, dim), np.nan)], axis=1)
            a = torch.tensor(ds) if be == "tensor" else ds
            seed = rng.randint(0, 5)

            def go():
                s = M.sigma_gak(a, n_samples=N, random_state=seed, **bkw)
                return s, M.gamma_soft_dtw(a, n_samples=N, random_state=seed, **bkw)
            err, v = d.call(go)
            z0, _ = d.call(rng.choice([M.gak, M.unnormalized_gak, M.cdist_gak]), a[0], a[0], sigma=0.0)
            d.emit("sigma", err=err, be=be, pts=pts, pairs=[[i, j] for i in range(1, N + 1) for j in range(i + 1, N + 1)], sz=cols,
                   s2=sq(v[0]) if not err else 0, g2=ival(v[1]) if not err else 0, z0=z0)
            continue
        x, y = pair(d, 7 if rng.random() < 0.9 else 14)
        sigma = rng.choice([1.0, 1.0, 0.5, 2.0, 10.0, 1 / math.sqrt(2 * LN2)])
        g = rng.choice([1, 1, 2, 3])
        u = math.sqrt(2 * sigma * sigma * g * LN2)
        f = rng.choice(["u", "n", "n", "c"])
        a, b = arr(d, x, u, be), arr(d, y, u, be)
        d.note(f"gak {f} {x} {y} {sigma} {g} {be}")
        skw = {} if sigma == 1.0 and rng.random() < 0.5 else dict(sigma=sigma)
        base = dict(f=f, be=be, x=x, y=y, g=g, tol=14, sigma=str(sigma))
        if f == "u":
            err, v = d.call(M.unnormalized_gak, a, b, **skw, **bkw)
            d.emit("ugak", err=err, z=sf(v) if not err else 0, **base)
        elif f == "n":
            err, v = d.call(M.gak, a, b, **skw, **bkw)
            d.emit("gak", err=err, z=sf(v) if not err else 0, **base)
        else:
            a, b = (t64(x) * u, t64(y) * u) if be == "tensor" else (np.array(x, float) * u, np.array(y, float) * u)
            err, v = d.call(M.cdist_gak, a[None], b[None], **skw, **bkw)
            d.emit("gak", err=err, z=sf(v[0][0]) if not err else 0, **base)


def dataset(d, A, u, be, form):
    """the ways a dataset may be handed over"""
    mx = max(len(a) for a in A)
    if form == "list":
        return [(np.array(a, float) * u) if be != "tensor" else t64(a) * u for a in A] if be != "tensor" else torch.tensor(np.stack([pad(np.array(a, float) * u, mx - len(a)) for a in A]))
    if form == "lists" and be != "tensor":
        return [[[v * u for v in p] for p in a] for a in A]
    arr_ = np.stack([pad(np.array(a, float) * u, mx - len(a) + (1 if form == "padded" else 0)) for a in A])
    if be == "tensor":
        return torch.tensor(arr_)
    if form == "2d" and arr_.shape[2] == 1:
        return arr_[:, :, 0]
    return arr_


def snapshot(x):
    if hasattr(x, "detach"):
        return to_np(x).copy()
    if isinstance(x, np.ndarray):
        return x.copy()
    return None


def changed(x, s):
    return s is not None and not np.array_equal(to_np(x), s, equal_nan=True)


def e10(d, tp):
    rng = d.rng
    B = bes(tp)
    MEAS = {"dtw": M.cdist_dtw, "fre": M.cdist_frechet, "soft": M.cdist_soft_dtw, "softn": M.cdist_soft_dtw_normalized,
            "soft0": M.cdist_soft_dtw, "gak": M.cdist_gak, "ctw": M.cdist_ctw, "sax": M.cdist_sax, "dep": None}
    names = ["dtw", "dtw", "fre", "soft", "softn", "softn", "soft", "gak", "gak", "ctw", "sax"]
    k = 0
    while d.more() and d.n < (20000 if THOROUGH else 2500):
        k += 1
        meas = rng.choice(names)
        be, bkw = rng.choice(B)
        dim = rng.choice([1, 1, 2])
        eq = rng.random() < 0.35
        mx = rng.randint(1, 6)

        def ds(n):
            return [rseries(rng, 0, 3, mx if eq else rng.randint(1, mx), dim) for _ in range(n)]
        A = ds(rng.randint(1, 5))
        self_ = rng.random() < 0.45
        mx = rng.randint(1, 6) if not eq else mx
        Bd = A if self_ else ds(rng.randint(1, 5))
        gc, kw = rng.choice(CONS) if rng.random() < 0.6 else CONS[0]
        jobs = rng.choice([None, 1, 2, -1, 3]) if rng.random() < 0.12 else rng.choice([None, None, 1])
        form = rng.choice(["array", "list", "lists", "padded", "2d"])
        u, g, pk = 1.0, 1, {}
        if meas in ("soft", "softn"):
            gamma, g, u = gam(d)
            pk = dict(gamma=gamma)
        elif meas == "soft0":
            pk = dict(gamma=0.0)
        elif meas == "gak":
            sigma = rng.choice([1.0, 2.0, 0.5])
            u = math.sqrt(2 * sigma * sigma * LN2)
            pk = dict(sigma=sigma)
        if meas in ("gak", "sax"):
            gc, kw = NONE, {}
        a, b = dataset(d, A, u, be, form), None if self_ else dataset(d, Bd, u, be, rng.choice(["array", "list", "padded"]))
        P = []
        if meas == "ctw":
            if any(len(s) < 2 for s in A + Bd):
                continue
            if dim == 1 and any(len({tuple(p) for p in s}) < 2 for s in A + Bd):
                continue
            gc_open = gc["t"] == "ita"
            if gc_open:
                continue
            pk = dict(max_iter=rng.choice([1, 2, 5]))
        if meas == "sax":
            if tp:
                continue
            mx_ = max(len(s) for s in A + Bd)
            A = [[[v] for p in s for v in p][:mx_] for s in A]
            A = [(s * mx_)[:mx_] for s in A]
            Bd = [[[v] for p in s for v in p][:mx_] for s in Bd]
            Bd = [(s * mx_)[:mx_] for s in Bd]
            br = np.array([-0.5, 0.5, 1.5, 2.5])
            sz = rng.randint(mx_, 3 * mx_)
            a, b = np.array(A, int), None if self_ else np.array(Bd, int)
            sn = snapshot(a)
            d.note(f"cdist sax {A} {Bd} jobs={jobs}")
            err, v = d.call(M.cdist_sax, a, br, sz, b, n_jobs=jobs)
            # between two words: sqrt(sz / n_segments * sum of squared breakpoint gaps); gaps are integers here
            P = [[math.sqrt(sz / mx_ * sum(max(0, abs(p[0] - q[0]) - 1) ** 2 for p, q in zip(s, t))) for t in (A if self_ else Bd)] for s in A]
            d.emit("cd", meas="sax", be=be, A=A, B=[] if self_ else Bd, slf=self_, gc=NONE, g=1, err=err, M=nums(v) if not err else [], P=nums(P), tol=0, mod=changed(a, sn), jobs=str(jobs))
            continue
        s1, s2 = snapshot(a), snapshot(b)
        jkw = {} if jobs is None and rng.random() < 0.5 else dict(n_jobs=jobs)
        d.note(f"cdist {meas} {A} {Bd if not self_ else 'self'} {kw} {pk} {jkw} {be} {form}")
        err, v = d.call(MEAS[meas], a, b, **pk, **kw, **jkw, **bkw) if b is not None else d.call(MEAS[meas], a, **pk, **kw, **jkw, **bkw)
        if meas == "ctw" and not err:
            P = [[0.0] * len(Bd) for _ in A]
            for i in range(len(A)):
                for j in range(len(Bd)):
                    if self_ and j <= i:
                        continue
                    P[i][j] = float(to_np(M.ctw(np.array(A[i], float), np.array(Bd[j], float), **pk, **kw)))
            P = nums(P)
        if meas == "ctw" and err:
            # CCA refuses some degenerate pairs: then the matrix cannot exist either
            if any(d.call(M.ctw, np.array(p, float), np.array(q, float), **pk, **kw)[0] for i, p in enumerate(A) for j, q in enumerate(Bd) if not self_ or j > i):
                continue
        mod = changed(a, s1) or changed(b, s2)
        Mx = []
        if not err:
            v = to_np(v)
            if meas == "soft":
                Mx = [[zval(q, pk["gamma"]) for q in r] for r in v]
            elif meas == "softn":
                Mx = [[zval(q, pk["gamma"]) for q in r] for r in v]
            elif meas == "gak":
                Mx = [[sf(q) for q in r] for r in v]
            elif meas == "soft0":
                Mx = [[ival(q) for q in r] for r in v]
            elif meas == "ctw":
                Mx = nums(v)
            else:
                Mx = [[sq(q) for q in r] for r in v]
        d.emit("cd", meas=meas, be=be, A=A, B=[] if self_ else Bd, slf=self_, gc=gc, g=g, err=err, M=Mx, P=P, tol=14, mod=mod, jobs=str(jobs), kw=str(kw), pk=str(pk), form=form)


def is_arr(v):
    return is_torch(v) or isinstance(v, (np.ndarray, np.generic))


def typ(v):
    if is_torch(v):
        return "torch"
    if isinstance(v, (np.ndarray, np.generic, float, int)):
        return "numpy"
    return type(v).__name__


def e11(d, tp):
    rng = d.rng
    npr = d.nprng

    def X(n, dim, scale=1.0):
        return npr.randn(n, dim) * scale

    def par(name, fn, args, depth=0, tol=200, second=None, form=None):
        """fn(args) with NumPy arrays and with tensors (or with be='pytorch')"""
        form = form or rng.choice(["tensor", "be"])
        seen.add(name)
        d.note(f"parity {name} {form} {[np.asarray(a).tolist() for a in args]}")
        en, vn = d.call(fn, *args)
        if form == "tensor":
            et, vt = d.call(fn, *[torch.tensor(a) for a in args])
        else:
            et, vt = d.call(fn, *args, be="pytorch")
        pn = vn if not en else 0
        pt = vt if not et else 0
        if second is not None:
            pn, pt = (second(vn) if not en else 0), (second(vt) if not et else 0)
        d.emit("par", name=name, form=form, errn=en, errt=et, vn=nums(pn) if not en else [0, 0], vt=nums(pt) if not et else [0, 0], depth=depth, tol=tol,
               tn=typ(pn), typed=name not in ("lcss", "lcss_path", "lb_keogh"), tt=typ(pt), shn=list(np.shape(to_np(pn))), sht=list(np.shape(to_np(pt))))

    def fun():
        """a function of the Backend interface on arrays of the two backends"""
        sh = rng.choice([(3,), (1,), (2, 3), (3, 3), (2, 3, 2), (1, 4), (4, 2)])
        a = np.asarray(npr.randint(-3, 4, sh), float) / rng.choice([1, 2, 4])
        m2, m3 = np.asarray(npr.randint(-4, 5, (rng.randint(2, 4), 3)), float), np.asarray(npr.randint(-4, 5, (rng.randint(2, 4), 3)), float)
        sq_ = np.asarray(npr.randint(-3, 4, (3, 3)), float) + 10 * np.eye(3)
        wnan = np.where(npr.rand(*sh) < 0.3, rng.choice([np.nan, np.inf]), a)
        bo = npr.rand(*sh) < 0.7
        ax = rng.randrange(-len(sh), len(sh))
        axs = tuple(rng.sample(range(len(sh)), rng.randint(1, len(sh))))
        axs = tuple(x - len(sh) if rng.random() < 0.3 else x for x in axs)
        n, k, m = rng.randint(1, 4), rng.randint(-2, 2), rng.choice([None, 1, 2, 3, 5])
        p = rng.choice([1.0, 2.0, 3.0])
        dt = rng.choice(["float32", "float64", "int64", "int32"])
        met = rng.choice(["euclidean", "sqeuclidean"])
        mc = lambda u, v: abs(u - v).sum() + 2 * abs(u[0] - v[1])  # noqa
        T = {
            "abs": lambda b: b.abs(b.array(a)), "all": lambda b: b.all(b.array(bo)), "all-axis": lambda b: b.all(b.array(bo), axis=ax), "all-axes": lambda b: b.all(b.array(bo), axis=axs),
            "all-num": lambda b: b.all(b.array(a), axis=axs), "any": lambda b: b.any(b.array(bo)), "any-axis": lambda b: b.any(b.array(bo), axis=ax),
            "arange": lambda b: b.arange(n), "argmax": lambda b: b.argmax(b.array(np.arange(5.0) * (-1) ** np.arange(5))), "argmin": lambda b: b.argmin(b.array(np.arange(5.0) * (-1) ** np.arange(5))),
            "array-list": lambda b: b.array(a.tolist()), "array-mixed": lambda b: b.array([b.array(a), b.array(a + 1)]), "array-dtype": lambda b: b.cast(b.array(np.round(a), dtype=getattr(b, dt)), b.float64),
            "cast": lambda b: b.cast(b.cast(b.array(np.round(a)), getattr(b, dt)), b.float64), "ceil": lambda b: b.ceil(b.array(a)), "floor": lambda b: b.floor(b.array(a)), "round": lambda b: b.round(b.array(a)),
            "diag": lambda b: b.diag(b.array(sq_)), "exp": lambda b: b.exp(b.array(a)), "log": lambda b: b.log(b.array(abs(a) + 0.5)), "eye": lambda b: b.eye(n), "full": lambda b: b.full((n, 2), 1.5),
            "zeros": lambda b: b.zeros((n, 2)), "zeros_like": lambda b: b.zeros_like(b.array(a)), "empty": lambda b: 0 * b.cast(b.isnan(b.empty((n, 3))), b.float64),
            "isfinite": lambda b: b.isfinite(b.array(wnan)), "isnan": lambda b: b.isnan(b.array(wnan)), "max": lambda b: b.max(b.array(a)), "min": lambda b: b.min(b.array(a)),
            "mean": lambda b: b.mean(b.array(a)), "mean-axis": lambda b: b.mean(b.array(a), axis=ax), "sum": lambda b: b.sum(b.array(a)), "sum-axis": lambda b: b.sum(b.array(a), axis=ax), "median": lambda b: b.median(b.array(a)),
            "cdist": lambda b: b.cdist(b.array(m2), b.array(m3), metric=met), "cdist-mink": lambda b: b.cdist(b.array(m2), b.array(m3), metric="minkowski", p=p),
            "pdist": lambda b: b.pdist(b.array(m2), metric=met), "pdist-mink": lambda b: b.pdist(b.array(m2), metric="minkowski", p=p),
            "pairwise": lambda b: b.pairwise_distances(b.array(m2), b.array(m3), metric=met), "pairwise-self": lambda b: b.pairwise_distances(b.array(m2), metric=met),
            "pairwise-callable": lambda b: b.pairwise_distances(b.array(m2), b.array(m3), metric=mc), "pairwise_euclidean_distances": lambda b: b.pairwise_euclidean_distances(b.array(m2), b.array(m3)),
            "reshape": lambda b: b.reshape(b.array(a), (-1,)), "shape": lambda b: b.shape(b.array(a)), "shape-list": lambda b: b.shape(a.tolist()), "ndim": lambda b: b.ndim(b.array(a)),
            "sqrt": lambda b: b.sqrt(b.array(abs(a))), "sqrt-number": lambda b: b.sqrt(2.25), "tril": lambda b: b.tril(b.array(sq_), k=k), "triu": lambda b: b.triu(b.array(sq_), k=k),
            "tril_indices": lambda b: b.tril_indices(n, k=k, m=m), "triu_indices": lambda b: b.triu_indices(n, k=k, m=m), "vstack": lambda b: b.vstack([b.array(m2), b.array(m3)]), "hstack": lambda b: b.hstack([b.array(sq_), b.array(sq_)]),
            "inv": lambda b: b.linalg.inv(b.array(sq_)), "norm": lambda b: b.linalg.norm(b.array(a.ravel())), "to_numpy": lambda b: b.to_numpy(b.array(a)), "from_numpy": lambda b: b.from_numpy(a.copy()),
            "copy": lambda b: [(c := b.array(a)), b.copy(c).__imul__(0), c][2], "array-copies": lambda b: [(c := b.array(a)), b.array(c).__imul__(0), c][2],
            "is_array": lambda b: [b.is_array(b.array(a)), b.is_array(a.tolist()), b.is_array(2.0)], "belongs": lambda b: [b.belongs_to_backend(b.array(a)), b.belongs_to_backend(a.tolist())],
            "is_float": lambda b: [b.is_float(1.5), b.is_float(b.array(a).sum()), b.is_float(b.cast(b.array(np.round(a)), b.int64).sum())],
            "is_float32": lambda b: [b.is_float32(b.cast(b.array(a), getattr(b, "float%d" % w)).sum()) for w in (32, 64)],
            "is_float64": lambda b: [b.is_float64(b.cast(b.array(a), getattr(b, "float%d" % w)).sum()) for w in (32, 64)],
            "iscomplex": lambda b: [bool(b.iscomplex(1j))],
        }
        name = rng.choice(sorted(T))
        d.note(f"backend function {name} {a.tolist()} {m2.tolist()} {m3.tolist()} {sq_.tolist()} nan {wnan.tolist()} bool {bo.tolist()} axis {ax} {axs} n {n} k {k} m {m} p {p} {dt} {met}")
        r = []
        for b in ("numpy", "pytorch"):
            e, v = d.call(T[name], Backend(b))
            t = typ(v) if not isinstance(v, (tuple, list)) else "list"
            if not e:
                v = np.concatenate([np.ravel(to_np(q)) for q in v]) if isinstance(v, (tuple, list)) and len(v) and is_arr(v[0]) else np.asarray(to_np(v))
            r.append((e, v, t))
        (en, vn, tn), (et, vt, tt) = r
        plain = tn in ("list",) or tt in ("list",) or name in ("ndim", "to_numpy")
        d.emit("par", name="Backend." + name, form="be", errn=en, errt=et, vn=nums(np.ravel(vn).astype(float)) if not en else [], vt=nums(np.ravel(vt).astype(float)) if not et else [], depth=1, tol=200 if name not in ("exp", "log", "inv") else 2000,
               tn="numpy", typed=not plain, tt=tt, shn=list(np.shape(vn)), sht=list(np.shape(vt)))

    fns2 = ["dtw", "soft_dtw", "gak", "unnormalized_gak", "frechet", "lcss", "soft_dtw_normalized", "dtw_limited_warping_length", "ctw"]
    cds = ["cdist_dtw", "cdist_soft_dtw", "cdist_soft_dtw_normalized", "cdist_gak", "cdist_frechet"]
    # which backend an argument list selects
    pool = [("str:numpy", "numpy"), ("str:pytorch", "pytorch"), ("ndarray", np.array([0.0])), ("tensor", torch.tensor([0.0])), ("none", None), ("other", "Hello"), ("num", 3),
            ("list", [1.0, 2.0]), ("be:numpy", instantiate_backend("numpy")), ("be:pytorch", instantiate_backend("pytorch")), ("str:torch", "torch"), ("ndarray0", np.zeros((0, 1)))]
    lo, hi = {"pair": (0.1, 0.5), "cdist": (0.5, 0.7), "other": (0.7, 1.0)}[d.part]
    seen = set()
    while d.more() and d.n < (20000 if THOROUGH else 2500):
        r = rng.uniform(lo, hi) if d.part != "other" or rng.random() > 0.15 else 0
        dim = rng.choice([1, 2, 3])
        n, m = rng.randint(1, 9), rng.randint(1, 9)
        gc, kw = rng.choice(CONS[:11])
        if d.part == "other" and rng.random() < 0.35:
            fun()
        elif r < 0.1:
            ar = [rng.choice(pool) for _ in range(rng.randint(0, 4))]
            err, b = d.call(instantiate_backend, *[v for _, v in ar])
            d.emit("sel", args=[k for k, _ in ar], err=err, got=b.backend_string if not err else "", same=bool(not err and (not ar or not ar[0][0].startswith("be:") or b is ar[0][1])))
        elif r < 0.5:
            name = rng.choice(fns2)
            k2 = {}
            if name in ("dtw", "frechet", "soft_dtw", "soft_dtw_normalized"):
                k2 = dict(kw)
            if name.startswith("soft"):
                k2["gamma"] = rng.choice([1.0, 0.1, 3.0])
            if "gak" in name:
                k2["sigma"] = rng.choice([1.0, 2.0])
            if name == "lcss":
                k2 = dict(kw, eps=rng.choice([0.5, 1.0]))
            if name == "dtw_limited_warping_length":
                k2 = dict(max_length=max(n, m) + rng.randint(0, 3))
            if name == "ctw":
                n, m = n + 2, m + 2
                k2 = dict(max_iter=3)
                dim = rng.choice([1, 2])
            f = getattr(M, name) if hasattr(M, name) else M._soft_dtw.soft_dtw_normalized
            a, b = X(n, dim), X(m, dim)
            if rng.random() < 0.3:
                a = pad(a, 2)
            par(name, lambda *z, **q: f(*z, **k2, **q), [a, b])
        elif r < 0.7:
            name = rng.choice(cds)
            N1, N2 = rng.randint(1, 4), rng.randint(1, 4)
            k2 = dict(kw) if "gak" not in name else {}
            k2["n_jobs"] = rng.choice([None, 2])
            A = np.stack([pad(X(q, dim), n - q) for q in [n] + [rng.randint(1, n) for _ in range(N1 - 1)]])
            Bd = np.stack([pad(X(q, dim), m - q) for q in [m] + [rng.randint(1, m) for _ in range(N2 - 1)]])
            args = [A] if rng.random() < 0.4 else [A, Bd]
            par(name, lambda *z, **q: getattr(M, name)(*z, **k2, **q), args, depth=2)
        elif r < 0.9:
            name = rng.choice(["dtw_accumulated_matrix", "frechet_accumulated_matrix", "soft_dtw_alignment", "lb_envelope", "subsequence_cost_matrix", "sigma_gak", "gamma_soft_dtw", "dtw_path", "lb_keogh", "frechet_path", "lcss_path", "lcss_accumulated_matrix"])
            a, b = X(n, dim), X(m, dim)
            if name in ("dtw_accumulated_matrix", "frechet_accumulated_matrix"):
                mask = M.compute_mask(a, b)
                par(name, lambda z, w, be=None: getattr(M, name)(z, w, mask if not (is_torch(z) or be) else torch.tensor(mask), be=be), [a, b], depth=2)
            elif name == "soft_dtw_alignment":
                par(name, lambda z, w, be=None: M.soft_dtw_alignment(z, w, gamma=0.7, be=be, **kw), [a, b], depth=2, second=lambda v: v[0])
            elif name == "lb_envelope":
                par(name, lambda z, be=None: M.lb_envelope(z, radius=2, be=be), [a], depth=2, second=rng.choice([lambda v: v[0], lambda v: v[1]]))
            elif name == "subsequence_cost_matrix":
                par(name, M.subsequence_cost_matrix, [a, b], depth=2)
            elif name in ("sigma_gak", "gamma_soft_dtw"):
                A = npr.randn(rng.randint(2, 5), n + 1, dim)
                ns = rng.choice([10, 7, 100])
                par(name, lambda z, be=None: getattr(M, name)(z, n_samples=ns, random_state=3, be=be), [A])
            elif name == "lb_keogh":
                a, b = X(n, 1), X(n, 1)
                par(name, lambda z, w, be=None: M.lb_keogh(z, w, radius=2) if be is None else M.lb_keogh(torch.tensor(z), torch.tensor(w), radius=2), [a, b])
            elif name in ("dtw_path", "frechet_path"):
                par(name, lambda z, w, be=None: getattr(M, name)(z, w, be=be, **kw), [a, b], second=lambda v: v[1])
            elif name == "lcss_path":
                par(name, lambda z, w, be=None: M.lcss_path(z, w, eps=0.8, be=be, **kw), [a, b], second=lambda v: v[1])
        else:
            name = rng.choice(["itakura_mask", "sakoe_chiba_mask"])
            if name == "itakura_mask":
                en, vn = d.call(M.itakura_mask, n, m, max_slope=2.0)
                et, vt = d.call(M.itakura_mask, n, m, max_slope=2.0, be="pytorch")
            else:
                en, vn = d.call(M.sakoe_chiba_mask, n, m, radius=2)
                et, vt = d.call(M.sakoe_chiba_mask, n, m, radius=2, be="pytorch")
            d.emit("par", name=name, form="be", errn=en, errt=et, vn=nums(to_np(vn).astype(float)) if not en else [0, 0], vt=nums(to_np(vt).astype(float)) if not et else [0, 0], depth=2, tol=0,
                   tn=typ(vn), typed=True, tt=typ(vt), shn=list(np.shape(vn)), sht=list(np.shape(to_np(vt))) if not et else [])


# CTW stops after one update: the score is then the one of the path before it (see known_findings.json)
CTW_FIXED = [([[1], [2], [3]], [[1], [2], [2], [3], [4]]), ([[1], [2], [3]], [[1], [5], [3], [4]])]


def e12(d, tp):
    rng = d.rng
    B = bes(tp)

    def one(x, y, gc, kw, mi, nc, be, bkw, score, sig=None):
        a, b = (t64(x), t64(y)) if be == "tensor" else (np.array(x, float), np.array(y, float))
        k2 = dict(kw)
        if mi is not None:
            k2["max_iter"] = mi
        if nc is not None:
            k2["n_components"] = nc
        d.note(f"ctw {x} {y} {k2} {be}")

        def go():
            r = M.ctw_path(a, b, **k2, **bkw)
            return r, M.ctw(a, b, **k2, **bkw)
        err, v = d.call(go)
        n, m = len(x), len(y)
        ev = dict(be=be, x=x, y=y, n=n, m=m, gc=gc, kw=str(k2), err=err, score=score)
        if sig:
            ev["sig"] = sig
        if err:
            d.emit("ctw", p=[], D=[], s2=0, same=False, **ev)
            return
        (p, cca, s), s_ = v
        if mi == 1:
            c = min(len(x[0]), len(y[0])) if nc is None else nc
            px, py = np.array(x, float)[:, :c], np.array(y, float)[:, :c]
        else:
            px, py = cca.transform(np.array(x, float), np.array(y, float))
        px, py = px.reshape(n, -1), py.reshape(m, -1)
        D = ((px[:, None, :] - py[None, :, :]) ** 2).sum(-1)
        d.emit("ctw", p=path_of(p), D=scaleds(D, 1e4), s2=scaled(float(s) ** 2, 1e4), same=bool(float(s) == float(s_)), **ev)

    for i, (x, y) in enumerate(CTW_FIXED):
        for be, bkw in B[:1]:
            one(x, y, NONE, {}, None, None, be, bkw, True, f"ctw-score-{i}-{be}")
    while d.more() and d.n < (20000 if THOROUGH else 2500):
        d1, d2 = rng.choice([(1, 1), (1, 1), (2, 2), (2, 1), (1, 2), (3, 2), (3, 3)])
        n, m = rng.randint(3, 9), rng.randint(3, 9)
        x, y = rseries(rng, -5, 5, n, d1), rseries(rng, -5, 5, m, d2)
        if any(len({p[k] for p in s}) < 3 for s in (x, y) for k in range(len(s[0]))):
            continue
        gc, kw = rng.choice(CONS[:11])
        if gc["t"] == "none" or min(n, m) >= 5:
            be, bkw = rng.choice(B)
            mi = rng.choice([None, 1, 1, 2, 10])
            one(x, y, gc, kw, mi, rng.choice([None, None, 1]), be, bkw, mi == 1)


def main(d):
    tp = d.part.startswith("torch")
    {"E07": e07, "E08": e08, "E09": e09, "E10": e10, "E11": e11, "E12": e12}[d.prop](d, tp)


run(main)
