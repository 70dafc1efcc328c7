"""T03: PAA, SAX, 1d-SAX."""
import os
import sys
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from tslearn.piecewise import PiecewiseAggregateApproximation as PAA, SymbolicAggregateApproximation as SAX, OneD_SymbolicAggregateApproximation as OSAX
from tslearn.metrics import cdist_sax

nan = float("nan")
U = 4


def arr(A, u=U):
    return np.array([[[nan if v == NAN else v / u for v in p] for p in s] for s in A], float)


def rep(rng, A, d, u=U):
    a = arr(A, u)
    r = rng.random()
    if r < 0.2 and not np.isnan(a).any():
        return a.tolist()
    if r < 0.4 and d == 1:
        return a[:, :, 0]
    if r < 0.5:
        return np.asfortranarray(a)
    return a


def series(rng, n, L, d, hi, minsz, varlen):
    A = []
    for _ in range(n):
        s = rng.randint(minsz, L) if varlen else L
        kind = rng.random()
        lvl = rng.randint(-hi, hi)
        x = [[(lvl + rng.choice([-1, 0, 0, 1])) if kind < 0.3 else rng.randint(-hi, hi) for _ in range(d)] for _ in range(s)]
        A.append(x + [[NAN] * d] * (L - s))
    if varlen and A:
        m = max(sum(p[0] != NAN for p in s) for s in A)
        A = [s[:m] for s in A]
    return A


def symmetric(rng, n, L, d, hi, c):
    """n series whose observed values are, in every dimension, symmetric around c: the mean is exactly c"""
    A = []
    for _ in range(max(1, n // 2)):
        x = [[rng.randint(-hi, hi) for _ in range(d)] for _ in range(L)]
        A += [[[c + v for v in p] for p in x], [[c - v for v in p] for p in x]]
    return A


def sgn(v):
    return int(v > 1e-9) - int(v < -1e-9)


def main(d):
    rng = d.rng
    one = d.part == "oned"
    while d.more() and d.n < (60000 if THOROUGH else 6000):
        D = rng.choice([1, 1, 2, 3])
        n = rng.choice([1, 2, 3, 4, 5])
        L = rng.choice([n, n + 1, 2 * n, 2 * n + 1, 3 * n, 4 * n, 12]) if rng.random() < 0.8 else rng.randint(n, 20)
        L = max(L, n)
        hi = rng.choice([3, 6, 12])
        na, ns = rng.choice([2, 3, 4, 5, 7, 10, 12]), rng.choice([2, 3, 4, 5, 8])
        scale = rng.random() < 0.3 and d.part != "paa"
        c = 0
        nts = rng.choice([1, 2, 3, 5])
        if scale:
            c = rng.choice([0, 0, 4, -7, 40])
            hi = rng.choice([1, 3, 5])
            L = min(L, 12)
            if L < n:
                continue
            A = symmetric(rng, nts, L, D, hi, c)
        else:
            A = series(rng, nts, L, D, hi, n, rng.random() < 0.3 and not one)
        L = len(A[0])
        B = A if rng.random() < 0.3 else series(rng, rng.choice([1, 2, 4]), L if rng.random() < 0.6 else rng.randint(n, 20), D, hi, n, rng.random() < 0.3 and not one)
        if scale and B is not A and not any(v == NAN for s in B for p in s for v in p):
            B = [[[v + c for v in p] for p in s] for s in B]
        a, b = rep(rng, A, D), rep(rng, B, D)
        sa, sb = snapshot(a), snapshot(b)
        sig = None
        if d.part == "paa":
            kw = dict(n_segments=n)
            est = PAA(**kw)
        elif d.part == "sax":
            kw = dict(n_segments=n, alphabet_size_avg=na, scale=scale)
            est = SAX(**kw)
        else:
            sig = rng.choice([None, None, (1, 4), (1, 2), (1, 1), (1, 10)])
            kw = dict(n_segments=n, alphabet_size_avg=na, alphabet_size_slope=ns, scale=scale, sigma_l=None if sig is None else sig[0] / sig[1])
            est = OSAX(**kw)
        fit_transform = B is A and rng.random() < 0.6
        refit = rng.random() < 0.2
        d.note(f"{type(est).__name__} {kw} fit {A} transform {B}")

        def go():
            if refit:
                est.fit(d.nprng.randn(3, n + 5, D + 1))
            if fit_transform:
                return est.fit_transform(a)
            est.fit(a)
            return est.transform(b)
        err, out = d.call(go)
        mod = not (same(a, sa) and (b is a or same(b, sb)))
        cm = dict(d=D, n=n, err=err, mod=mod, scale=scale, refit=refit)
        if d.part == "paa":
            d.emit("paa", B=B, out=[[[frac(v * U, 2000) for v in p] for p in s] for s in out] if not err else [], **cm)
        else:
            o = to_np(out).tolist() if not err else []
            ok = not err and to_np(out).dtype.kind in "iu"
            f2 = [0, 1]
            if one:
                w = L // n
                f2 = [3, 100 * w] if sig is None else [sig[0] ** 2, sig[1] ** 2]
                g = math.gcd(*f2)
                f2 = [f2[0] // g, f2[1] // g]
            d.emit("oned" if one else "sax", A=A, B=B, u=U, na=na, ns=ns, f2=f2, out=o if ok else [], **{**cm, "err": err or ("" if ok else "NotSymbols")})
        if err:
            continue
        # ---- distances and reconstructions on the fitted object
        cm["mod"] = False
        if d.part == "paa":
            x, y = series(rng, 2, L if rng.random() < 0.7 else rng.randint(n, 20), D, hi, n, False)
            ax, ay = arr([x])[0], arr([y])[0]

            def go2():
                if rng.random() < 0.3:
                    return est.distance(ax.tolist(), ay.tolist()), est.distance_paa(*est.transform([ax, ay]))
                return est.distance(ax, ay), est.distance_paa(*est.transform(np.stack([ax, ay])))
            err, v = d.call(go2)
            v = [0, 0] if err else v
            d.emit("paadist", x=x, y=y, size=L, v=frac((v[0] * U) ** 2, 20000, 1e-10), v2=frac((v[1] * U) ** 2, 20000, 1e-10), **{**cm, "err": err})
            P = [[[Fraction(rng.randint(-9, 9), rng.choice([1, 2, 4])) for _ in range(D)] for _ in range(n)] for _ in range(rng.choice([1, 2]))]
            p = np.array([[[float(v) for v in q] for q in s] for s in P])
            err, out = d.call(est.inverse_transform, p if D > 1 or rng.random() < 0.6 else p[:, :, 0])
            d.emit("paainv", P=[[[[v.numerator, v.denominator] for v in q] for q in s] for s in P], size=L, out=fracs(out, 100) if not err else [], **{**cm, "err": err})
            continue
        w = 2 * D if one else D
        m1, m2 = rng.choice([1, 2, 3]), rng.choice([1, 2])

        def syms(m):
            return [[[rng.randrange(na if k < D else ns) for k in range(w)] for _ in range(n)] for _ in range(m)]
        P, R = syms(m1), syms(m2)
        if one:
            def go3():
                if rng.random() < 0.5 or L != len(B[0]) or len(B) < 2:
                    return np.array(P[0]), np.array(R[0]), est.distance_1d_sax(np.array(P[0]), np.array(R[0]))
                t = est.transform(arr(B[:2]))
                return t[0], t[1], est.distance(arr(B)[0], arr(B)[1])
            err, v = d.call(go3)
            v = v if not err else ([], [], 0)
            d.emit("oneddist", P=to_np(v[0]).tolist(), R=to_np(v[1]).tolist(), na=na, ns=ns, f2=f2, size=L, v=sf(v[2] * v[2]), **{**cm, "err": err})
        else:
            def go3():
                if rng.random() < 0.5 or len(B) < 2 or len({sum(p[0] != NAN for p in s) for s in B}) > 1:
                    return np.array(P[0]), np.array(R[0]), est.distance_sax(np.array(P[0]), np.array(R[0]))
                t = est.transform(arr(B[:2]))
                return t[0], t[1], est.distance(arr(B)[0], arr(B)[1])
            err, v = d.call(go3)
            v = v if not err else ([], [], 0)
            d.emit("saxdist", P=to_np(v[0]).tolist(), R=to_np(v[1]).tolist(), na=na, size=L, v=sf(v[2] * v[2]), **{**cm, "err": err})
            self_ = rng.random() < 0.3
            kw = {}
            if rng.random() < 0.05:
                kw["n_jobs"] = 2
            err, v = d.call(cdist_sax, np.array(P), est.breakpoints_avg_, L, None if self_ else np.array(R), **kw)
            d.emit("cdistsax", P=P, R=P if self_ else R, na=na, size=L, out=[[sf(q * q) for q in r] for r in to_np(v)] if not err else [], **{**cm, "err": err})
        # reconstruction
        sn, sd = 0, 1
        if one:
            s = math.sqrt(f2[0] / f2[1])
            f = Fraction(s).limit_denominator(40)
            if abs(float(f) - s) > 1e-12:
                continue
            sn, sd = f.numerator, f.denominator
        err, out = d.call(est.inverse_transform, np.array(P))
        if not err:
            out = (to_np(out) * (U if scale else 1) - c)
        d.emit("inv", A=A, P=P, u=U, na=na, ns=ns if one else 0, sn=sn, sd=sd, size=L,
               out=[[[[sgn(v), sf(v * v), scaled(v, 1e8)] for v in p] for p in s] for s in out] if not err else [], **{**cm, "err": err})
        if rng.random() < 0.03:
            what = rng.choice(["features", "unfitted"])
            if what == "unfitted":
                err, _ = d.call(lambda: type(est)(n_segments=n).transform(arr(A)))
            else:
                err, _ = d.call(est.transform, np.zeros((2, L, D + 1)))
            d.emit("refuse", what=what, err=err)


run(main)
