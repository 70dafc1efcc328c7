"""E01..E06: alignment measures (DTW, masks, Frechet, LCSS, subsequence / length-limited DTW, LB_Keogh)."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
import torch
from tslearn import metrics as M
from tslearn.metrics.utils import _cdist_generic  # noqa: F401  (imported so that a broken module is noticed)

from cons import CONS, NONE, ita, sak  # noqa


def gen_pair(d, big=False):
    rng = d.rng
    dim = rng.choice([1, 1, 1, 2, 3])
    mode = rng.random()
    if big:
        n, m = (rng.randint(8, 28), rng.randint(8, 28)) if rng.random() < 0.9 else (rng.randint(26, 32), rng.randint(1, 32))
    elif mode < 0.15:
        n, m = rng.randint(1, 3), rng.randint(1, 8)
    elif mode < 0.3:
        n, m = rng.randint(1, 8), rng.randint(1, 3)
    elif mode < 0.5:
        n = m = rng.randint(1, 8)
    else:
        n, m = rng.randint(1, 8), rng.randint(1, 8)
    lo, hi = rng.choice([(0, 1), (0, 2), (-3, 3), (-20, 20), (0, 100)])
    return rseries(rng, lo, hi, n, dim), rseries(rng, lo, hi, m, dim)


UNIT, OFF = [1.0], [0.0]


def set_unit(d, exact=False):
    """scale and translation of the series handed over; results are divided by the scale again"""
    r = d.rng.random()
    UNIT[0] = 1.0 if r < 0.5 else d.rng.choice([2.0**-8, 0.5, 2.0**12] if exact else [1e-3, 2.0**-20, 0.1, 1e5])
    OFF[0] = 0.0 if d.rng.random() < 0.6 else d.rng.choice([1000.0, -50.0, 2.0**20])
    return UNIT[0]


def shape_input(d, x, be):
    """the ways a user may hand a series over: list, 1d array, 2d array, with trailing NaNs, tensor"""
    rng = d.rng
    a = (np.array(x, dtype=float) + OFF[0]) * UNIT[0]
    if rng.random() < 0.3:
        a = pad(a, rng.randint(1, 3))
    r = rng.random()
    if be == "tensor":
        return torch.tensor(a)
    if a.shape[1] == 1 and r < 0.25:
        return a.ravel()
    if a.shape[1] == 1 and r < 0.35:
        return a.ravel().tolist()
    if r < 0.5:
        return a.tolist()
    if r < 0.6:
        return np.asfortranarray(a)
    if r < 0.65 and UNIT[0] == 1 and not np.isnan(a).any():
        return a.astype(int)
    return a


def be_kw(d, parts=("numpy", "torch")):
    return {"numpy": [("numpy", {}), ("numpy", dict(be="numpy"))],
            "torch": [("pytorch", dict(be="pytorch")), ("tensor", {}), ("tensor", dict(be="pytorch"))]}


def cases(d):
    """yields (x, y) pairs: exhaustive small domain first, then random"""
    ex = []
    small = [list(map(lambda v: [v], t)) for n in (1, 2, 3) for t in itertools.product((0, 1, 2), repeat=n)]
    pairs = list(itertools.product(small, small))
    d.rng.shuffle(pairs)
    return pairs


def e01_e03(d, kind, torch_part):
    rng = d.rng
    F = dict(
        dtw=dict(val=M.dtw, path=M.dtw_path, pfm=M.dtw_path_from_metric, cd=M.cdist_dtw),
        fre=dict(val=M.frechet, path=M.frechet_path, pfm=M.frechet_path_from_metric, cd=M.cdist_frechet),
    )[kind]
    bes = be_kw(d)["torch" if torch_part else "numpy"]

    def one(x, y, gc, kw, f, be, bkw):
        u = set_unit(d)
        if f == "pfm":
            c = rng.choice(["sq", "city", "cheb", "mat", "mat"])
            if c == "mat":
                n, m = len(x), len(y)
                D = [[rng.randint(0, 9) for _ in range(m)] for _ in range(n)]
                arr = torch.tensor(D, dtype=torch.float64) * u if be == "tensor" else np.array(D, dtype=float) * u
                keep = np.array(D, float) * u
                d.note(f"{kind} from precomputed {D} {kw}")
                err, r = d.call(F["pfm"], arr, metric="precomputed", **kw, **bkw)
                # the matrix handed in must not be altered
                if not err and not np.array_equal(to_np(arr), keep):
                    err = "InputModified"
                p, v = r if not err else ([], 0)
                d.emit(kind, c="mat", f=f, be=be, D=D, gc=gc, kw=str(kw), err=err, hasp=not err, p=path_of(p), v=ival(v / u) if not err else 0, unit=str(u))
                return
            metric = {"sq": "sqeuclidean", "city": "cityblock", "cheb": "chebyshev"}[c]
            if torch_part and c != "sq":  # the PyTorch backend takes these as callables
                metric = (lambda u, v: (u - v).abs().sum()) if c == "city" else (lambda u, v: (u - v).abs().max())
            elif rng.random() < 0.15 and c == "city":
                metric = lambda u, v: np.abs(u - v).sum()  # noqa: E731
            d.note(f"{kind} from metric {metric} {x} {y} {kw} {be}")
            err, r = d.call(F["pfm"], shape_input(d, x, be), shape_input(d, y, be), metric=metric, **kw, **bkw)
            p, v = r if not err else ([], 0)
            d.emit(kind, c=c, f=f, be=be, x=x, y=y, gc=gc, kw=str(kw), err=err, hasp=not err, p=path_of(p), v=ival(v / (u * u if c == "sq" else u), 1e-5) if not err else 0, unit=f"{u} {OFF[0]}")
            return
        d.note(f"{kind} {f} {x} {y} {kw} {be}")
        if f == "val":
            err, v = d.call(F["val"], shape_input(d, x, be), shape_input(d, y, be), **kw, **bkw)
            p = []
        elif f == "path":
            err, r = d.call(F["path"], shape_input(d, x, be), shape_input(d, y, be), **kw, **bkw)
            p, v = r if not err else ([], 0)
        else:
            a, b = (np.array(x, float) + OFF[0]) * u, (np.array(y, float) + OFF[0]) * u
            if be == "tensor":
                a, b = torch.tensor(a), torch.tensor(b)
            err, r = d.call(F["cd"], a[None], b[None], **kw, **bkw)
            p, v = [], (r[0][0] if not err else 0)
        d.emit(kind, c="sq", f=f, be=be, x=x, y=y, gc=gc, kw=str(kw), err=err, hasp=f == "path" and not err, p=path_of(p), v=sq(v / u) if not err else 0, unit=f"{u} {OFF[0]}")

    pairs = cases(d)
    k = 0
    while d.more(0.35) and k < len(pairs):
        x, y = pairs[k]
        k += 1
        for gc, kw in (CONS[0], rng.choice(CONS[3:11]), rng.choice(CONS[11:])):
            be, bkw = bes[k % len(bes)]
            one(x, y, gc, kw, "path", be, bkw)
    while d.more() and d.n < (60000 if THOROUGH else 5000):
        big = rng.random() < 0.03
        x, y = gen_pair(d, big)
        gc, kw = rng.choice(CONS)
        be, bkw = rng.choice(bes)
        one(x, y, gc, kw, rng.choice(["val", "path", "path", "cd", "pfm"]), be, bkw)


def e02(d, torch_part):
    rng = d.rng
    be = "pytorch" if torch_part else None
    bkw = dict(be="pytorch") if torch_part else {}
    top = 9 if not THOROUGH else 14

    def mask(gc, n, m, fn, *a, **k):
        d.note(f"mask {n}x{m} {gc} {a} {k}")
        err, M_ = d.call(fn, *a, **k)
        if not err:
            M_ = [[bool(v) for v in r] for r in to_np(M_)]
        d.emit("mask", n=n, m=m, gc=gc, err=err, M=M_ if not err else [], call=f"{fn.__name__}{k}")

    sizes = [(n, m) for n in range(1, top + 1) for m in range(1, top + 1)]
    rng.shuffle(sizes)
    extra = [(rng.randint(1, 30), rng.randint(1, 30)) for _ in range(40 if not THOROUGH else 400)]
    CODE = {"sak": 2, "ita": 1}
    for n, m in sizes + extra:
        if not d.more():
            break
        for r in (0, 1, 2, 3, 5, 40):
            mask(sak(r), n, m, M.sakoe_chiba_mask, n, m, radius=r, **bkw)
        for a, b in ((1, 1), (5, 4), (3, 2), (2, 1), (5, 2), (3, 1), (5, 1), (10, 1)):
            mask(ita(a, b), n, m, M.itakura_mask, n, m, max_slope=a / b, **bkw)
        # compute_mask selects the region from its arguments
        r = rng.randint(0, 4)
        s1, s2 = np.zeros((n, 1)), np.zeros((m, 1))
        if torch_part:
            s1, s2 = torch.tensor(s1), torch.tensor(s2)
        args = (n, m) if rng.random() < 0.5 else (s1, s2)
        sl = rng.choice([(3, 2), (2, 1), (3, 1)])
        for gc, kw in [
            (NONE, {}),
            (sak(1), dict(global_constraint=2)),
            (sak(r), dict(global_constraint=2, sakoe_chiba_radius=r)),
            (sak(r), dict(global_constraint=0, sakoe_chiba_radius=r)),
            (sak(r), dict(global_constraint=2, sakoe_chiba_radius=r, itakura_max_slope=2.0)),
            (ita(2), dict(global_constraint=1)),
            (ita(*sl), dict(global_constraint=1, itakura_max_slope=sl[0] / sl[1])),
            (ita(*sl), dict(itakura_max_slope=sl[0] / sl[1])),
            (ita(*sl), dict(global_constraint=1, itakura_max_slope=sl[0] / sl[1], sakoe_chiba_radius=r)),
            (dict(NONE, t="ambiguous"), dict(sakoe_chiba_radius=r, itakura_max_slope=2.0)),
        ]:
            mask(gc, n, m, M.compute_mask, *args, **kw, **bkw)
        # every measure restricted by that region refuses an infeasible one and otherwise works inside it
        if n > 12 or m > 12:
            continue
        x, y = rseries(rng, 0, 4, n, 1), rseries(rng, 0, 4, m, 1)
        gc, kw = rng.choice(CONS)
        ax, ay = (torch.tensor(x, dtype=torch.float64), torch.tensor(y, dtype=torch.float64)) if torch_part else (np.array(x, float), np.array(y, float))
        for kind, f in (("dtw", M.dtw_path), ("fre", M.frechet_path)):
            err, res = d.call(f, ax, ay, **kw)
            p, v = res if not err else ([], 0)
            d.emit(kind, c="sq", f="path", be="m", x=x, y=y, gc=gc, kw=str(kw), err=err, hasp=not err, p=path_of(p), v=sq(v) if not err else 0)


def e04(d, torch_part):
    rng = d.rng
    d.case_timeout = 20
    bes = be_kw(d)["torch" if torch_part else "numpy"]

    def one(x, y, gc, kw, eps, f, be, bkw):
        u = set_unit(d, True)
        e2 = int(eps * eps + 1e-9)
        n, m = len(x), len(y)
        if f == "pfm":
            c = rng.choice(["sq", "city", "cheb", "mat"])
            if c == "mat":
                D = [[rng.randint(0, 5) for _ in range(m)] for _ in range(n)]
                arr = torch.tensor(D, dtype=torch.float64) * u if be == "tensor" else np.array(D, dtype=float) * u
                d.note(f"lcss precomputed {D} {kw}")
                err, r = d.call(M.lcss_path_from_metric, arr, eps=eps * u, metric="precomputed", **kw, **bkw)
                x = y = []
            else:
                D = []
                metric = {"sq": "sqeuclidean", "city": "cityblock", "cheb": "chebyshev"}[c]
                if torch_part and c != "sq":
                    metric = (lambda u, v: (u - v).abs().sum()) if c == "city" else (lambda u, v: (u - v).abs().max())
                eps = int(eps) + 0.5  # never on the edge: squared roots are not exact
                d.note(f"lcss_path_from_metric {metric} {x} {y} {eps} {kw} {be}")
                err, r = d.call(M.lcss_path_from_metric, shape_input(d, x, be), shape_input(d, y, be), eps=eps * (u * u if c == "sq" else u), metric=metric, **kw, **bkw)
            E = int(eps + 1e-9)
        else:
            c, D, E = "sq", [], e2
            fn = M.lcss if f == "val" else M.lcss_path
            d.note(f"{f} {x} {y} {eps} {kw} {be}")
            err, r = d.call(fn, shape_input(d, x, be), shape_input(d, y, be), eps=eps * u, **kw, **bkw)
        hasp = f != "val" and not err
        p, v = (r if hasp else ([], r))
        d.emit("lcss", c=c, f=f, be=be, x=x, y=y, D=D, eps=E, gc=gc, kw=str(kw), err=err, hasp=hasp, p=path_of(p),
               v=ival(float(v) * min(n, m)) if not err else 0)

    pairs = cases(d)
    k = 0
    while d.more(0.35) and k < len(pairs):
        x, y = pairs[k]
        k += 1
        for gc, kw in (CONS[0], rng.choice(CONS[3:11]), rng.choice(CONS[11:])):
            be, bkw = bes[k % len(bes)]
            one(x, y, gc, kw, rng.choice([0.5, 1]), "path", be, bkw)
    while d.more() and d.n < (60000 if THOROUGH else 5000):
        x, y = gen_pair(d, rng.random() < 0.06)
        gc, kw = rng.choice(CONS)
        be, bkw = rng.choice(bes)
        one(x, y, gc, kw, rng.choice([0.25, 1, 1, 2, 3.5, 10]), rng.choice(["val", "path", "path", "pfm", "pfm", "pfm"]), be, bkw)


def e05(d, torch_part):
    rng = d.rng
    bes = be_kw(d)["torch" if torch_part else "numpy"]
    small = cases(d)
    k = 0
    while d.more() and d.n < (40000 if THOROUGH else 6000):
        if k < len(small) and rng.random() < 0.3:
            x, y = small[k]
            k += 1
        else:
            x, y = gen_pair(d, rng.random() < 0.05)
        be, bkw = rng.choice(bes)
        f = rng.choice(["sub", "subm", "lim", "limp", "limp"])
        u = set_unit(d)
        a, b = shape_input(d, x, be), shape_input(d, y, be)
        d.note(f"{f} {x} {y} {be}")
        if f == "sub":
            if rng.random() < 0.8:  # trailing NaNs are a separate matter here: dtw_subsequence_path takes complete series
                a, b = (np.array(x, float) + OFF[0]) * u, (np.array(y, float) + OFF[0]) * u
                if be == "tensor":
                    a, b = torch.tensor(a), torch.tensor(b)
            err, r = d.call(M.dtw_subsequence_path, a, b, **bkw)
            p, v = r if not err else ([], 0)
            d.emit("sub", be=be, x=x, y=y, err=err, p=path_of(p), v=sq(v / u) if not err else 0)
        elif f == "subm":
            end = rng.randrange(len(y))

            def go():
                m_ = M.subsequence_cost_matrix(a, b, **bkw)
                return m_, M.subsequence_path(m_, end, **bkw)
            err, r = d.call(go)
            d.emit("subm", be=be, x=x, y=y, err=err, end=end, M=ivals(to_np(r[0]) / (u * u), 1e-5) if not err else [], p=path_of(r[1]) if not err else [])
        else:
            if len(x) > 12 or len(y) > 12:
                x, y = x[:12], y[:12]
                a, b = shape_input(d, x, be), shape_input(d, y, be)
            mx = max(len(x), len(y))
            L = rng.choice([mx - 1, mx, mx, mx + 1, mx + 2, len(x) + len(y) - 1, len(x) + len(y) + 3])
            if L < 1:
                L = mx
            if f == "lim":
                err, v = d.call(M.dtw_limited_warping_length, a, b, L, **bkw)
                p = []
            else:
                err, r = d.call(M.dtw_path_limited_warping_length, a, b, L, **bkw)
                p, v = r if not err else ([], 0)
            d.emit("lim", be=be, x=x, y=y, L=L, err=err, hasp=f == "limp" and not err, p=path_of(p), v=sq(v / u) if not err else 0)


def e06(d, torch_part):
    rng = d.rng
    ex = [list(t) for n in (1, 2, 3, 4) for t in itertools.product((0, 1, 2), repeat=n)]
    while d.more() and d.n < (40000 if THOROUGH else 7000):
        r = rng.choice([0, 1, 1, 2, 3, 5, 30])
        if rng.random() < 0.45:
            n = rng.choice([1, 2, 3, 5, 8, 12, 25])
            dim = rng.choice([1, 1, 2, 3])
            lo, hi = rng.choice([(0, 1), (-5, 5), (-100, 100)])
            x = rseries(rng, lo, hi, n, dim)
            be = rng.choice(["pytorch", "tensor"]) if torch_part else "numpy"
            u = set_unit(d, True)
            a = (np.array(x, float) + OFF[0]) * u
            if be == "tensor":
                a = torch.tensor(a)
            elif dim == 1 and rng.random() < 0.3:
                a = a.ravel()
            kw = dict(be="pytorch") if be == "pytorch" else {}
            if r == 1 and rng.random() < 0.5:
                err, res = d.call(M.lb_envelope, a, **kw)
            else:
                err, res = d.call(M.lb_envelope, a, radius=r, **kw)
            lo_, hi_ = res if not err else ([], [])
            d.emit("env", be=be, x=x, r=r, err=err, lo=ivals(to_np(lo_) / u - OFF[0]) if not err else [], hi=ivals(to_np(hi_) / u - OFF[0]) if not err else [])
        else:
            if rng.random() < 0.3:
                x = rng.choice(ex)
                y = rng.choice([e for e in ex if len(e) == len(x)])
                x, y = [[v] for v in x], [[v] for v in y]
            else:
                n = rng.choice([1, 2, 3, 5, 8, 12, 20])
                lo, hi = rng.choice([(0, 1), (-5, 5), (-60, 60)])
                x, y = rseries(rng, lo, hi, n, 1), rseries(rng, lo, hi, n, 1)
            u = set_unit(d)
            a, b = (np.array(x, float) + OFF[0]) * u, (np.array(y, float) + OFF[0]) * u

            def go():
                if rng.random() < 0.5:
                    v = M.lb_keogh(a, b, radius=r)
                else:
                    v = M.lb_keogh(a, envelope_candidate=M.lb_envelope(b, radius=r))
                return v, M.dtw(a, b, global_constraint="sakoe_chiba", sakoe_chiba_radius=r)
            err, res = d.call(go)
            d.emit("lb", x=x, y=y, r=r, err=err, v=sq(res[0] / u) if not err else 0, dtw=sq(res[1] / u) if not err else 0)


def main(d):
    tp = d.part.startswith("torch")
    {"E01": lambda: e01_e03(d, "dtw", tp), "E03": lambda: e01_e03(d, "fre", tp), "E02": lambda: e02(d, tp),
     "E04": lambda: e04(d, tp), "E05": lambda: e05(d, tp), "E06": lambda: e06(d, tp)}[d.prop]()


run(main)
