"""D01, D02: canonical representation of series and datasets, conversions, text files."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
import pandas as pd
import torch
from tslearn import utils as U
from tslearn.utils import cast as C
from tslearn.utils.utils import check_dims, check_dataset

nan = float("nan")


def mk(rng, n, d, missing=0.15, lo=-9, hi=9):
    """a series with missing coordinates and trailing missing points, NAN-marked"""
    x = [[NAN if rng.random() < missing else rng.randint(lo, hi) for _ in range(d)] for _ in range(n)]
    for k in range(rng.choice([0, 0, 0, 1, 2, n])):
        if k < n:
            x[n - 1 - k] = [NAN] * d
    return x


def fl(x):
    if isinstance(x, list):
        return [fl(v) for v in x]
    return nan if x == NAN else float(x)


def fx(a):
    """integer / NAN-marked projection of an array"""
    return ivals(a)


def has_nan(x):
    return any(has_nan(v) for v in x) if isinstance(x, list) else x == NAN


def rep_series(rng, x, d, be):
    """a representation of a series: (object, description)"""
    a = np.array(fl(x), float).reshape(len(x), d)
    opts = ["arr", "arr", "list", "tuple", "forder", "view", "f32"]
    if d == 1:
        opts += ["flat", "flatlist", "series"]
    if not has_nan(x):
        opts += ["int", "intlist"]
    if be != "numpy":
        opts = ["tensor", "tensor", "tensor32", "arr", "list"] + (["flattensor"] if d == 1 else []) + (["inttensor"] if not has_nan(x) else [])
    o = rng.choice(opts)
    return {"arr": lambda: a, "list": lambda: a.tolist(), "tuple": lambda: tuple(map(tuple, a.tolist())), "forder": lambda: np.asfortranarray(a),
            "view": lambda: np.repeat(a, 2, axis=0)[::2], "f32": lambda: a.astype(np.float32), "flat": lambda: a.ravel(), "flatlist": lambda: a.ravel().tolist(),
            "series": lambda: pd.Series(a.ravel()), "int": lambda: a.astype(int), "intlist": lambda: a.astype(int).tolist(),
            "tensor": lambda: torch.tensor(a), "tensor32": lambda: torch.tensor(a, dtype=torch.float32), "flattensor": lambda: torch.tensor(a.ravel()),
            "inttensor": lambda: torch.tensor(a.astype(int))}[o](), o


def rep_dataset(rng, A, d, be):
    """a representation of a dataset; returns (object, description, series as the representation holds them)"""
    eq = len({len(s) for s in A}) == 1
    mx = max(len(s) for s in A)
    padded = [s + [[NAN] * d] * (mx - len(s)) for s in A]
    arr = np.array(fl(padded), float).reshape(len(A), mx, d)
    opts = ["lists", "listarr", "listarr", "arr", "arr"]
    if be != "numpy":
        opts = ["tensor", "tensor", "listtensor", "tensor32", "arr", "lists"]
    if d == 1:
        opts += ["flatlists", "listflat"] if be == "numpy" else ["listflattensor"]
        opts += ["2d"] if be == "numpy" else ["2dtensor"]
        if be == "numpy":
            opts += ["df"]
    if len(A) == 1 and d == 1 and len(A[0]):
        opts += ["single", "singlelist"] if be == "numpy" else ["singletensor"]
    if not has_nan(A) and eq:
        opts += ["int"] if be == "numpy" else ["inttensor"]
    if eq and be == "numpy":
        opts += ["obj", "notarr", "tuple"]
    o = rng.choice(opts)
    per = [np.array(fl(s), float).reshape(len(s), d) for s in A]
    f = {"lists": lambda: [p.tolist() for p in per], "listarr": lambda: per, "arr": lambda: arr, "tensor": lambda: torch.tensor(arr),
         "tensor32": lambda: torch.tensor(arr, dtype=torch.float32), "listtensor": lambda: [torch.tensor(p) for p in per],
         "flatlists": lambda: [p.ravel().tolist() for p in per], "listflat": lambda: [p.ravel() for p in per], "listflattensor": lambda: [torch.tensor(p.ravel()) for p in per],
         "2d": lambda: arr[:, :, 0], "2dtensor": lambda: torch.tensor(arr[:, :, 0]), "df": lambda: pd.DataFrame(arr[:, :, 0]),
         "single": lambda: per[0].ravel(), "singlelist": lambda: per[0].ravel().tolist(), "singletensor": lambda: torch.tensor(per[0].ravel()),
         "int": lambda: arr.astype(int), "inttensor": lambda: torch.tensor(arr.astype(int)), "obj": lambda: arr.astype(object),
         "notarr": lambda: U.utils.NotAnArray(arr), "tuple": lambda: tuple(per)}
    # nested lists of an empty series carry no dimension
    if any(len(s) == 0 for s in A) and o in ("lists", "flatlists", "listflat", "listflattensor", "singlelist", "listtensor", "tuple"):
        o = "listarr" if be == "numpy" else "tensor"
    return f[o](), o


def dataset(rng):
    n, d = rng.choice([1, 1, 2, 3, 4, 6]), rng.choice([1, 1, 2, 3])
    mx = rng.choice([1, 2, 3, 5, 8])
    eq = rng.random() < 0.3
    miss = rng.choice([0, 0, 0.2, 0.5])
    if rng.random() < 0.3:      # neither missing points nor padding
        return [[[rng.randint(-9, 9) for _ in range(d)] for _ in range(mx if eq else rng.randint(1, mx))] for _ in range(n)], d
    A = [mk(rng, mx if eq else rng.randint(0 if rng.random() < 0.1 else 1, mx), d, miss) for _ in range(n)]
    return A, d


def dt(v):
    return str(v.dtype).replace("torch.", "")


def mutable(x):
    return isinstance(x, np.ndarray) or is_torch(x)


def overwrite(out):
    try:
        out[...] = 77
    except Exception:
        pass


def changed_by_overwrite(x, out):
    s = snapshot(x)
    overwrite(out)
    return not same(x, s)


def unwrap(x):
    return x.data if isinstance(x, U.utils.NotAnArray) else x


def d01(d, tp):
    rng = d.rng
    while d.more() and d.n < (60000 if THOROUGH else 8000):
        r = rng.random()
        if r < 0.3:
            D = rng.choice([1, 1, 2, 3])
            x = mk(rng, rng.choice([1, 1, 2, 4, 7]), D, rng.choice([0, 0.2, 0.5]))
            be = ("pytorch" if tp else "numpy")
            a, form = rep_series(rng, x, D, be)
            kw = {}
            if tp:
                if not is_torch(a) or rng.random() < 0.5:
                    kw["be"] = "pytorch"
            elif rng.random() < 0.2:
                kw["be"] = "numpy"
            rn = rng.random() < 0.5
            want = "float64"
            if rng.random() < 0.25:
                want = "float32"
                kw["dtype"] = np.float32 if not tp else torch.float32
            if rn:
                kw["remove_nans"] = True
            s = snapshot(a)
            d.note(f"to_time_series {form} {x} {kw}")
            err, out = d.call(U.to_time_series, a, **kw)
            mod = not same(a, s)
            o, sh, ty = (fx(out), list(out.shape), dt(out)) if not err else ([], [], "")
            d.emit("ts", form=form, x=x, d=D, rn=rn, err=err, out=o, shape=sh, dtype=ty, want=want, mod=mod,
                   alias=bool(not err and mutable(a) and changed_by_overwrite(a, out)), kw=str(kw))
            if rng.random() < 0.4:
                err, v = d.call(U.ts_size, s, **({"be": kw["be"]} if "be" in kw else {}))
                d.emit("size", form=form, x=x, err=err, v=int(v) if not err else 0)
            continue
        A, D = dataset(rng)
        if rng.random() < 0.02:
            A, D = [], 1
        if r < 0.7:
            be = "pytorch" if tp else "numpy"
            a, form = rep_dataset(rng, A, D, be) if A else (rng.choice([[], np.zeros((0, 3, 1))]) if not tp else torch.zeros((0, 2, 1)), "empty")
            kw = {}
            if tp:
                lead = a[0] if isinstance(a, list) and a else a
                if not is_torch(lead) or rng.random() < 0.5:
                    kw["be"] = "pytorch"
            elif rng.random() < 0.2:
                kw["be"] = "numpy"
            want = "float64"
            if rng.random() < 0.2 and A and form not in ("df", "notarr"):
                want = "float32"
                kw["dtype"] = np.float32 if not tp else torch.float32
            raw = unwrap(a)
            s = snapshot(raw)
            d.note(f"to_time_series_dataset {form} {A} {kw}")
            err, out = d.call(U.to_time_series_dataset, a, **kw)
            mod = not same(raw, s)
            ev = dict(form=form, A=A, d=D, err=err, mod=mod, be=be, want=want if A else (dt(out) if not err else ""), kw=str(kw))
            if err:
                d.emit("ds", out=[], shape=[], dtype="", kind="", again=False, alias=False, **ev)
                continue
            o, sh, ty = fx(out), list(out.shape), dt(out)
            e2, out2 = d.call(U.to_time_series_dataset, out, **({"dtype": kw["dtype"]} if "dtype" in kw else {}))
            again = not e2 and same(out, out2)
            al = changed_by_overwrite(out, out2) if A and not e2 and len(out2) else False
            if not al and (mutable(raw) or isinstance(raw, list)):
                al = changed_by_overwrite(raw, out)
            d.emit("ds", out=o, shape=sh, dtype=ty, kind="pytorch" if is_torch(out) else "numpy", again=again, alias=bool(al), **ev)
        elif r < 0.8:
            be = "pytorch" if tp else "numpy"
            if not A:
                continue
            a, form = rep_dataset(rng, A, D, be)
            kw = {"be": "pytorch"} if tp else {}
            err, v = d.call(U.check_equal_size, a, **kw)
            d.emit("eq", form=form, A=A, err=err, v=bool(v) if not err else False)
        elif r < 0.9:
            if tp or not A:
                continue
            a, form = rep_dataset(rng, A, D, "numpy")
            f = {k: rng.random() < 0.4 for k in ("uni", "eq", "single")}
            d.note(f"check_dataset {form} {A} {f}")
            err, out = d.call(check_dataset, a, force_univariate=f["uni"], force_equal_length=f["eq"], force_single_time_series=f["single"])
            d.emit("chk", form=form, A=A, d=D, err=err, out=fx(out) if not err else [], **f)
        else:
            sh = [rng.randint(1, 4) for _ in range(rng.choice([2, 3, 3, 3]))]
            fit = [rng.randint(1, 4) for _ in range(3)]
            if rng.random() < 0.6:
                fit[1:] = (sh + [1])[1:3]
            has, feat, ext = rng.random() < 0.8, rng.random() < 0.5, rng.random() < 0.7
            X = d.nprng.randn(*sh)
            err, out = d.call(check_dims, X, tuple(fit) if has else None, extend=ext, check_n_features_only=feat)
            d.emit("dims", shape=sh, fit=fit, hasfit=has, feat=feat, extend=ext, err=err, out=list(out.shape) if not err else [], same=bool(not err and np.array_equal(out.ravel(), X.ravel())))


def rows_tsfresh(df, dd):
    return [[int(r["id"]), int(r["time"])] + [ival(r[f"dim_{k}"]) for k in range(dd)] for _, r in df.iterrows()]


def nest(v):
    """array / list / object array -> nested lists of integers"""
    if isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.dtype == object):
        return [nest(x) for x in v]
    return ivals(v)


FLOATS = [0.1, 1 / 3, 1e-300, 1e300, -0.0, 5e-324, 123456789.123456789, float("inf"), -float("inf"), 2.0**-1074 * 3, 1.7976931348623157e308, math.pi, -1e-5]


def d02(d, tp):
    rng = d.rng
    scratch = os.environ.get("VERIF_SCRATCH", ".")
    FM = ["sklearn", "pyts", "seglearn", "stumpy", "sktime", "pyflux", "tsfresh", "cesium"]
    while d.more() and d.n < (60000 if THOROUGH else 7000):
        if rng.random() < 0.3:
            # exact floats through text
            dd = rng.choice([1, 1, 2, 3])
            n = rng.choice([1, 2, 3, 5])
            A = [np.array([[rng.choice(FLOATS) if rng.random() < 0.3 else rng.gauss(0, 10.0 ** rng.randint(-5, 5)) for _ in range(dd)] for _ in range(rng.randint(1, 6))]) for _ in range(n)]
            for a in A:
                if len(a) > 1 and rng.random() < 0.3:
                    a[rng.randrange(len(a) - 1), rng.randrange(dd)] = nan
            if rng.random() < 0.5:
                x = A[0]
                if dd > 1 and rng.random() < 0.2:
                    x[-1] = nan
                arg = x.ravel() if dd == 1 and rng.random() < 0.4 else (x.tolist() if rng.random() < 0.3 else x)

                def go():
                    st = rng.choice([U.time_series_to_str, U.timeseries_to_str])(arg)
                    return st, rng.choice([U.str_to_time_series, U.str_to_timeseries])(st)
                d.note(f"text {x.tolist()}")
                err, v = d.call(go)
                st, back = v if not err else ("", [])
                d.emit("text", x=[[bits(q) for q in p] for p in x], d=dd, err=err, fields=[len(f.split()) for f in st.split("|")] if not err else [],
                       back=[[bits(q) for q in p] for p in back] if not err else [])
            else:
                fn = os.path.join(scratch, f"{d.part}.txt")
                arr = U.to_time_series_dataset(A)
                src = arr if rng.random() < 0.5 else A

                dec = rng.choice([None, None, None, 0, 1, 2, 3, 6])
                fk = {} if dec is None else dict(fmt=f"%.{dec}{'f' if abs(np.concatenate(A)).max() < 1e9 else 'e'}")

                def go():
                    rng.choice([U.save_time_series_txt, U.save_timeseries_txt])(fn, src, **fk)
                    nl = len(open(fn).read().splitlines())
                    return nl, U.load_time_series_txt(fn)
                d.note(f"file {[a.tolist() for a in A]}")
                err, v = d.call(go)
                nl, out = v if not err else (0, np.zeros((0, 0, 0)))
                want = np.full((n, max(map(len, A)), dd), nan)
                for i, a in enumerate(A):
                    want[i, :len(a)] = a if not fk else [[float(fk["fmt"] % v) for v in p] for p in a]
                d.emit("file", A=[len(a) for a in A], d=dd, msz=int(want.shape[1]), err=err, lines=nl, shape=list(out.shape),
                       out=[[[bits(q) for q in p] for p in s] for s in out], want=[[[bits(q) for q in p] for p in s] for s in want])
            continue
        A, D = dataset(rng)
        if any(len(s) == 0 or all(v == NAN for v in s[0]) and all(all(v == NAN for v in p) for p in s) for s in A):
            continue
        a, form = rep_dataset(rng, A, D, "numpy")
        raw = unwrap(a)
        s = snapshot(raw)
        fmt = rng.choice(FM)
        if fmt == "cesium" and any(sum(any(v != NAN for v in p) for p in s) < 2 or len(s) < 2 for s in A):
            continue      # cesium itself refuses series of a single measurement
        d.note(f"{fmt} {form} {A}")
        to = getattr(C, f"to_{fmt}_dataset")
        kw = {}
        if fmt == "sklearn" and rng.random() < 0.3:
            kw["return_dim"] = True
        err, v = d.call(to, a, **kw)
        if kw and not err:
            v, dim = v
            if dim != D:
                err = "WrongDimension"
        out = []
        if not err:
            try:
                out = {"sklearn": nest, "pyts": nest, "seglearn": nest, "stumpy": nest,
                       "cesium": lambda v: [nest(t.measurement) for t in v],
                       "sktime": lambda v: [[nest(c.values) for c in v[f"dim_{k}"]] for k in range(len(v.columns))],
                       "pyflux": lambda v: [nest(v[f"dim_{k}"].values) for k in range(len(v.columns))],
                       "tsfresh": lambda v: rows_tsfresh(v, D)}[fmt](v)
            except Exception as e:
                err = "Unreadable" + type(e).__name__
        d.emit("to", fmt=fmt, form=form, A=A, d=D, err=err, out=out, mod=not same(raw, s))
        if err or fmt == "sklearn":
            continue
        if fmt == "pyts" and (has_nan(A) or (len(v.shape) == 2 and D > 1)):
            continue
        sv = snapshot(v) if fmt != "cesium" else None
        back = getattr(C, f"from_{fmt}_dataset")
        err, w = d.call(back, v)
        sh = list(np.shape(w)) if not err else []
        d.emit("back", fmt=fmt, form=form, A=A, d=D, err=err, out=fx(w) if not err else [], shape=sh, mod=sv is not None and not same(v, sv))


def main(d):
    {"D01": d01, "D02": d02}[d.prop](d, d.part.startswith("torch"))


run(main)
