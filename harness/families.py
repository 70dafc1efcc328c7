"""Families of estimators for the histories of B01 and B02: two configurations of a class, two training sets, ways to look at the result."""
import hashlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from sklearn.base import clone
from tslearn.clustering import KernelKMeans, KShape, TimeSeriesDBSCAN, TimeSeriesKMeans
from tslearn.early_classification import NonMyopicEarlyClassifier
from tslearn.forecasting import VARIMA, AutoVARIMA
from tslearn.matrix_profile import MatrixProfile
from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor
from tslearn.neural_network import TimeSeriesMLPClassifier, TimeSeriesMLPRegressor
from tslearn.piecewise import OneD_SymbolicAggregateApproximation, PiecewiseAggregateApproximation, SymbolicAggregateApproximation
from tslearn.preprocessing import TimeSeriesImputer, TimeSeriesResampler, TimeSeriesScalerMeanVariance, TimeSeriesScalerMinMax
from tslearn.svm import TimeSeriesSVC, TimeSeriesSVR


def l1(a, b):
    return float(np.nansum(np.abs(np.asarray(a, float)[0] - np.asarray(b, float)[0])) + abs(len(a) - len(b)))


def norm(v, exact=True):
    """a value as something json can print the same way for every equal value"""
    if hasattr(v, "detach"):
        v = v.detach().cpu().numpy()
    if isinstance(v, np.ndarray):
        if v.dtype.kind in "OUS":
            return ["s", list(v.shape), [str(x) if not isinstance(x, bytes) else repr(x) for x in v.ravel()]]
        return [v.dtype.kind.replace("u", "i"), list(v.shape), [norm(x, exact) for x in v.ravel().tolist()]]
    if isinstance(v, np.generic):
        return norm(v.item(), exact)
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, float):
        return float.hex(v) if exact else (f"{v:.8e}" if abs(v) > 1e-9 else 0)
    if isinstance(v, dict):
        return {f"{'i' if isinstance(k, (int, np.integer)) else 's'}:{k}": norm(v[k], exact) for k in sorted(v, key=str)}
    if isinstance(v, (list, tuple)):
        return [norm(x, exact) for x in v]
    if callable(v):
        return getattr(v, "__qualname__", "callable")
    if hasattr(v, "get_params"):
        return [type(v).__name__, norm(v.get_params(deep=False)), attrs(v)]
    return type(v).__name__


def attrs(est):
    return {k: norm(v) for k, v in sorted(vars(est).items()) if k.endswith("_") and not k.startswith("_") and not (hasattr(v, "layers") or k in ("cluster_", "classifiers_"))}


def listed(v):
    """parameters given as lists come back as arrays from JSON and HDF5"""
    return np.asarray(v) if isinstance(v, (list, tuple)) else v


def fingerprint(est, F, deep=False):
    """parameters, fitted attributes and outputs of an estimator"""
    out = {"p": {k: norm(listed(v)) for k, v in sorted(est.get_params(deep=False).items())}}
    if F.get("attrs", True):
        # statistics of the scaling are left in place (and unused) when a refit does not scale globally
        out["a"] = {k: v for k, v in attrs(est).items() if k not in ("mu_", "std_", "mean_", "min_", "max_")}
    out["o"] = []
    for name, args in F["outs"]:
        try:
            out["o"].append(norm(getattr(est, name)(*[snapshot(a) for a in args]), exact=False))
        except Exception as e:  # noqa
            out["o"].append(type(e).__name__)
    if deep:
        return out
    return hashlib.sha1(json.dumps(out, sort_keys=True).encode()).hexdigest()[:16]


FAMILIES = []


def family(part):
    def f(g):
        g.part = part
        FAMILIES.append(g)
        return g
    return f


def data(rng, n, T, D, var=False, unit=1.0):
    X = np.array([rseries(rng, -4, 4, T, D) for _ in range(n)], dtype=float) * unit
    X += 0.125 * np.array([rseries(rng, -3, 3, T, D) for _ in range(n)])
    if var:
        for i in range(n):
            X[i, rng.randint(max(2, T - 3), T):] = np.nan
    return X


def shaped(rng, X):
    """the dataset in some container; values unchanged"""
    r = rng.random()
    if r < 0.15 and not np.isnan(X).any():
        return [x[: int(np.max(np.nonzero(~np.isnan(x).all(axis=1))[0])) + 1] for x in X]
    if r < 0.25:
        return X.tolist()
    if r < 0.4:
        return np.asfortranarray(X)
    if r < 0.5 and X.shape[2] == 1:
        return X[:, :, 0]
    return X


def stretched(dt, name, text):
    """now and then, the second dataset has longer (or shorter) series than the first"""
    rng = random.Random(text)
    X = dt[1][0]
    if rng.random() < (0.7 if name == "LearningShapelets" else 0.35) and isinstance(X, np.ndarray) and X.ndim == 3 and "array(" not in text:
        if rng.random() < 0.3 and X.shape[1] > 5 and name not in ("MatrixProfile", "VARIMA", "AutoVARIMA", "LearningShapelets") and not np.isnan(X[:, :-1]).any():
            X = X[:, :-1].copy()
        else:
            Z = np.array([rseries(rng, -4, 4, 2, X.shape[2]) for _ in range(len(X))], dtype=float)
            X = np.concatenate([Z, X], axis=1)
        dt = [dt[0], (X,) + tuple(dt[1][1:])]
    return dt


def F(name, make, data, outs, kind=("plain", "plain"), clone_=clone, text="", **kw):
    data = stretched(data, name, text)
    if outs and outs[0][1] and outs[0][1][0].ndim == 3 and random.Random(text + "q").random() < (0.8 if name == "LearningShapelets" else 0.5):
        # a query longer than the training series
        Q = outs[0][1][0]
        outs = outs + [(outs[0][0], (np.concatenate([Q[:, :2], Q], axis=1),) + tuple(outs[0][1][1:]))]
    return dict(name=name, make=make, data=data, outs=outs, kind=list(kind), clone=clone_, text=text, **kw)


def two(rng, g):
    """two different parameter settings"""
    a = g()
    b = g()
    for _ in range(5):
        if str(a) != str(b):
            break
        b = g()
    return a, b


def mk(cls, kw):
    return lambda: cls(**{k: snapshot(v) for k, v in kw.items()})


LABELS = [lambda c: c, lambda c: 3 * c - 1, lambda c: ["a", "bé", "cccc"][c], lambda c: float(c), lambda c: c == 1]


def neighbors(rng, cls):
    D, T, n = rng.choice([1, 2]), rng.choice([4, 6]), rng.choice([5, 8])
    var = rng.random() < 0.4
    mets = [("dtw", None), ("dtw", {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 2}), ("dtw", {"global_constraint": None}), ("softdtw", {"gamma": 0.5}), ("softdtw", None), ("softdtw", {"gamma_sdtw": 2.0, "n_jobs": 3, "verbose": 0}), ("frechet", None), ("ctw", {"max_iter": 1}), ("dtw", {"sakoe_chiba_radius": 1})]
    if not var:
        mets += [("euclidean", None), ("sqeuclidean", None), ("cityblock", None), ("sax", {"n_segments": 2, "alphabet_size_avg": 3})] * 2
        if cls is not KNeighborsTimeSeries:
            mets += [(l1, None)] * 2 + [(lambda a, b: l1(a, b), None)]

    def g():
        m, mp = rng.choice(mets)
        kw = dict(n_neighbors=rng.choice([1, 2, 3]), metric=m, metric_params=mp)
        if rng.random() < 0.3:
            kw["n_neighbors"] = np.int64(kw["n_neighbors"])
        if rng.random() < 0.3:
            kw["n_jobs"] = rng.choice([1, 2])
        if cls is not KNeighborsTimeSeries:
            kw["weights"] = rng.choice(["uniform", "distance"])
        return kw
    a, b = two(rng, g)
    lab, two_d = rng.choice(LABELS), rng.random() < 0.3
    dt = []
    for _ in range(2):
        X = data(rng, n, T, D, var)
        if cls is KNeighborsTimeSeries:
            y = ()
        elif cls is KNeighborsTimeSeriesClassifier:
            y = ([lab(i % 2 if lab(1) is True else i % 3) for i in range(n)],)
            if rng.random() < 0.5:
                y = (np.array(y[0]) if rng.random() < 0.7 else np.array(y[0], dtype=object),)
                if y[0].dtype == object and not isinstance(y[0][0], str):
                    y = (np.array(y[0].tolist()),)
            if two_d:
                y = (np.column_stack([np.array(y[0]), np.array(y[0][::-1])]),)
        else:
            y = (np.array([rng.randint(-9, 9) / 4 for _ in range(n)]),) if rng.random() < 0.7 else (np.array([[rng.randint(-9, 9) / 4, i] for i in range(n)]),)
        dt.append((shaped(rng, X),) + y)
    Q = data(rng, 3, T, D, var)
    outs = [("kneighbors", (Q,))]
    if cls is not KNeighborsTimeSeries:
        outs.append(("predict", (Q,)))
    if cls is KNeighborsTimeSeriesClassifier:
        outs.append(("predict_proba", (Q,)))
    if cls is KNeighborsTimeSeries:
        outs.append(("kneighbors", ()))
    if callable(a["metric"]) or callable(b["metric"]):
        outs = outs[1:]
    kind = ["closure" if callable(k["metric"]) and "lambda" in k["metric"].__qualname__ else "object" if callable(k["metric"]) else "plain" for k in (a, b)]
    return F(cls.__name__, [mk(cls, a), mk(cls, b)], dt, outs, kind, text=f"{a} {b} data {short(dt)}", attrs=False, bad=bad(rng, dt))


def short(dt):
    return " | ".join(" ".join(str(np.asarray(z).tolist() if not isinstance(z, list) or not z or not hasattr(z[0], "shape") else [q.tolist() for q in z])[:400] for z in a) for a in dt)


def bad(rng, dt):
    """arguments of a fit that are refused by most estimators"""
    X = dt[0][0]
    if len(dt[0]) > 1 and rng.random() < 0.5:
        return (X, list(dt[0][1])[:-1])
    Z = np.array([[[1.0], [np.inf], [2.0]]] * 4)
    return (Z,) + ((list(dt[0][1])[:4],) if len(dt[0]) > 1 else ())


@family("near")
def knn(rng):
    return neighbors(rng, KNeighborsTimeSeries)


@family("near")
def knnc(rng):
    return neighbors(rng, KNeighborsTimeSeriesClassifier)


@family("near")
def knnr(rng):
    return neighbors(rng, KNeighborsTimeSeriesRegressor)


@family("clus")
def kmeans(rng):
    D, T, n = rng.choice([1, 2]), 5, rng.choice([5, 7])
    var = rng.random() < 0.3
    mets = ["dtw", "softdtw"] if var else ["euclidean", "dtw", "softdtw", "euclidean"]
    init = data(rng, 2, T, D)

    def g():
        m = rng.choice(mets)
        kw = dict(n_clusters=rng.choice([2, 2, np.int64(2)]), metric=m, max_iter=rng.choice([1, 3]), random_state=rng.randrange(9), n_init=rng.choice([1, 2]), init=rng.choice(["k-means++", "random", init]), tol=rng.choice([1e-6, np.float32(0.25), 0.0]), dtw_inertia=rng.random() < 0.3)
        if m == "softdtw":
            kw["metric_params"] = rng.choice([{"gamma": 0.5}, None, {"gamma": np.float64(2.0)}])
            kw["max_iter_barycenter"] = 3
        elif m == "dtw":
            kw["max_iter_barycenter"] = rng.choice([1, 4])
            kw["metric_params"] = rng.choice([None, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 1}, {"global_constraint": None}, {"n_jobs": 2}])
            kw["n_jobs"] = rng.choice([None, None, 1, 2])
        if kw["init"] is init:
            kw["n_init"] = 1
        return kw
    a, b = two(rng, g)
    dt = [(shaped(rng, data(rng, n, T, D, var)),) for _ in range(2)]
    Q = data(rng, 3, T, D, var)
    return F("TimeSeriesKMeans", [mk(TimeSeriesKMeans, a), mk(TimeSeriesKMeans, b)], dt, [("predict", (Q,)), ("transform", (Q,))], text=f"{a} {b} data {short(dt)}", bad=bad(rng, dt))


@family("clus")
def kkmeans(rng):
    D, T, n = rng.choice([1, 2]), 5, rng.choice([5, 7])
    var = rng.random() < 0.3

    def g():
        k = rng.choice(["gak", "gak"] if var else ["gak", "rbf", "linear", "poly"])
        kp = {"gak": [None, {"sigma": 2.0}, {"sigma": "auto"}, {"sigma": np.float64(3.0)}], "rbf": [None, {"gamma": 0.01}], "linear": [None], "poly": [None, {"degree": 2}]}[k]
        return dict(n_clusters=2, kernel=k, kernel_params=rng.choice(kp), max_iter=rng.choice([1, 5]), random_state=rng.randrange(9), n_init=rng.choice([1, 2]), n_jobs=rng.choice([None, None, 2]))
    a, b = two(rng, g)
    dt = [(shaped(rng, data(rng, n, T, D, var, 0.5)),) for _ in range(2)]
    Q = data(rng, 3, T, D, var, 0.5)
    return F("KernelKMeans", [mk(KernelKMeans, a), mk(KernelKMeans, b)], dt, [("predict", (Q,))], text=f"{a} {b} data {short(dt)}", bad=bad(rng, dt))


@family("clus")
def kshape(rng):
    D, T, n = rng.choice([1, 2]), 5, rng.choice([5, 7])
    init = data(rng, 2, T, D)

    def g():
        kw = dict(n_clusters=2, max_iter=rng.choice([1, 5]), random_state=rng.randrange(9), n_init=rng.choice([1, 2]), init=rng.choice(["random", init]))
        if kw["init"] is init:
            kw["n_init"] = 1
        return kw
    a, b = two(rng, g)
    dt = [(shaped(rng, data(rng, n, T, D)),) for _ in range(2)]
    Q = data(rng, 3, T, D)
    return F("KShape", [mk(KShape, a), mk(KShape, b)], dt, [("predict", (Q,))], text=f"{a} {b} data {short(dt)}", bad=bad(rng, dt))


@family("clus")
def dbscan(rng):
    D, T, n = rng.choice([1, 2]), 5, rng.choice([5, 7])

    def g():
        m = rng.choice(["dtw", "softdtw_normalized", "frechet", "euclidean", "ctw"])
        return dict(eps=rng.choice([2.0, 5.0, np.float64(8.0)]), min_ts=rng.choice([1, 2, 3]), metric=m, metric_params=rng.choice({"softdtw_normalized": [{"gamma": 0.5}, {"gamma": 2.0, "n_jobs": 2}], "ctw": [{"max_iter": 2}], "dtw": [None, {"global_constraint": "sakoe_chiba"}, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 0}, {"n_jobs": 1}], "frechet": [{"global_constraint": "itakura"}, None]}.get(m, [None, {}])), n_jobs=rng.choice([None, None, 2, 1]))
    a, b = two(rng, g)
    dt = [(shaped(rng, data(rng, n, T, D)),) for _ in range(2)]
    return F("TimeSeriesDBSCAN", [mk(TimeSeriesDBSCAN, a), mk(TimeSeriesDBSCAN, b)], dt, [], text=f"{a} {b} data {short(dt)}", bad=bad(rng, dt))


def symbolic(rng, cls):
    D, T, n = rng.choice([1, 2]), rng.choice([6, 7, 9]), rng.choice([1, 4])

    def g():
        kw = dict(n_segments=rng.choice([1, 2, 3]))
        if cls is not PiecewiseAggregateApproximation:
            kw.update(alphabet_size_avg=rng.choice([3, 4, 7]), scale=rng.random() < 0.5)
        if cls is OneD_SymbolicAggregateApproximation:
            kw.update(alphabet_size_slope=rng.choice([2, 5]), sigma_l=rng.choice([None, 0.5]))
        return kw
    a, b = two(rng, g)
    dt = [(shaped(rng, data(rng, n, T, D, unit=rng.choice([1, 3]))),) for _ in range(2)]
    Q = data(rng, 2, T, D)
    return F(cls.__name__, [mk(cls, a), mk(cls, b)], dt, [("transform", (Q,)), ("distance", (Q[0], Q[1]))], text=f"{a} {b} data {short(dt)}", bad=bad(rng, dt))


@family("misc")
def paa(rng):
    return symbolic(rng, PiecewiseAggregateApproximation)


@family("misc")
def sax(rng):
    return symbolic(rng, SymbolicAggregateApproximation)


@family("misc")
def sax1d(rng):
    return symbolic(rng, OneD_SymbolicAggregateApproximation)


@family("misc")
def matrix(rng):
    T = 8

    def g():
        return dict(subsequence_length=rng.choice([2, 3]), scale=rng.random() < 0.5, implementation="numpy")
    a, b = two(rng, g)
    dt = [(shaped(rng, data(rng, 2, T, 1)),) for _ in range(2)]
    return F("MatrixProfile", [mk(MatrixProfile, a), mk(MatrixProfile, b)], dt, [("transform", (data(rng, 2, T, 1),))], text=f"{a} {b} data {short(dt)}", bad=bad(rng, dt))


@family("misc")
def varima(rng):
    D = rng.choice([1, 2])
    T, n = rng.choice([14, 16]), rng.choice([2, 3])

    def g():
        return dict(p=rng.choice([0, 1, 2]), d=rng.choice([0, 1]), q=rng.choice([0, 1, 1]), with_constant=rng.random() < 0.6, seasonal_period=rng.choice([None, None, 3]), max_iter=2)
    a, b = two(rng, g)
    dt = [(shaped(rng, data(rng, n, T, D, rng.random() < 0.3)),) for _ in range(2)]
    return F("VARIMA", [mk(VARIMA, a), mk(VARIMA, b)], dt, [("predict", ()), ("predict", (data(rng, 2, T, D), 2))], text=f"{a} {b} data {short(dt)}", bad=bad(rng, dt))


@family("misc")
def autovarima(rng):
    T, n = 14, 2
    a, b = two(rng, lambda: dict(max_p=rng.choice([1, 2]), max_d=1, max_q=0, max_iter=2, seasonal_period=rng.choice([None, 3])))
    dt = [(shaped(rng, data(rng, n, T, 1)),) for _ in range(2)]
    return F("AutoVARIMA", [mk(AutoVARIMA, a), mk(AutoVARIMA, b)], dt, [("predict", ()), ("predict", (data(rng, 2, T, 1), 2))], text=f"{a} {b} data {short(dt)}", bad=bad(rng, dt))


def fast_shapelets():
    """the class; its initial shapelets are drawn from fewer subsequences than the 10000 of the library (only to save time)"""
    import tslearn.shapelets.shapelets as S
    f = getattr(S, "_kmeans_init_shapelets", None)
    if getattr(f, "__defaults__", None) == (10000,):
        f.__defaults__ = (60,)
    return S.LearningShapelets


@family("net")
def shapelets(rng):
    LearningShapelets = fast_shapelets()
    D, T, n = rng.choice([1, 2]), 8, 6

    def g():
        kw = dict(n_shapelets_per_size=rng.choice([{3: 2}, {2: 1, 4: 2}, None]), max_iter=1, random_state=rng.randrange(5), scale=rng.random() < 0.5, batch_size=rng.choice([2, 256]), weight_regularizer=rng.choice([0.0, 0.1]))
        if kw["n_shapelets_per_size"] is None:
            kw.update(total_lengths=2, shapelet_length=0.3)
        return kw
    a, b = two(rng, g)
    lab = rng.choice(LABELS[:4])
    dt = [(data(rng, n, T, D), [lab(i % c) for i in range(n)]) for c in (2, 3)]
    Q = data(rng, 2, T, D)
    return F("LearningShapelets", [mk(LearningShapelets, a), mk(LearningShapelets, b)], dt, [("predict", (Q,)), ("predict_proba", (Q,)), ("transform", (Q,)), ("locate", (Q,))], ["network"] * 2, text=f"{a} {b} data {short(dt)}", bad=bad(rng, dt))


def plain(rng, cls, g, D=(1, 2), T=6, n=4, y=None, outs=("transform",), var=False):
    a, b = two(rng, g)
    D = rng.choice(D)
    var = var and rng.random() < 0.4
    dt = []
    for _ in range(2):
        X = shaped(rng, data(rng, n, T, D, var))
        dt.append((X,) if y is None else (X, y(n)))
    Q = data(rng, 3, T, D, var)
    return F(cls.__name__, [mk(cls, a), mk(cls, b)], dt, [(o, (Q,)) for o in outs], ["sklearn"] * 2, text=f"{a} {b} data {short(dt)}", bad=bad(rng, dt))


@family("skl")
def minmax(rng):
    return plain(rng, TimeSeriesScalerMinMax, lambda: dict(value_range=rng.choice([(0.0, 1.0), (-1.0, 2.0)]), per_timeseries=rng.random() < 0.5, per_feature=rng.random() < 0.5), var=True)


@family("skl")
def meanvar(rng):
    return plain(rng, TimeSeriesScalerMeanVariance, lambda: dict(mu=rng.choice([0.0, 2.0]), std=rng.choice([1.0, 3.0]), per_timeseries=rng.random() < 0.5, per_feature=rng.random() < 0.5), var=True)


@family("skl")
def resampler(rng):
    return plain(rng, TimeSeriesResampler, lambda: dict(sz=rng.choice([3, 6, 11])))


@family("skl")
def imputer(rng):
    return plain(rng, TimeSeriesImputer, lambda: dict(method=rng.choice(["mean", "median", "ffill", "bfill", "constant", "linear"]), value=rng.choice([0.0, 3.0])), var=True)


@family("skl")
def svc(rng):
    return plain(rng, TimeSeriesSVC, lambda: dict(C=rng.choice([0.5, 2.0]), kernel=rng.choice(["gak", "rbf", "linear"]), gamma=rng.choice([0.1, 1.0]), random_state=0), n=6, y=lambda n: rng.choice([[i % 2 for i in range(n)], [i % 3 for i in range(n)], ["ab"[i % 2] for i in range(n)]]), outs=("predict", "decision_function"))


@family("skl")
def svr(rng):
    return plain(rng, TimeSeriesSVR, lambda: dict(C=rng.choice([0.5, 2.0]), kernel=rng.choice(["gak", "rbf"]), gamma=rng.choice([0.1, 1.0]), epsilon=rng.choice([0.1, 0.5])), n=6, y=lambda n: [rng.randint(-9, 9) / 4 for _ in range(n)], outs=("predict",))


@family("skl")
def mlpc(rng):
    return plain(rng, TimeSeriesMLPClassifier, lambda: dict(hidden_layer_sizes=rng.choice([(3,), (2, 2)]), max_iter=3, random_state=rng.randrange(9)), n=6, y=lambda n: [i % 2 for i in range(n)], outs=("predict", "predict_proba"))


@family("skl")
def mlpr(rng):
    return plain(rng, TimeSeriesMLPRegressor, lambda: dict(hidden_layer_sizes=rng.choice([(3,), (2, 2)]), max_iter=3, random_state=rng.randrange(9)), n=6, y=lambda n: [rng.randint(-9, 9) / 4 for _ in range(n)], outs=("predict",))


@family("skl")
def early(rng):
    return plain(rng, NonMyopicEarlyClassifier, lambda: dict(n_clusters=rng.choice([1, 2]), random_state=rng.randrange(3), lamb=rng.choice([1.0, 100.0]), base_classifier=KNeighborsTimeSeriesClassifier(n_neighbors=1, metric="euclidean"), cost_time_parameter=rng.choice([0.001, 1.0])), T=4, n=10, y=lambda n: [i % 2 for i in range(n)], outs=("predict", "predict_class_and_earliness"))
