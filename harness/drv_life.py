"""B02: life-cycle histories (generated by TLC, module LifeGen) replayed on the estimators of tslearn."""
import copy
import hashlib
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from drv_cluster import quiet
from families import FAMILIES, fingerprint, norm


def look(est, F, errors=None):
    if est is None:
        return ["", ""]
    f = quiet(fingerprint, est, F, True)
    if errors is not None:
        errors.append([v if isinstance(v, str) and v[0].isupper() else "" for v in f["o"]])
    h = lambda v: hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:16]
    return [h(f["p"]), h([f.get("a"), f["o"]])]


def args_of(rng, a):
    """the arguments of a fit, in another container now and then"""
    a = copy.deepcopy(a)
    X = a[0]
    if isinstance(X, np.ndarray) and X.ndim == 3 and not np.isnan(X[:, 0]).any() and (~np.isnan(X[:, -1])).any() and rng.random() < 0.3:
        X = [x[: int(np.max(np.nonzero(~np.isnan(x).all(axis=1))[0])) + 1] for x in X] if rng.random() < 0.5 and not np.isnan(X).any() else X.tolist()
    return (X,) + tuple(a[1:])


def fitout(est):
    for n in ("fit_transform", "fit_predict"):
        if hasattr(est, n):
            return n


def main(d):
    rng = d.rng
    behs = [json.loads(x) for x in open(os.environ["BEHAVIOURS_life"])]
    rng.shuffle(behs)
    fams = [f for f in FAMILIES if f.part == d.part.rstrip("2")]
    rng.shuffle(fams)
    k = 0
    if d.part == "net":
        F = fams[0](rng)
        quiet(F["make"][0]().fit, *F["data"][0])
        d.start()
    while d.more() and d.n < (60000 if THOROUGH else 8000):
        r = 6 if d.part == "net" else 3
        history(d, rng, fams[k % len(fams)], [behs[(k * r + i) % len(behs)] for i in range(r)], k * r)
        k += 1


def history(d, rng, fam, behs, h):
    F = fam(rng)
    d.note(f"reference of {F['name']} {F['text']}")
    if not d.more():
        return
    ref, errs = [[], []], [[], []]
    for c in range(2):
        for f in range(3):
            est = F["make"][c]()
            if f:
                err, _ = d.call(quiet, est.fit, *copy.deepcopy(F["data"][f - 1]))
                if err:
                    return
            ref[c].append(look(est, F, errs[c]))
    for i, beh in enumerate(behs):
        if not d.more(1.2):
            break
        replay(d, rng, F, beh, h + i, ref, errs)


def replay(d, rng, F, beh, h, ref, errs):
    slots, start = [], []
    for s in beh["start"]:
        est = F["make"][s["c"] - 1]()
        if s["f"]:
            quiet(est.fit, *copy.deepcopy(F["data"][s["f"] - 1]))
        slots.append(est)
        start.append([s["c"], s["f"]])
    d.emit("start", shard=h, fam=F["name"], text=F["text"], slots=start, ref=ref, obs=[look(s, F) for s in slots], errs=errs)
    conf = [s["c"] - 1 for s in beh["start"]]
    outs = [x for x, (n, a) in enumerate(F["outs"]) if a]
    for o in beh["ops"]:
        if o["k"] in ("call", "badcall") and not outs:
            o = dict(o, k="params")
        if o["k"] == "badfit" and F["bad"] is None:
            o = dict(o, k="params")
        i, touched = o["m"] - 1, {o["m"] - 1}
        d.note(f"{F['name']} {F['text']} start {beh['start']} ops {beh['ops']} at {o}")
        est, mod, err, out, refout, sep, own, bad = slots[i], False, "", "", "", "", True, ""
        x = 0
        name = fitout(est)
        if o["k"] == "fitout" and (not name or (F["name"] == "TimeSeriesKMeans" and rng.random() < 0.5 and not hasattr(est, "fit_predict"))):
            o = dict(o, k="fit")
        if o["k"] == "new":
            slots[i], conf[i] = F["make"][o["c"] - 1](), o["c"] - 1
        elif o["k"] == "set":
            conf[i] = o["c"] - 1
            err, _ = d.call(lambda: est.set_params(**F["make"][conf[i]]().get_params(deep=False)))
            own = _ is est if not err else True
        elif o["k"] in ("fit", "badfit", "fitout"):
            a = args_of(rng, F["data"][o["f"] - 1]) if o["k"] != "badfit" else copy.deepcopy(F["bad"])
            s = snapshot(a)
            if o["k"] == "fitout":
                name = rng.choice([n for n in ("fit_transform", "fit_predict") if hasattr(est, n)])
                err, v = d.call(quiet, getattr(est, name), *a)
                if not err:
                    fresh = lambda: F["make"][conf[i]]()
                    out, refout = (digest(v), digest(quiet(getattr(fresh(), name), *snapshot(s))))
                    sep = digest(quiet(quiet(fresh().fit, *snapshot(s)).transform, snapshot(s[0]))) if name == "fit_transform" else refout
            else:
                err, v = d.call(quiet, est.fit, *a)
                own = v is est if not err else True
            mod = not same(a, s)
        elif o["k"] == "clone":
            slots[o["to"] - 1] = F["clone"](est)
            conf[o["to"] - 1] = conf[i]
            touched.add(o["to"] - 1)
        elif o["k"] == "copy":
            slots[o["to"] - 1] = copy.deepcopy(est)
            conf[o["to"] - 1] = conf[i]
            touched.add(o["to"] - 1)
        elif o["k"] == "params":
            p = est.get_params(deep=rng.random() < 0.5)
            p.clear()
            repr(est)
            if rng.random() < 0.5:
                err, _ = d.call(lambda: est.set_params(**est.get_params(deep=False)))
        elif o["k"] == "noise":
            np.random.seed(rng.randrange(99))
            np.random.rand(3)
            random.random()
        elif o["k"] in ("call", "badcall"):
            x = rng.choice(outs)
            n, a = F["outs"][x]
            a = snapshot(a)
            if o["k"] == "badcall":
                a = (np.array(a[0], dtype=float),) + tuple(a[1:])
                bad = rng.choice(["inf", "dim"])
                if bad == "inf":
                    a[0][(0,) * a[0].ndim] = np.inf
                else:
                    a = tuple(np.concatenate([x, x], axis=x.ndim - 1) if isinstance(x, np.ndarray) and x.ndim >= 2 else x for x in a)
            s = snapshot(a)
            err, v = d.call(quiet, getattr(est, n), *a)
            mod = not same(a, s)
            if not err:
                for r in v if isinstance(v, tuple) else (v,):
                    if isinstance(r, np.ndarray) and r.dtype.kind in "fi":
                        r.fill(-7)
        if o is beh["ops"][-1]:
            touched = {0, 1}
        obs = [look(slots[j], F) if j in touched else ["-", "-"] for j in (0, 1)]
        d.emit("op", shard=h, fam=F["name"], text=F["text"], o=o, x=x + 1, bad=bad, err=err, why=d.last_exc if err else "", obs=obs, mod=mod, out=out, refout=refout, sep=sep, self_=own)


def digest(v):
    return hashlib.sha1(json.dumps(norm(v, exact=False)).encode()).hexdigest()[:16]


if __name__ == "__main__":
    run(main)
