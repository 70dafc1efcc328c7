"""B01: save/load histories (generated by TLC, module SerialGen) replayed on the estimators of tslearn."""
import copy
import hashlib
import os
import pathlib
import pickle
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from drv_cluster import quiet
from families import FAMILIES, fingerprint


def py_save(est, path):
    data = pickle.dumps(est)
    with open(path, "wb") as f:
        f.write(data)


def py_load(cls, path):
    with open(path, "rb") as f:
        est = pickle.load(f)
    if not isinstance(est, cls):
        raise TypeError("not an estimator")
    return est


def do_save(est, path, fmt):
    if fmt == "py":
        py_save(est, path)
    else:
        getattr(est, "to_" + fmt)(path)


def do_load(cls, path, fmt):
    return py_load(cls, path) if fmt == "py" else getattr(cls, "from_" + fmt)(path)


def main(d):
    rng = d.rng
    behs = [json.loads(x) for x in open(os.environ["BEHAVIOURS_serial"])]
    rng.shuffle(behs)
    fams = [f for f in FAMILIES if f.part == d.part.rstrip("2")]
    rng.shuffle(fams)
    k = 0
    if d.part == "net":
        F = fams[0](rng)
        quiet(F["make"][0]().fit, *F["data"][0])
        d.start()
    while d.more() and d.n < (60000 if THOROUGH else 8000):
        r = 8 if d.part == "net" else 3
        history(d, rng, fams[k % len(fams)], [behs[(k * r + i) % len(behs)] for i in range(r)], k * r)
        k += 1


def history(d, rng, fam, behs, h):
    F = fam(rng)
    d.note(f"reference of {F['name']} {F['text']}")
    cls = type(F["make"][0]())
    if not d.more():
        return
    ref = [[], []]
    for c in range(2):
        for f in range(3):
            est = F["make"][c]()
            if f:
                err, _ = d.call(quiet, est.fit, *copy.deepcopy(F["data"][f - 1]))
                if err:
                    return
            ref[c].append(d.call(quiet, fingerprint, est, F)[1])
    for i, beh in enumerate(behs):
        if not d.more(1.2):
            break
        tmp = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
        try:
            replay(d, rng, F, cls, beh, h + i, ref, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def replay(d, rng, F, cls, beh, h, ref, tmp):
    slots, start = [], []
    for s in beh["start"]:
        if s["c"] == 0:
            slots.append(None)
        else:
            est = F["make"][s["c"] - 1]()
            if s["f"]:
                quiet(est.fit, *copy.deepcopy(F["data"][s["f"] - 1]))
            slots.append(est)
        start.append([s["c"], s["f"]])
    look = lambda s: quiet(fingerprint, s, F) if s is not None else ""
    paths = [os.path.join(tmp, n) for n in rng.choice([("a", "b"), ("a.json", "b.h5"), ("model.pkl", "model.pkl.bak")])]
    read = lambda: [open(p, "rb").read() if os.path.exists(p) else None for p in paths]
    d.emit("start", shard=h, fam=F["name"], text=F["text"], kind=F["kind"], slots=start, ref=ref, obs=[look(s) for s in slots])
    before = read()
    for o in beh["ops"]:
        d.note(f"{F['name']} {F['text']} start {beh['start']} ops {beh['ops']} at {o}")
        i, p = o["m"] - 1, paths[o["p"] - 1]
        if rng.random() < 0.2:
            p = pathlib.Path(p)
        est, mod, err = slots[i], False, ""
        if o["k"] == "new":
            slots[i] = F["make"][o["c"] - 1]()
        elif o["k"] == "load":
            err, v = d.call(quiet, do_load, cls, p, o["fmt"])
            if not err:
                slots[i] = v
        elif o["k"] == "delete":
            if os.path.exists(p):
                os.remove(p)
        elif est is not None:
            if o["k"] in ("fit", "refit"):
                if o["k"] == "refit":
                    est.set_params(**F["make"][o["c"] - 1]().get_params(deep=False))
                a = copy.deepcopy(F["data"][o["f"] - 1])
                s = snapshot(a)
                err, _ = d.call(quiet, est.fit, *a)
                mod = not same(a, s)
            elif o["k"] == "clone":
                slots[o["to"] - 1] = F["clone"](est)
            elif o["k"] == "copy":
                err, v = d.call(copy.deepcopy, est)
                if not err:
                    slots[o["to"] - 1] = v
            elif o["k"] == "save":
                err, _ = d.call(quiet, do_save, est, p, o["fmt"])
        now = read()
        # the slots this operation concerns are looked at; every slot at the end
        touched = {i} if o["k"] != "delete" else set()
        if o["k"] in ("clone", "copy"):
            touched.add(o["to"] - 1)
        if o is beh["ops"][-1]:
            touched = {0, 1}
        obs = [look(slots[j]) if j in touched else "-" for j in (0, 1)]
        d.emit("op", shard=h, fam=F["name"], text=F["text"], o=o, err=err, why=d.last_exc if err else "", obs=obs, exists=[x is not None for x in now], changed=[a != b for a, b in zip(before, now)],
               stray=len([x for x in os.listdir(tmp) if os.path.join(tmp, x) not in paths]), mod=mod)
        before = now


if __name__ == "__main__":
    run(main)
