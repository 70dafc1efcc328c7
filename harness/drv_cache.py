"""D03: the cache of UCR/UEA datasets. Histories come from TLC (UcrGen); the server is a stub, every load runs in a forked
child under an audit hook that refuses (and reports) changes outside the scratch tree and that can stop the child at any file operation."""
import io
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import urllib.error
import zipfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
import tslearn.datasets.datasets as DM
import tslearn.datasets.ucr_uea as UM
import scipy.io.arff  # noqa

DIRNAME = {"Alpha": "Alpha", "Beta": "Beta", "AtrialFibrillation": "AtrialFibrilation"}
NEWDIR = {v: k for k, v in DIRNAME.items()}


def content(n, v):
    """the files of version v of dataset n and the arrays they hold"""
    seed = sum(map(ord, n)) * 7 + v
    rs = np.random.RandomState(seed)
    fmt = ["txt", "arff", "txt", "multi"][seed % 4]
    ntr, nte, sz = 1 + seed % 3, 2, 40
    files, arrays = {}, []
    dn = DIRNAME[n]
    for part, k in (("TRAIN", ntr), ("TEST", nte)):
        if fmt == "multi":
            X = rs.randint(-99, 99, size=(k, sz, 2)).astype(float)
            y = np.array([f"c{i % 2}" for i in range(k)])
            rows = ["'" + "\\n".join(",".join(str(q) for q in X[i, :, c]) for c in range(2)) + f"',{y[i]}" for i in range(k)]
            t = f"@relation {dn}\n@attribute rel relational\n" + "".join(f"  @attribute att{j} numeric\n" for j in range(sz)) + "@end rel\n@attribute target {c0,c1}\n@data\n" + "\n".join(rows) + "\n"
            files[f"{dn}_{part}.arff"] = t
        else:
            X = rs.randint(-99, 99, size=(k, sz, 1)).astype(float)
            y = rs.randint(0, 3, size=k)
            if fmt == "txt":
                t = "".join("  ".join([f"{float(y[i]):.7e}"] + [f"{q:.7e}" for q in X[i, :, 0]]) + "\n" for i in range(k))
                files[f"{dn}_{part}.txt"] = t
            else:
                y = np.array([f"c{i}" for i in y])
                t = f"@relation {dn}\n" + "".join(f"@attribute att{j} numeric\n" for j in range(sz)) + "@attribute target {c0,c1,c2}\n@data\n" + "".join(",".join([str(q) for q in X[i, :, 0]] + [y[i]]) + "\n" for i in range(k))
                files[f"{dn}_{part}.arff"] = t
        arrays += [X, y]
    files["README.md"] = f"# {dn} {v}\n" + "x" * 3000
    return files, arrays


CONTENT = {(n, v): content(n, v) for n in DIRNAME for v in (1, 2, 3)}


def zipped(files):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        for k in sorted(files):
            z.writestr(k, files[k])
    return b.getvalue()


def payload(n, s):
    """bytes the server sends, or an exception"""
    k = s["k"]
    if k == "ok":
        return zipped(CONTENT[n, s["v"]][0])
    if k == "down":
        return urllib.error.URLError("no route to host")
    if k == "notfound":
        return urllib.error.HTTPError("u", 404, "Not Found", {}, None)
    if k == "badzip":
        return b"<html>no such file</html>" * 40
    if k == "truncated":
        return urllib.error.ContentTooShortError("retrieval incomplete", zipped(CONTENT[n, 1][0])[:200])
    files = dict(CONTENT[n, 2][0])
    if k == "trainonly":
        return zipped({f: t for f, t in files.items() if "TEST" not in f})
    return zipped({f.replace(".txt", ".ts").replace(".arff", ".ts"): t for f, t in files.items()})


UNI = ["Adiac", "CinCECGtorso", "StarlightCurves", "Beta"]
MULTI = ["Alpha", "PenDigits"]


class Stub:
    def __init__(self, server, lists_ok):
        self.server, self.reqs, self.lists_ok = server, 0, lists_ok

    def __call__(self, url, filename=None, *a, **k):
        base = os.path.basename(url)
        if base.startswith("summary"):
            if not self.lists_ok:
                raise urllib.error.URLError("down")
            with open(filename, "w") as f:
                f.write("problem,x\n" + "".join(f"{n},1\n" for n in UNI) if "Uni" in base else "Problem,x\n" + "".join(f"{n},1\n" for n in MULTI))
            return str(filename), {}
        self.reqs += 1
        n = NEWDIR.get(base[:-4])
        p = payload(n, self.server[n]) if n else urllib.error.HTTPError("u", 404, "Not Found", {}, None)
        if isinstance(p, urllib.error.ContentTooShortError):
            with open(filename, "wb") as f:
                f.write(p.content)
        if isinstance(p, Exception):
            raise p
        with open(filename, "wb") as f:
            f.write(p)
        return str(filename), {}


def dirstate(root, n):
    p = os.path.join(root, "UCR_UEA", DIRNAME[n])
    if os.path.islink(p):
        return {"k": "link", "v": 0}
    if not os.path.exists(p):
        return {"k": "absent", "v": 0}
    if os.path.isfile(p):
        return {"k": "file", "v": 0}
    have = {}
    for f in os.listdir(p):
        q = os.path.join(p, f)
        have[f] = open(q, errors="replace").read() if os.path.isfile(q) else None
    pairs = {e: all(f"{DIRNAME[n]}_{t}.{e}" in have for t in ("TRAIN", "TEST")) for e in ("txt", "arff")}
    for v in (1, 2, 3):
        if all(have.get(f) == t for f, t in CONTENT[n, v][0].items() if "README" not in f):
            return {"k": "full", "v": v}
    if any(pairs.values()):
        return {"k": "damaged", "v": 0}
    return {"k": "partial", "v": 0}


def tree(top, root):
    """what lies outside the datasets' directories: path -> content"""
    out = {}
    skip = {os.path.join(root, "UCR_UEA", x) for x in DIRNAME.values()}
    for dp, dn, fn in os.walk(top):
        for x in list(dn):
            q = os.path.join(dp, x)
            if q in skip or (dp == os.path.join(root, "UCR_UEA") and x.startswith(".")):
                dn.remove(x)
            else:
                out[os.path.relpath(q, top)] = "<dir>"
        for x in fn:
            q = os.path.join(dp, x)
            if q in skip or x.startswith("summary"):
                continue
            try:
                out[os.path.relpath(q, top)] = open(q, errors="replace").read()
            except OSError:
                out[os.path.relpath(q, top)] = "?"
    return out


WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC


def guard(top, tmp, fd, stop_at):
    """audit hook of a child: nothing outside `top`/`tmp` may change; the child stops at the stop_at-th file operation"""
    st = {"n": 0, "on": True}

    def inside(p, base=None):
        if isinstance(p, int):
            return True
        q = os.path.realpath(os.path.join(base or os.getcwd(), os.fsdecode(p)))
        return any(q == t or q.startswith(t + os.sep) for t in (top, tmp))

    def hook(ev, args):
        if not st["on"]:
            return
        w = None
        if ev == "open" and isinstance(args[0], (str, bytes, os.PathLike)):
            if isinstance(args[2], int) and args[2] & WRITES:
                w = [args[0]]
            elif "UCR" not in os.fsdecode(args[0]):
                return
        elif ev in ("os.remove", "os.rmdir", "os.mkdir", "os.chmod", "os.truncate"):
            w = [args[0]] if args[-1] in (-1, None) or ev in ("os.truncate",) else []
        elif ev in ("shutil.rmtree", "shutil.chown"):
            w = [args[0]]
        elif ev in ("os.rename", "os.link", "os.symlink", "shutil.move", "shutil.copyfile", "shutil.copytree"):
            w = list(args[:2])
        elif ev in ("os.listdir", "os.scandir"):
            pass
        elif ev in ("subprocess.Popen", "os.system", "os.exec", "socket.connect"):
            st["on"] = False
            os.write(fd, pickle.dumps({"outside": [ev]}))
            os._exit(77)
        else:
            return
        for p in w or []:
            if not inside(p):
                st["on"] = False
                os.write(fd, pickle.dumps({"outside": [f"{ev} {p}"]}))
                os._exit(77)
        if w is not None:
            st["n"] += 1
            if stop_at and st["n"] >= stop_at:
                os._exit(9)
    sys.addaudithook(hook)
    return st


def child(top, root, tmp, server, name, use, how, arg, lists_ok):
    """run one load in a forked child -> dict"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(30)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.close(r)
            os.environ["HOME"] = top
            os.environ["XDG_DATA_HOME"] = os.path.join(top, "xdg")
            tempfile.tempdir = tmp
            stub = Stub(server, lists_ok)
            UM.urlretrieve = DM.urlretrieve = stub
            out = {"outside": [], "err": "", "res": -1, "warned": False, "reqs": 0, "listed": []}
            obj = UM.UCR_UEA_datasets(use_cache=use, root_dir=root)
            st = guard(top, tmp, w, arg if how == "event" else 0)
            if how in ("size", "full"):
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if how == "size" else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (arg, arg))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    v = obj.load_dataset(name)
                    if isinstance(v, tuple) and len(v) == 4 and all(x is None for x in v):
                        out["res"] = 0
                    else:
                        n = NEWDIR.get(UM_ALIAS.get(name, name), name)
                        for ver in (1, 2, 3):
                            if (n, ver) in CONTENT and all(np.array_equal(p, q) and p.dtype.kind == q.dtype.kind for p, q in zip(v, CONTENT[n, ver][1])):
                                out["res"] = ver
                except Exception as e:
                    out["err"] = type(e).__name__
                    out["msg"] = str(e)[:200]
                out["warned"] = any(issubclass(q.category, RuntimeWarning) for q in ws)
            st["on"] = False
            out["reqs"] = stub.reqs
            try:
                out["listed"] = sorted(NEWDIR.get(q, q) for q in obj.list_cached_datasets() if q != "Descr")
            except Exception as e:
                out["err"] = "list:" + type(e).__name__
            os.write(w, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if data:
        o = pickle.loads(data)
        o["done"] = "err" in o
        return {**{"err": "Hang", "res": -1, "warned": False, "reqs": 0, "listed": []}, **o}
    hang = os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM
    return {"outside": [], "err": "Hang" if hang else "killed", "res": -1, "warned": False, "reqs": 0, "listed": [], "done": hang}


UM_ALIAS = {"AtrialFibrillation": "AtrialFibrilation"}


def setup(base, init):
    top = tempfile.mkdtemp(dir=base)
    root = os.path.join(top, "a", "b", "root")
    tmp = os.path.join(top, "tmp")
    os.makedirs(os.path.join(root, "UCR_UEA"))
    for p in ("tmp", "a/keep", "keep", "xdg"):
        os.makedirs(os.path.join(top, p), exist_ok=True)
    for p in ("a/keep/x", "a/b/y", "a/b/root/z", "a/b/root/UCR_UEA/notes.txt", "keep/w", "victim"):
        with open(os.path.join(top, p), "w") as f:
            f.write("keep me " + p)
    os.makedirs(os.path.join(root, "keep"))
    with open(os.path.join(root, "keep", "u"), "w") as f:
        f.write("u")
    for n, c in init["c"].items():
        p = os.path.join(root, "UCR_UEA", DIRNAME[n])
        if c["k"] == "file":
            with open(p, "w") as f:
                f.write("junk")
        elif c["k"] == "partial":
            os.makedirs(os.path.join(p, "sub"))
            for fn, t in list(CONTENT[n, 1][0].items()):
                if "TRAIN" in fn:
                    with open(os.path.join(p, fn), "w") as f:
                        f.write(t)
    return top, root, tmp


def main(d):
    rng = d.rng
    base = os.environ.get("VERIF_SCRATCH", tempfile.gettempdir())
    beh = [json.loads(x) for x in open(os.environ["BEHAVIOURS_ucr"])]
    rng.shuffle(beh)
    k = 0
    accdir = os.path.join(REPO, "tslearn", ".cached_datasets", "singleTrainTest.csv")
    while d.more() and (k < len(beh)):
        b = beh[k]
        k += 1
        if (k % 2) != (d.part == "b"):
            continue
        top, root, tmp = setup(base, b["init"])
        try:
            server = dict(b["init"]["s"])
            dirs = lambda: {n: dirstate(root, n) for n in DIRNAME}  # noqa
            d.emit("start", shard=k, dirs=dirs(), server=server)
            before = tree(top, root)
            for op in b["ops"]:
                n = op["n"]
                d.note(json.dumps({"history": b, "at": op}))
                if op["k"] == "publish":
                    server[n] = op["x"]
                    d.emit("publish", shard=k, n=n, x=op["x"], dirs=dirs())
                    continue
                if op["k"] == "kill" and rng.random() < 0.5:
                    op = {**op, "k": "load"}
                name, how, arg = n, "", 0
                if op["k"] == "odd":
                    name = {"ABS": os.path.join(top, "victim"), "": "", }.get(n, n)
                    if n == "ABS" and rng.random() < 0.5:
                        name = os.path.join(top, "keep")
                elif op["k"] == "kill":
                    how = op["x"]["k"]
                    arg = rng.randint(1, 14) if how == "event" else rng.choice([0, 100, 400, 700, 1000, 1500, 2500])
                    if how == "event" and rng.random() < 0.2:
                        arg = rng.randint(10, 40)
                r = child(top, root, tmp, server, name, op["use"], how, arg, rng.random() < 0.5)
                after = tree(top, root)
                diff = [q for q in sorted(set(before) | set(after)) if before.get(q) != after.get(q)]
                left = False
                hidden = [q for q in os.listdir(os.path.join(root, "UCR_UEA")) if q.startswith(".")] if os.path.isdir(os.path.join(root, "UCR_UEA")) else []
                diff2 = [q for q in diff if not q.startswith("tmp")]
                if op["k"] == "load":
                    left = bool(hidden or os.listdir(tmp)) if os.path.isdir(tmp) else False
                r["outside"] = r["outside"] + diff2
                ev = {q: r[q] for q in ("err", "res", "warned", "reqs", "listed", "outside", "done")}
                d.emit(op["k"], shard=k, n=n, use=op["use"], how=how, arg=arg, dirs=dirs(), left=left, msg=r.get("msg", ""), **ev)
                if diff2 or r["err"] == "Hang":
                    break
                # the debris of an interrupted load is cleared so that it is not blamed on the next one
                for q in hidden:
                    shutil.rmtree(os.path.join(root, "UCR_UEA", q), ignore_errors=True)
                shutil.rmtree(tmp, ignore_errors=True)
                os.makedirs(tmp)
                before = tree(top, root)
            if k % 10 == 1:
                UM.urlretrieve = Stub(server, True)
                os.environ["HOME"] = top
                o = {}

                def go():
                    u = UM.UCR_UEA_datasets(root_dir=os.path.join(top, "fresh"))
                    acc = u.baseline_accuracy(["Adiac", "Trace"], ["C45", "RotF"])
                    return u.list_univariate_datasets(), u.list_multivariate_datasets(), u.list_datasets(), acc
                err, v = d.call(go)
                uni = ["Adiac", "CinCECGTorso", "StarLightCurves", "Beta"]
                import csv
                rows = {q[""]: q for q in csv.DictReader(open(accdir), delimiter=";")}
                want = sorted([n_, m, repr(float(rows[n_][m]))] for n_ in ("Adiac", "Trace") if n_ in rows for m in ("C45", "RotF") if rows[n_].get(m))
                got = sorted([n_, m, repr(x)] for n_, q in v[3].items() for m, x in q.items()) if not err else []
                d.emit("names", shard=k, err=err, uni=v[0] if not err else [], multi=v[1] if not err else [], all=v[2] if not err else [], wuni=uni, wmulti=MULTI, acc=got, wacc=want)
        finally:
            shutil.rmtree(top, ignore_errors=True)


run(main)
