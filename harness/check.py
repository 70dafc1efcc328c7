#!/usr/bin/env python3
"""Run the check of one property:  check.py <ID> [--tier quick|thorough]

1. drivers (harness/drv_*.py) exercise the real code of /repo and log events,
2. TLC checks the design models of the property (spec/mc/*.cfg) exhaustively,
3. TLC validates every logged event / history against the specification (spec/T_*.tla),
4. the verdict, replay file and evidence are written.
"""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
from props import PROPS  # noqa

ENV = dict(os.environ)
ENV.update(
    KERAS_BACKEND="torch", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
    MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="2", CUDA_VISIBLE_DEVICES="", PYTHONHASHSEED="0",
    PYTHONWARNINGS="ignore", JOBLIB_MULTIPROCESSING="0",
)


class Machinery(Exception):
    pass


def java(args, env, timeout, heap="1500m", workers="1", cwd=None):
    cmd = ["java", "-Djava.io.tmpdir=" + ENV.get("VERIF_TMP", "/tmp"), f"-Xmx{heap}", "-Xss16m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1" if workers == "1" else "-XX:+UseSerialGC",
           "-cp", JARS, "tlc2.TLC", "-workers", workers, "-nowarning"] + args
    e = dict(ENV)
    e.update(env)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def run_mc(spec_dir, work, name, cfg, module, extra, timeout, workers):
    """exhaustive (or -simulate) check of a design model; independent of the code under test"""
    meta = tempfile.mkdtemp(dir=work)
    rc, out = java(["-metadir", meta, "-config", cfg, *extra, module + ".tla"], {}, timeout, heap="4g", workers=str(workers), cwd=spec_dir)
    g, d = stats(out)
    if rc != 0:
        raise Machinery(f"model {name} ({cfg}): TLC exit {rc}\n" + out[-3000:])
    return {"model": name, "states": d, "transitions": g}


BADLINE = re.compile(r'^<<"BAD", *"([^"]*)", *(.*)>>$')


def validate(spec_dir, work, module, trace, n, timeout):
    """TLC trace validation of one shard. -> (bad [(id, clauses)], states, generated)"""
    meta = tempfile.mkdtemp(dir=work)
    cfg = os.path.join(spec_dir, "trace.cfg")
    rc, out = java(["-metadir", meta, "-config", cfg, module + ".tla"], {"TRACE": trace}, timeout, cwd=spec_dir)
    shutil.rmtree(meta, ignore_errors=True)
    bad = []
    text = re.sub(r"\n +", " ", out)      # TLC wraps long values
    for line in text.splitlines():
        m = BADLINE.match(line.strip())
        if m:
            bad.append((m.group(1), m.group(2)))
    g, d = stats(out)
    if rc == 0 and d == n + 1:
        return bad, d, g
    if rc == 0:
        bad.append(("?", f"trace not accepted: {d - 1} of {n} events consumed"))
        return bad, d, g
    # an evaluation error on an event the specification cannot read: the event does not fit the specification
    k = [int(x) for x in re.findall(r"\bl = (\d+)", out)]
    if k:
        lines = open(trace).read().splitlines()
        at = max(k)
        if at <= len(lines):
            ev = json.loads(lines[at - 1])
            why = [x for x in out.splitlines() if "Error" in x or "ttempted" in x or "verflow" in x]
            bad.append((ev["id"], "unreadable event: " + " | ".join(why)[:400]))
            return bad, d, g
    raise Machinery(f"TLC exit {rc} on {module} {trace}\n" + out[-3000:])


def main():
    t0 = time.time()
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    keep = "--keep" in args
    ENV["VERIF_TIER"] = tier
    ENV.setdefault("VERIF_SEED", "1")
    seed = int(ENV["VERIF_SEED"])
    P = PROPS[pid]
    thorough = tier == "thorough"
    if not thorough:      # the quick tier spends its time on calls, not on optimising the compiled kernels
        ENV.update(NUMBA_OPT="0", NUMBA_SLP_VECTORIZE="0", NUMBA_LOOP_VECTORIZE="0")
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        rc = check(pid, P, tier, thorough, seed, work, t0)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    sys.exit(rc)


def check(pid, P, tier, thorough, seed, work, t0):
    spec_dir = os.path.join(work, "spec")
    shutil.copytree(SPEC, spec_dir)
    for f in glob.glob(os.path.join(spec_dir, "mc", "*")):
        shutil.move(f, os.path.join(spec_dir, os.path.basename(f)))
    scratch = os.path.join(work, "scratch")
    os.mkdir(scratch)
    os.mkdir(os.path.join(work, "tmp"))
    ENV["VERIF_TMP"] = ENV["TMPDIR"] = os.path.join(work, "tmp")
    ENV["VERIF_SCRATCH"] = scratch
    ENV["NUMBA_CACHE_DIR"] = os.path.join(work, "nb")
    budget = P.get("budget", (12, 240))[1 if thorough else 0]
    shards = P.get("shards", 2)
    errors, mc_res = [], []

    # behaviours generated by TLC that the drivers replay
    for gen in P.get("generate", []):
        out = os.path.join(work, gen["out"])
        meta = tempfile.mkdtemp(dir=work)
        depth = gen["depth"]
        num = gen["num"][1 if thorough else 0]
        rc, text = java(["-metadir", meta, "-config", gen["cfg"], "-simulate", f"num={num}", "-depth", str(depth),
                         "-seed", str(seed), gen["module"] + ".tla"], {}, 300, cwd=spec_dir)
        lines = []
        text = re.sub(r"\n +", " ", text)
        for m in re.finditer(r'^<<"BEH", "(.*)">>$', text, re.M):
            lines.append(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
        if rc != 0 or not lines:
            raise Machinery(f"behaviour generation {gen['module']}: exit {rc}, {len(lines)} behaviours\n" + text[-2000:])
        uniq = sorted(set(lines))
        with open(out, "w") as f:
            f.write("\n".join(uniq) + "\n")
        ENV["BEHAVIOURS_" + gen["name"]] = out
        g, d = stats(text)
        mc_res.append({"model": gen["module"] + " (simulate)", "states": d, "transitions": g, "behaviours": len(uniq)})

    procs = []
    for part in P["parts"]:
        out = os.path.join(work, "d_" + part)
        os.mkdir(out)
        log = open(os.path.join(out, "log"), "w")
        cmd = [PY, os.path.join(HERE, P["driver"]), pid, part, out, str(shards), str(budget)]
        procs.append((part, out, subprocess.Popen(cmd, env=ENV, cwd=scratch, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)))

    def mc_thread():
        for mc in P.get("mc", []):
            if thorough and mc.get("quick_only"):
                continue
            if mc.get("thorough_only") and not thorough:
                continue
            try:
                mc_res.append(run_mc(spec_dir, work, mc["name"], mc["cfg"], mc["module"], mc.get("extra", []),
                                     1500 if thorough else 400, mc.get("workers", 2)))
            except Exception as e:  # noqa
                errors.append(e)

    th = threading.Thread(target=mc_thread)
    th.start()

    bad, counts, st, gen, ntr, nev = [], {}, 0, 0, 0, 0
    lock = threading.Lock()
    vth = []
    sem = threading.Semaphore(6)

    def val(trace, n, module):
        nonlocal st, gen, ntr, nev
        with sem:
            try:
                b, d, g = validate(spec_dir, work, module, trace, n, 1500 if thorough else 600)
            except Exception as e:  # noqa
                with lock:
                    errors.append(e)
                return
        with lock:
            evs = {}
            if b:
                want = {i for i, _ in b}
                for line in open(trace):
                    e = json.loads(line)
                    if e["id"] in want:
                        evs[e["id"]] = e
            for i, c in b:
                bad.append({"event": evs.get(i, {"id": i}), "clauses": c, "module": module})
            st += d
            gen += g
            nev += n
            ntr += P.get("traces_of", lambda t, n: n)(trace, n)

    hard = P.get("hang", 400) + (2400 if thorough else 0)
    samples = []
    for part, out, p in procs:
        left = hard - (time.time() - t0)
        try:
            rc = p.wait(timeout=max(left, 1))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = "hang"
        if rc != 0 or not os.path.exists(os.path.join(out, part + ".done")):
            cur = open(os.path.join(out, part + ".cur"), errors="replace").read().strip() if os.path.exists(os.path.join(out, part + ".cur")) else ""
            tail = open(os.path.join(out, "log"), errors="replace").read()[-3000:]
            bad.append({"event": {"id": f"{part}:driver", "k": "driver", "rc": rc, "current": cur}, "clauses": f"driver of part {part} ended with {rc}: the code under test crashed, could not be imported or did not return", "log": tail, "module": P["module"]})
        else:
            info = json.load(open(os.path.join(out, part + ".done")))
            for k, v in info["kinds"].items():
                counts[k] = counts.get(k, 0) + v
        for trace in sorted(glob.glob(os.path.join(out, "*.ndjson"))):
            lines = open(trace, errors="replace").read().splitlines()
            good = []
            for x in lines:
                try:
                    json.loads(x)
                    good.append(x)
                except ValueError:
                    break
            if len(good) != len(lines):
                open(trace, "w").write("".join(x + "\n" for x in good))
            if not good:
                continue
            if len(samples) < 3:
                s = good[min(len(good) - 1, 7)]
                samples.append(json.loads(s) if len(s) < 1500 else s[:1500])
            t = threading.Thread(target=val, args=(trace, len(good), P["module"]))
            t.start()
            vth.append(t)
    for t in vth:
        t.join()
    th.join()

    known, fresh = [], []
    kf = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"] if k["property"] == pid]
    for b in bad:
        hit = next((k for k in kf if k["sig"] == b["event"].get("sig")and b["event"].get("sig")), None)
        (known if hit else fresh).append((b, hit))
    for k in kf:
        if any(h is k for _, h in known):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")

    if errors and not fresh:
        for e in errors:
            print("MACHINERY:", e, file=sys.stderr)
        return 2

    if not errors and not fresh:
        need = P.get("min_events", 200)
        if nev < need:
            print(f"MACHINERY: only {nev} events were validated (at least {need} expected)", file=sys.stderr)
            return 2

    mst = sum(m["states"] for m in mc_res)
    mtr = sum(m["transitions"] for m in mc_res)
    wall = round(time.time() - t0, 1)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": mst + st, "transitions": mtr + gen,
            "traces_validated_against_impl": ntr,
            "events_validated": nev,
            "events_by_kind": counts,
            "design_models": mc_res,
            "trace_module": P["module"],
            "samples": samples or ["no event was logged"],
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": wall, "violations": len(fresh),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        rp = os.path.join(ROOT, "replay", f"{pid}-{hashlib.sha1(json.dumps(fresh[0][0], sort_keys=True, default=str).encode()).hexdigest()[:10]}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "violations": [b for b, _ in fresh[:50]]}, f, indent=1, default=str)
        for b, _ in fresh[:8]:
            s = json.dumps(b["event"], default=str)
            print(f"  {b['event'].get('id')}: {b['clauses']}\n    {s[:700]}")
            if "log" in b:
                print("    " + b["log"][-1500:].replace("\n", "\n    "))
        print(f"  {len(fresh)} events violate the specification")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK {pid}: {nev} events validated, {ntr} traces, {mst + st} states, {wall}s")
    return 0


if __name__ == "__main__":
    try:
        main()
    except Machinery as e:
        print("MACHINERY:", e, file=sys.stderr)
        sys.exit(2)
