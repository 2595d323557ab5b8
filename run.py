#!/usr/bin/env python3
"""Entry point of every check:  run.py PID [--tier quick|thorough] [--replay FILE] [--kind K] [--index I]

The parent (any python3) starts worker processes with the interpreter of the repository, hands every worker a
share of the cases, merges what they observed, writes evidence/<PID>.json and prints the verdict.
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FVM_REPO", "/repo")
PY = os.environ.get("FVM_PYTHON", "/opt/venv/bin/python")
EXIT_INCONCLUSIVE = 2


def blas_kernel():
    """The OpenBLAS of /opt/venv multiplies wrongly on some processors with its own choice of kernel."""
    try:
        flags = set(next(l for l in open("/proc/cpuinfo") if l.startswith("flags")).split())
    except (OSError, StopIteration):
        flags = set()
    return "Haswell" if {"avx2", "fma"} <= flags else "Nehalem"


def worker_env(scratch):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPATH=REPO + os.pathsep + HERE,
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        CUDA_VISIBLE_DEVICES="-1",
        TF_CPP_MIN_LOG_LEVEL="3",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        OPENBLAS_CORETYPE=blas_kernel(),
        TF_NUM_INTRAOP_THREADS="1",
        TF_NUM_INTEROP_THREADS="1",
        HOME=scratch,
        COLUMNS="100",
    )
    return env


def all_cases(mod, tier):
    cases = []
    for kind, count in mod.plan(tier):
        cases += [(kind, i, count) for i in range(count)]
    return cases


# ------------------------------------------------------------------ worker
def worker(args):
    sys.path.insert(0, HERE)
    spec = json.load(open(args.worker))
    log = open(spec["log"], "a", buffering=1)
    os.dup2(log.fileno(), 1)
    os.dup2(log.fileno(), 2)
    sys.dont_write_bytecode = True
    from fvm import core

    out = open(spec["out"], "a", buffering=1)

    def emit(rec):
        out.write(json.dumps(rec, default=repr) + "\n")
        out.flush()

    t_end = time.time() + spec["budget"]
    try:
        mod = importlib.import_module("fvm.checks." + spec["pid"].lower())
    except BaseException as e:
        import traceback

        emit({"import_error": f"{type(e).__name__}: {e}", "traceback": traceback.format_exc()})
        return
    bad, known = 0, known_findings(spec["pid"])
    for n, (kind, index, total) in enumerate(spec["cases"]):
        if time.time() > t_end:
            emit({"truncated": len(spec["cases"]) - n})
            break
        scratch = os.path.join(spec["scratch"], f"c{n}")
        t0 = time.time()
        res = core.run_case(mod, spec["pid"], spec["tier"], spec["seed"], kind, index, total, scratch)
        res["t"] = round(time.time() - t0, 3)
        emit(res)
        shutil.rmtree(scratch, ignore_errors=True)
        bad += res["status"] == "violated" and not any(f in (res.get("msg") or "") for f in known)
        if bad >= 2:
            emit({"stopped": True})
            break
    emit({"done": True})


# ------------------------------------------------------------------ parent
def known_findings(pid):
    """Open entries of the committed findings file: lines 'open: property=<id> match=<text of the message>'."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("open: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                if rest.startswith("match="):
                    out.append(rest[len("match="):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--kind")
    ap.add_argument("--index", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("FVM_JOBS", "8")))
    ap.add_argument("--worker")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    args = ap.parse_args()
    if args.selftest:
        return selftest()
    if args.worker:
        return worker(args)

    t0 = time.time()
    pid = args.pid
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if args.replay:
        r = json.load(open(args.replay))
        pid, tier, seed = r["property"], r["tier"], r["seed"]
        only = [(r["kind"], r["index"], r["total"])]
    scratch = tempfile.mkdtemp(prefix="fvm_%s_" % pid)
    procs = []

    def cleanup(*_):
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)

    def on_term(*_):
        cleanup()
        os._exit(EXIT_INCONCLUSIVE)

    signal.signal(signal.SIGTERM, on_term)
    try:
        return parent(args, pid, tier, seed, only, scratch, procs, t0)
    finally:
        cleanup()


def selftest():
    """Nothing is built (the code under test is interpreted from /repo): the framework is only looked at."""
    import ast

    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    from fvm.plans import PLANS

    for pid, p in PLANS.items():
        src = open(os.path.join(HERE, "fvm", "checks", pid.lower() + ".py")).read()
        ast.parse(src)
        assert all(k[0] for k in p["plan"]["quick"])
    r = subprocess.run([PY, "-B", "-c", "import numpy, scipy, meshio"], env=worker_env("/tmp"))
    print("framework of %d checks, interpreter %s" % (len(PLANS), "found" if r.returncode == 0 else "MISSING"))
    return r.returncode


def load_meta(pid, tier, scratch):
    """Plan and texts of the check, read in a process of its own (the module imports the code under test)."""
    code = (
        "import sys,json,importlib;sys.path.insert(0,%r);"
        "m=importlib.import_module('fvm.plans');"
        "print('@@'+json.dumps(m.PLANS[%r]))" % (HERE, pid)
    )
    r = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True)
    if r.returncode != 0:
        print(r.stderr[-2000:])
        raise SystemExit(EXIT_INCONCLUSIVE)
    return json.loads(r.stdout.split("@@", 1)[1])


def parent(args, pid, tier, seed, only, scratch, procs, t0):
    meta = load_meta(pid, tier, scratch)
    plan = meta["plan"][tier]
    cases = only or [(k, i, n) for k, n in plan for i in range(n)]
    if args.kind:
        cases = [c for c in cases if c[0] == args.kind]
    if args.index is not None:
        cases = [c for c in cases if c[1] == args.index]
    jobs = max(1, min(args.jobs, len(cases)))
    budget = 480 if tier == "quick" else 3000
    hard = 840 if tier == "quick" else 3600
    env = worker_env(scratch)
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    files = []
    for w in range(jobs):
        spec = {
            "pid": pid,
            "tier": tier,
            "seed": seed,
            "cases": cases[w::jobs],
            "out": os.path.join(scratch, f"w{w}.jsonl"),
            "log": os.path.join(scratch, f"w{w}.log"),
            "scratch": os.path.join(scratch, f"w{w}"),
            "budget": budget,
        }
        os.makedirs(spec["scratch"], exist_ok=True)
        sp = os.path.join(scratch, f"w{w}.json")
        json.dump(spec, open(sp, "w"))
        files.append(spec)
        procs.append(
            subprocess.Popen(
                [PY, "-B", os.path.join(HERE, "run.py"), "--worker", sp],
                env=env,
                cwd=spec["scratch"],
                stdin=subprocess.DEVNULL,
                stdout=open(spec["log"], "a"),
                stderr=subprocess.STDOUT,
                start_new_session=True,
            )
        )
    timed_out = False
    for p in procs:
        left = hard - (time.time() - t0)
        try:
            p.wait(timeout=max(1, left))
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()

    counters, keys, kinds, held, viol, incon, samples = {}, set(), {}, 0, [], [], []
    truncated, done, stopped = 0, 0, False
    slow = {}
    for spec, p in zip(files, procs):
        finished = False
        if os.path.exists(spec["out"]):
            for line in open(spec["out"]):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "import_error" in r:
                    incon.append({"kind": "import", "index": 0, "msg": "cannot import: " + r["import_error"] + r["traceback"][-800:]})
                    finished = True
                    continue
                if "truncated" in r:
                    truncated += r["truncated"]
                    continue
                if "stopped" in r:
                    stopped = True
                    continue
                if "done" in r:
                    finished = True
                    done += 1
                    continue
                kinds[r["kind"]] = kinds.get(r["kind"], 0) + 1
                slow[r["kind"]] = slow.get(r["kind"], 0) + r.get("t", 0)
                for k, v in r["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                if r["status"] != "inconclusive":
                    keys.update(r["keys"])
                if r["status"] == "held":
                    held += 1
                    if r["case"] and sum(s["kind"] == r["kind"] for s in samples) < 2:
                        samples.append({"kind": r["kind"], "index": r["index"], **r["case"]})
                elif r["status"] == "violated":
                    viol.append(r)
                else:
                    incon.append(r)
        if not finished:
            tail = open(spec["log"], errors="replace").read()[-1500:]
            incon.append({"kind": "worker", "index": 0, "msg": "a worker ended early (timeout=%s, rc=%s): %s" % (timed_out, p.returncode, tail)})
    partial = bool(only or args.kind or args.index is not None)
    found, hits, new = known_findings(pid), [], []
    for v in viol:
        hit = next((f for f in found if f in (v.get("msg") or "")), None)
        if not hit:
            new.append(v)
        elif hit not in hits:
            hits.append(hit)
            print(f"KNOWN-FINDING: property={pid} {hit}")
    # a monitor that observed too little is inconclusive
    if not partial and not new:
        for k, n in meta.get("min", {}).get(tier, meta.get("min", {}).get("quick", {})).items():
            if counters.get(k, 0) < n:
                incon.append({"kind": "coverage", "index": 0, "msg": f"observed only {counters.get(k, 0)} of at least {n} {k}"})
        for k, n in plan:
            if kinds.get(k, 0) < max(1, n // 4):
                incon.append({"kind": "coverage", "index": 0, "msg": f"ran only {kinds.get(k, 0)} of {n} cases of kind {k}"})


    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": meta["level"],
        "coverage": {
            "evaluations": sum(kinds.values()),
            "distinct_nontrivial": len(keys),
            "rule": meta["rule"],
            "samples": samples[:12] or [{"note": "no case held"}],
            "cases_by_kind": kinds,
            "observed_events": counters,
            "cases_skipped_on_time_budget": truncated,
            "exhaustive": False,
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "known_findings_observed": hits,
    }
    if not args.no_evidence and not partial:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % pid)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    if args.v:
        print(json.dumps({"kinds": kinds, "cpu_s": {k: round(v, 1) for k, v in slow.items()}, "counters": counters, "distinct": len(keys)}, indent=1))
    for v in new[:5]:
        if partial and args.replay:
            path = args.replay
        else:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", f"{pid}_{tier}_{seed}_{v['kind']}_{v['index']}.json")
            total = next((n for k, n in plan if k == v["kind"]), 1)
            json.dump(
                {"property": pid, "tier": tier, "seed": seed, "kind": v["kind"], "index": v["index"], "total": total, "case": v.get("case"), "message": v["msg"], "traceback": v.get("traceback")},
                open(path, "w"),
                indent=1,
            )
        print(f"  {pid}/{v['kind']}[{v['index']}]: {v['msg']}")
        if args.v or args.replay:
            print(json.dumps(v.get("case")), "\n", v.get("traceback"))
        print(f"VIOLATION property={pid} replay={path}")
    if new:
        return 1
    if incon:
        for v in incon[:5]:
            print(f"INCONCLUSIVE property={pid} {v['kind']}[{v['index']}]: {v['msg']}")
        return EXIT_INCONCLUSIVE
    print(f"HELD property={pid} tier={tier} seed={seed} cases={sum(kinds.values())} distinct={len(keys)} comparisons={counters.get('comparisons', 0)} wall={time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
