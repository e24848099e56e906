"""Runs the jobs of one check, replays counterexamples, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

from . import boot, sx

import warnings

warnings.filterwarnings("ignore")

_CHECK = None
_KNOWN = None


def load_known(pid):
    """known-findings.json: {"known": [{"property","sig","what"}], "fixed": [...]}; read-only at run time"""
    p = os.path.join(boot.VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == pid]


def start_func_trace(funcs):
    """record which functions of /repo the symbolic runs execute (sys.monitoring: one event per code object)"""
    mon = sys.monitoring
    TOOL = 3
    try:
        mon.use_tool_id(TOOL, "vf")
    except ValueError:
        return
    root = os.path.realpath(boot.REPO) + os.sep + "metrics_layer" + os.sep

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(root) or fn.startswith(boot.REPO + "/metrics_layer/"):
            funcs.add(os.path.relpath(fn, boot.REPO) + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(TOOL, mon.events.PY_START, on_start)
    mon.set_events(TOOL, mon.events.PY_START)


_FUNCS = set()


class _JobTimeout(BaseException):
    pass


def _alarm(*a):
    raise _JobTimeout()


def _work(arg):
    i, name, params, limit = arg
    h = getattr(_CHECK, name)
    start_func_trace(_FUNCS)
    t0 = time.time()
    out = {"i": i, "job": name, "params": params}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit) + 20)
    try:
        st, found, complete = sx.explore(
            h, params, deadline=t0 + limit, timeout_ms=getattr(_CHECK, "SOLVER_TIMEOUT_MS", 60000)
        )
        out["stats"] = st.dict()
        out["complete"] = complete
        if found is not None:
            out["found"] = {"msg": found.msg, "values": found.model, "info": found.info}
    except _JobTimeout:
        out["timeout"] = True
    except Exception as e:
        out["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2500:]
    finally:
        signal.alarm(0)
    out["funcs"] = sorted(_FUNCS)
    out["wall"] = time.time() - t0
    return out


def replay_file(path):
    d = json.load(open(path))
    mod = importlib.import_module("vf.checks." + d["check"])
    h = getattr(mod, d["job"])
    ok, f = sx.replay(h, d["params"], d["values"])
    if ok:
        print("REPLAYED:", f.msg)
        if f.info:
            print(json.dumps(f.info, default=str, indent=1)[:4000])
        return 1
    if d["msg"].startswith("generated SQL"):
        # the statement is wrong whatever the rows are, but on one concrete table the wrong part may not be evaluated: produce it again with the
        # real code and judge it over all rows
        st, found, _ = sx.explore(h, d["params"], deadline=time.time() + 250)
        if found is not None and found.msg == d["msg"]:
            print("REPLAYED:", found.msg)
            print(json.dumps(found.info, default=str, indent=1)[:4000])
            return 1
    print("did not reproduce")
    return 0


def main(argv):
    global _CHECK
    pid, tier = argv[0], argv[1]
    if tier == "--replay":
        return replay_file(argv[2])
    only = argv[2] if len(argv) > 2 else None
    modname = pid.lower()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        mod = importlib.import_module("vf.checks." + modname)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={pid}: the check could not be loaded")
        return 2
    _CHECK = mod
    jobs = list(mod.jobs(tier))
    if only:
        jobs = [j for j in jobs if only in (j[0] + json.dumps(j[1], default=str))]
    total = getattr(mod, "BUDGET", {"quick": 600, "thorough": 840})[tier]
    known = load_known(pid)
    per = getattr(mod, "JOB_LIMIT", {"quick": 300, "thorough": 700})[tier]
    args = [(i, n, p, per) for i, (n, p) in enumerate(jobs)]
    nproc = min(int(os.environ.get("VF_PROCS", "8")), max(1, len(args)))
    stats = sx.Stats()
    funcs, results, founds, errors, incomplete = set(), [], [], [], 0
    known_hit = {}
    reached_jobs = 0
    ctxm = mp.get_context("fork")
    pool = ctxm.Pool(nproc, maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", 40))
    try:
        it = pool.imap_unordered(_work, args, chunksize=1)
        for _ in range(len(args)):
            left = total - (time.time() - t0)
            try:
                r = it.next(timeout=max(1, left))
            except mp.TimeoutError:
                incomplete += len(args) - len(results)
                break
            results.append(r)
            funcs.update(r.get("funcs", []))
            if "stats" in r:
                s = r["stats"]
                for k in ("paths", "queries", "proves", "discharged", "aborted", "solver_s", "decisions", "reach"):
                    setattr(stats, k, getattr(stats, k) + s[k])
                if s["reach"] or s["proves"]:
                    reached_jobs += 1
                if not r.get("complete", True):
                    incomplete += 1
            if "error" in r:
                errors.append(r)
                if len(errors) >= 3:
                    break
            if r.get("timeout"):
                incomplete += 1
            if "found" in r:
                sig = str((r["found"]["info"] or {}).get("sig", "")) if isinstance(r["found"]["info"], dict) else ""
                k = next((k for k in known if k["sig"] == sig and sig), None)
                if k:
                    known_hit[k["sig"]] = k
                else:
                    founds.append(r)
                    if len(founds) >= getattr(mod, "MAX_FOUND", 1):
                        break
    finally:
        pool.terminate()
        pool.join()

    violations = 0
    outcome = 0
    lines = []
    rdir = os.path.join(boot.VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for j, r in enumerate(founds):
        path = os.path.join(rdir, f"{pid}-{tier}-{j}.json")
        json.dump(
            {"check": modname, "property": pid, "job": r["job"], "params": r["params"],
             "msg": r["found"]["msg"], "values": r["found"]["values"], "info": r["found"]["info"]},
            open(path, "w"), indent=1, default=str,
        )
        p = subprocess.run(
            [sys.executable, "-m", "vf.main", pid, "--replay", path],
            cwd=boot.VERIF, capture_output=True, text=True, timeout=300,
        )
        if p.returncode == 1 and "REPLAYED:" in p.stdout:
            violations += 1
            print("counterexample:", r["job"], json.dumps(r["params"], default=str)[:300])
            print(p.stdout.strip()[:3000])
            lines.append(f"VIOLATION property={pid} replay={path}")
        else:
            print(f"ERROR property={pid}: counterexample did not reproduce on the real code: {path}")
            print(r["found"]["msg"])
            print(p.stdout[-1500:], p.stderr[-1500:])
            outcome = 2
    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for e in errors[:3]:
        print("ERROR in job", e["job"], json.dumps(e["params"], default=str)[:300])
        print(e["error"])
    if violations:
        outcome = 1
    elif errors:
        outcome = 2
    elif incomplete and not founds:
        outcome = outcome or 3
    if not violations and outcome == 0:
        if stats.proves == 0:
            outcome = 2
            print("ERROR: vacuous: no assertion was reached")
    wall = time.time() - t0
    if os.environ.get("VF_SLOW"):
        for r in sorted(results, key=lambda r: -r["wall"])[:15]:
            print("SLOW %.1f" % r["wall"], r["job"], json.dumps(r["params"], default=str)[:200])
    samples = [
        {"job": r["job"], "params": r["params"], "paths": r["stats"]["paths"], "proves": r["stats"]["proves"]}
        for r in sorted(results, key=lambda r: r["i"])
        if "stats" in r
    ]
    step = max(1, len(samples) // 12)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", mod.__doc__ or ""),
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside_bounds": getattr(mod, "OUTSIDE", ""),
            "jobs": len(args),
            "jobs_finished": len(results),
            "jobs_reaching_assertions": reached_jobs,
            "symbolic_paths": stats.paths,
            "paths_outside_assumptions": stats.aborted,
            "symbolic_decisions": stats.decisions,
            "assertions": stats.proves,
            "assertions_discharged": stats.discharged,
            "reachability_twins_satisfied": stats.reach,
            "solver_queries": stats.queries,
            "solver_s": round(stats.solver_s, 3),
            "functions_encoded": sorted(funcs),
            "known_findings_reported": sorted(known_hit),
            "complete": incomplete == 0,
            "samples": samples[::step][:12],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(boot.VERIF, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    print(
        f"{pid} {tier}: jobs {len(results)}/{len(args)} paths {stats.paths} assertions {stats.discharged}/{stats.proves}"
        f" reach {stats.reach} queries {stats.queries} solver {stats.solver_s:.1f}s wall {wall:.1f}s"
        f" incomplete {incomplete} exit {outcome}"
    )
    for l in lines:
        print(l)
    sys.stdout.flush()
    return outcome
