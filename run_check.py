#!/opt/venv/bin/python
"""run_check.py PROPERTY [--tier quick|thorough]

Decides one property: explores every task of checks/<property>.py symbolically (8
workers), replays each counterexample on the unmodified library in a separate
process, and writes evidence/<PROPERTY>.json.
exit 0: held on everything explored; 1: VIOLATION printed; 2/3: check error.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import subprocess
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/opt/vp/mpl")
warnings.simplefilter("ignore")

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class Replayer:
    def __init__(self):
        self.p = None

    def start(self):
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([PY, os.path.join(ROOT, "symx", "replay_server.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=e)

    def ask(self, req):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {"error": "replay process died", "viols": [], "obs": [], "known": [], "skip": False}
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait()


REPLAY = Replayer()
FUNCS = set()


def _monitor():
    """Records which library functions the symbolic execution entered."""
    from symx import env
    m = sys.monitoring
    try:
        m.use_tool_id(m.PROFILER_ID, "symx")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(env.LIB):
            f = os.path.basename(code.co_filename)
            if not code.co_qualname.startswith("<"):
                FUNCS.add(f"{f}:{code.co_qualname}")
        return m.DISABLE
    m.register_callback(m.PROFILER_ID, m.events.PY_START, start)
    m.set_events(m.PROFILER_ID, m.events.PY_START)


JOBS = []


def run_task(k):
    pid, i, task, listed, deadline = JOBS[k]
    from symx import harness
    mod = sys.modules["checks." + pid]
    fn = mod.HARNESSES[task["h"]]
    cfg = task.get("cfg", {})
    req = {"check": pid, "harness": task["h"], "cfg": cfg, "listed": listed}
    if "replay_s" in task:
        req["timeout"] = task["replay_s"]
    budget = min(task.get("budget", 150), max(1, deadline - time.time()))

    def on_viol(v):
        label, inputs, detail = v
        if inputs is None:
            return "no rational model"
        r = REPLAY.ask(dict(req, inputs=inputs))
        if r.get("error"):
            return r["error"]
        if r.get("timeout"):
            return "replay timeout"
        if r["skip"]:
            return "replay left the assumptions"
        if not r["viols"]:
            return "holds on the real code"
        v_detail[(label, json.dumps(inputs, sort_keys=True))] = r["viols"]
        return None

    v_detail = {}
    devnull = open(os.devnull, "w")
    so, sys.stdout = sys.stdout, devnull
    if os.environ.get("SYMX_ONE"):
        sys.stdout = so
    try:
        R = harness.explore(fn, cfg, listed, budget_s=budget, samples=task.get("samples", 6),
                            hash_consts=task.get("hash_consts", ()),
                            query_ms=task.get("query_ms", 6000),
                            max_paths=task.get("max_paths", 200000), on_viol=on_viol,
                            stop_after=1)
    except BaseException as e:  # noqa: BLE001
        sys.stdout = so
        return {"i": i, "crash": "".join(traceback.format_exception(e))[-3000:]}
    sys.stdout = so
    # replay the sampled paths and compare what the code did with what the encoding says
    validated = 0
    mism = []
    viols = [(a, b, c, v_detail.get((a, json.dumps(b, sort_keys=True)))) for a, b, c in R.viols]
    known = []
    for kf, label, inp in R.known:
        if inp is None:
            continue
        r = REPLAY.ask(dict(req, inputs=inp))
        if any(k[0] == kf for k in r["known"]):
            known.append((kf, label, inp))
    for inp, ob in R.samples:
        r = REPLAY.ask(dict(req, inputs=inp))
        if r.get("error") or r.get("timeout") or r["skip"]:
            mism.append((inp, "replay: " + str(r.get("error") or ("timeout" if r.get("timeout") else "skipped"))))
            continue
        if r["viols"]:
            viols.append((r["viols"][0][0], inp, "found while validating a path", r["viols"]))
            continue
        a, b = json.loads(json.dumps(ob)), r["obs"]
        if not _same(a, b):
            mism.append((inp, f"encoding {a} != real {b}"[:600]))
        else:
            validated += 1
    # inconclusive paths are still run concretely on one input each
    for reason, inp in R.incomplete[:60]:
        if inp:
            r = REPLAY.ask(dict(req, inputs=inp))
            if r["viols"]:
                viols.append((r["viols"][0][0], inp, "found on an inconclusive path: " + reason, r["viols"]))
                break
    return {"i": i, "paths": R.paths, "aborted": R.aborted, "incomplete": R.incomplete[:20],
            "n_incomplete": len(R.incomplete), "pinned": R.pinned, "exhausted": R.exhausted,
            "viols": viols, "known": known, "samples": R.samples[:2], "covers": R.covers,
            "labels": sorted(R.labels), "stats": R.stats.as_dict(), "wall": R.wall,
            "validated": validated, "mism": mism, "funcs": sorted(FUNCS)}


def _worker(conn):
    _monitor()
    while True:
        k = conn.recv()
        if k is None:
            break
        conn.send(run_task(k))
    REPLAY.stop()
    conn.close()


GRACE = 45      # seconds a task may exceed its budget (replays, a solver that ignores its limit) before it is ended


def pool(n, total, deadline):
    """Runs run_task(0..total-1) on n forked workers; yields results as they come. A task far over its budget is ended
    (a solver call can ignore its time limit) and counted as inconclusive."""
    ctx = mp.get_context("fork")
    todo = list(range(total))[::-1]
    live = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b,))
        p.start()
        b.close()
        return p, a

    def give(p, c):
        if not todo:
            c.send(None)
            live.pop(c, None)
            return
        k = todo.pop()
        t = time.time()
        live[c] = (p, k, min(t + JOBS[k][2].get("budget", 150), max(deadline, t + 1)) + GRACE)
        c.send(k)

    def lost(k, why):
        return {"i": JOBS[k][1], "paths": 0, "aborted": 0, "incomplete": [(why, None)], "n_incomplete": 1, "pinned": 0, "exhausted": False,
                "viols": [], "known": [], "samples": [], "covers": {}, "labels": [], "stats": {}, "wall": 0.0, "validated": 0, "mism": [], "funcs": []}

    try:
        for _ in range(n):
            give(*spawn())
        while live:
            ready = mp.connection.wait(list(live), timeout=1.0)
            for c in ready:
                p, k, _ = live[c]
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    live.pop(c)
                    p.join()
                    yield lost(k, f"worker ended (exit code {p.exitcode})")
                    if todo:
                        give(*spawn())
                    continue
                give(p, c)
                yield r
            now = time.time()
            for c in [c for c in live if now > live[c][2]]:
                p, k, _ = live.pop(c)
                _end(p)
                yield lost(k, "ended: the solver ignored its time limit")
                if todo:
                    give(*spawn())
    finally:
        for c in list(live):
            _end(live[c][0])


def _end(p):
    for q in subprocess.run(["pgrep", "-P", str(p.pid)], capture_output=True, text=True).stdout.split():
        try:
            os.kill(int(q), 9)
        except OSError:
            pass
    p.kill()
    p.join()


def _same(a, b):
    if a == "?" or b == "?":
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a == b


def load_known(pid):
    """KNOWN_FINDINGS: lines 'finding: property=<id> id=<KF> <text>' / 'fixed: ...'."""
    out = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and f"property={pid} " in line + " ":
                kf = [w for w in line.split() if w.startswith("id=")][0][3:]
                out[kf] = line.split(f"id={kf}", 1)[1].strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="import everything once")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.pid
    if a.selftest:
        from symx import env
        env.setup_symbolic()
        import z3
        print("z3", z3.get_version_string(), "library at", env.LIB)
        sys.exit(0)
    from symx import env
    env.setup_symbolic()
    try:
        mod = importlib.import_module("checks." + pid)
        from symx import engine
        engine.EXACT_FLOATS = getattr(mod, "EXACT_FLOATS", False)
    except Exception:
        # the library (or what the check needs of it) does not import
        traceback.print_exc()
        sys.exit(2)
    known_list = load_known(pid)
    listed = sorted(known_list)
    tasks = mod.tasks(a.tier)
    if a.only:
        tasks = [t for t in tasks if a.only in t["h"] + json.dumps(t.get("cfg", {}))]
    if not a.only and a.tier != "quick":
        for t in tasks:
            t["samples"] = 12
    wall = 420 if a.tier == "quick" else 3000
    deadline = t0 + wall
    import z3
    z3.set_param("smt.random_seed", int(os.environ.get("VERIF_SEED", "1")))
    z3.set_param("memory_max_size", 3500)
    jobs = [(pid, i, t, listed, deadline) for i, t in enumerate(tasks)]
    jobs.sort(key=lambda j: -j[2].get("weight", 1))
    JOBS[:] = jobs
    results = []
    viol = None
    if a.jobs == 1:
        os.environ["SYMX_ONE"] = "1"
        _monitor()
        for k, j in enumerate(jobs):
            r = run_task(k)
            results.append(r)
            if r.get("viols"):
                viol = (j[1], r["viols"][0])
                break
    else:
        for r in pool(min(a.jobs, len(jobs)), len(jobs), deadline):
            results.append(r)
            if r.get("viols") and viol is None:
                viol = (r["i"], r["viols"][0])
                break
    subprocess_cleanup()
    crash = [r for r in results if "crash" in r]
    ok = [r for r in results if "crash" not in r]
    if a.v:
        for r in sorted(ok, key=lambda r: r["i"]):
            t = tasks[r["i"]]
            print(f"  {t['h']} {json.dumps(t.get('cfg', {}))[:110]}: paths={r['paths']} q={r['stats'].get('queries', 0)}"
                  f" wall={r['wall']:.1f} exh={r['exhausted']} pin={r['pinned']} inc={r['n_incomplete']}"
                  f" val={r['validated']} mism={len(r['mism'])} viol={len(r['viols'])} known={len(r['known'])}")
            for x in r["incomplete"][:2]:
                print("      inc:", str(x)[:400])
            for x in r["mism"][:1]:
                print("      mism:", str(x)[:600])
            for x in r["viols"][:2]:
                print("      viol:", str(x)[:700])
    tot = {k: sum(r["stats"].get(k, 0) for r in ok) for k in {k for r in ok for k in r["stats"]}}
    funcs = sorted(set().union(*[set(r["funcs"]) for r in ok])) if ok else []
    covers = {}
    for r in ok:
        h = tasks[r["i"]]["h"]
        for k, v in r["covers"].items():
            covers[f"{h}:{k}"] = covers.get(f"{h}:{k}", False) or v
    unreached = sorted(k for k, v in covers.items() if not v)
    labels = sorted({f"{tasks[r['i']]['h']}:{l}" for r in ok for l in r["labels"]})
    n_inc = sum(r["n_incomplete"] for r in ok)
    n_mism = sum(len(r["mism"]) for r in ok)
    unex = [f"{tasks[r['i']]['h']} {json.dumps(tasks[r['i']].get('cfg', {}))}" for r in ok if not r["exhausted"]]
    samples = []
    for r in ok:
        for inp, ob in r["samples"][:1]:
            samples.append({"harness": tasks[r["i"]]["h"], "cfg": tasks[r["i"]].get("cfg", {}),
                            "inputs": inp, "observed": ob})
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] for r in ok),
            "transitions": tot.get("decisions", 0) + tot.get("queries", 0),
            "traces_validated_against_impl": sum(r["validated"] for r in ok),
            "samples": samples[:6] or [{"note": "no completed path"}],
            "paths_completed": sum(r["paths"] for r in ok),
            "paths_cut_by_assumptions": sum(r["aborted"] for r in ok),
            "paths_inconclusive": n_inc,
            "inconclusive_reasons": sorted({x[0][:200] for r in ok for x in r["incomplete"]})[:20],
            "paths_with_a_pinned_value": sum(r["pinned"] for r in ok),
            "encoding_mismatches": n_mism,
            "tasks": len(tasks), "tasks_explored_exhaustively": sum(r["exhausted"] for r in ok),
            "tasks_not_exhausted": unex[:20],
            "assertions_discharged_for_all_values": tot.get("proved", 0),
            "symbolic_decisions": tot.get("decisions", 0),
            "solver_queries": tot.get("queries", 0),
            "solver_time_s": round(tot.get("solver_time", 0), 2),
            "cvc5_fallback_queries": tot.get("cvc5", 0),
            "assertions_reached": labels,
            "reachability_witnesses": {k: v for k, v in sorted(covers.items())},
            "functions_encoded": funcs,
            "bounds": getattr(mod, "BOUNDS", ""),
            "exhaustive": bool(ok) and not unex and n_inc == 0 and not crash,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} [{a.tier}] tasks={len(tasks)} paths={ev['coverage']['states']} "
          f"queries={tot.get('queries', 0)} solver={tot.get('solver_time', 0):.1f}s "
          f"proved={tot.get('proved', 0)} validated={ev['coverage']['traces_validated_against_impl']} "
          f"inconclusive={n_inc} pinned={ev['coverage']['paths_with_a_pinned_value']} "
          f"mismatch={n_mism} wall={ev['wall_s']}s")
    if viol:
        i, (label, inputs, detail, rep) = viol
        t = tasks[i]
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}.json")
        with open(path, "w") as f:
            json.dump({"check": pid, "harness": t["h"], "cfg": t.get("cfg", {}), "inputs": inputs,
                       "listed": listed, "label": label, "detail": detail, "replayed": rep}, f, indent=1)
        print(f"  failed: {t['h']} {json.dumps(t.get('cfg', {}))}: {label} {detail}")
        print(f"  inputs: {json.dumps(inputs)}")
        print(f"  on the real code: {rep}")
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    seen = set()
    for r in ok:
        for kf, label, inp in r["known"]:
            if kf not in seen:
                seen.add(kf)
                print(f"KNOWN-FINDING: property={pid} {known_list[kf]} [{kf}]")
    if unreached:
        print(f"  warning: no path reaches {unreached}")
    if n_inc or unex or n_mism:
        print(f"  warning: inconclusive={n_inc} not exhausted={unex[:4]} mismatches={n_mism}")
    if crash:
        print(crash[0]["crash"])
        sys.exit(3)
    barren = [r for r in ok if r["paths"] == 0 and r["n_incomplete"] and not r["known"]]
    if barren and len(barren) == len(ok):
        print("  no path was conclusive")
        sys.exit(2)
    sys.exit(0)


def subprocess_cleanup():
    REPLAY.stop()


COMMON = [
    "z3 (and cvc5 as fallback) answer correctly",
    "cdd, ConvexHull and sympy root finding are replaced by stand-ins that follow their documented "
    "contract on symbolic rationals; sampled paths are replayed on the real libraries and compared",
    "numbers are exact rationals (the library computes with Fraction); plotting is stubbed out",
]

if __name__ == "__main__":
    main()
