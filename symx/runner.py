"""Runs the harnesses of one property in parallel, confirms counterexamples, writes evidence."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAIN = "/opt/venv/bin/python"
perf = time.perf_counter


class FunctionTrace:
    """Which functions of /repo were executed symbolically (one event per code object)."""

    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.seen = set()

    def start(self):
        mon = sys.monitoring
        self.tool = mon.COVERAGE_ID
        mon.use_tool_id(self.tool, "symx")
        mon.register_callback(self.tool, mon.events.PY_START, self._hit)
        mon.set_events(self.tool, mon.events.PY_START)

    def _hit(self, code, off):
        fn = code.co_filename
        if fn.startswith(self.root):
            self.seen.add(f"{fn[len(self.root):]}:{code.co_qualname}")
        return sys.monitoring.DISABLE

    def stop(self):
        sys.monitoring.set_events(self.tool, 0)
        sys.monitoring.free_tool_id(self.tool)


def confirm(prop, harness, cfg, model, msg, tag):
    """Replay a model with the plain interpreter.  Returns (reproduced, path, output)."""
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{harness}-{tag}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "harness": harness, "config": cfg, "message": msg, "model": model}, f, indent=1)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    py = PLAIN if os.path.exists(PLAIN) else sys.executable
    try:
        r = subprocess.run([py, "-B", os.path.join(HERE, "check.py"), "--replay", path], capture_output=True,
                           text=True, timeout=60, env=env, cwd=HERE)
    except subprocess.TimeoutExpired:
        return False, path, "replay timed out"
    if r.returncode == 1 and "verdict: fail" in r.stdout:
        return True, path, r.stdout
    os.unlink(path)
    return False, path, r.stdout + r.stderr


def run_job(job):
    from symx import base, engine, env, registry

    prop, name, idx, cfg, tier, budget, seed = job
    e = registry.find(prop, name)
    h = e.bind(cfg)
    t0 = perf()
    out = dict(harness=name, config=cfg, violations=[], modes=[], validated=0, samples=[], functions=[], found=[],
               notes=[], complete=False)
    ft = FunctionTrace(env.REPO)
    ft.start()
    try:
        for mode in (0, 1, 2):
            picks = []
            nsym = [0]

            def on_path(eng, ctx):
                n = nsym[0]
                nsym[0] += 1
                if n < 4 or (n & (n - 1)) == 0 or n % 97 == 0:
                    if len(picks) < 40:
                        m = eng.path_model(ctx)
                        if m is not None:
                            picks.append(m)

            eng = engine.Engine(mode=mode, budget_s=budget, seed=seed, max_steps=e.opts.get("max_steps", 6000),
                                path_s=e.opts.get("path_s", 5.0))
            try:
                fails = eng.explore(h, on_path)
            except BaseException:
                out["notes"].append(f"internal, mode {mode}: " + traceback.format_exc()[-1500:])
                if mode == 2:
                    raise
                continue
            out["found"] = sorted(set(out["found"]) | eng.found)
            spurious = None
            for i, f in enumerate(fails):
                ok, path, text = confirm(prop, name, cfg, f.model, f.msg, f"{idx}-m{mode}-{i}")
                if ok:
                    out["violations"].append(dict(msg=f.msg, replay=path, text=text))
                    break
                spurious = f"mode {mode}: '{f.msg}' not reproduced on the real code"
            # the real code, concretely, on the solver's own inputs for a selection of paths
            for m in picks:
                if out["violations"]:
                    break
                verdict, msgs, ctx = base.run_concrete(h, m, max_steps=e.opts.get("max_steps", 6000))
                if verdict == "pass":
                    out["validated"] += 1
                    if len(out["samples"]) < 2:
                        out["samples"].append(dict(inputs=m["vars"], functions=m["funcs"]))
                elif verdict == "fail":
                    ok, path, text = confirm(prop, name, cfg, m, "; ".join(msgs[:3]), f"{idx}-m{mode}-c")
                    if ok:
                        out["violations"].append(dict(msg="; ".join(msgs[:3]), replay=path, text=text))
                    else:
                        out["notes"].append("a concrete replay failed in-process only: " + "; ".join(msgs[:2]))
            out["modes"].append(dict(mode=mode, complete=eng.complete and not fails, notes=sorted(eng.notes),
                                     **eng.stats))
            if out["violations"]:
                break
            if spurious is None:
                out["complete"] = eng.complete and mode < 2
                break
            out["notes"].append(spurious)
    except BaseException:
        out["notes"].append("internal: " + traceback.format_exc()[-1500:])
    finally:
        ft.stop()
    out["functions"] = sorted(ft.seen)
    out["wall_s"] = perf() - t0
    return out


def _child(q, jobs_q, deadline):
    while True:
        try:
            job = jobs_q.get(timeout=5)
        except Exception:
            return
        if job is None:
            return
        q.put(("start", job[2]))
        q.put(("done", job[2], run_job(job)))


def check_property(prop, tier, only=None, jobs=0, verbose=False):
    t0 = perf()
    from symx import env, registry

    env.install()
    registry.load()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    entries = registry.HARNESSES.get(prop)
    if not entries:
        print(f"unknown property {prop}", file=sys.stderr)
        return 2
    budget = 45.0 if tier == "quick" else 600.0
    total = 300.0 if tier == "quick" else 3000.0
    todo = []
    for e in entries:
        if only and only not in e.name:
            continue
        for cfg in e.configs(tier):
            todo.append((e.opts.get("cost", 1), prop, e.name, cfg, e.opts.get("budget", budget)))
    todo.sort(key=lambda x: -x[0])
    joblist = [(p, n, i, cfg, tier, b, seed) for i, (_, p, n, cfg, b) in enumerate(todo)]
    nproc = min(jobs or os.cpu_count() or 4, 8, len(joblist))
    ctx = mp.get_context("fork")
    q, jobs_q = ctx.Queue(), ctx.Queue()
    for j in joblist:
        jobs_q.put(j)
    for _ in range(nproc):
        jobs_q.put(None)
    procs = [ctx.Process(target=_child, args=(q, jobs_q, t0 + total), daemon=True) for _ in range(nproc)]
    for p in procs:
        p.start()
    results = {}
    lost = 0
    violation = None
    last = perf()
    while len(results) < len(joblist):
        try:
            msg = q.get(timeout=1.0)
            last = perf()
        except Exception:
            if perf() - t0 > total:
                break
            if not any(p.is_alive() for p in procs) and perf() - last > 3:
                break
            continue
        if msg[0] == "done":
            _, idx, out = msg
            results[idx] = out
            if verbose:
                st = out["modes"][-1] if out["modes"] else {}
                print(f"  {out['harness']} {out['config']} paths={st.get('paths')} infeas={st.get('infeasible')} "
                      f"q={st.get('queries')} solver={st.get('solver_s', 0):.1f}s wall={out['wall_s']:.1f}s "
                      f"complete={out['complete']} modes={len(out['modes'])} validated={out['validated']} "
                      f"notes={out['notes']} {st.get('notes')}", flush=True)
            if out["violations"]:
                violation = out
                break
    for p in procs:
        if p.is_alive():
            p.kill()
    lost = len(joblist) - len(results)
    write_evidence(prop, tier, seed, entries, joblist, results, lost, t0, violation)
    if violation:
        v = violation["violations"][0]
        print(f"{prop}: {violation['harness']} {violation['config']}: {v['msg']}")
        print(v["text"])
        print(f"VIOLATION property={prop} replay={v['replay']}")
        return 1
    from symx.base import KNOWN

    for key in sorted({tuple(x) for r in results.values() for x in r["found"]}):
        if key[0] == prop:
            print(f"KNOWN-FINDING: property={prop} {KNOWN[key]}")
    n = sum(len(r["modes"]) and r["modes"][-1]["paths"] for r in results.values())
    inc = [r for r in results.values() if not r["complete"]]
    if n:
        print(f"{prop}: held on {n} symbolic paths of {len(results)} harness instances "
              f"({len(inc) + lost} not exhausted) in {perf() - t0:.1f}s")
    if not n:
        print(f"{prop}: no path could be explored, so nothing was decided", file=sys.stderr)
        return 2
    for r in inc:
        print(f"  not exhausted: {r['harness']} {r['config']} {r['notes']} "
              f"{r['modes'][-1]['notes'] if r['modes'] else ''}")
    return 0


def write_evidence(prop, tier, seed, entries, joblist, results, lost, t0, violation):
    tot = {}
    funcs, samples, insts, bounds = set(), [], [], {}
    validated = 0
    for e in entries:
        if e.bounds:
            bounds[e.name] = e.bounds
    for i in sorted(results):
        r = results[i]
        for m in r["modes"]:
            for k, v in m.items():
                if isinstance(v, (int, float)) and not isinstance(v, bool) and k not in ("mode", "max_depth"):
                    tot[k] = tot.get(k, 0) + v
        funcs.update(r["functions"])
        validated += r["validated"]
        if r["samples"] and len(samples) < 6:
            samples.append(dict(harness=r["harness"], config=r["config"], **r["samples"][0]))
        insts.append(dict(harness=r["harness"], config=r["config"],
                          paths=r["modes"][-1]["paths"] if r["modes"] else 0,
                          queries=r["modes"][-1]["queries"] if r["modes"] else 0,
                          mode=r["modes"][-1]["mode"] if r["modes"] else None,
                          exhausted=r["complete"], notes=r["notes"] + (r["modes"][-1]["notes"] if r["modes"] else []),
                          wall_s=round(r["wall_s"], 2)))
    cov = dict(
        states=tot.get("nodes", 0) + tot.get("paths", 0),
        transitions=tot.get("branches", 0),
        traces_validated_against_impl=validated,
        samples=samples,
        exhaustive=bool(results) and lost == 0 and all(r["complete"] for r in results.values()),
        symbolic_paths=tot.get("paths", 0),
        infeasible_paths=tot.get("infeasible", 0),
        solver_queries=tot.get("queries", 0),
        solver_sat=tot.get("sat", 0),
        solver_unsat=tot.get("unsat", 0),
        solver_unknown=tot.get("unknown", 0),
        solver_seconds=round(tot.get("solver_s", 0.0), 3),
        assertions_made=tot.get("assertions", 0),
        assertion_queries=tot.get("checks", 0),
        functions_encoded=sorted(funcs),
        bounds=bounds,
        harness_instances=insts,
        instances_not_finished=lost,
        explanation="states: decision nodes and leaves of the symbolic execution tree; transitions: branch "
                    "decisions taken on symbolic conditions; traces_validated_against_impl: paths whose solver "
                    "model was executed again on the real code with concrete values and no solver.",
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=[
                  "the event loop is a deterministic FIFO loop with virtual time (asyncio semantics); time is exact",
                  "values not further constrained are mathematical integers; user callbacks are uninterpreted functions",
                  "library dependencies (expression, reactivex, asyncio) are executed as installed",
              ],
              wall_s=round(perf() - t0, 3), violations=1 if violation else 0)
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
