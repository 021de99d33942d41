from __future__ import annotations

import argparse
import gc
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECK = None
HARNESSES = []
KNOWN = []
SLICE = 2.0
GLOBAL_DEADLINE = None


def load(prop, tier):
    global CHECK, HARNESSES, KNOWN
    warnings.simplefilter("ignore")
    import postbound  # noqa: F401
    repo = os.environ.get("VX_REPO", "/repo")
    assert os.path.realpath(postbound.__file__).startswith(os.path.realpath(repo) + "/"), postbound.__file__
    CHECK = importlib.import_module(f"checks.{prop.lower()}")
    HARNESSES = CHECK.harnesses(tier)
    if os.environ.get("VX_ALL"):  # development: list every violation
        for h in HARNESSES:
            h.stop_early = False
    KNOWN = [k for k in known_findings() if k["property"] == prop]


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k.get("status") == "open"]


def is_known(v):
    for k in KNOWN:
        if k["harness"] == v["harness"] and k["label"] == v["label"] and k["key"] == v["info"].get("key", v["info"].get("where", "")):
            return k
    return None


def run_slice(task):
    """Worker: explore a set of prefixes of one harness for a while."""
    from . import engine
    hi, frontier, max_paths, witness_left = task
    h = HARNESSES[hi]
    eng = engine.Engine(h, max_paths=max_paths, deadline=None, max_witness=witness_left,
                        **h.options)
    end = min(time.time() + SLICE, GLOBAL_DEADLINE)
    work = list(frontier)
    known = []
    while work:
        if time.time() > end:
            break
        prefix = work.pop()
        work.extend(eng.run_path(prefix))
        for v in list(eng.violations):
            k = is_known(v)
            if k is not None:
                eng.violations.remove(v)
                known.append((k["what"], v))
        if len(eng.violations) >= 2 and h.stop_early:
            work = []
            break
    return hi, work, eng.stats, eng.violations, eng.inconclusive[:5], known


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true", help="check that the toolchain is there")
    ap.add_argument("--only", help="run only harnesses whose name contains this")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.selftest:
        import postbound
        import z3
        print("postbound from", postbound.__file__, "z3", z3.get_version_string())
        return 0
    if a.replay:
        return do_replay(a.replay)
    return run_check(a.property.upper(), a.tier, a.only, a.jobs, a.budget, a.v)


def do_replay(path):
    from . import engine
    with open(path) as f:
        v = json.load(f)
    load(v["property"], v.get("tier", "quick"))
    h = next(x for x in HARNESSES if x.name == v["harness"])
    res = engine.replay(h, v["inputs"])
    print(json.dumps({"harness": h.name, "inputs": v["inputs"]}, indent=1))
    if res is None:
        print("replay: the property holds on this input")
        return 0
    print("replay: FAILS", res[0])
    for k, x in res[1].items():
        print(f"  {k}: {x}")
    return 1


def run_check(prop, tier, only, jobs, budget, verbose):
    global GLOBAL_DEADLINE, HARNESSES
    t0 = time.time()
    budget = budget or (400 if tier == "quick" else 840)
    GLOBAL_DEADLINE = t0 + budget
    load(prop, tier)
    from . import engine
    seed = int(os.environ.get("VERIF_SEED", "1"))
    idx = [i for i, h in enumerate(HARNESSES) if only is None or only in h.name]
    stats = {i: engine.Stats() for i in idx}
    violations, inconclusive, known = [], [], {}
    pending = {i: [[[]]] for i in idx}  # harness -> list of frontiers
    open_tasks = {i: 0 for i in idx}
    stopped = set()
    incomplete = []
    gc.collect()
    gc.freeze()
    pool = mp.get_context("fork").Pool(jobs) if jobs > 1 else None
    results = []

    def submit(i, frontier):
        h = HARNESSES[i]
        left = max(0, h.options.get("max_witness", 40) - stats[i].witnesses) if False else 12
        task = (i, frontier, 10 ** 9, left)
        if pool is None:
            results.append(run_slice(task))
        else:
            results.append(pool.apply_async(run_slice, (task,)))
        open_tasks[i] += 1

    for i in idx:
        submit(i, [[]])
    while results:
        if pool is None:
            done = [results.pop(0)]
        else:
            ready = [r for r in results if r.ready()]
            if not ready:
                time.sleep(0.01)
                continue
            results = [r for r in results if not r.ready() or r not in ready]
            done = [r.get() for r in ready]
        for hi, work, st, viol, inc, kn in done:
            open_tasks[hi] -= 1
            stats[hi].merge(st)
            violations += viol
            inconclusive += inc
            for what, v in kn:
                known.setdefault(what, v)
            if viol and HARNESSES[hi].stop_early:
                stopped.add(hi)
            if len(inconclusive) > 20:
                stopped.add(hi)
            if work and hi not in stopped:
                if time.time() > GLOBAL_DEADLINE:
                    incomplete.append(f"{HARNESSES[hi].name}: {len(work)} open prefixes at the time budget")
                    continue
                n = max(1, min(len(work), jobs - sum(open_tasks.values()) + 1))
                for k in range(n):
                    part = work[k::n]
                    if part:
                        submit(hi, part)
    if pool is not None:
        pool.terminate()
    vacuous = []
    total = engine.Stats()
    per = {}
    for i in idx:
        h = HARNESSES[i]
        total.merge(stats[i])
        per[h.name] = {"paths": stats[i].paths, "branches": stats[i].branches, "queries": stats[i].queries,
                       "assertions": stats[i].checks, "discharged": stats[i].discharged,
                       "infeasible_or_excluded": stats[i].aborted, "witnesses_replayed": stats[i].witnesses,
                       "solver_s": round(stats[i].solver_s, 2), "bounds": h.bounds, "reached": stats[i].reached,
                       "functions": h.functions}
        if i not in stopped and not incomplete:
            for lab in h.must_reach:
                if not stats[i].reached.get(lab):
                    vacuous.append(f"{h.name}: {lab} never reached")
            if stats[i].checks == 0:
                vacuous.append(f"{h.name}: no assertion was reached")
    wall = time.time() - t0
    level = getattr(CHECK, "LEVEL", "model_checking")
    cov = {"functions_encoded": sorted({f for i in idx for f in HARNESSES[i].functions}),
           "harnesses": per, "solver_queries": total.queries, "solver_s": round(total.solver_s, 2),
           "assertions_discharged": total.discharged, "assertions_evaluated": total.checks,
           "samples": total.samples, "exhaustive": not incomplete,
           "incomplete": incomplete, "inconclusive": inconclusive[:5], "vacuous": vacuous,
           "known_findings_seen": sorted(known)}
    if level == "model_checking":
        cov.update(states=total.paths, transitions=total.branches, traces_validated_against_impl=total.witnesses)
    elif level == "translation_validation":
        cov.update(programs=total.paths, disagreements_checked=total.queries)
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": list(getattr(CHECK, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
          "violations": len(violations)}
    if only is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop} [{tier}] paths={total.paths} branches={total.branches} queries={total.queries} "
          f"assertions={total.checks} discharged={total.discharged} witnesses={total.witnesses} "
          f"solver={total.solver_s:.1f}s wall={wall:.1f}s")
    if verbose:
        for n, p in per.items():
            print("  ", n, {k: v for k, v in p.items() if k not in ("functions", "bounds")})
    for what in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {what}")
    for x in incomplete:
        print(f"INCOMPLETE: {x}")
    if violations:
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        seen = set()
        for n, v in enumerate(violations):
            key = (v["harness"], v["label"], v["info"].get("key", ""))
            if key in seen:
                continue
            seen.add(key)
            p = os.path.join(HERE, "out", f"{prop}-{v['harness']}-{len(seen)}.json".replace("/", "_"))
            with open(p, "w") as f:
                json.dump(dict(v, property=prop, tier=tier), f, indent=1)
            print(f"VIOLATION property={prop} replay={p}")
            print(f"   harness={v['harness']} {v['label']} inputs={v['inputs']}")
            for k, x in v["info"].items():
                print(f"   {k}: {x}")
            if len(seen) >= int(os.environ.get("VX_ALL", 6)):
                break
        return 1
    if inconclusive or vacuous:
        for x in (inconclusive + vacuous)[:8]:
            print("INCONCLUSIVE:", x)
        return 2
    return 0
