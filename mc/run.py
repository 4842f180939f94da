"""Command line of all checks:  python -m mc.run <PROPERTY> [--tier quick]

exit 0: the property held on everything explored
exit 1: 'VIOLATION property=<id> replay=<path>' for each violation found
"""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")


def load(prop):
    return importlib.import_module("mc.props.%s" % prop)


_MOD = None


def _init(prop):
    global _MOD
    import warnings
    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    _MOD = load(prop)


def _work(task):
    t0 = time.time()
    try:
        r = _MOD.run(task)
    except BaseException as e:  # (solph's LoggingError is one)
        r = {
            "name": task.get("name", ""),
            "stats": {},
            "violations": [
                {
                    "what": "unexpected %s: %s" % (type(e).__name__, e),
                    "config": task.get("name", ""),
                    "trace": traceback.format_exc()[-3000:],
                }
            ],
            "samples": [],
            "outcomes": 0,
        }
    r["wall"] = time.time() - t0
    r["task"] = task
    return r


def findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


COSTS = {
    "variable_costs", "startup_costs", "shutdown_costs", "activity_costs",
    "inactivity_costs", "fixed_costs", "storage_costs", "ep_costs", "offset",
}


def free_first(tasks):
    """Variants: all costs given as lists start with zero"""

    def zeroed(x):
        if isinstance(x, dict):
            return {
                k: [0, *v[1:]]
                if k in COSTS and isinstance(v, list) and len(v) > 1
                else zeroed(v)
                for k, v in x.items()
            }
        if isinstance(x, list):
            return [zeroed(v) for v in x]
        return x

    out = []
    for t in tasks:
        if zlib.crc32(t["name"].encode()) % 5 == 0:
            nodes = zeroed(t["nodes"])
            if nodes != t["nodes"]:
                out.append({**t, "name": t["name"] + "-free", "nodes": nodes})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--only", help="substring of configuration names")
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.property
    _init(prop)
    if a.replay:
        with open(a.replay) as f:
            data = json.load(f)
        r = _work(data["task"])
        for v in r["violations"]:
            print(json.dumps(v, default=str, indent=1))
        print("reproduced" if r["violations"] else "not reproduced")
        return 1 if r["violations"] else 0
    tasks = list(_MOD.tasks(a.tier))
    if _MOD.run is importlib.import_module("mc.explore").run_config:
        tasks += free_first(tasks)
    names = [t["name"] for t in tasks]
    assert len(set(names)) == len(names), [
        n for n in names if names.count(n) > 1
    ]
    if a.only:
        tasks = [t for t in tasks if a.only in t["name"]]
    results = []
    if a.jobs > 1 and len(tasks) > 1:
        ctx = mp.get_context("fork")
        with ctx.Pool(a.jobs) as pool:
            for r in pool.imap_unordered(_work, tasks, chunksize=1):
                results.append(r)
    else:
        results = [_work(t) for t in tasks]
    order = {n: i for i, n in enumerate(names)}
    results.sort(key=lambda r: order[r["task"]["name"]])
    known = [k for k in findings() if k["property"] == prop]
    tot, nviol, samples = {}, 0, []
    seen_known = []
    lines = []
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        if len(samples) < 3:
            samples += [
                {"config": r["name"], **s} for s in r["samples"][:1]
            ]
        for v in r["violations"]:
            k = next(
                (
                    k
                    for k in known
                    if k["config"] == r["task"]["name"]
                    and k["match"] in v["what"]
                ),
                None,
            )
            if k is not None:
                if k["id"] not in seen_known:
                    seen_known.append(k["id"])
                    lines.append(
                        "KNOWN-FINDING: property=%s %s" % (prop, k["what"])
                    )
                continue
            nviol += 1
            if nviol > 20:
                continue
            path = os.path.join(rdir, "%s-%02d.json" % (prop, nviol))
            task = dict(r["task"])
            if "run" in v and "runs" in task and "flows" in v:
                # the single failing trajectory
                task["runs"] = [
                    {
                        "static": [v["static"]],
                        "alphabet": [[u] for u in v["flows"]],
                    }
                ]
            with open(path, "w") as f:
                json.dump(
                    {"property": prop, "violation": v, "task": task},
                    f, indent=1, default=str,
                )
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            lines.append("  [%s] %s" % (r["name"], v["what"]))
            if a.verbose:
                lines.append("  " + json.dumps(v, default=str))
    if a.verbose:
        for r in results:
            print(
                "%-40s %6.2fs %s out=%d"
                % (r["name"], r["wall"], r["stats"], r["outcomes"])
            )
    for ln in lines:
        print(ln)
    wall = time.time() - t0
    cov = {
        "states": tot.get("states", 0),
        "transitions": tot.get("transitions", 0),
        "traces_validated_against_impl": tot.get("validated", 0),
        "exhaustive": True,
        "configurations": len(tasks),
        "trajectories": tot.get("leaves", 0),
        "accepted": tot.get("accepted", 0),
        "rejected": tot.get("rejected", 0),
        "not_judged": tot.get("dontcare", 0),
        "distinct_outcomes": sum(r["outcomes"] for r in results),
        "solver_completions": tot.get("solver_calls", 0),
        "rule": getattr(_MOD, "RULE", ""),
        "samples": samples,
    }
    for k, v in tot.items():
        cov.setdefault("n_" + k, v)
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": getattr(_MOD, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": nviol,
    }
    if not a.only:
        with open(os.path.join(EVID, "%s.json" % prop), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(
        "%s %s: %d configurations, %d trajectories (%d accepted, %d rejected,"
        " %d not judged), states=%d transitions=%d validated=%d violations=%d"
        " wall=%.1fs"
        % (
            prop, a.tier, len(tasks), tot.get("leaves", 0),
            tot.get("accepted", 0), tot.get("rejected", 0),
            tot.get("dontcare", 0), tot.get("states", 0),
            tot.get("transitions", 0), tot.get("validated", 0), nviol, wall,
        )
    )
    return 1 if nviol else 0


if __name__ == "__main__":
    sys.exit(main())
