"""Exhaustive exploration of one configuration.

``cfg["runs"]`` lists finite spaces of trajectories.  A run is

  {"static":   [{"inv:i>o:p": v, "sinv:n:p": v, "soc:n": v}, ...],
   "alphabet": [[{"i>o": value, ...}, ...] for every interval]}

and stands for the full product static x alphabet[0] x ... x alphabet[T-1].
Every element of the product is executed on the reference automata (depth
first, sharing prefixes) and on the real model built by oemof.solph; verdict
and cost have to agree on every single one.
"""

import itertools
import json
import math

import numpy as np

from . import linsys, ref, spec

INF = math.inf


def okey(s):
    """'i>o' -> flow key; static keys -> observation keys"""
    if s.startswith("inv:"):
        _, e, p = s.split(":")
        i, o = e.split(">")
        return ("inv", i, o, int(p))
    if s.startswith("sinv:"):
        _, n, p = s.split(":")
        return ("sinv", n, int(p))
    if s.startswith("soc:"):
        return ("soc", s.split(":")[1], 0)
    i, o = s.split(">")
    return (i, o)


def expand(parts, state_map, t, u):
    """One step of every part. state_map: tuple of {state: (ok, any)}."""
    out = []
    ntrans = 0
    for part, states in zip(parts, state_map):
        new = {}
        for s, (ok, an) in states.items():
            for q, c, dc in part.step(s, t, u):
                ntrans += 1
                o2 = INF if dc else ok + c
                a2 = an + c
                if q in new:
                    a, b = new[q]
                    new[q] = (min(a, o2), min(b, a2))
                else:
                    new[q] = (o2, a2)
        if not new:
            return None, ntrans
        out.append(new)
    return tuple(out), ntrans


class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n


def reference(R, statics, alphabet, stats):
    """Yield (static index, choice tuple, ok cost, any cost) for every leaf
    the reference does not forbid."""
    T = R.ctx.T
    for si, static in enumerate(statics):
        st = {okey(k): v for k, v in static.items()}
        r = R.start(st)
        stats.add("states")
        if r is None:
            continue
        cost0, parts = r
        state0 = []
        dead = False
        for p in parts:
            i = p.init()
            if not i:
                dead = True
                break
            state0.append({s: (c, c) for s, c in i.items()})
        if dead:
            continue
        # level 0 may already be unclear for storages
        unclear0 = any(
            isinstance(p, ref.StoragePart)
            and p.level(ref.rnd(p.c0), 0) is None
            for p in parts
        )
        U = [
            [{okey(k): v for k, v in a.items()} for a in letters]
            for letters in alphabet
        ]
        # automata transitions only depend on (interval, letter, states)
        memo = {}
        stack = [(0, (), tuple(state0))]
        seen = set()
        while stack:
            t, choice, states = stack.pop()
            if t == T:
                ok, an = cost0, cost0
                for part, ss in zip(parts, states):
                    bo = ba = INF
                    for s, (o, a) in ss.items():
                        f = part.final(s)
                        if f is None:
                            continue
                        c, dc = f
                        if not dc:
                            bo = min(bo, o + c)
                        ba = min(ba, a + c)
                    ok += bo
                    an += ba
                if unclear0:
                    ok = INF
                if an < INF:
                    yield si, choice, ok, an
                continue
            for li in range(len(U[t]) - 1, -1, -1):
                new, n = expand(parts, states, t, U[t][li])
                stats.add("transitions", max(n, 1))
                if new is None:
                    continue
                h = (t + 1, tuple(frozenset(x) for x in new))
                stats.add("states")
                if h not in seen:
                    seen.add(h)
                    stats.add("automaton_states")
                stack.append((t + 1, choice + (li,), new))
        del memo


def product_rows(statics, alphabet, keys_static, keys_flow):
    """Matrix of the whole product, row order = (static, t0, t1, ...)."""
    blocks = []
    for letters in alphabet:
        blocks.append(
            np.array([[a[k] for k in keys_flow] for a in letters], dtype=float)
        )
    S = np.array(
        [[s[k] for k in keys_static] for s in statics], dtype=float
    ).reshape(len(statics), len(keys_static))
    sizes = [len(statics)] + [len(b) for b in blocks]
    idx = np.indices(sizes).reshape(len(sizes), -1)
    cols = [S[idx[0]]]
    for t, b in enumerate(blocks):
        cols.append(b[idx[t + 1]])
    return np.concatenate(cols, axis=1), sizes


def describe(static, traj):
    return {"static": static, "flows": traj}


def run_config(cfg, validate=1, maxviol=3, chunk=40000):
    stats = Stats(
        states=0, transitions=0, leaves=0, accepted=0, rejected=0,
        dontcare=0, validated=0, solver_calls=0,
    )
    viol, samples = [], []
    costs = set()
    try:
        b = spec.build(cfg)
    except Exception as e:  # the configuration is legal: it has to build
        import traceback

        where = traceback.extract_tb(e.__traceback__)[-1]
        viol.append(
            {
                "what": "building the model fails: %s: %s (%s:%d)"
                % (type(e).__name__, e, where.filename, where.lineno),
            }
        )
        return finish(cfg, stats, viol, samples, costs)
    try:
        system = linsys.System(b.m)
    except linsys.Unsupported as e:
        viol.append({"what": "the model is not (mixed-integer) linear: %s" % e})
        return finish(cfg, stats, viol, samples, costs)
    R = ref.Ref(cfg)
    plans = {}
    todo_validate = []
    for ri, run in enumerate(cfg["runs"]):
        statics = run.get("static") or [{}]
        alphabet = run["alphabet"]
        ks, kf = list(statics[0]), list(alphabet[0][0])
        obs = [okey(k) for k in ks]
        T = len(alphabet)
        for t in range(T):
            obs += [("f", *okey(k), t) for k in kf]
        sig = tuple(obs)
        if sig not in plans:
            try:
                variables = [spec.variable(b, k) for k in obs]
                plans[sig] = (variables, system.plan(variables))
            except KeyError as e:
                viol.append({"what": "variable missing in the model: %s" % e})
                return finish(cfg, stats, viol, samples, costs)
            except linsys.Unsupported as e:
                viol.append({"what": "unexpected model structure: %s" % e})
                return finish(cfg, stats, viol, samples, costs)
        variables, plan = plans[sig]
        X, sizes = product_rows(statics, alphabet, ks, kf)
        N = len(X)
        stats.add("leaves", N)
        exp_ok = np.full(N, INF)
        exp_any = np.full(N, INF)
        for si, choice, ok, an in reference(R, statics, alphabet, stats):
            n = si
            for t, li in enumerate(choice):
                n = n * sizes[t + 1] + li
            exp_ok[n], exp_any[n] = ok, an
        got = np.concatenate(
            [plan.evaluate(X[i : i + chunk]) for i in range(0, N, chunk)]
        )
        rej = np.isinf(exp_any)
        sure = ~rej & np.isclose(exp_ok, exp_any, rtol=0, atol=1e-9)
        half = ~rej & ~sure
        stats.add("accepted", int(sure.sum()))
        stats.add("rejected", int(rej.sum()))
        stats.add("dontcare", int(half.sum()))
        scale = 1e-5 * np.maximum(1.0, np.where(rej, 1, np.abs(exp_any)))
        with np.errstate(invalid="ignore"):
            bad_rej = rej & np.isfinite(got)
            bad_acc = sure & ~(np.abs(got - exp_any) <= scale)
            has_ok = half & np.isfinite(exp_ok)
            bad_half = has_ok & ~(
                (got <= exp_ok + scale) & (got >= exp_any - scale)
            )
        for v in np.unique(np.round(exp_any[sure], 6))[:500]:
            costs.add(float(v))

        def leaf(n):
            ii = np.unravel_index(n, sizes)
            return (
                statics[ii[0]],
                [alphabet[t][ii[t + 1]] for t in range(T)],
            )

        for n in np.nonzero(bad_rej | bad_acc | bad_half)[0]:
            if len(viol) >= maxviol:
                break
            st, traj = leaf(int(n))
            if bad_rej[n]:
                what = (
                    "the model allows a trajectory that must be impossible"
                    " (cost %.6g)" % got[n]
                )
            elif np.isinf(got[n]):
                what = (
                    "the model forbids a trajectory that must be possible"
                    " (expected cost %.6g)" % exp_any[n]
                )
            else:
                what = "cost %.9g, expected %.9g" % (got[n], exp_any[n])
            viol.append({"what": what, "run": ri, **describe(st, traj)})
        # quantities that follow from the trajectory (storage contents)
        acc = np.nonzero(sure & np.isfinite(got))[0]
        if len(acc) and (
            R.storages
            or any("investment" in f for f in R.flows.values())
        ):
            der = {}
            for n in acc[:: max(1, len(acc) // 400)]:
                st, traj = leaf(int(n))
                R.start({okey(k): v for k, v in st.items()})
                d = R.derived(
                    [{okey(k): v for k, v in a.items()} for a in traj]
                )
                for k, v in d.items():
                    der.setdefault(k, []).append((n, v))
            for k, lst in der.items():
                have = plan.values(spec.variable(b, k), X[[n for n, _ in lst]])
                if have is None:
                    viol.append(
                        {"what": "%s does not follow from the flows" % (k,)}
                    )
                    continue
                for (n, v), g in zip(lst, have):
                    if abs(g - v) > 1e-5 * max(1, abs(v)):
                        if len(viol) < maxviol:
                            st, traj = leaf(int(n))
                            viol.append(
                                {
                                    "what": "%s is %.6g, expected %.6g"
                                    % (k, g, v),
                                    "run": ri,
                                    **describe(st, traj),
                                }
                            )
                        break
                stats.add("derived", len(lst))
        if len(acc):
            best = acc[int(np.argmin(exp_any[acc]))]
            todo_validate.append((variables, X[best], exp_any[best], leaf(int(best))))
            if len(samples) < 2:
                st, traj = leaf(int(best))
                samples.append(
                    {**describe(st, traj), "cost": float(exp_any[best])}
                )
        rr = np.nonzero(rej & np.isinf(got))[0]
        if len(rr):
            n = rr[len(rr) // 2]
            todo_validate.append((variables, X[n], None, leaf(int(n))))
    for _, p in plans.values():
        stats["solver_calls"] += p.solver_calls
    # --- replay on the real system: Model.solve with the flows held fixed
    if validate and not viol:
        accs = [q for q in todo_validate if q[2] is not None][:validate]
        rejs = [q for q in todo_validate if q[2] is None][:validate]
        for variables, x, cost, lf in accs + rejs:
            msg = replay_on_impl(b, variables, x, cost)
            if msg:
                viol.append({"what": msg, **describe(*lf)})
            else:
                stats.add("validated")
    return finish(cfg, stats, viol, samples, costs)


def solver_fault(m, tol=1e-3):
    """cbc (2.10) sometimes reports an optimum of a model with special ordered
    sets that it knows to violate the constraints it was given"""
    import pyomo.environ as po

    if not any(True for _ in m.component_data_objects(po.SOSConstraint)):
        return False
    for c in m.component_data_objects(po.Constraint, active=True):
        v = po.value(c.body, exception=False)
        if v is None:
            continue
        if c.lower is not None and v < po.value(c.lower) - tol:
            return True
        if c.upper is not None and v > po.value(c.upper) + tol:
            return True
    return False


def replay_on_impl(b, variables, x, cost):
    """Fix the observed variables through their bounds and call the real
    Model.solve()."""
    import logging
    import warnings

    import pyomo.environ as po

    saved = [(v, v.lb, v.ub, v.fixed) for v in variables]
    try:
        for v, val in zip(variables, x):
            if v.fixed:
                if abs(po.value(v) - val) > 1e-6:
                    if cost is None:
                        return None
                    return "fixed variable %s != %g" % (v.name, val)
                continue
            lo = -INF if v.lb is None else v.lb
            hi = INF if v.ub is None else v.ub
            if val < lo - 1e-6 or val > hi + 1e-6:
                if cost is None:
                    return None
                return "value %g outside the bounds of %s" % (val, v.name)
            val = min(max(val, lo), hi)
            if v.is_integer() or v.is_binary():
                if abs(val - round(val)) > 1e-6:
                    return None if cost is None else "%s not integer" % v.name
            v.setlb(float(val))
            v.setub(float(val))
            # (a variable without any influence never reaches the solver)
            v.set_value(float(val), skip_validation=True)
        level = logging.root.manager.disable
        logging.disable(logging.CRITICAL)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                b.m.solve(solver="cbc", solve_kwargs={"tee": False})
            solved = True
        except (RuntimeError, ValueError) as e:
            solved, err = False, e
        finally:
            logging.disable(level)
        if cost is None:
            if solved and not solver_fault(b.m):
                return "Model.solve() accepts a trajectory that is forbidden"
            return None
        if not solved:
            return (
                "Model.solve() fails on a trajectory that is allowed (%s: %s)"
                % (type(err).__name__, str(err)[:300])
            )
        got = po.value(b.m.objective)
        if abs(got - cost) > 1e-4 * max(1, abs(cost)):
            return "Model.solve(): objective %.9g, expected %.9g" % (got, cost)
        return None
    finally:
        for v, lo, hi, fx in saved:
            if not fx:
                v.setlb(lo)
                v.setub(hi)


def finish(cfg, stats, viol, samples, costs):
    for v in viol:
        v["config"] = cfg.get("name", "")
    return {
        "name": cfg.get("name", ""),
        "stats": dict(stats),
        "violations": viol,
        "samples": samples,
        "outcomes": len(costs),
    }


# -------------------------------------------------- helpers for generators
def letters(grid, T, base=None):
    """grid: {"i>o": values | list of value lists per t} -> alphabet with the
    product of all flows in every interval."""
    out = []
    keys = list(grid)
    for t in range(T):
        vs = []
        for k in keys:
            g = grid[k]
            if g and isinstance(g[0], list):
                g = g[t]
            vs.append(g)
        out.append([dict(zip(keys, c)) for c in itertools.product(*vs)])
    return out


def cells(grids, T, base, static=None, statbase=None):
    """One run per cell: the flows of one grid vary, the others stay at base.

    grids: list of {"i>o": values}; base: {"i>o": value or list over t}."""
    runs = []
    for g in grids:
        alpha = letters(g, T)
        full = []
        for t in range(T):
            rest = {
                k: (v[t] if isinstance(v, list) else v)
                for k, v in base.items()
                if k not in g
            }
            full.append([{**rest, **a} for a in alpha[t]])
        r = {"alphabet": full}
        if static:
            r["static"] = static
        runs.append(r)
    return runs


def statics(grid):
    keys = list(grid)
    return [dict(zip(keys, c)) for c in itertools.product(*grid.values())]


def dumps(x):
    return json.dumps(x, sort_keys=True, default=float)
