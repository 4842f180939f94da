"""The parts of the costs that the blocks publish."""

import copy
import warnings

import pyomo.environ as po
from pyomo.repn import generate_standard_repn

from .. import combos, spec
from ..explore import Stats, finish
from ..gen import bus, snk, src
from .H01 import Bad, place, rnd
from .S01 import storage

RULE = (
    "systems with two flows or storages of every kind x every combination"
    " of the kinds of costs (covering arrays over absent, scalar, list,"
    " negative) x time axes; every published part of the costs (variable,"
    " fixed, investment, per period, start-up, shutdown, activity,"
    " inactivity, storage) has for every unit decision the value that the"
    " objective has when only the costs of that kind are given, the parts sum"
    " up to the published costs of the block, and those to the objective;"
    " after the solution the values of the parts add up to the objective"
)
ASSUMPTIONS = [
    "the objective of the system with one kind of costs is checked against"
    " the reference by the properties on costs (F03, N03, I01, M02, S02, S04)",
]

P3 = [{"start": "2020", "n": 1}, {"start": "2022", "n": 2},
      {"start": "2027", "n": 1}]
AXES = {
    "num": {"dt": [1.0, 2.0, 0.5]},
    "infer": {"dt": [1.0, 1.0, 1.0], "kind": "infer"},
    "mp": {"dt": [1.0, 2.0, 0.5, 1.0], "periods": P3},
    "mpr": {"dt": [1.0, 2.0, 0.5, 1.0], "periods": P3, "remaining": True},
    "tsa": {"dt": [1.0] * 4, "kind": "dt", "tsa": [
        {"timesteps_per_period": 2, "order": [0, 1, 1]}]},
}
# published part: (block, attribute, kinds of costs)
PARTS = [
    ("SimpleFlowBlock", "variable_costs", "var"),
    ("SimpleFlowBlock", "fixed_costs", "fix"),
    ("InvestmentFlowBlock", "investment_costs", "inv"),
    ("InvestmentFlowBlock", "fixed_costs", "ifix"),
    ("InvestNonConvexFlowBlock", "investment_costs", "ninv"),
    ("GenericStorageBlock", "storage_costs", "sto"),
    ("GenericStorageBlock", "fixed_costs", "sfix"),
    ("GenericInvestmentStorageBlock", "storage_costs", "isto"),
    ("GenericInvestmentStorageBlock", "investment_costs", "sinv"),
    ("GenericInvestmentStorageBlock", "fixed_costs", "sifix"),
] + [
    (b, q, p + q)
    for b, p in (("NonConvexFlowBlock", "n"), ("InvestNonConvexFlowBlock",
                                                "i"))
    for q in ("startup_costs", "shutdown_costs", "activity_costs",
              "inactivity_costs")
]
WHOLE = ("SimpleFlowBlock", "InvestmentFlowBlock", "NonConvexFlowBlock",
         "GenericStorageBlock", "GenericInvestmentStorageBlock")
PERIODIC = [
    ("InvestmentFlowBlock", "inv"), ("InvestNonConvexFlowBlock", "ninv"),
    ("GenericInvestmentStorageBlock", "sinv"),
]
ONOFF = ("startup_costs", "shutdown_costs", "activity_costs",
         "inactivity_costs")


# --- kinds of costs -------------------------------------------------------

def costs_of(cfg):
    """(kind, dictionary, key) of all costs that are given"""
    for d in cfg["nodes"]:
        for side in ("in", "out"):
            for f in d.get(side, {}).values():
                if "variable_costs" in f:
                    yield "var", f, "variable_costs"
                i, n = f.get("investment"), f.get("nonconvex")
                if "fixed_costs" in f:
                    yield "fix", f, "fixed_costs"
                if i is not None:
                    k = "inv" if n is None else "ninv"
                    for q in ("ep_costs", "offset"):
                        if q in i:
                            yield k, i, q
                    if "fixed_costs" in i:
                        yield "ifix", i, "fixed_costs"
                for q in ONOFF:
                    if q in (n or {}):
                        yield ("n" if i is None else "i") + q, n, q
        if d["k"] == "storage":
            i = d.get("investment")
            if "storage_costs" in d:
                yield "sto" if i is None else "isto", d, "storage_costs"
            if "fixed_costs" in d:
                yield "sfix", d, "fixed_costs"
            if i is not None:
                for q in ("ep_costs", "offset"):
                    if q in i:
                        yield "sinv", i, q
                if "fixed_costs" in i:
                    yield "sifix", i, "fixed_costs"


def only(cfg, kind, period=None):
    """the same system with one kind of costs (of investing in one period)"""
    c = copy.deepcopy(cfg)
    for k, d, q in costs_of(c):
        v = d[q]
        if k != kind:
            d[q] = [0] * len(v) if isinstance(v, list) else 0
        elif period is not None:
            n = len(c["time"]["periods"])
            v = v if isinstance(v, list) else [v] * n
            d[q] = [x if p == period else 0 for p, x in enumerate(v)]
    if period is not None:
        c["time"] = {k: v for k, v in c["time"].items() if k != "remaining"}
    return c


# --- systems --------------------------------------------------------------

def system(a, mp):
    def cut(v):
        """value or list per period (only one value without periods)"""
        return (v[:3] if mp else v[0]) if isinstance(v, list) else v

    def opt(**kw):
        return {k: v for k, v in kw.items() if v is not None}

    life = {"lifetime": a["life"]} if mp else {}
    T = a["T"]

    def lst(v):
        return v[:T] if isinstance(v, list) else v

    def twice(v, k):
        """other values for the second one of a kind"""
        if v is None or k == 0:
            return v
        return [2 * x + 1 for x in v][::-1] if isinstance(v, list) else 3 * v

    nodes = [bus("b"), bus("c")]
    for k in range(2 if a["two"] else 1):
        def tw(v):
            return twice(v, k)

        nodes.append(src("s%d" % k, "b", nominal_capacity=8, **opt(
            variable_costs=lst(tw(a["var"])),
            fixed_costs=tw(a["fix"]) if mp else None,
            **({"lifetime": 20, "age": 2} if mp else {}))))
        iv = opt(ep_costs=tw(cut(a["ep"])), maximum=5, **life)
        if mp:
            iv.update(opt(fixed_costs=tw(a["ifix"])))
        if a["off"] is not None:
            iv.update(nonconvex=True, offset=tw(cut(a["off"])))
        elif a["ifix"] is not None and mp:
            iv.update(existing=2, age=1)
        nodes.append(snk("i%d" % k, "b", investment=iv, **opt(
            variable_costs=lst(tw(a["ivar"])))))
        onoff = opt(**{q: tw(a[q]) for q in ONOFF})
        if onoff or a["flat"]:
            onoff = {q: lst(v) for q, v in onoff.items()}
            nodes.append(src("n%d" % k, "b", nominal_capacity=4, minimum=0.5,
                             nonconvex=dict(onoff, initial_status=k),
                             **opt(variable_costs=lst(tw(a["ivar"])))))
            if a["nep"] is not None:
                iv = opt(ep_costs=tw(cut(a["nep"])), maximum=5, **life)
                if a["noff"] is not None:
                    iv.update(nonconvex=True, offset=tw(cut(a["noff"])))
                nodes.append(src("x%d" % k, "c", minimum=0.5, investment=iv,
                                 nonconvex=dict(onoff)))
        nodes.append(storage("t%d" % k, "b", "c", nominal_capacity=6, **opt(
            storage_costs=lst(tw(a["sto"])),
            fixed_costs=tw(a["sfix"]) if mp else None)))
        if a["sep"] is not None:
            iv = opt(ep_costs=tw(cut(a["sep"])), maximum=5, **life)
            if mp:
                iv.update(opt(fixed_costs=tw(a["sifix"])))
            if a["soff"] is not None:
                iv.update(nonconvex=True, offset=tw(cut(a["soff"])))
            nodes.append(storage("u%d" % k, "c", "b", investment=iv, **opt(
                storage_costs=lst(tw(a["isto"])))))
    nodes += [snk("d", "c", nominal_capacity=1, fix=[0, 3, 1, 2][:T]),
              snk("w", "b"), snk("v", "c")]
    return nodes


OPTS = {
    "var": [None, 2, [1, 0, 3, 5], [-1, 2, -3, 4]],
    "fix": [None, 3, 5],
    "ep": [None, 7, [4, 9, 2], [0, 3, 0]],
    "off": [None, 11, [5, 0, 8]],
    "ifix": [None, 2, [1, 3, 2, 0, 4, 1, 5, 2, 3, 1]],
    "ivar": [None, 1, [0, 2, 0, 1]],
    "startup_costs": [None, 3, [1, 2, 0, 4]],
    "shutdown_costs": [None, 5, [2, 0, 3, 1]],
    "activity_costs": [None, 2, [1, -1, 2, 3]],
    "inactivity_costs": [None, 1, [0, 3, 1, 2]],
    "flat": [False, True],
    "nep": [None, 6, [3, 8, 1]],
    "noff": [None, 4, [9, 2, 7]],
    "sto": [None, 1, [2, 1, 0, 3]],
    "sfix": [None, 4, [1, 2, 6, 0, 3, 1, 2, 4, 5, 2]],
    "sep": [None, 5, [6, 1, 3]],
    "soff": [None, 10, [7, 3, 1]],
    "sifix": [None, 2, [3, 0, 1, 2, 0, 5, 4, 1, 2, 3]],
    "isto": [None, 2, [1, 0, 2, 1]],
    "two": [False, True],
    "dr": [None, 0, 0.1],
    "life": [6, 20, 3],
}


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for x, tm in AXES.items():
        mp = "periods" in tm
        opts = dict(OPTS)
        if not mp:
            for k in ("fix", "ifix", "sfix", "sifix", "dr", "life"):
                opts.pop(k)
        T = len(tm["dt"])
        As = combos.covering(opts, 3 if deep else 2)
        if mp and not deep:
            # further arrays
            for k in range(1, 5):
                As += combos.covering({
                    q: v[k % len(v):] + v[:k % len(v)]
                    for q, v in list(opts.items())[::1 - 2 * (k % 2)]}, 2)
        if deep or x in ("num", "mp"):
            As = combos.sparse(opts, 2 if deep else 1) + As
        cfgs = []
        for n, a in enumerate(As):
            a = {**{k: None for k in OPTS}, "life": 6, **a, "T": T}
            cfg = {"name": "%s-%d" % (x, n), "time": dict(tm),
                   "nodes": system(a, mp)}
            if mp and a["dr"] is not None:
                cfg["discount_rate"] = a["dr"]
            cfgs.append(cfg)
        for i in range(0, len(cfgs), 4):
            out.append({"name": "%s-%d" % (x, i), "cfgs": cfgs[i:i + 4],
                        "solve": deep or i // 4 % 2 == 0})
    return out


# --- judging --------------------------------------------------------------

def form(expr, names):
    """value for no decision, and for every unit decision"""
    if isinstance(expr, (int, float)):
        return {(): rnd(float(expr))} if rnd(float(expr)) else {}
    rep = generate_standard_repn(expr, compute_values=True)
    if rep.nonlinear_expr is not None or rep.quadratic_vars:
        raise Bad("costs are not linear")
    d = {(): float(rep.constant)}
    for c, v in zip(rep.linear_coefs, rep.linear_vars):
        k = place(v, names)
        d[k] = d.get(k, 0.0) + float(c)
    return {k: rnd(c) for k, c in d.items() if abs(c) > 1e-9}


def plus(*fs):
    d = {}
    for f in fs:
        for k, c in f.items():
            d[k] = d.get(k, 0.0) + c
    return {k: rnd(c) for k, c in d.items() if abs(c) > 1e-8}


def same(a, b, what):
    for k in sorted(set(a) | set(b), key=repr):
        x, y = a.get(k, 0.0), b.get(k, 0.0)
        if abs(x - y) > 1e-6 * max(1, abs(y)):
            raise Bad("%s: %g instead of %g for %s" % (
                what, x, y, "one unit of %s" % (k,) if k else "no decision"))


def objective(m, names):
    (o,) = m.component_data_objects(po.Objective, active=True)
    return form(o.expr, names)


def names_of(b):
    return {str(n): k for k, n in b.nodes.items()}


def judge(cfg, st, solve):
    b = spec.build(cfg)
    names = names_of(b)
    obj = objective(b.m, names)
    st.add("states")
    kinds = {k for k, _, _ in costs_of(cfg)}
    have, parts = {}, {}
    for blk, attr, kind in PARTS:
        bl = getattr(b.m, blk, None)
        if not hasattr(bl, attr):
            if kind in kinds:
                raise Bad("%s.%s does not exist" % (blk, attr))
            continue
        f = form(getattr(bl, attr), names)
        if kind in kinds:
            iso = spec.build(only(cfg, kind))
            want = objective(iso.m, names_of(iso))
        else:
            want = {}
        same(f, want, "%s.%s" % (blk, attr))
        st.add("transitions", len(set(f) | set(want)))
        st.add("leaves")
        st.add("accepted")
        have.setdefault(blk, []).append(f)
        parts[blk, attr] = getattr(bl, attr)
    missing = kinds - {k for _, _, k in PARTS}
    assert not missing, missing
    same(plus(*[f for fs in have.values() for f in fs]), obj,
         "sum of the parts")
    for blk in WHOLE:
        if blk in have:
            same(form(getattr(b.m, blk).costs, names), plus(*have[blk]),
                 blk + ".costs")
            st.add("leaves")
            st.add("accepted")
    if "periods" in cfg["time"]:
        for blk, kind in PERIODIC:
            if kind not in kinds:
                continue
            pc = getattr(b.m, blk).period_investment_costs
            N = len(cfg["time"]["periods"])
            if sorted(pc) != list(range(N)):
                raise Bad("%s.period_investment_costs has the periods %s" % (
                    blk, sorted(pc)))
            for p in range(N):
                iso = spec.build(only(cfg, kind, p))
                want = objective(iso.m, names_of(iso))
                same(form(pc[p], names), want,
                     "%s.period_investment_costs[%d]" % (blk, p))
                st.add("transitions", len(want))
                st.add("leaves")
                st.add("accepted")
    if solve:
        b.m.solve(solver="cbc", allow_nonoptimal=False)
        st.add("solver_calls")
        total = sum(po.value(e) for e in parts.values())
        o = po.value(b.m.objective)
        if abs(total - o) > 1e-5 * max(1, abs(o)):
            raise Bad("the parts of the solution add up to %g, the objective"
                      " is %g" % (total, o))
        st.add("validated")
    return sorted(obj.values())


def run(task):
    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0, solver_calls=0)
    viol, seen = [], set()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for cfg in task["cfgs"]:
            try:
                seen.add(str(judge(cfg, st, task["solve"]))[:300])
            except Bad as e:
                viol.append({"what": "%s: %s" % (cfg["name"], e)})
            except Exception as e:  # noqa
                viol.append({"what": "%s: %s: %s" % (
                    cfg["name"], type(e).__name__, str(e)[:200])})
    return finish(task, st, viol, [], seen)
