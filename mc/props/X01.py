"""Models are only reported as solved when they were."""

import copy
import itertools
import warnings

import pyomo.environ as po
from oemof import solph
from pyomo.common.collections import Bunch
from pyomo.core.expr.numvalue import value
from pyomo.core.staleflag import StaleFlagManager
from pyomo.opt import SolverResults, SolverStatus, TerminationCondition

from .. import linsys, spec
from ..explore import Stats, finish
from ..gen import bus, snk, src
from .S01 import storage

RULE = (
    "(a) every answer a solver can give (status x termination condition x"
    " values loaded completely, partly or not at all, or an exception) and"
    " every history of such answers up to the stated depth, injected by a"
    " stand-in for the solver; (b) every history of changes and solves of two"
    " models of one energy system with the installed solvers, compared with"
    " fresh models and the optimum found by another solver"
)
ASSUMPTIONS = [
    "status ok with termination condition globallyOptimal or locallyOptimal"
    " is not judged",
    "results explicitly extracted after a solve that was not successful are"
    " not judged",
]
TOL = 1e-6


class Count(Stats):
    def __missing__(self, k):
        return 0


class Bad(Exception):
    pass


class Crash(Exception):
    """raised by the stand-in"""


class StandIn:
    """Answers as it was told and notes what it was given."""

    script = []
    seen = []

    def __init__(self, **kwds):
        self.kwds = kwds
        self.options = Bunch()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def available(self, exception_flag=True):
        return True

    def set_options(self, *a):
        pass

    def solve(self, model, **kw):
        options = dict(self.options)
        options.update(kw.pop("options", None) or {})
        a = StandIn.script.pop(0)
        StandIn.seen.append((model, dict(self.kwds), options, dict(kw)))
        if a["load"] == "raise":
            raise Crash("the solver failed")
        load(model, a)
        r = SolverResults()
        r.solver.status = a["status"]
        r.solver.termination_condition = a["tc"]
        r.problem.lower_bound = a["val"]
        r.problem.upper_bound = a["val"] + 1
        return r


class Broken(StandIn):
    def solve(self, model, **kw):
        raise OSError("solver not found")


def load(model, a):
    """values a[val], a[val] + 0.01, ...; 'part': without the first flow"""
    if a["load"] == "none":
        return {}
    StaleFlagManager.mark_all_as_stale()
    got = {}
    skip = {id(v) for v in list(model.flow.values())[:2]}
    if a["load"] != "part":
        skip = ()
    for n, v in enumerate(model.component_data_objects(po.Var)):
        if id(v) in skip or v.fixed:
            continue
        x = a["val"] + 0.01 * n
        v.set_value(x, skip_validation=True)
        got[id(v)] = x
    return got


def register():
    f = po.SolverFactory
    f.register("verif_stand_in", doc="answers as told")(StandIn)
    f.register("verif_broken", doc="always fails")(Broken)


SYS = {
    "flows": [bus("b", balanced=True), bus("x", balanced=False),
              src("s", "b", **dict(nominal_capacity=5, variable_costs=2)),
              snk("d", "b", **dict(nominal_capacity=1, fix=[1, 2])),
              src("e", "x", **dict(nominal_capacity=4, minimum=0.5))],
    "storage": [bus("b", balanced=True),
                src("s", "b", **dict(nominal_capacity=5, variable_costs=2)),
                storage("st", "b", "b", nominal_capacity=4, loss_rate=0.1),
                snk("d", "b", **dict(nominal_capacity=1, fix=[1, 2]))],
    "onoff": [bus("b", balanced=True), bus("x", balanced=False),
              src("s", "b", **dict(nominal_capacity=5, variable_costs=2,
                              minimum=0.5,
                              nonconvex=dict(startup_costs=1,
                                             initial_status=0))),
              src("i", "b", **dict(investment=dict(ep_costs=1, maximum=3),
                              variable_costs=3)),
              src("e", "x", **dict(nominal_capacity=4, minimum=0.25)),
              snk("d", "b", **dict(nominal_capacity=1, fix=[1, 3]))],
}
TIME = {"dt": [1.0, 2.0], "kind": "num"}
OPT = ("ok", "optimal")
UNJUDGED = {("ok", "globallyOptimal"), ("ok", "locallyOptimal")}
ANSWERS = {
    "opt": dict(status="ok", tc="optimal", load="all", val=3.0),
    "opt2": dict(status="ok", tc="optimal", load="all", val=2.0),
    "part": dict(status="ok", tc="optimal", load="part", val=2.5),
    "infeasible": dict(status="warning", tc="infeasible", load="none",
                       val=7.0),
    "okinf": dict(status="ok", tc="infeasible", load="none", val=7.5),
    "time": dict(status="aborted", tc="maxTimeLimit", load="all", val=8.0),
    "timeok": dict(status="ok", tc="maxTimeLimit", load="part", val=8.5),
    "abopt": dict(status="aborted", tc="optimal", load="all", val=9.0),
    "error": dict(status="error", tc="error", load="none", val=9.5),
    "crash": dict(status="error", tc="error", load="raise", val=0.0),
}


def tasks(tier):
    out = []

    def add(part, sys, **kw):
        kw.update(part=part, system=sys)
        kw["name"] = "X01:%s:%s:%s" % (
            part, sys, "-".join(str(v) for k, v in sorted(kw.items())
                                if k not in ("part", "system")))
        out.append(kw)

    deep = tier == "thorough"
    for s in SYS:
        add("single", s)
        add("meta", s)
        for i in range(4):
            add("given", s, first=i)
        for a in ANSWERS:
            add("hist", s, first=a,
                depth=(4 if s == "flows" else 3) if deep else
                (3 if s == "flows" else 2))
        for sol in ("cbc", "glpk"):
            for st in STATES[s]:
                add("real", s, solver=sol, first=st,
                    depth=3 if deep else 2)
    return out


def build(task):
    return spec.build({"name": "x", "nodes": SYS[task["system"]],
                       "time": TIME}).m


# ------------------------------------------------------------ (a) stand-in
def frames(res, m):
    """values of all flows and storage contents in the results"""
    got = {}
    fl = res["flow"]
    for (i, o, t), v in m.flow.items():
        got[id(v)] = (float(fl[(i, o)].iloc[t]), v)
    if hasattr(m, "GenericStorageBlock"):
        c = res["storage_content"]
        for (n, t), v in m.GenericStorageBlock.storage_content.items():
            got[id(v)] = (float(c[n].iloc[t]), v)
    return got


def inside(v, x):
    return ((v.lb is None or x >= v.lb - TOL)
            and (v.ub is None or x <= v.ub + TOL))


def bounds(m):
    return [(v.name, v.fixed, value(v.lb, exception=False) if not v.fixed
             else None, value(v.ub, exception=False) if not v.fixed else None,
             v.domain.name)
            for v in m.component_data_objects(po.Var)]


def judge(m, a, allow, out, warned, st):
    """out: ('ret', x) or ('exc', e)"""
    pair = (a["status"], a["tc"])
    kind, x = out
    if a["load"] == "raise":
        if kind != "exc":
            raise Bad("solver raised an error, but solve() returned %s"
                      % type(x).__name__)
        st["rejected"] += 1
        return "crash"
    if pair in UNJUDGED:
        st["dontcare"] += 1
        return "not judged"
    if pair == OPT:
        if kind == "exc":
            raise Bad("optimal solution, but %r" % x)
        if not isinstance(x, solph.Results):
            raise Bad("optimal solution, but solve() returned %s"
                      % type(x).__name__)
        # a cheap copy of what the stand-in loaded
        want = loaded(m, a)
        for k, (got, v) in frames(x, m).items():
            if v.fixed:
                w = v.value
            elif k in want:
                w = want[k]
            else:
                if not inside(v, got):
                    raise Bad("%s: not given by the solver, reported as %s"
                              " (bounds %s, %s)" % (v.name, got, v.lb, v.ub))
                continue
            if abs(got - w) > 1e-9:
                raise Bad("%s: solver gave %s, reported %s"
                          % (v.name, w, got))
        ob = x["objective"]
        if abs(ob - value(m.objective)) > 1e-9 * (1 + abs(ob)):
            raise Bad("objective %s, reported %s" % (value(m.objective), ob))
        st["accepted"] += 1
        res = "results"
    elif allow:
        if kind == "exc":
            raise Bad("%s: allowed, but %r" % (pair, x))
        if isinstance(x, solph.Results):
            raise Bad("%s: results were returned" % (pair,))
        if not warned:
            raise Bad("%s: no warning" % (pair,))
        if x is not None:
            s = x.Solver
            if (str(s.Status), str(s.Termination_condition)) != pair:
                raise Bad("%s: answer returned is %s, %s" % (
                    pair, s.Status, s.Termination_condition))
        st["rejected"] += 1
        res = "warning"
    else:
        if kind != "exc":
            raise Bad("%s: no error, returned %s" % (pair, type(x).__name__))
        if not isinstance(x, RuntimeError):
            raise Bad("%s: %r instead of the RuntimeError" % (pair, x))
        st["rejected"] += 1
        res = "error"
    s = m.solver_results.Solver
    if (str(s.Status), str(s.Termination_condition)) != pair:
        raise Bad("%s: solver_results of the model tell %s, %s" % (
            pair, s.Status, s.Termination_condition))
    return res


def loaded(m, a):
    skip = ()
    if a["load"] == "none":
        return {}
    if a["load"] == "part":
        skip = {id(v) for v in list(m.flow.values())[:2]}
    return {id(v): a["val"] + 0.01 * n
            for n, v in enumerate(m.component_data_objects(po.Var))
            if id(v) not in skip and not v.fixed}


def answered(m, a, allow, st, solver="verif_stand_in", **kw):
    StandIn.script = [a]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            out = ("ret", m.solve(solver, allow_nonoptimal=allow, **kw))
        except Crash as e:
            out = ("exc", e)
        except Exception as e:
            out = ("exc", e)
    warned = any(issubclass(x.category, UserWarning) for x in w)
    st["transitions"] += 1
    return judge(m, a, allow, out, warned, st)


def run_single(task, st, fail):
    outs = set()
    m = build(task)
    before = bounds(m)
    n = 0
    for s, tc, allow, ld in itertools.product(
            SolverStatus, TerminationCondition, (False, True),
            ("all", "none", "part")):
        if (s.value, tc.value) == OPT and ld == "none":
            continue
        for fresh in (False, True):
            if fresh:
                # as first answer on a model without any values
                for v in m.component_data_objects(po.Var):
                    if not v.fixed:
                        v.set_value(None)
                m.solver_results = None
            n += 1
            a = dict(status=s.value, tc=tc.value, load=ld, val=2 + n * 1e-3)
            st["states"] += 1
            st["leaves"] += 1
            try:
                outs.add(answered(m, a, allow, st))
            except Bad as e:
                fail("%s, %s, allow %s, values %s%s: %s" % (
                    s.value, tc.value, allow, ld,
                    ", first solve" if fresh else "", e))
    if bounds(m) != before:
        fail("solving changed bounds of the model")
    m = build(task)
    for allow in (False, True):
        for sol in ("verif_broken",):
            st["states"] += 1
            try:
                m.solve(sol, allow_nonoptimal=allow)
            except OSError:
                st["rejected"] += 1
            except Exception as e:
                fail("error of the solver became %r" % e)
            else:
                fail("error of the solver was ignored")
    return outs


def run_hist(task, st, fail):
    outs = set()
    alpha = [(k, al) for k in ANSWERS for al in (False, True)]
    d = task["depth"]
    # the answers before the last one differ in what they leave behind
    mid = [(k, al) for k in ANSWERS for al in (False, True)
           if al == (k in ("infeasible", "timeok", "error", "abopt"))]
    for tail in itertools.product(
            *([mid] * (d - 2) + [alpha] if d > 1 else [])):
        for al in (False, True):
            m = spec_model(task)
            h = [(task["first"], al)] + list(tail)
            st["leaves"] += 1
            for n, (k, allow) in enumerate(h):
                st["states"] += 1
                a = dict(ANSWERS[k])
                a["val"] += n * 0.001
                try:
                    outs.add(answered(m, a, allow, st))
                except Bad as e:
                    fail("history %s: %s" % (h[: n + 1], e))
                    break
    return outs


CACHE = {}


def spec_model(task):
    """a model as if it was new"""
    m = CACHE.get(task["name"])
    if m is None:
        m = CACHE[task["name"]] = build(task)
        m._vf = {id(v) for v in m.component_data_objects(po.Var) if v.fixed}
    for v in m.component_data_objects(po.Var):
        if id(v) not in m._vf:
            v.unfix()
            v.set_value(None)
    m.solver_results = None
    m.es.results = None
    return m


def run_given(task, st, fail):
    """what is handed to the solver"""
    ios = [None, "lp", "nl", "python"]
    cmd = [None, {}, {"interior": " ", "ratio": 0, "presolve": "",
                      "cuts": False},
           {"mipgap": "0.01", "method": 2, "sec": 0.5}]
    kws = [None, {}, {"tee": True}, {"tee": False, "keepfiles": True}]
    calls = list(itertools.product(range(4), repeat=3))
    a = ANSWERS["opt"]
    m = build(task)
    for one in calls:
        if one[0] != task["first"]:
            continue
        for two in calls[:: 1 if task["system"] == "flows" else 7]:
            st["leaves"] += 1
            for i, c, k in (one, two):
                st["states"] += 1
                arg, c0, k0 = {}, copy.deepcopy(cmd[c]), copy.deepcopy(kws[k])
                if ios[i]:
                    arg["solver_io"] = ios[i]
                if c:
                    arg["cmdline_options"] = c0
                if k:
                    arg["solve_kwargs"] = k0
                StandIn.seen = []
                try:
                    answered(m, a, False, st, **arg)
                    if c0 != cmd[c] or k0 != kws[k]:
                        raise Bad("arguments were changed: %s %s" % (c0, k0))
                    if len(StandIn.seen) != 1:
                        raise Bad("solver called %s times"
                                  % len(StandIn.seen))
                    mm, kwds, opts, kw = StandIn.seen[0]
                    if mm is not m:
                        raise Bad("another model was solved")
                    if kwds.get("solver_io") != (ios[i] or "lp"):
                        raise Bad("interface %s" % kwds)
                    if opts != (cmd[c] or {}):
                        raise Bad("options %s" % opts)
                    if kw != (kws[k] or {}):
                        raise Bad("keywords %s" % kw)
                except Bad as e:
                    fail("%s, %s, %s: %s" % (ios[i], cmd[c], kws[k], e))
    return {"given"}


# -------------------------------------------------------- (b) real solvers
def fl(m, i, o):
    for (a, b, t), v in m.flow.items():
        if str(a) == i and str(b) == o:
            yield t, v


def st_base(m):
    pass


def st_off(m):
    """no supply"""
    for t, v in fl(m, "s", "b"):
        v.setub(0)


def st_idle(m):
    """other bounds of flows that do not matter"""
    for t, v in fl(m, "e", "x"):
        v.setlb(3 if t else 0)
        v.setub(4 if t else 0.5)


def st_idle2(m):
    for t, v in fl(m, "e", "x"):
        v.setlb(0 if t else 3.5)
        v.setub(0.25 if t else 4)


def st_unbounded(m):
    for t, v in fl(m, "s", "b"):
        v.setub(None)
    for t, v in fl(m, "d", "x"):
        pass
    m.extra = po.Var(within=po.NonNegativeReals)
    m.more = po.Constraint(
        expr=m.extra <= sum(v for _, v in fl(m, "s", "b")))
    for c in list(m.BusBlock.balance.values()):
        c.deactivate()
    m.objective.expr = m.objective.expr - 10 * m.extra


def st_costs(m):
    m.objective.expr = m.objective.expr + 3 * sum(
        v for _, v in fl(m, "s", "b"))


def st_free(m):
    """no costs at all: an objective of zero"""
    m.objective.expr = 0 * sum(v for _, v in fl(m, "s", "b"))


def st_demand(m):
    for t, v in fl(m, "b", "d"):
        v.fix(1.5)


def st_bound(m):
    for t, v in fl(m, "s", "b"):
        v.setub(2.5 if t else 2)


def st_con(m):
    m.more = po.Constraint(
        expr=sum(v for _, v in fl(m, "s", "b")) >= 4.5)


STATES = {
    "flows": {"base": st_base, "off": st_off, "idle": st_idle,
              "idle2": st_idle2, "unbounded": st_unbounded,
              "costs": st_costs, "free": st_free, "demand": st_demand},
    "storage": {"base": st_base, "off": st_off, "unbounded": st_unbounded,
                "costs": st_costs, "demand": st_demand, "bound": st_bound,
                "con": st_con, "free": st_free},
    "onoff": {"base": st_base, "off": st_off, "idle": st_idle,
              "idle2": st_idle2, "unbounded": st_unbounded,
              "costs": st_costs, "demand": st_demand, "con": st_con},
}


def snapshot(m):
    return ([(v, v.lb, v.ub, v.fixed, v.value if v.fixed else None, v.domain)
             for v in m.component_data_objects(po.Var)], m.objective.expr)


def reset(m, snap):
    for n in ("more", "extra"):
        if hasattr(m, n):
            m.del_component(n)
    m.objective.expr = snap[1]
    for c in m.component_data_objects(po.Constraint):
        c.activate()
    for v, lo, hi, fx, val, dom in snap[0]:
        v.domain = dom
        v.setlb(lo)
        v.setub(hi)
        if fx:
            v.fix(val)
        elif v.fixed:
            v.unfix()


def content(s):
    return ([(v.name, s.lb[k], s.ub[k], s.integer[k])
             for k, v in enumerate(s.vars)],
            [(r[0], r[1], r[3], r[4]) for r in s.rows], s.c.tolist(), s.c0)


def optimum(s):
    """-> number, None (infeasible) or 'unbounded'; by another solver"""
    x = s.plan([]).evaluate([[]])[0]
    if x == linsys.INF:
        return None
    if x <= -1e29:
        return "unbounded"
    return x


def run_real(task, st, fail):
    outs = set()
    states = STATES[task["system"]]
    want = {}
    for k, f in states.items():
        m = build(task)
        f(m)
        want[k] = optimum(linsys.System(m))
        st["validated"] += 1
    outs.update("%s:%s" % kv for kv in want.items())
    es = spec.build_es({"name": "x", "nodes": SYS[task["system"]],
                        "time": TIME})[0]
    two = solph.Model(es), solph.Model(es)
    snaps = [snapshot(m) for m in two]
    alpha = list(itertools.product(states, (0, 1), (False, True)))
    d = task["depth"]
    mid = [(k, w, (w + i) % 2 == 1) for i, k in enumerate(states)
           for w in (0, 1)]
    first = [(task["first"], 0, a) for a in (False, True)]
    # the very first solve of the process happens on models without values
    for h in itertools.product(first, *([mid] * (d - 2) + [alpha])):
        for m, s in zip(two, snaps):
            reset(m, s)
            for v in m.component_data_objects(po.Var):
                if not v.fixed:
                    v.set_value(None)
            m.solver_results = None
        now = [None, None]
        st["leaves"] += 1
        info = [None, None]
        try:
            for n, (k, w, allow) in enumerate(h):
                m = two[w]
                if now[w] != k:
                    reset(m, snaps[w])
                    states[k](m)
                    now[w] = k
                info[w] = step(m, k, want[k], allow, task["solver"], st, outs)
            for w in (0, 1):
                if info[w]:
                    meta(two[w], info[w])
        except Bad as e:
            fail("history %s: %s" % (h[: n + 1], e))
    return outs


def step(m, k, want, allow, solver, st, outs):
    st["states"] += 1
    st["transitions"] += 1
    s = linsys.System(m)
    before = content(s)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            st["solver_calls"] += 1
            out = ("ret", m.solve(solver, allow_nonoptimal=allow))
        except Exception as e:
            out = ("exc", e)
    warned = any(issubclass(x.category, UserWarning) for x in w)
    after = content(linsys.System(m))
    if before != after:
        raise Bad("solving changed the model: %s" % [
            (a, b) for p, q in zip(before[:2], after[:2])
            for a, b in zip(p, q) if a != b][:3])
    kind, x = out
    if want is None or want == "unbounded":
        if kind == "exc":
            if allow:
                raise Bad("%s (%s): allowed, but %r" % (k, want, x))
            if not isinstance(x, RuntimeError):
                raise Bad("%s (%s): %r" % (k, want, x))
        else:
            if not allow:
                raise Bad("%s (%s): no error" % (k, want))
            if isinstance(x, solph.Results):
                raise Bad("%s (%s): results returned" % (k, want))
            if not warned:
                raise Bad("%s (%s): no warning" % (k, want))
        st["rejected"] += 1
        return None
    if kind == "exc":
        raise Bad("%s: %r" % (k, x))
    if not isinstance(x, solph.Results):
        raise Bad("%s: solve() returned %s" % (k, type(x).__name__))
    val = [v.value for v in s.vars]
    if any(v is None for v in val):
        # not passed to the solver
        val = [0.0 if v is None else v for v in val]
    cost = s.plan(s.vars).evaluate([val])[0]
    if not abs(cost - want) <= 1e-5 * (1 + abs(want)):
        raise Bad("%s: solution has costs of %s, optimum is %s (flows: %s)"
                  % (k, cost, want, [round(v.value, 4)
                                     for v in m.flow.values()]))
    for got, v in frames(x, m).values():
        if abs(got - v.value) > 1e-9:
            raise Bad("%s: %s is %s, reported %s" % (k, v.name, v.value, got))
    st["accepted"] += 1
    sr = m.solver_results
    pr = sr.problem[0]
    return (want, str(sr.solver[0]["Termination condition"]),
            value(pr["Number of constraints"]),
            value(pr["Lower bound"]), value(pr["Upper bound"]))


def run_meta(task, st, fail):
    """Figures of a solver's answer and how they are passed on."""
    outs = set()
    es = spec.build_es({"name": "x", "nodes": SYS[task["system"]],
                        "time": TIME})[0]
    m = solph.Model(es)
    m.solve("cbc")
    want = m.objective()
    grid = [-4.0, -1.0, 0.0, 0.5, 1.0, 3.0]
    for lo, hi in itertools.product(grid, grid):
        r = SolverResults()
        r.solver.status = SolverStatus.ok
        r.solver.termination_condition = TerminationCondition.optimal
        r.problem.lower_bound = lo
        r.problem.upper_bound = hi
        r.problem.number_of_constraints = 7
        m.solver_results = r
        st["states"] += 1
        st["leaves"] += 1
        st["accepted"] += 1
        for undefined in (False, True):
            st["transitions"] += 1
            try:
                meta(m, (want, "optimal", 7, lo, hi), undefined)
            except Bad as e:
                fail("bounds %s, %s, undefined=%s: %s"
                     % (lo, hi, undefined, e))
        outs.add("%s:%s" % (lo, hi))
    return outs


def meta(m, info, undefined=None):
    kw = {} if undefined is None else {"undefined": undefined}
    try:
        got = solph.processing.meta_results(m, **kw)
    except Exception as e:
        raise Bad("meta results: %r" % e)
    if abs(got["objective"] - info[0]) > 1e-5 * (1 + abs(info[0])):
        raise Bad("meta results: objective %s instead of %s"
                  % (got["objective"], info[0]))
    g = (str(got["solver"].get("Termination condition")),
         got["problem"].get("Number of constraints"),
         got["problem"].get("Lower bound"), got["problem"].get("Upper bound"))
    if g != info[1:]:
        raise Bad("meta results: %s instead of %s" % (g, info[1:]))
    texts = [str(v) for k in ("problem", "solver") for v in got[k].values()]
    if not undefined and any("<undefined>" in v for v in texts):
        raise Bad("meta results: undefined values are listed")
    if undefined:
        keys = {(k, q) for k in ("problem", "solver")
                for q in m.solver_results[k][0].keys()}
        if not keys <= {(k, q) for k in got if k != "objective"
                        for q in got[k]}:
            raise Bad("meta results: undefined values are missing")
    lo, hi = info[3:]
    if lo is not None and hi is not None and abs(lo) < 1e30 > abs(hi):
        gap = got["problem"].get("MIPGap")
        w = 0.0 if lo == hi else float("inf") if lo == -hi else (
            abs(hi - lo) / (abs(hi + lo) / 2))
        if gap is None or not (gap == w or abs(gap - w) < 1e-9):
            raise Bad("meta results: MIPGap %s instead of %s" % (gap, w))


def run(task):
    register()
    st, viol = Count(), []

    def fail(what):
        viol.append({"what": what})

    outs = {"single": run_single, "hist": run_hist, "given": run_given,
            "real": run_real, "meta": run_meta}[task["part"]](task, st, fail)
    sample = {k: task.get(k) for k in ("part", "system", "first", "solver")}
    return finish(task, st, viol[:4], [sample], outs)
