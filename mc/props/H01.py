"""A model depends on the described system only, not on its history."""

import copy
import itertools
import logging
import math
import os
import re
import tempfile
import types
import warnings

import numpy as np
import pandas as pd
import pyomo.environ as po
from oemof import solph
from oemof.network import Entity, Node
from oemof.solph._plumbing import _FakeSequence, sequence
from pyomo.core.base.block import ScalarBlock
from pyomo.core.base.sos import SOSConstraint
from pyomo.repn import generate_standard_repn

from .. import catalog, spec
from ..explore import Stats, finish
from ..gen import bus, snk, src
from .R01 import fill
from .S01 import storage

RULE = (
    "every order of creating and adding the nodes, every naming scheme and"
    " every history of operations up to the given depth ends with building a"
    " model; its mathematical content (variables with bounds and domains,"
    " constraints, special ordered sets, objective), written in terms of the"
    " components of the description, has to be the one of the model built"
    " first from a fresh system; nothing handed over by the user changes"
)
ASSUMPTIONS = [
    "names, numbers and order of constraints are irrelevant, coefficients are"
    " compared after rounding to nine digits",
    "saving is not judged for components with a user function (PWL)",
    "nodes are used in a system with another number of intervals only if"
    " their parameters do not depend on the interval or are long enough",
]


class Bad(Exception):
    pass


# --- mathematical content of a model --------------------------------------

def rnd(x):
    x = float(x)
    if math.isinf(x):
        return x
    return round(x, 9) + 0.0


def place(v, names):
    """a variable in terms of the description"""

    def part(i):
        if isinstance(i, tuple):
            return tuple(part(x) for x in i)
        if isinstance(i, Entity):
            return names[str(i)]
        if isinstance(i, (np.integer, int)):
            return int(i)
        return i

    n = v.parent_component().name
    # blocks made by pyomo for a component and interval
    p = re.search(r"piecewise\[(.*),(\d+)\]", n)
    if p:
        q = p[1].strip("'\"").encode().decode("unicode_escape") if (
            p[1][0] in "'\"") else p[1]
        n = n[:p.start(1)] + names.get(p[1], names.get(q, "?")) + n[
            p.end(1):]
    return (n, part(v.index()))


def content(m, names):
    """names: str(node) -> name in the description"""

    def key(v):
        return place(v, names)

    vs = {}
    for v in m.component_data_objects(po.Var, active=True):
        lo = -math.inf if v.lb is None else rnd(v.lb)
        hi = math.inf if v.ub is None else rnd(v.ub)
        k = key(v)
        if k in vs:
            raise Bad("two variables %s" % (k,))
        vs[k] = (lo, hi, v.is_integer() or v.is_binary(),
                 rnd(v.value) if v.fixed and v.value is not None
                 else bool(v.fixed))

    def lin(rep):
        d = {}
        for c, v in zip(rep.linear_coefs, rep.linear_vars):
            d[key(v)] = d.get(key(v), 0.0) + float(c)
        for c, (v, w) in zip(rep.quadratic_coefs, rep.quadratic_vars):
            k = tuple(sorted((key(v), key(w)), key=repr))
            d[k] = d.get(k, 0.0) + float(c)
        return {k: rnd(c) for k, c in d.items() if rnd(c) != 0}

    rows = {}
    for con in m.component_data_objects(po.Constraint, active=True):
        rep = generate_standard_repn(con.body, compute_values=True)
        if rep.nonlinear_expr is not None:
            raise Bad("nonlinear")
        lo = -math.inf if con.lower is None else rnd(
            po.value(con.lower) - rep.constant)
        hi = math.inf if con.upper is None else rnd(
            po.value(con.upper) - rep.constant)
        r = (frozenset(lin(rep).items()), lo, hi)
        rows[r] = rows.get(r, 0) + 1
    for s in m.component_data_objects(SOSConstraint, active=True):
        r = (tuple((key(v), rnd(w)) for v, w in s.get_items()), s.level)
        rows[r] = rows.get(r, 0) + 1
    (obj,) = m.component_data_objects(po.Objective, active=True)
    rep = generate_standard_repn(obj.expr, compute_values=True)
    return {"variables": vs, "constraints": rows, "objective": dict(
        lin(rep), constant=rnd(rep.constant), sense=int(obj.sense))}


def differ(a, b):
    """first difference of two contents (b is expected)"""
    for part in ("variables", "constraints", "objective"):
        x, y = a[part], b[part]
        if x == y:
            continue
        for k in y:
            if k not in x:
                return "%s: %s is missing" % (part, str(k)[:300])
            if x[k] != y[k]:
                return "%s: %s is %s instead of %s" % (
                    part, str(k)[:200], x[k], y[k])
        for k in x:
            if k not in y:
                return "%s: %s is additional" % (part, str(k)[:300])
    return None


def must_be(m, want, names, what):
    d = differ(content(m, names), want)
    if d:
        raise Bad("%s: %s" % (what, d))


# --- parameters of a system -----------------------------------------------

def snap(x, depth=0):
    """comparable copy of everything a user can have set"""
    if isinstance(x, _FakeSequence):
        return ("scalar", snap(x.value))
    if isinstance(x, np.ndarray):
        return ("array", x.tolist())
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return ("table", x.to_dict(), list(map(str, x.index)))
    if isinstance(x, pd.DatetimeIndex):
        return ("times", list(x), str(x.freq))
    if isinstance(x, pd.Index):
        return ("index", list(x))
    if isinstance(x, Node) and depth:
        return ("node", str(x))
    if isinstance(x, dict) or hasattr(x, "items") and depth:
        return ("dict", sorted(((repr(k), snap(v, depth + 1))
                                for k, v in x.items()), key=repr))
    if isinstance(x, (list, tuple, set)):
        return (type(x).__name__, [snap(v, depth + 1) for v in x])
    if isinstance(x, types.FunctionType):
        return "function"
    if type(x).__module__.startswith("oemof") and hasattr(x, "__dict__"):
        d = {k: v for k, v in vars(x).items()}
        for k in ("inputs", "outputs"):
            if isinstance(x, Node):
                d[k] = dict(getattr(x, k).items())
        d = {k: v for k, v in d.items() if not k.startswith("_")
             or k == "_label"}
        return (type(x).__name__, sorted(
            ((k, snap(v, depth + 1)) for k, v in d.items()), key=repr))
    return repr(x)


def state(es, attrs):
    keep = ("timeindex", "timeincrement", "periods", "tsa_parameters",
            "periods_years", "periods_matrix", "end_year_of_optimization",
            "use_remaining_value")
    d = {k: snap(getattr(es, k, None), 1) for k in keep}
    d["nodes"] = [(s[0], [
        x for x in s[1] if x[0] in attrs.get(str(n), (x[0],))
    ]) for n, s in ((n, snap(n)) for n in es.nodes)]
    return d


def check_given(what):
    for now, then in spec.GIVEN:
        if snap(now, 1) != snap(then, 1):
            raise Bad("%s changed an object of the user from %s to %s" % (
                what, str(snap(then, 1))[:150], str(snap(now, 1))[:150]))


# --- worlds and operations ------------------------------------------------

class World:
    """an energy system and its description"""

    def __init__(self, cfg):
        self.cfg = copy.deepcopy(cfg)
        self.es, self.nodes = spec.build_es(self.cfg)
        self.models = []
        # (models add further attributes to some nodes)
        self.attrs = {str(n): {*vars(n), "inputs", "outputs"}
                      for n in self.nodes.values()}

    def model(self):
        m = build_model(self.cfg, self.es, self.nodes)
        self.models.append(m)
        return m


def build_model(cfg, es, nodes):
    kw = {}
    if "discount_rate" in cfg:
        kw["discount_rate"] = cfg["discount_rate"]
    m = solph.Model(es, **kw)
    b = spec.Built()
    b.es, b.nodes, b.m = es, nodes, m
    for c in cfg.get("constraints", []):
        spec.apply_constraint(b, c)
    return m


def first_flow(cfg):
    """a flow of the description with variable costs: (node, side, bus)"""
    for d in cfg["nodes"]:
        for side in ("out", "in"):
            for b, f in d.get(side, {}).items():
                if "variable_costs" in f:
                    return d, side, b
    return None


def op_groups(w):
    list(w.es.groups)


def op_build(w):
    w.model()


def op_solve(w):
    w.model().solve(solver="cbc")


def op_results(w):
    m = w.model()
    fill(m)
    r = solph.processing.results(m)
    solph.views.node(r, str(next(iter(w.nodes.values()))))
    solph.Results(m).get("flow")


def op_params(w):
    solph.processing.parameter_as_dict(w.es)


def op_other(w):
    """another system with the same names and another length"""
    c = copy.deepcopy(w.cfg["other"])
    es, nodes = spec.build_es(c)
    build_model(c, es, nodes)


def op_reuse(w, time):
    """the same nodes in another system"""
    es = spec.make_es({"time": time})
    es.add(*w.es.nodes)
    solph.Model(es, **({"discount_rate": 0.05} if "periods" in time else {}))


def op_dump(w):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "es.dump")
        w.es.dump(filename=f, consider_dpath=False)
        es = solph.EnergySystem()
        es.restore(filename=f, consider_dpath=False)
    byname = {str(n): n for n in es.nodes}
    w.nodes = {k: byname[str(n)] for k, n in w.nodes.items()}
    w.es = es


def op_modify(w):
    """new variable costs of one flow"""
    d, side, b = first_flow(w.cfg)
    f = d[side][b]
    old = f["variable_costs"]
    new = [x + 1 for x in old] if isinstance(old, list) else old + 1
    f["variable_costs"] = new
    n, x = w.nodes[d["n"]], w.nodes[b]
    flow = n.outputs[x] if side == "out" else n.inputs[x]
    flow.variable_costs = sequence(new)


def op_extend(w):
    """one more component at the first bus"""
    k = sum(d["n"].startswith("new") for d in w.cfg["nodes"])
    b = next(d["n"] for d in w.cfg["nodes"] if d["k"] == "bus")
    d = src("new%d" % k, b, nominal_capacity=1, variable_costs=9,
            nonconvex={})
    w.cfg["nodes"].append(d)
    C = solph.components
    w.nodes[d["n"]] = C.Source(label=d["n"], outputs={
        w.nodes[b]: spec.flow(d["out"][b])})
    w.es.add(w.nodes[d["n"]])


def op_connect(w):
    """a flow between nodes that are already there"""
    bs = [d for d in w.cfg["nodes"] if d["k"] == "bus"]
    if len(bs) < 2:
        return
    a, b = bs[:2]
    f = {"nominal_capacity": 1, "variable_costs": 7, "minimum": 0.5,
         "nonconvex": {"activity_costs": 1}}
    if a["n"] in b.get("in", {}):
        return
    if b["n"] in a.get("out", {}):
        f["nominal_capacity"] = a["out"][b["n"]]["nominal_capacity"] + 1
    a.setdefault("out", {})[b["n"]] = f
    w.nodes[a["n"]].outputs[w.nodes[b["n"]]] = spec.flow(f)


def op_lp(w):
    m = w.model()
    with tempfile.TemporaryDirectory() as d:
        m.write(os.path.join(d, "m.lp"))


def operations(task):
    ops = {"groups": op_groups, "build": op_build, "results": op_results,
           "parameters": op_params, "other system": op_other,
           "modify": op_modify, "extend": op_extend,
           "connect": op_connect}
    if not task.get("tsa_axis"):
        ops["solve"] = op_solve
    if task["reuse"]:
        for i, t in enumerate(task["reuse"]):
            ops["reuse %d" % i] = lambda w, t=t: op_reuse(w, t)
    if "pwl" not in task["feats"]:
        ops["dump"] = op_dump
    if task.get("full"):
        ops["lp"] = op_lp
    if first_flow(task) is None:
        del ops["modify"]
    return ops


CHANGES = {"modify", "extend", "connect"}


def check_history(task, hist, ops, want, st):
    w = World(task)
    check_given("creating the nodes")
    for i, n in enumerate(hist):
        st.add("transitions")
        what = "after %s" % list(hist[:i + 1])
        before = state(w.es, w.attrs)
        earlier = [(m, content(m, plain(w))) for m in w.models[-1:]]
        try:
            ops[n](w)
        except Exception as e:
            import traceback

            t = [x for x in traceback.extract_tb(e.__traceback__)
                 if "oemof" in x.filename]
            t = t[-1] if t else traceback.extract_tb(e.__traceback__)[-1]
            raise Bad("%s: '%s' fails: %s: %s (%s:%d)" % (
                list(hist[:i]), n, type(e).__name__, str(e)[:150],
                t.filename, t.lineno))
        check_given(what)
        if n not in CHANGES:
            now = state(w.es, w.attrs)
            if now != before:
                raise Bad("%s: %s" % (what, first_diff(now, before)))
            for m, c in earlier:
                d = differ(content(m, plain(w)), c)
                if d:
                    raise Bad("%s: the model built before changed: %s"
                              % (what, d))
    m = w.model()
    key = tuple(x for x in hist if x in CHANGES)
    if key not in want:
        f = World(w.cfg)
        want[key] = content(f.model(), plain(f))
        st.add("states")
    must_be(m, want[key], plain(w), "after %s" % list(hist))
    m._add_objective(update=True)
    must_be(m, want[key], plain(w), "after %s and setting up the objective"
            " again" % list(hist))
    st.add("validated")


def plain(w):
    return {str(n): k for k, n in w.nodes.items()}


def first_diff(a, b, path=""):
    if type(a) is type(b) and isinstance(a, (tuple, list)) and len(
        a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                p = path
                if isinstance(x, (tuple, list)) and x and isinstance(
                    x[0], str):
                    p = path + "/" + x[0]
                return first_diff(x, y, p)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in b:
            if a.get(k) != b[k]:
                return first_diff(a.get(k), b[k], path + "/" + str(k))
    return "%s changed from %s to %s" % (path, str(b)[:150], str(a)[:150])


# --- ways of constructing a model -------------------------------------------

class UserBlock(ScalarBlock):
    """a block for constraints of the user's own (here: none)"""

    CONSTRAINT_GROUP = True

    def _create(self, group=None):
        self.given = group


class UserModel(solph.Model):
    CONSTRAINT_GROUPS = list(solph.Model.CONSTRAINT_GROUPS)


def way_late(es, kw):
    m = solph.Model(es, auto_construct=False, **kw)
    list(es.groups)
    m._construct()
    return m


def way_steps(es, kw):
    m = solph.Model(es, auto_construct=False, **kw)
    m._add_parent_block_sets()
    m._add_parent_block_variables()
    m._add_child_blocks()
    m._add_objective()
    return m


def way_twice(es, kw):
    """two models of one system, the first one finished last"""
    m = solph.Model(es, auto_construct=False, **kw)
    solph.Model(es, **kw)
    m._construct()
    return m


def with_args(**more):
    def way(es, kw):
        return solph.Model(es, **kw, **{
            k: v(es) if callable(v) else v for k, v in more.items()})
    return way


def way_user(es, kw):
    mine = [UserBlock]
    m = solph.Model(es, constraint_groups=mine, **kw)
    if mine != [UserBlock]:
        raise Bad("the list of constraint groups was changed: %s" % mine)
    if not any(isinstance(b, UserBlock) for b in m.block_data_objects()):
        raise Bad("the given constraint group was not created")
    return m


def way_debug(es, kw):
    log = logging.getLogger()
    old, dis = log.level, logging.root.manager.disable
    try:
        logging.disable(logging.CRITICAL)
        log.setLevel(logging.DEBUG)
        try:
            solph.Model(es, **kw)
        except BaseException as e:  # noqa
            if type(e).__name__ != "LoggingError":
                raise
        else:
            raise Bad("log level DEBUG is accepted without debug=True")
        return solph.Model(es, debug=True, **kw)
    finally:
        log.setLevel(old)
        logging.disable(dis)


def increments(form):
    return lambda es: form(list(es.timeincrement))


WAYS = {
    "late": way_late,
    "steps": way_steps,
    "twice": way_twice,
    "name": with_args(name="something"),
    "timeincrement": with_args(timeincrement=increments(list)),
    "weights": with_args(objective_weighting=increments(list)),
    "weights tuple": with_args(objective_weighting=increments(tuple)),
    "weights array": with_args(objective_weighting=increments(np.array)),
    "no groups": with_args(constraint_groups=[]),
    "user group": way_user,
    "subclass": lambda es, kw: UserModel(es, **kw),
    "debug": way_debug,
}


def check_way(task, hist, want, st):
    """models of one system constructed in several ways, one after another"""
    w = World(task)
    kw = {"discount_rate": task["discount_rate"]} if (
        "discount_rate" in task) else {}
    groups = list(solph.Model.CONSTRAINT_GROUPS)
    for i, n in enumerate(hist):
        m = WAYS[n](w.es, dict(kw))
        b = spec.Built()
        b.es, b.nodes, b.m = w.es, w.nodes, m
        for c in w.cfg.get("constraints", []):
            spec.apply_constraint(b, c)
        must_be(m, want, plain(w), "constructed: %s" % list(hist[:i + 1]))
        if solph.Model.CONSTRAINT_GROUPS != groups:
            raise Bad("%s: the groups of all models are changed" % n)
    if hist[-1] != "debug":
        m._add_objective(update=True)
        must_be(m, want, plain(w), "constructed: %s and objective again"
                % list(hist))
    st.add("validated")


def check_classes(task, what, want, st):
    """classes derived from the ones of the library mean the same"""
    w = World({**task, "classes": "own"})
    must_be(w.model(), want, plain(w), what)
    st.add("validated")


# --- orders and names -----------------------------------------------------

def orders(n, full):
    if n <= (6 if full else 5):
        return list(itertools.permutations(range(n)))
    out = [tuple(range(n)), tuple(reversed(range(n)))]
    for i in range(n):
        for j in range(n):
            o = list(range(n))
            o.insert(j, o.pop(i))
            out.append(tuple(o))
    return sorted(set(out))


def check_order(task, create, add, split, want, st):
    """create: order of the description; add: order of adding; split: bit i
    = a new call (and a look at the groups) before node i"""
    c = copy.deepcopy(task)
    c["nodes"] = [task["nodes"][i] for i in create]
    es = spec.make_es(c)
    nodes = spec.make_nodes(c)
    lab = [task["nodes"][i]["n"] for i in add]
    part = []
    for i, x in enumerate(lab):
        if split >> i & 1 and part:
            es.add(*part)
            if split & 1:
                es.groups
            part = []
        part.append(nodes[x])
    es.add(*part)
    st.add("transitions", len(lab))
    m = build_model(c, es, nodes)
    must_be(m, want, {str(n): k for k, n in nodes.items()},
            "created %s, added %s, calls %s" % (
                [task["nodes"][i]["n"] for i in create], lab, bin(split)))
    st.add("validated")


def schemes(names):
    n = len(names)
    rev = sorted(names, reverse=True)
    yield "reversed", dict(zip(sorted(names), rev))
    yield "prefixes", {x: "a" * (i + 1) for i, x in enumerate(names)}
    yield "prefixes, reversed", {x: "a" * (n - i)
                                 for i, x in enumerate(names)}
    yield "numbers", {x: i for i, x in enumerate(names)}
    yield "numbers as text", {x: str(i) for i, x in enumerate(names)}
    yield "tuples", {x: ("n", i, "x") for i, x in enumerate(names)}
    sp = ["a b", "a,b", "a[b]", "a.b", "a'b", 'a"b', "a(b)", "a_b", "äß",
          "None", "flow", "_", "-", "1e5", "a:b", "a/b", "a#b", "%s", "{}",
          "x" * 300]
    yield "special", dict(zip(names, sp))
    yield "special, reversed", dict(zip(names, reversed(sp[:n])))
    sp = ["flow", "invest", "storage_content", "objective", "NODES", "FLOWS",
          "BusBlock", "Model", "dual", "TIMESTEPS", "total", "status"]
    yield "words of solph", dict(zip(names, sp))
    yield "joined", {x: ["a", "a_b", "b", "b_c", "c", "a_b_c", "_", "__",
                         "a_", "_a"][i % 10] + "" * i
                     for i, x in enumerate(names)}


def check_names(task, labels, want, base, st, solve):
    c = copy.deepcopy(task)
    c["labels"] = labels
    es, nodes = spec.build_es(c)
    m = build_model(c, es, nodes)
    back = {str(n): k for k, n in nodes.items()}
    if len(back) != len(nodes):
        raise Bad("labels are not unique")
    must_be(m, want, back, "names %s" % list(labels.values()))
    st.add("transitions")
    # results: the same numbers under the other names
    for k, v in enumerate(sorted(
        m.component_data_objects(po.Var),
        key=lambda v: repr(place(v, back)),
    )):
        v.set_value(k + 0.5, skip_validation=True)
    got = tables(m, back)
    st.add("validated")
    if base is not None and got != base:
        for k in base:
            if got.get(k) != base[k]:
                raise Bad("names %s: results of %s are %s instead of %s" % (
                    list(labels.values()), k, str(got.get(k))[:150],
                    str(base[k])[:150]))
        raise Bad("names %s: additional results" % list(labels.values()))
    obj = None
    if solve:
        m2 = build_model(c, es, nodes)
        m2.solve(solver="cbc")
        st.add("solver_calls")
        obj = m2.objective()
        flows = tables(m2, back)
        if not flows:
            raise Bad("no results")
    return got, obj


def tables(m, back):
    from pyomo.opt import SolverResults

    if m.solver_results is None:
        m.solver_results = SolverResults()
        m.es.results = m.solver_results
    r = solph.processing.results(m)

    def cell(x):
        return None if x is None or x != x else x

    out = {}
    for k, v in r.items():
        kk = tuple(None if x is None else back.get(str(x), str(x)) for x in k)
        out[kk] = {n: sorted(
            ((str(c), [cell(z) for z in np.atleast_1d(t[c])])
             for c in (t.columns if t.ndim == 2 else t.index)), key=repr)
            for n, t in v.items()}
        text = solph.views.node(r, str(k[0]))
        if not text:
            raise Bad("no results of %s by its name" % str(k[0]))
    return out


# --- exploration ----------------------------------------------------------

def run(task):
    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0, solver_calls=0)
    viol, seen = [], set()

    def attempt(f, *a):
        st.add("leaves")
        spec.GIVEN = []
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = f(*a)
            st.add("accepted")
            return r
        except Bad as e:
            viol.append({"what": str(e)})
        except Exception as e:  # noqa
            import traceback

            t = [x for x in traceback.extract_tb(e.__traceback__)
                 if "oemof" in x.filename or "mc/" in x.filename][-1]
            viol.append({"what": "%s %s: %s: %s (%s:%d)" % (
                f.__name__, a[1], type(e).__name__, str(e)[:150], t.filename,
                t.lineno)})
        finally:
            spec.GIVEN = None
        return None

    w = World(task)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = content(w.model(), plain(w))
    st.add("states")
    what = task["what"]
    if what == "orders":
        n = len(task["nodes"])
        buses = [i for i, d in enumerate(task["nodes"]) if d["k"] == "bus"]
        comps = [i for i in range(n) if i not in buses]
        for add in orders(n, task["full"]):
            attempt(check_order, task, range(n), add, 0, base, st)
            if len(viol) > 3:
                break
        for cr in orders(len(comps), task["full"]):
            o = buses + [comps[i] for i in cr]
            for add in (range(n), o, list(reversed(o))):
                attempt(check_order, task, o, add, 0, base, st)
            if len(viol) > 3:
                break
        for add in (range(n), list(reversed(range(n)))):
            for split in range(2 ** n):
                attempt(check_order, task, range(n), add, split, base, st)
                if len(viol) > 3:
                    break
    elif what == "names":
        names = [d["n"] for d in task["nodes"]]
        solve = not task.get("tsa_axis")
        first = attempt(check_names, task, {}, base, None, st, solve)
        for s, lab in schemes(names):
            if first is None or len(set(map(str, lab.values()))) < len(lab):
                continue
            lab = {k: v for k, v in lab.items()}
            r = attempt(check_names, task, lab, base, first[0], st, solve)
            if r and solve and abs(r[1] - first[1]) > 1e-6:
                viol.append({"what": "names %s: objective %s instead of %s"
                             % (s, r[1], first[1])})
    elif what == "ways":
        attempt(check_classes, task, "own classes", base, st)
        for d in (1, 2):
            for hist in itertools.product(WAYS, repeat=d):
                attempt(check_way, task, hist, base, st)
                if len(viol) > 3:
                    break
    else:
        ops = operations(task)
        want = {(): base}
        for d in range(1, task["depth"] + 1):
            for hist in itertools.product(ops, repeat=d):
                attempt(check_history, task, hist, ops, want, st)
                if len(viol) > 3:
                    break
    seen |= {(k, repr(v)) for k, v in base["objective"].items()}
    return finish(task, st, viol[:4], [], seen)


def f_scalar(T, mp):
    """only scalars: fits to every time axis"""
    inv = catalog.inv(mp, fixed_costs=1) if mp else catalog.inv(mp)
    return [bus("y0", True),
            src("y1", "y0", nominal_capacity=4, variable_costs=2,
                fixed_costs=1, minimum=0.25,
                nonconvex=dict(startup_costs=1, shutdown_costs=2,
                               activity_costs=0.5, inactivity_costs=0.25)),
            src("y2", "y0", variable_costs=1, investment=inv),
            storage("y3", "y0", "y0", nominal_capacity=6, balanced=False,
                    initial_storage_level=0.5, loss_rate=0.1,
                    storage_costs=0.25, fixed_costs=2,
                    fo={"variable_costs": 1}),
            storage("y5", "y0", "y0", balanced=False, investment=inv,
                    storage_costs=0.5, **(
                        {"lifetime_inflow": 5, "lifetime_outflow": 5}
                        if mp else {})),
            snk("y4", "y0", nominal_capacity=4, maximum=0.5,
                variable_costs=1)], []


FEATURES = dict(catalog.FEATURES, scalar=f_scalar)


def system(feats, T, axis):
    tm, mp = catalog.axes(T)[axis]
    nodes, cons = [], []
    for f in feats:
        a, b = FEATURES[f](T, mp)
        nodes += a
        cons += b
    cfg = {"name": "%s T%d %s" % ("+".join(feats), T, axis), "time": dict(tm),
           "nodes": nodes, "constraints": cons, "feats": list(feats)}
    if mp:
        cfg["discount_rate"] = 0.05
    return cfg


def tasks(tier):
    full = tier == "thorough"
    T = 3 if full else 2
    for f in FEATURES:
        for ax in ("dt", "mp", "num", "infer") if full else ("dt", "mp"):
            mp = ax.startswith("mp")
            if not catalog.usable(f, mp):
                continue
            c = system([f], T, ax)
            c["other"] = system([f], 1 if not mp else 3, "dt")
            c["full"] = full
            if f == "scalar":
                c["reuse"] = [catalog.axes(1)["num"][0],
                              catalog.axes(4)["num"][0]]
                if mp:
                    c["reuse"] = [catalog.axes(3)["mp"][0]]
            else:
                c["reuse"] = [] if mp or f == "level" else [
                    catalog.axes(1)["num"][0]]
            for what in ("histories", "orders", "names", "ways"):
                d = copy.deepcopy(c)
                d["what"] = what
                d["depth"] = 3 if full and ax == "dt" else 2
                d["name"] = what + " " + c["name"]
                yield d
    # aggregated time series, and a time index whose frequency is inferred
    tsa = {"dt": [1.0] * 4, "kind": "dt", "tsa": [
        {"timesteps_per_period": 2, "order": [0, 1, 1]}]}
    seg = {"dt": [2.0, 1.0, 1.0, 2.0], "kind": "seg", "tsa": [
        {"timesteps_per_period": 3, "order": [1, 0], "segments": [
            [2, 1], [1, 2]]}]}
    inf = {"dt": [1.0] * 4, "kind": "infer", "nofreq": True}
    for n, tm in (("tsa", tsa), ("seg", seg), ("nofreq", inf)):
        for f in ("flow", "nonconvex", "storage", "invest"):
            c = system([f], 4, "num")
            c.update(time=tm, full=full, reuse=[], tsa_axis=True,
                     depth=3 if full else 2, what="histories",
                     name="%s %s" % (n, f))
            c["other"] = system([f], 3, "dt")
            yield c
            yield {**copy.deepcopy(c), "what": "ways",
                   "name": "ways %s %s" % (n, f)}
