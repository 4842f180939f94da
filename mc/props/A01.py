"""Old names of parameters and functions mean the same as the new ones."""

import copy
import itertools
import warnings

import numpy as np
import pandas as pd

from oemof import solph
from oemof.solph import constraints as sc

from .. import catalog, combos, spec, user
from ..explore import Stats, finish
from ..gen import bus, snk, src
from .H01 import Bad, content, differ

RULE = (
    "every combination of option values (covering arrays) and every component"
    " of the catalogue x every subset of the old names that can be used"
    " for it; the mathematical content of the model has to be the one with"
    " the new names, invalid values have to stay invalid; old and new name"
    " together have to be rejected for every pair of values"
)
ASSUMPTIONS = [
    "bidirectional=True is compared with minimum=-1 where no minimum is given",
    "coefficients of offset converters are compared for minimum loads above"
    " zero",
]

NONE = None
OPT = {
    "cap": [None, 3, 0, 2.5, {"maximum": 4, "ep_costs": 2},
            {"maximum": 4, "nonconvex": True, "offset": 3},
            {"existing": 1, "maximum": 4, "ep_costs": [3, 5]}],
    "minimum": [None, 0, 0.25, [0.1, 0.2, 0.3], [0, 0, 0.5], -1,
                [0.5, -0.5, 0.25]],
    "maximum": [None, 1, 0.75, [0.9, 1, 0.5], 0],
    "fix": [None, [0.5, 0.25, 1], 0],
    "nonconvex": [None, {}, {"startup_costs": 2, "initial_status": 1}],
    "flt": [None, 2],
    "cost": [0, [1, 2, 3]],
    "prop": [None, {"emission_factor": 2}, {"em": 3, "emission_factor": 0},
             {"em": [1, 2, 3]}],
    "iprop": [None, {"space": 2}, {"space": 1, "other": 7}],
    "nprop": [None, {"kind": 2}],
    "bi": [False, True],
}


def ok(a):
    if a.get("iprop") is not None and not isinstance(a.get("cap"), dict):
        return "cap" not in a
    if a.get("nprop") is not None and a.get("nonconvex", {}) is None:
        return False
    if a.get("bi") and a.get("minimum") not in (None, 0):
        return False
    # (illegal combinations are the subject of V01)
    if a.get("fix") is not None and (
            a.get("minimum") is not None or a.get("maximum") is not None):
        return False
    if "cap" in a and a["cap"] is None:
        return all(a.get(k) is None for k in (
            "minimum", "maximum", "fix", "nonconvex", "flt"))
    return True


AXES = ("num", "infer", "mpb")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    arr = combos.both_arrays(OPT, 3 if deep else 2, ok)
    step = 8
    for x in AXES:
        for i in range(0, len(arr), step):
            out.append({"name": "flow-%s-%03d" % (x, i), "kind": "flow",
                        "axis": x, "a": arr[i:i + step]})
    for T in (1, 3):
        for x in catalog.axes(T):
            mp = x.startswith("mp")
            for f in catalog.FEATURES:
                if catalog.usable(f, mp):
                    out.append({"name": "cat-%s-%s-%d" % (f, x, T),
                                "kind": "cat", "f": f, "T": T, "axis": x})
    out.append({"name": "both", "kind": "both"})
    for x in AXES:
        out.append({"name": "limit-" + x, "kind": "limit", "axis": x})
        out.append({"name": "results-" + x, "kind": "results", "axis": x})
    out.append({"name": "coefficients", "kind": "coeff"})
    return out


# --- replacing names ------------------------------------------------------

FLOW = {"nominal_capacity": "nominal_value", "minimum": "min",
        "maximum": "max", "custom_properties": "custom_attributes"}


def old_flow(d, which):
    """arguments of a flow with some old names"""
    return {(FLOW[k] if k in which and k in FLOW else k): v
            for k, v in d.items()}


class Names:
    """lets mc.spec create the objects with old names"""

    def __init__(self, which):
        self.which = which

    def __enter__(self):
        which = self.which
        L = user.LIB
        self.old = dict(vars(L))
        self.used = used = set()

        def rename(cls, table):
            def make(*args, **kw):
                new = {}
                for k, v in kw.items():
                    if k in table and table[k] in which:
                        used.add(table[k])
                        k = table[k].split(".")[1]
                    new[k] = v
                return cls(*args, **new)
            return make

        L.Flow = rename(L.Flow, {k: "flow." + v for k, v in FLOW.items()})
        L.Investment = rename(
            L.Investment, {"custom_properties": "inv.custom_attributes"})
        L.NonConvex = rename(
            L.NonConvex, {"custom_properties": "nc.custom_attributes"})
        L.GenericStorage = rename(
            L.GenericStorage, {"nominal_capacity": "sto.nominal_storage_capacity"})
        return self

    def __exit__(self, *exc):
        vars(user.LIB).update(self.old)


ALL = tuple("flow." + v for v in FLOW.values()) + (
    "inv.custom_attributes", "nc.custom_attributes",
    "sto.nominal_storage_capacity")


def names_of(cfg, labels=None):
    return {n["n"]: n["n"] for n in cfg["nodes"]}


def attempt(f):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(), None
    except Bad:
        raise
    except Exception as e:  # rejected
        return None, e


def compare(got, want, what):
    (m, e), (w, f) = got, want
    if (e is None) != (f is None):
        raise Bad("%s: %s instead of %s" % (
            what, "rejected (%s: %s)" % (type(e).__name__, e) if e
            else "accepted", "accepted" if e else "rejected (%s)" % f))
    if e is None:
        d = differ(m, w)
        if d:
            raise Bad("%s: %s" % (what, d))
    return e is None


def judge(cfg, st, attrs=False):
    """all subsets of the old names"""

    def build(which):
        with Names(which) as n:
            b = spec.build(cfg)
        if attrs:
            check_attributes(cfg, b)
        return content(b.m, names_of(cfg)), n.used

    want, e = attempt(lambda: build(()))
    used = set()
    if e is None:
        full, e2 = attempt(lambda: build(ALL))
        if e2 is not None:
            raise Bad("old names: rejected (%s: %s)" % (
                type(e2).__name__, e2))
        used = full[1]
        assert used or "nominal_capacity" not in repr(cfg), "no old names"
    else:
        used = set(ALL)
    used = sorted(used)
    subsets = [s for r in (1, 2) for s in itertools.combinations(used, r)]
    if len(used) > 2:
        subsets.append(tuple(used))
    out = []
    for s in subsets:
        got, g = attempt(lambda: build(s))
        st.add("leaves")
        st.add("transitions")
        good = compare((got and got[0], g), (want and want[0], e),
                       "%s with old names %s" % (cfg["name"], list(s)))
        st.add("accepted" if good else "rejected")
        st.add("validated")
        out.append(len(want[0]["constraints"]) if good else -1)
    return out


def check_attributes(cfg, b):
    for d in cfg["nodes"]:
        for side in ("in", "out"):
            for n, f in d.get(side, {}).items():
                if d["k"] not in ("source", "sink"):
                    continue
                k = ((b.nodes[d["n"]], b.nodes[n]) if side == "out"
                     else (b.nodes[n], b.nodes[d["n"]]))
                fl = b.m.flows[k]
                for obj, p in (
                    (fl, f.get("custom_properties")),
                    (fl.investment, f.get("investment", {}).get(
                        "custom_properties")),
                    (fl.nonconvex, (f.get("nonconvex") or {}).get(
                        "custom_properties")),
                ):
                    if p is None:
                        continue
                    have = getattr(obj, "custom_properties", None)
                    if ({q: _plain(v) for q, v in dict(have or {}).items()}
                            != {q: _plain(_v(v)) for q, v in p.items()}):
                        raise Bad("custom properties are %s instead of %s"
                                  % (have, p))


def _plain(x):
    return np.asarray(x).tolist()


def _v(v):
    return v


# --- kinds of tasks -------------------------------------------------------

def flow_cfg(name, a, axis):
    tm, mp = catalog.axes(3)[axis]
    F = {}
    if isinstance(a["cap"], dict):
        i = dict(a["cap"])
        if mp:
            i["lifetime"] = 20
            if isinstance(i.get("ep_costs"), list):
                i["ep_costs"] = i["ep_costs"][:2]
        elif isinstance(i.get("ep_costs"), list):
            i["ep_costs"] = i["ep_costs"][0]
        if a["iprop"]:
            i["custom_properties"] = a["iprop"]
        F["nominal_capacity"] = None
        F["investment"] = i
        del F["nominal_capacity"]
    elif a["cap"] is not None:
        F["nominal_capacity"] = a["cap"]
    for k in ("minimum", "maximum", "fix"):
        if a[k] is not None:
            F[k] = a[k]
    if a["nonconvex"] is not None:
        F["nonconvex"] = dict(a["nonconvex"])
        if a["nprop"]:
            F["nonconvex"]["custom_properties"] = a["nprop"]
    if a["flt"]:
        F["full_load_time_max"] = a["flt"]
    if a["cost"]:
        F["variable_costs"] = a["cost"]
    if a["prop"]:
        F["custom_properties"] = a["prop"]
    cons = []
    if (a["prop"] or {}).get("emission_factor") is not None:
        cons.append({"c": "emission_limit", "limit": 5})
    if (a["prop"] or {}).get("em") is not None:
        cons.append({"c": "integral", "keyword": "em", "upper": 7,
                     "lower": 1})
    if F.get("investment", {}).get("custom_properties"):
        cons.append({"c": "additional", "keyword": "space", "limit": 6})
    nodes = [bus("b"), src("s", "b", **F), snk("d", "b")]
    cfg = {"name": name, "time": dict(tm), "nodes": nodes,
           "constraints": cons}
    if mp:
        cfg["discount_rate"] = 0.05
    return cfg


def run_flow(task, st):
    out = []
    for n, a in enumerate(task["a"]):
        cfg = flow_cfg("%s/%d" % (task["name"], n), a, task["axis"])
        if a["bi"]:
            # the old option against a negative minimum
            F = cfg["nodes"][1]["out"]["b"]
            new = copy.deepcopy(cfg)
            new["nodes"][1]["out"]["b"]["minimum"] = -1
            F["bidirectional"] = True

            def build(c):
                return content(spec.build(c).m, names_of(c))

            if a["cap"] is None or a["fix"] is not None or (
                    a["nonconvex"] is not None):
                st.add("dontcare")
            else:
                compare(attempt(lambda: build(cfg)),
                        attempt(lambda: build(new)),
                        "%s: bidirectional (%s)" % (cfg["name"], a))
                st.add("leaves")
                st.add("accepted")
        out += judge(cfg, st, attrs=True)
    return out


def run_cat(task, st):
    cfg = catalog.system([task["f"]], task["T"], task["axis"])
    b, e = attempt(lambda: spec.build(cfg))
    if e is not None:
        st.add("dontcare")
        return []
    return judge(cfg, st)


def must_fail(f, what, st):
    st.add("leaves")
    r, e = attempt(f)
    if e is None:
        raise Bad("%s is accepted" % what)
    st.add("rejected")
    st.add("validated")


def run_both(task, st):
    """old and new name together"""
    V = {
        ("nominal_value", "nominal_capacity"): [0, 1, 2.5, "inv"],
        ("min", "minimum"): [0, 0.5, [0, 0], [0.5, 0.25], -1],
        ("max", "maximum"): [0, 1, 0.5, [1, 1], [0.5, 0.75]],
        ("custom_attributes", "custom_properties"): [{}, {"a": 1}],
    }

    def val(v, T=2):
        return solph.Investment(maximum=3) if v == "inv" else v

    for (o, n), vs in V.items():
        for x, y in itertools.product(vs, repeat=2):
            kw = {} if o == "nominal_value" else {"nominal_capacity": 2}
            must_fail(lambda: solph.Flow(**{o: val(x), n: val(y)}, **kw),
                      "Flow with %s=%s and %s=%s" % (o, x, n, y), st)
    for x, y in itertools.product([{}, {"a": 1}], repeat=2):
        for c in (solph.Investment, solph.NonConvex):
            must_fail(lambda: c(custom_attributes=x, custom_properties=y),
                      "%s with %s and %s" % (c.__name__, x, y), st)
    for x, y in itertools.product([0, 1, "inv"], repeat=2):
        b = solph.Bus("b")
        must_fail(lambda: solph.components.GenericStorage(
            "s", inputs={b: solph.Flow()}, outputs={b: solph.Flow()},
            nominal_storage_capacity=val(x), nominal_capacity=val(y)),
            "GenericStorage with capacities %s and %s" % (x, y), st)
    a, b = solph.Bus("a"), solph.Bus("b")
    for kw in ({"conversion_factors": {a: 2}}, {"normed_offsets": {a: 2}},
               {"conversion_factors": {a: 2}, "normed_offsets": {a: 0}},
               {"conversion_factors": {}}, {"normed_offsets": {}}):
        must_fail(lambda: solph.components.OffsetConverter(
            label="c", inputs={a: solph.Flow()}, outputs={b: solph.Flow(
                nominal_capacity=2, minimum=0.5,
                nonconvex=solph.NonConvex())},
            coefficients=(-0.1, 0.5), **kw), "coefficients and %s" % kw, st)
    return [0]


def run_limit(task, st):
    tm, mp = catalog.axes(3)[task["axis"]]
    cfg = {"name": task["name"], "time": dict(tm), "nodes": [
        bus("b"),
        src("s", "b", nominal_capacity=2, custom_properties={"em": 2}),
        src("r", "b", custom_properties={"em": [1, 2, 0]}),
        snk("d", "b", nominal_capacity=1, fix=[1, 2, 1])]}
    out = []
    for lim in (0, 1, 3.5, 7):
        for low in (None, 0, 1):
            def build(**kw):
                b = spec.build(cfg)
                if low is not None:
                    kw["lower_limit"] = low
                sc.generic_integral_limit(b.m, keyword="em", **kw)
                return content(b.m, names_of(cfg))

            st.add("leaves")
            compare(attempt(lambda: build(limit=lim)),
                    attempt(lambda: build(upper_limit=lim)),
                    "limit=%s (lower limit %s)" % (lim, low))
            st.add("accepted")
            st.add("validated")
            out.append(lim)
    return out


def run_results(task, st):
    tm, mp = catalog.axes(3)[task["axis"]]
    feats = ["flow", "storage", "nonconvex", "invest"]
    for f in feats:
        cfg = catalog.system([f], 3, task["axis"])
        b = spec.build(cfg)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = b.m.solve("cbc")
            for k in list(res.keys()):
                new = res.get(k)
                old, e = attempt(lambda: res.to_df(k))
                st.add("leaves")
                if isinstance(new, (pd.DataFrame, pd.Series)):
                    if e is not None or not new.equals(old):
                        raise Bad("to_df(%s) differs: %s" % (k, e or old))
                st.add("accepted")
            r, e = attempt(lambda: res.to_df("no such variable"))
            if not isinstance(e, KeyError):
                raise Bad("to_df of a missing key: %s" % (e or r))
            ti = res.timeindex
            if ti is not b.es.timeindex and list(ti) != list(
                    b.es.timeindex):
                raise Bad("timeindex is %s" % ti)
            old = b.m.results()
            new = solph.processing.results(b.m)
        if list(old) != list(new):
            raise Bad("results() has other keys")
        for k in new:
            for p in new[k]:
                if not new[k][p].equals(old[k][p]):
                    raise Bad("results() differs in %s %s" % (k, p))
        st.add("accepted")
        st.add("leaves")
        st.add("validated")
    return [len(new)]


def run_coeff(task, st):
    """P_out = c1 * P_in + c0 * nominal capacity * status"""
    T = 3
    out = []
    C0 = [-0.1, 0.05, [-0.1, -0.2, 0.05]]
    C1 = [0.5, 0.8, [0.5, 0.8, 0.6]]
    MN = [0.5, [0.5, 0.25, 0.75]]
    MX = [1, 0.8, [1, 0.9, 0.8]]
    FORMS = ["list", "np", "series"]
    for n, (c0, c1, mn, mx, cap) in enumerate(itertools.product(
            C0, C1, MN, MX, [10, {"maximum": 20, "ep_costs": 1}])):
        form = FORMS[n % 3]

        def f(v):
            return {"form": form, "v": v} if isinstance(v, list) else v

        def at(v, t):
            return v[t] if isinstance(v, list) else v

        o = {"minimum": f(mn), "maximum": f(mx), "nonconvex": {}}
        if isinstance(cap, dict):
            o["investment"] = cap
        else:
            o["nominal_capacity"] = cap
        base = {"k": "offset", "n": "c", "in": {"a": {}}, "out": {"b": o}}
        cfg = {"name": "coefficients", "time": {"dt": [1.0, 2.0, 1.0]},
               "nodes": [bus("a"), bus("b"), src("s", "a"), snk("d", "b")]}
        new = dict(cfg, nodes=cfg["nodes"] + [dict(
            base, cf={"a": [1 / at(c1, t) for t in range(T)]},
            off={"a": [-at(c0, t) / at(c1, t) for t in range(T)]})])
        old = dict(cfg, nodes=cfg["nodes"] + [dict(
            base, coeff=[f(c0), f(c1)])])
        st.add("leaves")
        r = []
        for c in (old, new):
            r.append(attempt(
                lambda: rough(content(spec.build(c).m, names_of(c)))))
        compare(r[0], r[1], "coefficients (%s, %s), minimum %s, maximum %s"
                % (c0, c1, mn, mx))
        st.add("accepted")
        st.add("validated")
        out.append(n)
    return out


def rough(c):
    rows = {}
    for r, n in c["constraints"].items():
        if len(r) == 3:
            r = (frozenset((k, round(v, 7)) for k, v in r[0]
                           if round(v, 7)), round(r[1], 7), round(r[2], 7))
        rows[r] = rows.get(r, 0) + n
    return {**c, "constraints": rows}


KINDS = {"flow": run_flow, "cat": run_cat, "both": run_both,
         "limit": run_limit, "results": run_results, "coeff": run_coeff}


def run(task):
    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0, solver_calls=0)
    viol, seen = [], set()
    try:
        r = KINDS[task["kind"]](task, st)
        st.add("states", len(r))
        seen |= {(task["name"], x) for x in r}
    except Bad as e:
        viol.append({"what": str(e)})
    return finish(task, st, viol, [], seen)
