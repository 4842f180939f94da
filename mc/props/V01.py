"""Documented-invalid parameter combinations are rejected, others accepted."""

import itertools
import logging
import math
import warnings

import numpy as np
import pandas as pd
from oemof import solph
from oemof.solph import components as cmp
from oemof.solph import constraints as con

from ..explore import Stats, finish

RULE = (
    "all subsets up to the stated size of the parameters of flows,"
    " investments, on/off options, storages, converters, constraints and"
    " energy systems, with representative valid and invalid values of each"
    " (scalars and sequences with the offending value at any position); the"
    " object and a model using it are created and the outcome is compared"
    " with the rules of the documentation"
)
ASSUMPTIONS = [
    "any exception, when the object or when the model is created, counts as"
    " rejection",
    "combinations the documentation does not settle (a sequence of default"
    " values given explicitly, bidirectional flows without capacity, ...) are"
    " not judged",
]
INF = math.inf


class Count(Stats):
    def __missing__(self, k):
        return 0


class I(dict):  # noqa: E742
    """parameters of an investment"""


class N(dict):
    """parameters of on/off options"""


def val(v):
    if isinstance(v, I):
        return solph.Investment(**{k: val(x) for k, x in v.items()})
    if isinstance(v, N):
        return solph.NonConvex(**{k: val(x) for k, x in v.items()})
    if isinstance(v, tuple):
        return np.array(v)
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return dict(v)
    return v


def num(v):
    return isinstance(v, (int, float, np.number))


def seq(v):
    """all values of a parameter"""
    return [v] if num(v) else list(v)


# ---------------------------------------------------------------- the rules
# -> reason of the rejection, None (valid) or "?" (not settled)
def rule_invest(d, multi, storage=False):
    mx, mn = d.get("maximum", INF), d.get("minimum", 0)
    nc, off = d.get("nonconvex", False), d.get("offset", 0)
    if "custom_attributes" in d and "custom_properties" in d:
        return "both custom_attributes and custom_properties"
    if not isinstance(nc, bool):
        return "nonconvex has to be a boolean"
    if nc and d.get("existing", 0) != 0:
        return "existing with nonconvex"
    if nc and INF in seq(mx):
        return "nonconvex without maximum"
    if not nc and any(x != 0 for x in seq(off)):
        return "offset without nonconvex"
    if d.get("lifetime") is not None and d.get("age", 0) >= d["lifetime"]:
        return "age not below lifetime"
    if multi and d.get("lifetime") is None:
        return "lifetime needed for several periods"
    for k in ("maximum", "minimum", "ep_costs", "offset", "fixed_costs"):
        if k in d and not num(d[k]) and not multi:
            return "?"
    if any(a > b for a in seq(mn) for b in seq(mx)):
        return "?"
    return None


def rule_flow(d, multi=False):
    """d: keywords of a flow"""
    for a, b in (("nominal_value", "nominal_capacity"), ("min", "minimum"),
                 ("max", "maximum"),
                 ("custom_attributes", "custom_properties")):
        if d.get(a) is not None and d.get(b) is not None:
            return "both %s and %s" % (a, b)
    cap = d.get("nominal_capacity", d.get("nominal_value"))
    mn = d.get("minimum", d.get("min", 0))
    mx = d.get("maximum", d.get("max", 1))
    fix = d.get("fix")
    nc = d.get("nonconvex")
    unsure = False
    if isinstance(cap, I):
        r = rule_invest(cap, multi)
        if r == "?":
            unsure = True
        elif r:
            return "investment: " + r
    elif cap is not None:
        if isinstance(cap, bool) or not num(cap):
            return "capacity is neither number nor investment"
        if not math.isfinite(cap):
            return "infinite capacity"
        if INF in seq(mx):
            return "infinite maximum"
    elif INF in seq(mx):
        return "maximum without capacity"
    if nc is not None:
        if "custom_attributes" in nc and "custom_properties" in nc:
            return "both custom_attributes and custom_properties"
    low = any(x != 0 for x in seq(mn))
    high = any(x != 1 for x in seq(mx))
    if fix is not None:
        if low or high:
            return "fix with minimum or maximum"
        if not num(mn) or not num(mx):
            unsure = True
    if cap is None:
        if fix is not None:
            return "fix without capacity"
        if (d.get("full_load_time_max") is not None
                or d.get("full_load_time_min") is not None):
            return "full load time without capacity"
        if high:
            return "maximum without capacity"
        if low and not d.get("bidirectional") and min(seq(mn)) >= 0:
            return "minimum without capacity"
        if low or not num(mn) or not num(mx):
            unsure = True
        # nothing to relate these to
        if nc is not None or any(
                d.get(k + "_gradient_limit") is not None
                for k in ("positive", "negative")):
            unsure = True
    if isinstance(cap, I) and any(d.get(k + "_gradient_limit") is not None
                                  for k in ("positive", "negative")):
        unsure = True  # see finding I01-gradient
    if not num(cap) and d.get("fixed_costs") is not None:
        unsure = True  # no capacity that could cost anything
    if nc is not None:
        own = any(nc.get(k + "_gradient_limit") is not None
                  for k in ("positive", "negative"))
        flo = any(d.get(k + "_gradient_limit") is not None
                  for k in ("positive", "negative"))
        if own and flo:
            return "gradients in the flow and in its nonconvex option"
        if isinstance(cap, I) and INF in seq(cap.get("maximum", INF)):
            return "nonconvex flow with unlimited investment"
        if isinstance(cap, I) and cap.get("nonconvex"):
            unsure = True
    return "?" if unsure else None


def rule_storage(d, multi=False):
    cap = d.get("nominal_capacity", d.get("nominal_storage_capacity"))
    if ("nominal_capacity" in d and "nominal_storage_capacity" in d):
        return "two capacities"
    inv = isinstance(cap, I)
    if cap is not None and not inv and not num(cap):
        return "capacity is neither number nor investment"
    unsure = cap is None
    if inv:
        r = rule_invest(cap, multi)
        if r == "?":
            unsure = True
        elif r:
            return "investment: " + r
    ins, outs = d.get("inputs", []), d.get("outputs", [])
    for f in ins + outs:
        r = rule_flow(f, multi)
        if r == "?":
            unsure = True
        elif r:
            return "flow: " + r
    if len(ins) > 1 or len(outs) > 1:
        return "several flows"
    ii = any(isinstance(f.get("nominal_capacity"), I) for f in ins)
    io = any(isinstance(f.get("nominal_capacity"), I) for f in outs)
    ri = d.get("invest_relation_input_capacity") is not None
    ro = d.get("invest_relation_output_capacity") is not None
    rr = d.get("invest_relation_input_output") is not None
    if ri and not (ii and inv):
        return "relation of input and capacity without investments"
    if ro and not (io and inv):
        return "relation of output and capacity without investments"
    if rr and not (ii and io):
        return "relation of input and output without investments"
    if ri and ro and rr:
        return "all three relations"
    lv = d.get("initial_storage_level")
    if lv is not None:
        if lv < seq(d.get("min_storage_level", 0))[0]:
            return "initial level below minimum"
        if lv > seq(d.get("max_storage_level", 1))[0]:
            return "initial level above maximum"
        if multi and inv:
            return "initial level with investments in several periods"
    fa = any(x != 0 for x in seq(d.get("fixed_losses_absolute", 0)))
    if inv and fa:
        if (cap.get("existing", 0) == 0
                and min(seq(cap.get("minimum", 0))) == 0):
            return "absolute losses without minimum or existing"
        if multi:
            return "absolute losses with investments in several periods"
    soc = any(d.get(k) is not None for k in (
        "constant_soc_until", "fraction_saturation_charging"))
    if soc:
        if inv:
            return "charging depends on content of an investment"
        if not ins:
            return "charging depends on content without input"
        if (d.get("constant_soc_until") is None
                or d.get("fraction_saturation_charging") is None):
            unsure = True
        if any(not num(f.get("nominal_capacity")) for f in ins):
            unsure = True
    if not ins or not outs:
        unsure = True
    if multi and inv and d.get("balanced", True) is not True:
        pass
    return "?" if unsure else None


# ------------------------------------------------------------- parameters
GRAD = [("g", N(positive_gradient_limit=0.5)),
        ("g", N(negative_gradient_limit=[0.5, 0.25])),
        ("g", N(positive_gradient_limit=(0.5, 1.0),
                negative_gradient_limit=0.5))]
FLOW = {
    "nominal_capacity": [
        5, np.float64(2.5), INF, float("nan"), "much", [5, 5],
        I(maximum=3), I(), I(maximum=4, nonconvex=True, minimum=1),
    ],
    "nominal_value": [5],
    "minimum": [0, 0.5, [0, 0.5], (0.5, 0), [-1, 0], [0, 0]],
    "min": [0.25, [0, 0.25]],
    "maximum": [1, 0.75, [1, 0.75], (0.75, 1), INF, [1, INF], [INF, 1],
                [1, 1]],
    "max": [0.5, [1, 0.5], [1, INF]],
    "fix": [0.5, [0, 1], (0.5, 0)],
    "variable_costs": [2, [1, 2]],
    "positive_gradient_limit": [0.5, [0.5, 0.25]],
    "negative_gradient_limit": [0.5, (0.5, 0)],
    "full_load_time_max": [0, 2],
    "full_load_time_min": [0, 1],
    "integer": [True],
    "bidirectional": [True],
    "nonconvex": [N(), N(startup_costs=2, minimum_uptime=2)]
    + [g for _, g in GRAD],
    "lifetime": [5],
    "age": [1],
    "fixed_costs": [3],
    "custom_attributes": [{"a": 1}],
    "custom_properties": [{"a": 1}],
}
INVEST = {
    "maximum": [5, INF, [5, 4], [5, INF], (INF, 5)],
    "minimum": [0, 1, [0, 1], (1, 1)],
    "ep_costs": [2, [2, 1]],
    "existing": [0, 2],
    "nonconvex": [False, True, 1, 0, None, "yes"],
    "offset": [0, 3, [0, 3], (3, 0), [0, 0]],
    "overall_maximum": [6],
    "overall_minimum": [1],
    "lifetime": [1, 20],
    "age": [0, 1, 20],
    "fixed_costs": [1, [1, 2]],
    "custom_attributes": [{"a": 1}],
    "custom_properties": [{"a": 1}],
}
NONCONVEX = {
    "initial_status": [0, 1],
    "minimum_uptime": [0, 1, 2, [1, 2]],
    "minimum_downtime": [1, 2, (2, 1)],
    "maximum_startups": [0, 1],
    "maximum_shutdowns": [0, 2],
    "startup_costs": [1, [1, 2]],
    "shutdown_costs": [0, (1, 2)],
    "activity_costs": [1, [1, 2]],
    "inactivity_costs": [1, [0, 2]],
    "positive_gradient_limit": [0.5, [0.5, 1]],
    "negative_gradient_limit": [0, (0.5, 1)],
    "custom_attributes": [{"a": 1}],
    "custom_properties": [{"a": 1}],
}
STORAGE = {
    "nominal_capacity": [8, "big", [8], I(maximum=3), I(maximum=3, minimum=1),
                         I(maximum=3, existing=1),
                         I(maximum=4, nonconvex=True, minimum=1)],
    "nominal_storage_capacity": [8],
    "inputs": [[], [{}], [dict(nominal_capacity=2)],
               [dict(nominal_capacity=I(maximum=2))], [{}, {}]],
    "outputs": [[], [{}], [dict(nominal_capacity=I(maximum=2))], [{}, {}]],
    "initial_storage_level": [0, 0.5, 1],
    "min_storage_level": [0.25, 0.75, [0.75, 0, 0], (0.25, 0, 1)],
    "max_storage_level": [0.75, [0.25, 1, 1], (0.75, 0.5, 1)],
    "balanced": [True, False],
    "loss_rate": [0.1],
    "fixed_losses_relative": [0.1],
    "fixed_losses_absolute": [0, 0.5, [0, 0.5], (0.5, 0)],
    "inflow_conversion_factor": [0.5, [0.5, 1]],
    "invest_relation_input_output": [0.5],
    "invest_relation_input_capacity": [0.5],
    "invest_relation_output_capacity": [0.5, [0.5, 0.5]],
    "constant_soc_until": [0.5],
    "fraction_saturation_charging": [0.5],
    "storage_costs": [1],
    "fixed_costs": [1],
    "lifetime_inflow": [5],
    "lifetime_outflow": [5],
}


def subsets(table, size, fixed=()):
    """all combinations of values of up to size parameters"""
    names = [k for k in table if k not in fixed]
    for n in range(size + 1):
        for ks in itertools.combinations(names, n):
            yield from (dict(zip(ks, vs)) for vs in
                        itertools.product(*(table[k] for k in ks)))


# ----------------------------------------------------------------- models
def system(multi):
    if multi:
        ix = pd.DatetimeIndex(["2020-01-01 00:00", "2021-01-01 00:00"])
        es = solph.EnergySystem(
            timeindex=ix, timeincrement=[1, 1],
            periods=[ix[:1], ix[1:]], infer_last_interval=False)
    else:
        es = solph.EnergySystem(timeindex=[0, 1, 3],
                                infer_last_interval=False)
    b = solph.Bus("b")
    es.add(b)
    return es, b


def life(d, multi):
    """lifetimes that several periods need"""
    if not multi:
        return d
    d = dict(d)
    for k, v in d.items():
        if isinstance(v, I) and "lifetime" not in v:
            d[k] = I(v, lifetime=30)
        if k in ("inputs", "outputs"):
            d[k] = [life(f, multi) for f in v]
    return d


def make_flow(d):
    return solph.Flow(**{k: val(v) for k, v in d.items()})


def flow_model(d, multi, model, at="out"):
    f = make_flow(d)
    if not model:
        return
    es, b = system(multi)
    es.add(cmp.Sink("k", inputs={b: f}) if at == "in" else
           cmp.Source("k", outputs={b: f}))
    solph.Model(es)


def storage_model(d, multi, model):
    d = dict(d)
    es, b = system(multi)
    c = solph.Bus("c")
    es.add(c)
    kw = {}
    for k in ("inputs", "outputs"):
        fs = d.pop(k, None)
        if fs is not None:
            kw[k] = {n: make_flow(f) for n, f in zip((b, c), fs)}
    kw.update({k: val(v) for k, v in d.items()})
    s = cmp.GenericStorage("s", **kw)
    if model:
        es.add(s)
        solph.Model(es)


def show(d):
    return ", ".join("%s=%s" % (k, "%s(%s)" % (
        {"I": "Investment", "N": "NonConvex"}[type(v).__name__], show(v))
        if isinstance(v, (I, N)) else
        "array%s" % (v,) if isinstance(v, tuple) else
        [show(x) if isinstance(x, dict) else x for x in v]
        if isinstance(v, list) else v) for k, v in d.items())


def judge(want, make, what, st, fail, outs):
    st["states"] += 1
    st["leaves"] += 1
    st["transitions"] += 1
    try:
        make()
        got = None
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # LoggingError is one of these
        got = e
    if want == "?":
        st["dontcare"] += 1
        outs.add("open:%s" % type(got).__name__)
    elif want is None:
        outs.add("valid")
        st["accepted"] += 1
        if got is not None:
            fail("valid, but rejected (%s: %s): %s" % (
                type(got).__name__, str(got)[:120], what))
    else:
        outs.add(want)
        st["rejected"] += 1
        if got is None:
            fail("accepted although invalid (%s): %s" % (want, what))


# ------------------------------------------------------------------ tasks
def tasks(tier):
    deep = tier == "thorough"
    out = []

    def add(part, **kw):
        kw["part"] = part
        kw["name"] = "V01:%s:%s" % (part, ":".join(
            str(v) for k, v in sorted(kw.items()) if k != "part"))
        out.append(kw)

    for multi in (False, True):
        for k in range(-1, len(FLOW["nominal_capacity"])):
            add("flow", cap=k, size=4 if deep else 3,
                model=3 if deep else 2, multi=multi)
        for part in ("invest", "investstorage"):
            for k in range(-1, len(INVEST["nonconvex"])):
                add(part, nc=k, size=5 if deep else 4,
                    model=3 if deep else 2, multi=multi)
        for inv in (False, True):
            add("onoff", size=3, inv=inv, model=3 if deep else 2,
                multi=multi)
        for k in range(-1, len(STORAGE["nominal_capacity"])):
            add("storage", cap=k, size=4 if deep else 3,
                model=3 if deep else 2, multi=multi)
    for p in ("offset", "others", "limits", "system"):
        add(p)
    return out


def run(task):
    st, viol, outs = Count(), [], set()
    logging.getLogger("pyomo").setLevel(logging.ERROR)
    warnings.simplefilter("ignore")

    def fail(what):
        viol.append({"what": what})

    PARTS[task["part"]](task, st, fail, outs)
    viol = spread(viol)
    return finish(task, st, viol[:6], [{"part": task["part"]}], outs)


def spread(viol):
    """one of each kind first"""
    seen, a, b = set(), [], []
    for v in viol:
        k = v["what"].split(":")[0]
        (b if k in seen else a).append(v)
        seen.add(k)
    return a + b


def part_flow(task, st, fail, outs):
    multi = task["multi"]
    base = ({} if task["cap"] < 0 else
            {"nominal_capacity": FLOW["nominal_capacity"][task["cap"]]})
    for d in subsets(FLOW, task["size"], ("nominal_capacity",)):
        n = len(d)
        d = life({**base, **d}, multi)
        if multi and ("age" in d and "lifetime" not in d):
            continue
        want = rule_flow(d, multi)
        model = n <= task["model"]
        if not model and (want is None or want == "?" or late(want)):
            continue
        judge(want, lambda: flow_model(d, multi, model),
              "Flow(%s)%s" % (show(d), " (several periods)" * multi),
              st, fail, outs)


def late(want):
    """only known when the model is created"""
    return "periods" in want


def part_invest(task, st, fail, outs, storage=False):
    multi = task["multi"]
    base = ({} if task["nc"] < 0 else
            {"nonconvex": INVEST["nonconvex"][task["nc"]]})
    for d in subsets(INVEST, task["size"], ("nonconvex",)):
        n = len(d)
        if multi and "lifetime" not in d and n > 1:
            d["lifetime"] = 30
        d = I({**base, **d})
        want = rule_invest(d, multi)
        model = n <= task["model"]
        if not model and (want is None or want == "?" or late(want)):
            continue
        if not model:
            def make():
                val(d)
        elif storage:
            def make():
                storage_model(dict(
                    nominal_capacity=d, inputs=[{}], outputs=[{}]),
                    multi, True)
        else:
            def make():
                flow_model(dict(nominal_capacity=d), multi, True)
        judge(want, make, "Investment(%s)%s" % (
            show(d), " (several periods)" * multi), st, fail, outs)


def part_investstorage(task, st, fail, outs):
    part_invest(task, st, fail, outs, True)


def part_onoff(task, st, fail, outs):
    multi = task["multi"]
    cap = I(maximum=3) if task["inv"] else 4
    for d in subsets(NONCONVEX, task["size"]):
        f = life(dict(nominal_capacity=cap, minimum=0.5, nonconvex=N(d)),
                 multi)
        want = rule_flow(f, multi)
        model = len(d) <= task["model"]
        judge(want, lambda: flow_model(f, multi, model),
              "Flow(%s)%s" % (show(f), " (several periods)" * multi),
              st, fail, outs)


def part_storage(task, st, fail, outs):
    multi = task["multi"]
    base = ({} if task["cap"] < 0 else
            {"nominal_capacity": STORAGE["nominal_capacity"][task["cap"]]})
    flows = dict(inputs=[{}], outputs=[{}])
    for d in subsets(STORAGE, task["size"], ("nominal_capacity",)):
        n = len(d)
        d = life({**base, **flows, **d}, multi)
        want = rule_storage(d, multi)
        model = n <= task["model"]
        if not model and (want is None or want == "?" or late(want)):
            continue
        judge(want, lambda: storage_model(d, multi, model),
              "GenericStorage(%s)%s" % (show(d),
                                        " (several periods)" * multi),
              st, fail, outs)


def part_offset(task, st, fail, outs):
    """converters with minimum load"""
    plain, on = dict(nominal_capacity=4), dict(
        nominal_capacity=4, minimum=0.5, nonconvex=N())
    inv = dict(nominal_capacity=I(maximum=3))
    oninv = dict(nominal_capacity=I(maximum=3), minimum=0.5, nonconvex=N())
    none = {}
    kinds = {"plain": plain, "on": on, "inv": inv, "oninv": oninv,
             "none": none}
    cfs = [None, ["i"], ["o"], ["i", "p"], ["o", "p"], ["p"]]
    for n_out in (1, 2):
        for ks in itertools.product(kinds, repeat=1 + n_out):
            fl = dict(zip(("i", "o", "p"), ks))
            ref = [k for k, v in fl.items() if v in ("on", "oninv")]
            invs = [k for k, v in fl.items() if v in ("inv", "oninv")]
            for cf, no, co in itertools.product(
                    cfs, cfs, (None, (0.1, 0.5), ([0.1, 0.2], [0.5, 0.6]),
                               (0.1, 0.5, 0.2))):
                if n_out == 1 and any("p" in (x or ()) for x in (cf, no)):
                    continue
                if len(ref) != 1:
                    want = "not exactly one nonconvex flow"
                elif [k for k in invs if k not in ref]:
                    want = "investment in another flow"
                elif co is not None and (cf is not None or no is not None):
                    want = "deprecated and new coefficients"
                elif cf is not None and ref[0] in cf:
                    want = "conversion factor of the nonconvex flow"
                elif no is not None and ref[0] in no:
                    want = "offset of the nonconvex flow"
                elif co is not None and len(co) != 2:
                    want = "not two coefficients"
                elif co is not None:
                    want = "?"
                else:
                    want = None

                def make():
                    es, b = system(False)
                    bs = {"i": b, "o": solph.Bus("o"), "p": solph.Bus("p")}
                    es.add(bs["o"], bs["p"])
                    kw = {}
                    if cf is not None:
                        kw["conversion_factors"] = {bs[k]: 0.5 for k in cf}
                    if no is not None:
                        kw["normed_offsets"] = {bs[k]: 0.25 for k in no}
                    if co is not None:
                        kw["coefficients"] = co
                    es.add(cmp.OffsetConverter(
                        label="c", inputs={b: make_flow(kinds[fl["i"]])},
                        outputs={bs[k]: make_flow(kinds[fl[k]])
                                 for k in fl if k != "i"}, **kw))
                    solph.Model(es)

                judge(want, make, "OffsetConverter(flows %s, conversion "
                      "factors %s, offsets %s, coefficients %s)" % (
                          fl, cf, no, co), st, fail, outs)


def part_others(task, st, fail, outs):
    """piecewise linear converters and CHPs"""
    from oemof.solph.components import experimental as ex

    for ni, no, bp, cap, rep in itertools.product(
            (1, 2), (1, 2), ([0, 5, 10], [0, 10, 20], [10, 0, 5]),
            (5, 10, 15, 20, 25), ("CC", "MC")):
        want = None
        if ni > 1 or no > 1:
            want = "several flows"
        elif max(bp) < cap:
            want = "breakpoints below capacity"
        elif bp != sorted(bp):
            want = "?"

        def make():
            es, b = system(False)
            c, d, e = solph.Bus("c"), solph.Bus("d"), solph.Bus("e")
            es.add(c, d, e)
            p = ex.PiecewiseLinearConverter(
                "p",
                inputs={n: solph.Flow(nominal_capacity=cap)
                        for n in (b, d)[:ni]},
                outputs={n: solph.Flow() for n in (c, e)[:no]},
                conversion_function=lambda x: x * x, in_breakpoints=bp,
                pw_repn=rep)
            es.add(p)
            solph.Model(es)

        judge(want, make, "PiecewiseLinearConverter(%s inputs, %s outputs, "
              "breakpoints %s, capacity %s)" % (ni, no, bp, cap),
              st, fail, outs)
    lens = (1, 2, 3)
    for a in itertools.product(lens, repeat=4):
        if 2 not in a and len(set(a)) == 1:
            continue
        want = None if set(a) == {2} else (
            "different lengths" if len(set(a)) > 1 else "?")

        def make():
            es, b = system(False)
            e, h = solph.Bus("e"), solph.Bus("h")
            es.add(e, h)
            v = dict(P_max_woDH=100.0, P_min_woDH=50.0, Eta_el_max_woDH=0.5,
                     Eta_el_min_woDH=0.4)
            v = {k: [x] * n for (k, x), n in zip(v.items(), a)}
            es.add(cmp.GenericCHP(
                fuel_input={b: solph.Flow(custom_properties={
                    "H_L_FG_share_max": [0.2] * 2})},
                electrical_output={e: solph.Flow(custom_properties=v)},
                heat_output={h: solph.Flow(custom_properties={
                    "Q_CW_min": [10.0] * 2})},
                beta=[0.1] * 2, back_pressure=False, label="chp"))
            solph.Model(es)

        judge(want, make, "GenericCHP(lengths %s)" % (a,), st, fail, outs)


def part_limits(task, st, fail, outs):
    """constraints for several flows"""
    for multi in (False, True):
        def base(props=True):
            es, b = system(multi)
            inv = val(life({"x": I(maximum=3)}, multi)["x"])
            inv2 = val(life({"x": I(maximum=3, custom_properties={
                "space": 2})}, multi)["x"])
            s = cmp.Source("s", outputs={b: solph.Flow(
                nominal_capacity=inv,
                custom_properties={"em": 1} if props else None)})
            t = cmp.Source("t", outputs={b: solph.Flow(
                nominal_capacity=inv2)})
            es.add(s, t)
            return solph.Model(es), b, s, t

        for lim in (None, 5, [5, 6]):
            def make():
                con.investment_limit_per_period(base()[0], limit=lim)

            want = ("only for several periods" if not multi else
                    "limit missing" if lim is None else None)
            judge(want, make, "investment_limit_per_period(limit=%s)%s" % (
                lim, " (several periods)" * multi), st, fail, outs)
            for sel in (None, "with", "without", "both"):
                def make():
                    m, b, s, t = base()
                    fl = {None: None, "with": [s], "without": [t],
                          "both": [s, t]}[sel]
                    fl = fl and {(n, b): m.flows[n, b] for n in fl}
                    con.generic_periodical_integral_limit(
                        m, "em", flows=fl, limit=lim)

                want = ("flow without the keyword"
                        if sel in ("without", "both") else
                        "only for several periods" if not multi else
                        "limit missing" if lim is None else None)
                judge(want, make,
                      "generic_periodical_integral_limit(%s, limit=%s)%s" % (
                          sel, lim, " (several periods)" * multi),
                      st, fail, outs)
        for up, lo, sel in itertools.product(
                (None, 5), (None, 0, 1), (None, "with", "without", "both")):
            def make():
                m, b, s, t = base()
                fl = {None: None, "with": [s], "without": [t],
                      "both": [s, t]}[sel]
                fl = fl and {(n, b): m.flows[n, b] for n in fl}
                con.generic_integral_limit(m, "em", flows=fl, upper_limit=up,
                                           lower_limit=lo)

            want = ("flow without the keyword"
                    if sel in ("without", "both") else
                    "no limit" if up is None and lo is None else None)
            judge(want, make, "generic_integral_limit(%s, %s, %s)%s" % (
                sel, up, lo, " (several periods)" * multi), st, fail, outs)


def part_system(task, st, fail, outs):
    """energy systems with typical periods"""
    seg = {"timesteps_per_period": 2, "order": [0, 1],
           "segments": {(0, 0): 1, (0, 1): 1, (1, 0): 1, (1, 1): 1}}
    pla = {"timesteps_per_period": 2, "order": [0, 1]}
    ix = pd.date_range("2020", periods=4, freq="h")
    jx = pd.date_range("2021", periods=4, freq="h")
    for kinds, inc in itertools.product(
            ([pla], [seg], [pla, pla], [seg, seg], [pla, seg], [seg, pla]),
            (None, [1] * 4, [1] * 8)):
        n = len(kinds)
        if inc is not None and len(inc) != 4 * n:
            continue
        multi = n == 2
        want = None
        if inc is not None and any("segments" in k for k in kinds):
            want = "increments given with segments"
        elif len({"segments" in k for k in kinds}) > 1:
            want = "segments in some periods only"
        elif inc is not None and not multi:
            want = "increments given with an index"
        elif inc is None and multi and "segments" not in kinds[0]:
            want = "?"

        def make():
            kw = dict(tsa_parameters=[dict(k) for k in kinds],
                      infer_last_interval=False,
                      timeindex=ix.append(jx) if multi else ix)
            if multi:
                kw["periods"] = [ix, jx]
            if inc is not None:
                kw["timeincrement"] = list(inc)
            elif not multi:
                kw["infer_last_interval"] = "segments" not in kinds[0]
            es = solph.EnergySystem(**kw)
            b = solph.Bus("b")
            es.add(b, cmp.Source("s", outputs={b: solph.Flow()}))
            solph.Model(es)

        judge(want, make, "EnergySystem(%s, timeincrement=%s)" % (
            ["segments" if "segments" in k else "plain" for k in kinds],
            inc), st, fail, outs)
    for lab, debug in itertools.product(
            (logging.DEBUG, logging.INFO, logging.WARNING, 5),
            (None, False, True)):
        def make():
            es, b = system(False)
            root = logging.getLogger()
            old = root.level
            root.setLevel(lab)
            try:
                solph.Model(es, **({} if debug is None else
                                   {"debug": debug}))
            finally:
                root.setLevel(old)

        judge("slow logging" if lab <= 10 and not debug else None, make,
              "Model(debug=%s), logging level %s" % (debug, lab),
              st, fail, outs)


PARTS = {k[5:]: v for k, v in list(globals().items())
         if k.startswith("part_")}
