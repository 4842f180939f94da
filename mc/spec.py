"""Configurations (plain JSON data) and their translation into the real
oemof.solph objects.  The reference interpretation of the same data is in
``ref.py`` and shares no code with this module."""

import copy
import functools
import warnings
import zlib

import numpy as np
import pandas as pd

warnings.simplefilter("ignore")

from oemof import solph  # noqa: E402
from oemof.solph import constraints as sc  # noqa: E402

from . import user  # noqa: E402

INF = float("inf")
# the classes to be used
LIB = user.LIB
# when set to a list: everything handed to solph is noted here
GIVEN = None


def given(x):
    if GIVEN is not None:
        GIVEN.append((x, copy.deepcopy(x)))
    return x


def given_map(x):
    """the values may be objects: only noted as the ones that were given"""
    if GIVEN is not None:
        GIVEN.append((x, dict(x)))
    return x


# the kind of sequence that is used where a configuration does not care
FORM = None
KINDS = ("list", "np", "series", "tuple", "scalar")


def _val(v, form=None):
    """JSON value -> parameter value handed to solph."""
    return given(_value(v, form))


def _value(v, form=None):
    if isinstance(v, dict) and "form" in v:
        form, v = v["form"], v["v"]
    if v == "inf":
        return INF
    if isinstance(v, list):
        v = [INF if x == "inf" else x for x in v]
        form = form or FORM
        if form in ("np", "scalar"):
            return np.array(v)
        if form == "series":
            return pd.Series(v, index=pd.date_range("2020", periods=len(v)))
        if form == "tuple":
            return tuple(v)
        return list(v)
    if FORM == "scalar" and type(v) in (int, float):
        return np.int64(v) if type(v) is int else np.float64(v)
    return v


def investment(d):
    return LIB.Investment(**{k: _val(v) for k, v in d.items()})


def flow(d):
    return user.flow(d, plain_flow)


def plain_flow(d):
    d = dict(d)
    kw = {}
    inv = d.pop("investment", None)
    if inv is not None:
        kw["nominal_capacity"] = investment(inv)
    nc = d.pop("nonconvex", None)
    if nc is not None:
        kw["nonconvex"] = LIB.NonConvex(**{k: _val(v) for k, v in nc.items()})
    for k, v in d.items():
        if k == "custom_properties":
            # the library asks for lists here (components with parameters
            # in the properties of their flows)
            kw[k] = given({a: _val(x, "list" if FORM == "series" else None)
                           for a, x in v.items()})
        else:
            kw[k] = _val(v)
    return LIB.Flow(**kw)


class Built:
    pass


FORMS = {
    "list": list, "tuple": tuple, "np": np.array, "index": pd.Index,
    "series": pd.Series, "ints": lambda v: [int(x) for x in v],
    "npint": lambda v: np.array([int(x) for x in v]),
    "range": lambda v: range(int(v[0]), int(v[-1]) + 1, int(v[1] - v[0])),
    "f32": lambda v: np.array(v, dtype="float32"),
}


def axis(a):
    """Arguments of EnergySystem for one way of writing down a time axis.

    form/pts: numeric points;  start/hours: dates;  inc_form/inc: increments;
    start/freq/n: pandas date_range"""
    kw = {}
    if "pts" in a:
        kw["timeindex"] = FORMS[a["form"]](a["pts"])
    elif "hours" in a:
        z = pd.Timestamp(a["start"])
        if a.get("tz"):
            z = z.tz_localize("UTC")
        x = pd.DatetimeIndex([z + pd.Timedelta(hours=h) for h in a["hours"]])
        if a.get("tz"):
            x = x.tz_convert(a["tz"])
        if a.get("freq"):
            x.freq = pd.Timedelta(hours=a["hours"][1] - a["hours"][0])
        kw["timeindex"] = x
    elif "freq" in a:
        x = pd.date_range(
            a["start"], periods=a["n"], freq=a["freq"], tz=a.get("tz")
        )
        if a.get("nofreq"):
            x = pd.DatetimeIndex(list(x))
        kw["timeindex"] = x
    elif "raw" in a:
        kw["timeindex"] = a["raw"]
    if "inc" in a:
        kw["timeincrement"] = FORMS[a["inc_form"]](a["inc"])
    if "infer" in a:
        kw["infer_last_interval"] = a["infer"]
    return kw


def make_es(cfg):
    tm = cfg["time"]
    system = functools.partial(
        user.EnergySystem if cfg.get("classes") == "own"
        else solph.EnergySystem,
        **user.system_args(cfg.get("user", {}))
    )
    tsa = copy.deepcopy(tm.get("tsa"))
    for q in tsa or []:
        if "segments" in q:
            q["segments"] = {
                (k, s): x
                for k, row in enumerate(q["segments"])
                for s, x in enumerate(row)
            }
    seg = bool(tsa) and "segments" in tsa[0]
    if tsa and tm.get("single"):
        # one period: the parameters may be given without a list
        (tsa,) = tsa
    if "periods" in tm:
        # [{"start": "2020", "n": 2}, ...] equidistant steps in each period
        parts = [
            pd.date_range(p["start"], periods=p["n"], freq=p.get("freq", "h"))
            for p in tm["periods"]
        ]
        given(parts)
        given(tsa)
        idx = parts[0]
        for q in parts[1:]:
            idx = idx.append(q)
        kw = {}
        if tm.get("remaining"):
            kw["use_remaining_value"] = True
        return system(
            timeindex=idx,
            timeincrement=None if seg else list(tm["dt"]),
            periods=parts,
            infer_last_interval=False,
            tsa_parameters=tsa,
            **kw,
        )
    dt = tm["dt"]
    kind = tm.get("kind", "num")
    pts = np.cumsum([0.0] + [float(x) for x in dt])
    if kind == "num":
        idx = list(pts)
    elif kind == "dt":
        idx = pd.DatetimeIndex(
            [pd.Timestamp("2021-03-01") + pd.Timedelta(hours=h) for h in pts]
        )
    elif kind == "infer":
        # equidistant date index without the last point
        idx = pd.date_range(
            "2021-03-01", periods=len(dt), freq=pd.Timedelta(hours=dt[0])
        )
        if tm.get("nofreq"):
            idx = pd.DatetimeIndex(list(idx))
        return system(
            timeindex=given(idx),
            infer_last_interval=True,
            tsa_parameters=given(tsa),
        )
    elif kind == "seg":
        # aggregated: the original resolution, one point for each interval
        idx = pd.date_range(
            "2021-03-01", periods=len(dt), freq=pd.Timedelta(hours=1)
        )
    elif kind == "axis":
        kw = axis(tm["axis"])
        return system(**kw)
    elif kind == "tinc":
        return system(timeincrement=list(dt), tsa_parameters=tsa)
    else:
        raise ValueError(kind)
    return system(
        timeindex=given(idx),
        infer_last_interval=False,
        tsa_parameters=given(tsa),
    )


def make_nodes(cfg):
    """-> dict label -> node (creation order = cfg order)"""
    nodes = {}
    # optional: other names for the nodes
    names = cfg.get("labels", {})

    def bus(lbl):
        return nodes[lbl]

    late = []
    for d in cfg["nodes"]:
        if d["k"] == "bus":
            kw = {}
            # flows from and to buses that exist already are given to the
            # constructor, the others are added later
            far = set(d.get("in", {})) | set(d.get("out", {}))
            if far and far <= set(nodes):
                kw["inputs"] = {
                    bus(b): flow(f) for b, f in d.get("in", {}).items()
                }
                kw["outputs"] = {
                    bus(b): flow(f) for b, f in d.get("out", {}).items()
                }
            else:
                late.append(d["n"])
            nodes[d["n"]] = LIB.Bus(
                label=names.get(d["n"], d["n"]),
                balanced=d.get("balanced", True),
                **kw,
            )
    for d in cfg["nodes"]:
        if d["n"] in late:
            for b, f in d.get("in", {}).items():
                nodes[d["n"]].inputs[bus(b)] = flow(f)
            for b, f in d.get("out", {}).items():
                nodes[d["n"]].outputs[bus(b)] = flow(f)
    for d in cfg["nodes"]:
        k = d["k"]
        if k == "bus":
            continue
        lbl = d["n"]
        ins = given_map({bus(b): flow(f) for b, f in d.get("in", {}).items()})
        outs = given_map(
            {bus(b): flow(f) for b, f in d.get("out", {}).items()}
        )
        C = LIB
        if k == "source":
            cls = user.CLASSES.get((k, d.get("user")), C.Source)
            nd = cls(label=names.get(lbl, lbl), outputs=outs)
        elif k == "sink":
            cls = user.CLASSES.get((k, d.get("user")), C.Sink)
            nd = cls(label=names.get(lbl, lbl), inputs=ins)
        elif k == "converter":
            kw = {}
            if "cf" in d:
                kw["conversion_factors"] = given_map({
                    bus(b): _val(v) for b, v in d["cf"].items()
                })
            nd = C.Converter(label=names.get(lbl, lbl), inputs=ins, outputs=outs, **kw)
        elif k == "link":
            kw = {}
            if "cf" in d:
                kw["conversion_factors"] = given_map({
                    (bus(a), bus(b)): _val(v) for a, b, v in d["cf"]
                })
            nd = C.Link(label=names.get(lbl, lbl), inputs=ins, outputs=outs, **kw)
        elif k == "offset":
            kw = {}
            if "cf" in d:
                kw["conversion_factors"] = given_map({
                    bus(b): _val(v) for b, v in d["cf"].items()
                })
            if "off" in d:
                kw["normed_offsets"] = given_map({
                    bus(b): _val(v) for b, v in d["off"].items()
                })
            if "coeff" in d:
                # deprecated way to describe the line
                kw["coefficients"] = tuple(_val(v) for v in d["coeff"])
            nd = C.OffsetConverter(label=names.get(lbl, lbl), inputs=ins, outputs=outs, **kw)
        elif k == "exturb":
            nd = C.ExtractionTurbineCHP(
                label=names.get(lbl, lbl),
                inputs=ins,
                outputs=outs,
                conversion_factors=given_map({
                    bus(b): _val(v) for b, v in d["cf"].items()
                }),
                conversion_factor_full_condensation=given_map({
                    bus(b): _val(v) for b, v in d["cff"].items()
                }),
            )
        elif k == "gchp":
            fi = d["fuel"]
            kw = {
                "fuel_input": given_map({bus(fi[0]): flow(fi[1])}),
                "electrical_output": given_map({bus(d["el"][0]): flow(d["el"][1])}),
                "heat_output": given_map({bus(d["heat"][0]): flow(d["heat"][1])}),
                "beta": _val(d["beta"]),
                "back_pressure": d["bp"],
            }
            nd = C.GenericCHP(label=names.get(lbl, lbl), **kw)
        elif k == "pwl":
            table = d["table"]
            nd = C.PiecewiseLinearConverter(
                label=names.get(lbl, lbl),
                inputs=ins,
                outputs=outs,
                in_breakpoints=given(list(d["bp"])),
                conversion_function=lambda x, t=table: float(
                    np.interp(x, t[0], t[1])
                ),
                pw_repn=d.get("repn", "CC"),
            )
        elif k == "caes":
            nd = C.GenericCAES(
                label=names.get(lbl, lbl),
                electrical_input={bus(d["el"]): ins[bus(d["el"])]},
                fuel_input={bus(d["gas"]): ins[bus(d["gas"])]},
                electrical_output=outs,
                params=given(dict(d["params"])),
            )
        elif k == "storage":
            kw = {
                q: _val(v)
                for q, v in d.items()
                if q not in ("k", "n", "in", "out", "investment")
            }
            if "investment" in d:
                kw["nominal_capacity"] = investment(d["investment"])
            nd = C.GenericStorage(label=names.get(lbl, lbl), inputs=ins, outputs=outs, **kw)
        else:
            raise ValueError(k)
        nodes[lbl] = nd
    return nodes


def turn(n, k):
    """One of the orders: given, reversed, rotated, reversed and rotated"""
    o = list(range(n))
    if k % 2:
        o.reverse()
    k = k // 2 % (n + 1) if n else 0
    return o[k:] + o[:k]


def build_es(cfg, order=None):
    global LIB, FORM
    es = make_es(cfg)
    number = zlib.crc32(cfg.get("name", "").encode())
    FORM = cfg.get("form") or KINDS[number // 64 % len(KINDS)]
    LIB = user.OWN if cfg.get("classes") == "own" else user.LIB
    try:
        nodes = make_nodes(cfg)
    finally:
        LIB = user.LIB
    labels = list(nodes)
    if order is None:
        # the order of the nodes must not matter
        order = turn(len(labels), number)
    if order:
        labels = [labels[i] for i in order]
    es.add(*[nodes[x] for x in labels])
    return es, nodes


def build(cfg, order=None):
    """Build the real model for a configuration."""
    es, nodes = build_es(cfg, order)
    kw = {}
    if "ow" in cfg:
        kw["objective_weighting"] = list(cfg["ow"])
    if "discount_rate" in cfg:
        kw["discount_rate"] = cfg["discount_rate"]
    if "model_inc" in cfg["time"]:
        kw["timeincrement"] = list(cfg["time"]["model_inc"])
    u = cfg.get("user", {})
    cls = user.ModelA if u.get("model") == "A" else solph.Model
    m = cls(es, **kw, **user.model_args(u))
    b = Built()
    b.es, b.nodes, b.m = es, nodes, m
    for c in cfg.get("constraints", []):
        apply_constraint(b, c)
    return b


def _fl(b, pairs):
    return [(b.nodes[i], b.nodes[o]) for i, o in pairs]


def _group(b, pairs):
    """any kind of iterable"""
    x = _fl(b, pairs)
    return {"np": iter, "scalar": dict.fromkeys, "tuple": tuple,
            "series": lambda y: (z for z in y)}.get(FORM, list)(x)


def limits(c):
    """only the limits that are given"""
    return {k + "_limit": c[k] for k in ("lower", "upper") if k in c}


def apply_constraint(b, c):
    m = b.m
    k = c["c"]
    if k == "emission_limit":
        kw = {}
        if "flows" in c:
            kw["flows"] = {
                (b.nodes[i], b.nodes[o]): m.flows[b.nodes[i], b.nodes[o]]
                for i, o in c["flows"]
            }
        if "limit" in c:
            kw["limit"] = c["limit"]
        sc.emission_limit(m, **kw)
    elif k == "emission_limit_per_period":
        kw = {}
        if "flows" in c:
            kw["flows"] = {
                (b.nodes[i], b.nodes[o]): m.flows[b.nodes[i], b.nodes[o]]
                for i, o in c["flows"]
            }
        sc.emission_limit_per_period(m, limit=_val(c["limit"]), **kw)
    elif k == "integral_per_period":
        from oemof.solph.constraints.integral_limit import (
            generic_periodical_integral_limit,
        )

        kw = {}
        if "flows" in c:
            kw["flows"] = {
                (b.nodes[i], b.nodes[o]): m.flows[b.nodes[i], b.nodes[o]]
                for i, o in c["flows"]
            }
        generic_periodical_integral_limit(
            m, c["keyword"], limit=_val(c["limit"]), **kw
        )
    elif k == "integral":
        kw = {}
        if "flows" in c:
            kw["flows"] = {
                (b.nodes[i], b.nodes[o]): m.flows[b.nodes[i], b.nodes[o]]
                for i, o in c["flows"]
            }
        if "upper" in c:
            kw["upper_limit"] = c["upper"]
        if "lower" in c:
            kw["lower_limit"] = c["lower"]
        if "limit_name" in c:
            kw["limit_name"] = c["limit_name"]
        sc.generic_integral_limit(m, keyword=c["keyword"], **kw)
    elif k == "investment_limit":
        sc.investment_limit(m, limit=c["limit"])
    elif k == "investment_limit_per_period":
        sc.investment_limit_per_period(m, limit=_val(c["limit"]))
    elif k == "additional":
        sc.additional_investment_flow_limit(
            m, c["keyword"], limit=c["limit"]
        )
    elif k == "equate_flows":
        sc.equate_flows(
            m, _group(b, c["f1"]), _group(b, c["f2"]), c.get("factor", 1),
            **({"name": c["name"]} if "name" in c else {}),
        )
    elif k == "equate_kw":
        sc.equate_flows_by_keyword(
            m, c["k1"], c["k2"], c.get("factor", 1),
            **({"name": c["name"]} if "name" in c else {}),
        )
    elif k == "equate_invest":
        v1 = _inv(b, c["v1"], c.get("p1", 0))
        v2 = _inv(b, c["v2"], c.get("p2", 0))
        kw = {}
        if "factor" in c:
            kw["factor1"] = c["factor"]
        if "name" in c:
            kw["name"] = c["name"]
        sc.equate_variables(m, v1, v2, **kw)
    elif k == "count":
        sc.limit_active_flow_count(
            m, c["name"], _fl(b, c["flows"]),
            **limits(c),
        )
    elif k == "count_kw":
        sc.limit_active_flow_count_by_keyword(
            m, c["keyword"], **limits(c),
        )
    elif k == "shared":
        q = c["quantity"]
        if q == "storage_content":
            quantity = m.GenericStorageBlock.storage_content
            comps = [b.nodes[x] for x in c["comps"]]
        elif q == "invest_storage_content":
            quantity = m.GenericInvestmentStorageBlock.storage_content
            comps = [b.nodes[x] for x in c["comps"]]
        elif q == "flow":
            quantity = m.flow
            comps = [tuple(b.nodes[y] for y in x) for x in c["comps"]]
        else:
            raise ValueError(q)
        sc.shared_limit(
            m, quantity, c["name"], comps, c["weights"],
            **limits(c),
        )
    elif k == "storage_level":
        sc.storage_level_constraint(
            m,
            c["name"],
            b.nodes[c["storage"]],
            b.nodes[c["bus"]],
            input_levels=given_map({b.nodes[x]: v for x, v in c.get("inp", {}).items()}),
            output_levels=given_map({b.nodes[x]: v for x, v in c.get("out", {}).items()}),
        )
    else:
        raise ValueError(k)


def _inv(b, key, p):
    if isinstance(key, str):
        return b.m.GenericInvestmentStorageBlock.invest[b.nodes[key], p]
    i, o = key
    n = (b.nodes[i], b.nodes[o])
    blk = b.m.InvestmentFlowBlock
    if (*n, p) in blk.invest:
        return blk.invest[(*n, p)]
    return b.m.InvestNonConvexFlowBlock.invest[(*n, p)]


def variable(b, key):
    """Observation key -> real pyomo variable."""
    kind = key[0]
    if kind == "f":
        _, i, o, t = key
        return b.m.flow[b.nodes[i], b.nodes[o], t]
    if kind == "inv":
        _, i, o, p = key
        n = (b.nodes[i], b.nodes[o])
        f = b.m.flows[n]
        if f.nonconvex is not None:
            return b.m.InvestNonConvexFlowBlock.invest[(*n, p)]
        return b.m.InvestmentFlowBlock.invest[(*n, p)]
    if kind == "tot":
        _, i, o, p = key
        return b.m.InvestmentFlowBlock.total[b.nodes[i], b.nodes[o], p]
    if kind == "sinv":
        _, n, p = key
        return b.m.GenericInvestmentStorageBlock.invest[b.nodes[n], p]
    if kind == "soc":
        _, n, t = key
        nd = b.nodes[n]
        for nm in ("GenericStorageBlock", "GenericInvestmentStorageBlock"):
            blk = b.m.find_component(nm)
            if blk is not None and hasattr(blk, "storage_content"):
                if (nd, t) in blk.storage_content:
                    return blk.storage_content[nd, t]
            if blk is not None and hasattr(blk, "inter_storage_content"):
                if (nd, t) in blk.inter_storage_content:
                    return blk.inter_storage_content[nd, t]
        raise KeyError(key)
    raise KeyError(key)
