"""Invested storage capacity and its coupling to the power of the flows."""

import itertools

from .. import combos
from ..explore import letters, run_config as run, statics  # noqa: F401
from ..gen import AUX, AUXG, bus, uniq
from ..ref import INF, at
from .S04 import ratios
from .S01 import DTS, ETA, FIX, LOSS, lst, storage
from .S02 import LVL

RULE = (
    "every invested storage capacity (and power) on a grid around each sizing"
    " limit x every initial content x every charging/discharging history"
)

INV = {
    "plain": dict(ep_costs=3),
    "minmax": dict(ep_costs=2.5, minimum=1, maximum=4),
    "exist": dict(ep_costs=2, existing=2),
    "exist0": dict(ep_costs=2, existing=2, maximum=0),
    "nc": dict(ep_costs=2, maximum=4, nonconvex=True, offset=7),
    "ncmin": dict(ep_costs=1, maximum=4, minimum=2, nonconvex=True, offset=3),
    "ncneg": dict(ep_costs=1, maximum=4, minimum=2, nonconvex=True,
                  offset=-3),
    "neg": dict(ep_costs=-1, maximum=4),
    "list": dict(ep_costs=[3], maximum=[4], minimum=[1]),
}


def caps(inv):
    lo, hi = at(inv.get("minimum", 0), 0), at(inv.get("maximum", "inf"), 0)
    xs = [0, lo, lo - 0.5, lo / 2 + 1]
    xs += [hi, hi + 0.5] if hi < INF else [4]
    return uniq(xs)


def tasks(tier):
    deep = tier == "thorough"
    out = []

    def add(name, inv, P, T, dts="eq", init=(0.0, 1.0, 2.0, 3.0),
            fi=(0, 1, 2), fo=(0, 1, 2), ff=None, ffo=None, sin=None,
            sout=None, amounts=None, **kw):
        dt, kind = DTS[dts]
        P = {
            k: lst(v, T + 1 if k.endswith("_level") else T)
            for k, v in P.items()
        }
        st = storage("s", "a", "b", investment=inv,
                     fi={"variable_costs": 1, **(ff or {})},
                     fo={"variable_costs": 2, **(ffo or {})}, **P)
        cfg = {
            "name": name, "time": {"dt": dt[:T], "kind": kind},
            "nodes": [bus("a"), bus("b"), st] + AUX, **kw,
        }
        grid = {"sinv:s:0": amounts or caps(inv)}
        if sin is not None:
            grid["inv:a>s:0"] = sin
        if sout is not None:
            grid["inv:s>b:0"] = sout
        grid["soc:s"] = list(init)
        cfg["runs"] = [
            {
                "static": statics(grid),
                "alphabet": letters(
                    {"a>s": list(map(float, fi)), "s>b": list(map(float, fo)),
                     **AUXG}, T,
                ),
            }
        ]
        out.append(cfg)

    # sizing rules and costs x levels
    for (a, inv), (b, lv), bal in itertools.product(
        INV.items(), LVL.items(), (True, False)
    ):
        inits = (None, 0.5) if deep else ((None,) if (len(a) + len(b)) % 2
                                          else (0.5,))
        for il in inits:
            P = {**lv, "balanced": bal}
            if il is not None:
                first = lambda v: (  # noqa
                    v["v"][0] if isinstance(v, dict)
                    else v[0] if isinstance(v, list) else v)
                if not (first(lv.get("min_storage_level", 0)) <= il
                        <= first(lv.get("max_storage_level", 1))):
                    continue
                P["initial_storage_level"] = il
            add("%s-%s-%s-%s" % (a, b, "bal" if bal else "free", il), inv, P,
                2 + (b in ("lend", "zero")), fi=(0, 1, 2), fo=(0, 1))
            if deep:
                add("d-%s-%s-%s-%s" % (a, b, "bal" if bal else "free", il),
                    inv, {**P, "storage_costs": [1, 0.5, -1]}, 3,
                    fi=(0, 1, 2), fo=(0, 1))
    # losses relative to the capacity
    for (a, lo), (b, fx), (c, et) in itertools.product(
        LOSS.items(), FIX.items(), ETA.items()
    ):
        if not deep and (len(a) + len(b) + len(c)) % 2:
            continue
        add("loss-%s-%s-%s" % (a, b, c),
            dict(ep_costs=1, existing=2, maximum=10),
            {**lo, **fx, **et, "balanced": False}, 3 if deep else 2, "num",
            amounts=[0, 6, 10], init=(1.0, 2.0, 4.0), fi=(0, 1, 3),
            fo=(0, 0.5, 1))
        add("lossb-%s-%s-%s" % (a, b, c),
            dict(ep_costs=1, minimum=2, maximum=10),
            {**lo, **fx, **et, "initial_storage_level": 0.5,
             "min_storage_level": 0.125}, 2, "dt",
            amounts=[2, 8], init=(1.0, 4.0), fi=(0, 0.25, 1, 3),
            fo=(0, 0.5, 1))
    for k, P in {
        "c": dict(storage_costs=2),
        "l": dict(storage_costs=[1, 3, -2, 0.5]),
    }.items():
        for d in DTS:
            for a in ("minmax", "nc"):
                add("cost-%s-%s-%s" % (k, d, a), INV[a],
                    {**P, "balanced": False}, 3 if deep else 2, d,
                    amounts=[0, 2, 4], init=(0.0, 2.0), fi=(0, 0.5, 1),
                    fo=(0, 0.5))
        add("cost-%s-ow" % k, INV["exist"], {**P, "balanced": False}, 2,
            "num", amounts=[0, 3], init=(0.0, 2.0), ow=[2.0, 0.5])
    # ratios between storage capacity and the power of the flows
    R = {
        "in": dict(invest_relation_input_capacity=0.5),
        "out": dict(invest_relation_output_capacity=2),
        "inout": dict(invest_relation_input_capacity=0.5,
                      invest_relation_output_capacity=0.25),
        "io": dict(invest_relation_input_output=2),
        "in-io": dict(invest_relation_input_capacity=0.5,
                      invest_relation_input_output=2),
        "out-io": dict(invest_relation_output_capacity=0.25,
                       invest_relation_input_output=0.5),
        "list": dict(invest_relation_input_capacity=[0.5],
                     invest_relation_output_capacity=[1]),
    }
    FI = {
        "plain": dict(ep_costs=1), "exist": dict(ep_costs=1, existing=1),
        "nc": dict(ep_costs=1, nonconvex=True, maximum=4, offset=2),
    }
    for (r, rel), (a, inv), (b, finv) in itertools.product(
        R.items(), (("plain", INV["plain"]), ("exist", INV["exist"]),
                    ("nc", INV["nc"])), FI.items()
    ):
        for il in (None, 0.5):
            if il and not deep and b != "plain":
                continue
            P = {**rel, "balanced": False}
            if il:
                P["initial_storage_level"] = il
            add("rel-%s-%s-%s-%s" % (r, a, b, il), inv, P, 1,
                ff={"investment": finv, "maximum": 0.5},
                ffo={"investment": finv, "minimum": 0.25},
                sin=[0, 0.5, 1, 2, 3], sout=[0, 0.25, 1, 2, 4],
                amounts=[0, 1, 2, 4], init=(0.0, 1.0, 2.0),
                fi=(0, 0.5, 1, 2), fo=(0, 0.5, 1, 4))
    # ratio of the flows of a storage with given capacity
    for k in ("plain", "exist"):
        st = storage("s", "a", "b", nominal_capacity=4, balanced=False,
                     invest_relation_input_output=2,
                     fi={"investment": FI[k]}, fo={"investment": FI[k]})
        out.append(
            {
                "name": "rel-fixed-" + k, "time": {"dt": [1.0]},
                "nodes": [bus("a"), bus("b"), st] + AUX,
                "runs": [
                    {
                        "static": statics(
                            {"inv:a>s:0": [0, 1, 2, 3, 4],
                             "inv:s>b:0": [0, 0.5, 1, 2],
                             "soc:s": [0.0, 2.0, 4.0]}
                        ),
                        "alphabet": letters(
                            {"a>s": [0, 1, 2, 4], "s>b": [0, 1, 2], **AUXG}, 1
                        ),
                    }
                ],
            }
        )
    # two invested storages and one of given size
    nodes = [
        bus("a"), bus("b"),
        storage("s", "a", "b", investment=INV["exist"], balanced=True,
                **LOSS["c"]),
        storage("r", "a", "b", investment=INV["ncmin"],
                initial_storage_level=0, balanced=False, storage_costs=1),
        storage("q", "a", "b", nominal_capacity=2, balanced=False,
                initial_storage_level=0.5),
    ]
    out.append(
        {
            "name": "three", "time": {"dt": [1.0, 1.0]},
            "nodes": nodes + AUX,
            "runs": [
                {
                    "static": statics(
                        {"sinv:s:0": [0, 1], "sinv:r:0": [0, 1, 2],
                         "soc:s": [0.0, 1.0], "soc:r": [0.0], "soc:q": [1.0]}
                    ),
                    "alphabet": letters(
                        {"a>s": [0, 0.1], "s>b": [0, 0.09], "a>r": [0, 1],
                         "r>b": [0, 1], "a>q": [0, 1], "q>b": [0, 1],
                         **AUXG}, 2,
                    ),
                }
            ],
        }
    )
    # ratios that depend on the period
    for c in ratios():
        out.append({**c, "name": "periods-" + c["name"]})
    return out + combos.more("S03", deep)
