"""Storages in models with several periods."""

import itertools

from .. import combos
from ..explore import letters, run_config as run, statics  # noqa: F401
from ..gen import AUX, AUXG, bus, share
from .M01 import STRUCT, periods
from .S01 import LOSS, lst, storage

RULE = (
    "every investment history over distinguishable amounts per period x every"
    " charging/discharging history on a grid; contents against the capacity"
    " that is installed in each period, complete costs"
)


def make(name, sn, inv, P=None, amounts=None, fi=None, fo=None, sin=None,
         sout=None, ff=None, ffo=None, dt=None, remaining=False, soc=(0.0,),
         **kw):
    ps = periods(sn)
    N = len(ps)
    T = sum(p["n"] for p in ps)
    amounts = amounts or [[0, 2 ** p] for p in range(N)]
    P = {
        k: lst(v, T + 1 if k.endswith("_level") else
               N if k.startswith("invest_rel") else T)
        for k, v in (P or {}).items()
    }
    inv = {
        k: (v[:N] if isinstance(v, list) and k != "fixed_costs" else v)
        for k, v in inv.items()
    }
    st = storage("s", "a", "b", investment=inv,
                 fi={"variable_costs": 1, **(ff or {})},
                 fo={"variable_costs": 2, **(ffo or {})}, **P)
    grid = {"sinv:s:%d" % p: [float(a) for a in amounts[p]] for p in range(N)}
    for key, am in (("a>s", sin), ("s>b", sout)):
        if am is not None:
            for p in range(N):
                grid["inv:%s:%d" % (key, p)] = [float(a) for a in am[p]]
    grid["soc:s"] = list(soc)
    ex = inv.get("existing", 0)
    tot = sum(max(a) for a in amounts) + ex
    fi = fi if fi is not None else [float(x) for x in range(int(tot) + 2)]
    fo = fo if fo is not None else [0.0, 1.0]
    return {
        "name": name,
        "time": {"dt": dt or [1.0] * T, "periods": ps,
                 **({"remaining": True} if remaining else {})},
        "nodes": [bus("a"), bus("b"), st] + AUX,
        "runs": [
            {
                "static": statics(grid),
                "alphabet": letters({"a>s": fi, "s>b": fo, **AUXG}, T),
            }
        ],
        **kw,
    }


def ratios():
    """ratios to the power of the flows that depend on the period"""
    out = []
    R = {
        "in": dict(invest_relation_input_capacity=0.5),
        "out": dict(invest_relation_output_capacity=2),
        "io": dict(invest_relation_input_output=2),
        "both": dict(invest_relation_input_capacity=[1, 0.5, 2],
                     invest_relation_output_capacity=[0.5, 1, 1]),
        "iol": dict(invest_relation_input_output=[1, 2, 0.5]),
    }
    for (r, rel), sn, (la, lb) in itertools.product(
        R.items(), ("y2", "uneven"), ((20, 20), (2, 20), (20, 2))
    ):
        N = len(STRUCT[sn])
        finv = dict(ep_costs=1, lifetime=lb)
        am = [[0, 1, 2]] * 2 if N == 2 else [[0, 2], [0, 1], [0, 1]]
        fam = [[0, 0.5, 1, 2]] * 2 if N == 2 else [[0, 1, 2], [0, 0.5], [0, 1]]
        out.append(
            make("rel-%s-%s-%d-%d" % (r, sn, la, lb), sn,
                 dict(ep_costs=1, lifetime=la), rel, amounts=am,
                 ff={"investment": finv}, ffo={"investment": finv},
                 sin=fam, sout=fam, fi=[0.0, 1.0], fo=[0.0])
        )
    return out


def tasks(tier):
    deep = tier == "thorough"
    out = []
    structs = ["y2", "y3", "gap", "uneven", "steps", "steps2", "one"]
    for sn in structs + (["late"] if deep else []):
        for life in (1, 2, 3, 5, 7, 10, 11, 25):
            for ex, age in ((0, 0), (3, 0), (3, 1), (3, 4)):
                if age >= life:
                    continue
                if not deep and age and life in (2, 5, 11) and sn != "uneven":
                    continue
                inv = dict(ep_costs=1, lifetime=life)
                if ex:
                    inv.update(existing=ex, age=age)
                N = len(STRUCT[sn])
                out.append(
                    make("tot-%s-%d-%d-%d" % (sn, life, ex, age), sn, inv,
                         amounts=[[0, 1 + p] for p in range(N)],
                         fo=[0.0, 2.0, 5.0],
                         fi=[0.0, 1.0, 2.0, 3.0, 4.0, 6.0, 8.0])
                )
    # bookkeeping only, longer structures: two capacities that are equal
    for sn in ("y4", "four", "five"):
        N = len(STRUCT[sn])
        T = N
        for life in (1, 2, 3, 4, 6, 20):
            for ex, age in ((0, 0), (1, 1)):
                if age >= life:
                    continue
                inv = dict(ep_costs=[1, 2, 3, 4, 5], lifetime=life,
                           fixed_costs=1)
                if ex:
                    inv.update(existing=ex, age=age)
                out.append(
                    make("book-%s-%d-%d" % (sn, life, ex), sn, inv,
                         amounts=[[0, 1, 2]] * N if N < 5 or deep
                         else [[0, 1]] * N, fi=[0.0], fo=[0.0])
                )
    # sizing limits
    lims = {
        "max": dict(maximum=2),
        "maxl": dict(maximum=[1, 3, 0, 2, 1]),
        "minl": dict(minimum=[0, 1, 2, 0, 1], maximum=[2, 3, 2, 2, 2]),
        "omax": dict(overall_maximum=3),
        "omin": dict(overall_minimum=2),
        "oboth": dict(overall_maximum=4, overall_minimum=2, existing=1),
        "omaxex": dict(overall_maximum=2, existing=1, age=1),
        "nc": dict(nonconvex=True, offset=3, maximum=3, minimum=1),
        "ncl": dict(nonconvex=True, offset=[1, 5, 2, 2, 3],
                    maximum=[2, 3, 3, 3, 2], minimum=[1, 0, 2, 1, 1]),
        "nco": dict(nonconvex=True, offset=[3, 1, 1, 1, 1], maximum=3,
                    overall_maximum=3, overall_minimum=1),
    }
    for sn in ("y3", "uneven", "one"):
        N = len(STRUCT[sn])
        for (k, lim), life in itertools.product(lims.items(), (2, 3, 20)):
            inv = dict(ep_costs=[2, 3, 1, 1, 1], lifetime=life, **lim)
            if inv.get("age", 0) >= life:
                continue
            out.append(
                make("lim-%s-%s-%d" % (sn, k, life), sn, inv,
                     amounts=[[0, 1, 2, 3]] * N, fi=[0.0, 2.0], fo=[0.0])
            )
    # levels and losses relative to the capacity of the period
    ops = {
        "max": dict(max_storage_level=0.5),
        "min": dict(min_storage_level=[0, 0.5, 0.25, 0, 0]),
        "levels": dict(max_storage_level=[1, 1, 0.5, 1, 1],
                       min_storage_level=[0, 0, 0.5, 0.25, 0]),
        "mid": dict(min_storage_level=[0, 0, 0.5, 0, 0]),
        "rel": dict(fixed_losses_relative=[0.25, 0, 0.5, 0.125]),
        "loss": dict(**LOSS["l"]),
        "eta": dict(inflow_conversion_factor=[0.5, 1, 0.25, 1],
                    outflow_conversion_factor=[1, 0.5, 0.5, 1]),
        "bal": dict(balanced=True),
        "free": dict(balanced=False),
        "costs": dict(storage_costs=[1, 3, -0.5, 2]),
        "cost": dict(storage_costs=2),
    }
    for (k, op), sn, life in itertools.product(
        ops.items(), ("y3", "uneven", "steps", "steps2"), (2, 20)
    ):
        N = len(STRUCT[sn])
        out.append(
            make("op-%s-%s-%d" % (k, sn, life), sn,
                 dict(ep_costs=1, lifetime=life), op,
                 amounts=[[0, 4]] + [[0, 2]] * (N - 1),
                 fi=[0.0, 0.5, 1.0, 2.0, 4.0], fo=[0.0, 0.5, 1.0, 2.0],
                 dt=[1.0, 2.0, 0.5, 1.0][: sum(
                     n for _, n in STRUCT[sn])] if len(k) == 4 else None,
                 soc=(0.0, 1.0) if k in ("bal", "free") else (0.0,))
        )
    # costs
    EP = {"s": 100, "l": [100, 70, 130, 90, 40]}
    FC = {
        "": {}, "f": dict(fixed_costs=3),
        "fl": dict(fixed_costs=[1, 2, 4, 3, 5, 7, 6, 2, 9, 1] * 4),
    }
    EX = {"": {}, "e": dict(existing=2, age=1)}
    NC = {"": {}, "nl": dict(nonconvex=True, offset=[11, 7, 23, 5, 3],
                             maximum=5, minimum=1)}
    for sn, life, (e, ep), (f, fc), (x, ex), (c, nc), rem in itertools.product(
        ("y3", "gap", "uneven", "steps2", "one"), (2, 3, 7, 20, 25),
        EP.items(), FC.items(), EX.items(), NC.items(), (False, True)
    ):
        if (ex and nc) or (ex and life < 2):
            continue
        n = share(sn, life, e, f, x, c, rem)
        if not deep and n % 8 > 3:
            continue
        N = len(STRUCT[sn])
        kw = ({}, {"discount_rate": 0.1}, {"discount_rate": 0})[n // 8 % 3]
        out.append(
            make("cost-%s-%d-%s-%s-%s-%s-%d" % (sn, life, e, f, x, c, rem),
                 sn, {"ep_costs": ep, "lifetime": life, **fc, **ex, **nc},
                 amounts=[[0, 1, 2.5]] * N, fi=[0.0], fo=[0.0],
                 remaining=rem, **kw)
        )
    out += ratios()
    # a storage of given size between periods
    for sn in ("y3", "steps2"):
        N = len(STRUCT[sn])
        T = sum(k for _, k in STRUCT[sn])
        st = storage("s", "a", "b", nominal_capacity=3, balanced=True,
                     initial_storage_level=1 / 3, fixed_costs=2,
                     storage_costs=0.5, loss_rate=0)
        out.append(
            {
                "name": "given-" + sn,
                "time": {"dt": [1.0] * T, "periods": periods(sn)},
                "nodes": [bus("a"), bus("b"), st] + AUX,
                "runs": [
                    {
                        "static": [{"soc:s": 1.0}],
                        "alphabet": letters(
                            {"a>s": [0, 1, 2], "s>b": [0, 1, 2], **AUXG}, T
                        ),
                    }
                ],
            }
        )
    return out + combos.more_s04(deep)
