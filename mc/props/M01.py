"""Installed capacity over several periods."""

import itertools

from .. import combos
from ..explore import letters, run_config as run, statics  # noqa: F401
from ..gen import AUX, AUXG, bus, snk, src
from ..ref import Ctx

RULE = (
    "every investment history over distinguishable amounts per period x every"
    " flow value up to above the sum of all amounts in every period; the"
    " installed capacity of every accepted history is compared as well"
)

# one interval per period unless stated otherwise
STRUCT = {
    "y2": [("2020", 1), ("2021", 1)],
    "y3": [("2020", 1), ("2021", 1), ("2022", 1)],
    "y4": [("2020", 1), ("2021", 1), ("2022", 1), ("2023", 1)],
    "gap": [("2020", 1), ("2030", 1), ("2040", 1)],
    "uneven": [("2020", 1), ("2022", 1), ("2027", 1)],
    "late": [("2021", 1), ("2022", 1), ("2032", 1)],
    "four": [("2020", 1), ("2021", 1), ("2025", 1), ("2026", 1)],
    "five": [("2020", 1), ("2022", 1), ("2024", 1), ("2026", 1),
             ("2028", 1)],
    "steps": [("2020", 2), ("2025", 1)],
    "steps2": [("2020", 1), ("2023", 2)],
    "one": [("2020", 2)],
}


def periods(name):
    return [{"start": s, "n": n} for s, n in STRUCT[name]]


def make(name, sn, inv, op=None, amounts=None, role="src", dt=None,
         values=None, extra=None, **kw):
    ps = periods(sn)
    P = len(ps)
    T = sum(p["n"] for p in ps)
    amounts = amounts or [[0, 2 ** p] for p in range(P)]
    ex = inv.get("existing", 0)
    F = {"variable_costs": 0.5, **(op or {}), "investment": inv}
    key = {"src": "s>b", "snk": "b>s"}[role]
    nodes = [bus("b"), (src if role == "src" else snk)("s", "b", **F)]
    cfg = {
        "name": name,
        "time": {"dt": dt or [1.0] * T, "periods": ps,
                 **({"remaining": True} if kw.pop("remaining", None) else {})},
        "nodes": nodes + AUX, **kw,
    }
    ctx = Ctx(cfg)
    if values is None:
        top = ex + sum(max(a) for a in amounts)
        allv = {0, top + 1}
        # every sum of a subset of the amounts
        sets = [sorted({0, ex})] + [sorted({0, *a}) for a in amounts]
        for c in itertools.product(*sets):
            allv.add(sum(c))
        allv = sorted(float(v) for v in allv)
        if len(allv) ** T > 40000:
            allv = allv[:: 2] + [allv[-2]]
            allv = sorted(set(allv))
        values = [allv] * T
    del ctx
    cfg["runs"] = [
        {
            "static": statics(
                {"inv:%s:%d" % (key, p): [float(a) for a in amounts[p]]
                 for p in range(P)}
            ),
            "alphabet": letters({key: values, **AUXG}, T),
        }
    ]
    return cfg


def tasks(tier):
    deep = tier == "thorough"
    out = []
    structs = ["y3", "gap", "uneven", "late", "steps2", "one"]
    if deep:
        structs = list(STRUCT)
    else:
        structs.append("y4")
    for sn in structs:
        P = len(STRUCT[sn])
        big = len(STRUCT[sn]) >= 4
        for life in (1, 2, 3, 5, 7, 10, 11, 25):
            for ex, age in ((0, 0), (8, 0), (8, 1), (8, 4)):
                if age >= life:
                    continue
                if big and (ex == 0 or age == 4):
                    if not deep:
                        continue
                if big and life > 11:
                    continue
                inv = dict(ep_costs=1, lifetime=life)
                if ex:
                    inv.update(existing=ex, age=age)
                # flow equals capacity: minimum = maximum = 1
                amounts = None
                if big:
                    inv["existing"] = 0
                    inv.pop("existing")
                    if ex:
                        inv["existing"] = 1
                    amounts = [[0, 2 ** (p % 3)] for p in range(P)]
                    op = {"fix": 1}
                    top = float(
                        sum(max(a) for a in amounts) + inv.get("existing", 0)
                    )
                    T = sum(n for _, n in STRUCT[sn])
                    vals = [
                        [float(x) for x in range(int(top) + 1)]
                    ] * T if T <= 4 else [[0.0, 1.0, 2.0, 4.0]] * T
                    out.append(
                        make("tot-%s-%d-%d-%d" % (sn, life, ex, age), sn, inv,
                             op, amounts, values=vals)
                    )
                else:
                    out.append(
                        make("tot-%s-%d-%d-%d" % (sn, life, ex, age), sn, inv,
                             role="snk" if life % 2 else "src")
                    )
    # limits
    lims = {
        "max": dict(maximum=2),
        "maxl": dict(maximum=[1, 3, 0, 2, 1]),
        "min": dict(minimum=1),
        "minl": dict(minimum=[0, 1, 2, 0, 1], maximum=[2, 3, 2, 2, 2]),
        "omax": dict(overall_maximum=3),
        "omin": dict(overall_minimum=2),
        "oboth": dict(overall_maximum=4, overall_minimum=2, existing=1),
        "omaxex": dict(overall_maximum=2, existing=1, age=1),
        "omin0": dict(overall_minimum=1, existing=2, age=1),
        "nc": dict(nonconvex=True, offset=3, maximum=3, minimum=1),
        "ncl": dict(nonconvex=True, offset=[1, 5, 2, 2, 3],
                    maximum=[2, 3, 3, 3, 2], minimum=[1, 0, 2, 1, 1]),
        "nco": dict(nonconvex=True, offset=[3, 1, 1, 1, 1], maximum=3,
                    overall_maximum=3, overall_minimum=1),
    }
    for sn in ("y3", "uneven", "one", "steps2"):
        P = len(STRUCT[sn])
        T = sum(n for _, n in STRUCT[sn])
        for k, lim in lims.items():
            for life in (2, 3, 20):
                inv = dict(ep_costs=[2, 3, 1, 1, 1][:P], lifetime=life)
                for q, v in lim.items():
                    inv[q] = v[:P] if isinstance(v, list) else v
                if inv.get("age", 0) >= life:
                    continue
                amounts = [[0.0, 1.0, 2.0, 3.0]] * P
                vals = [[0.0, 1.0, 3.0, 5.0]] * T
                out.append(
                    make("lim-%s-%s-%d" % (sn, k, life), sn, inv, None,
                         amounts, values=vals)
                )
    # operation
    ops = {
        "min": dict(minimum=0.5),
        "minl": dict(minimum=[0, 0.5, 1, 0]),
        "maxl": dict(maximum=[0.5, 1, 0, 2]),
        "fix": dict(fix=[1, 0.5, 2, 1]),
        "flhmax": dict(full_load_time_max=0.5),
        "flhmin": dict(full_load_time_min=0.5),
        "bi": dict(minimum=-1),
    }
    for sn in ("y3", "uneven", "steps", "steps2"):
        T = sum(n for _, n in STRUCT[sn])
        P = len(STRUCT[sn])
        for k, op in ops.items():
            op = {q: (v[:T] if isinstance(v, list) else v)
                  for q, v in op.items()}
            for life in (2, 4):
                inv = dict(ep_costs=2, lifetime=life, existing=2, age=1)
                vals = [[-2.0, -1.0, 0.0, 0.5, 1.0, 2.0, 3.0, 4.0, 8.0]] * T
                out.append(
                    make("op-%s-%s-%d" % (sn, k, life), sn, inv, op,
                         [[0, 2]] * P, values=vals,
                         dt=[1.0, 2.0, 0.5, 1.0][:T])
                )
    # on/off flows (known finding: no bookkeeping at all)
    out.append(
        make("nonconvex", "y2", dict(lifetime=3, maximum=4),
             {"nonconvex": {}, "minimum": 0.5}, [[1], [0]],
             values=[[0.0, 0.5, 1.0]] * 2)
    )
    # ... which does not matter if nothing outlives its period, and if future
    # costs are not discounted
    for sn in ("y2", "y3", "gap", "uneven", "steps2"):
        P = len(STRUCT[sn])
        T = sum(n for _, n in STRUCT[sn])
        for k, inv in {
            "plain": dict(ep_costs=[2, 3, 1], maximum=[2, 3, 1]),
            "min": dict(ep_costs=4, maximum=2, minimum=[0, 1, 2]),
            "off": dict(ep_costs=[1, 2, 5], maximum=[2, 1, 3], minimum=1,
                        nonconvex=True, offset=[5, 1, 3]),
            "offu": dict(ep_costs=2, maximum=[1, 2, 1], minimum=[1, 1.5, 0],
                         nonconvex=True, offset=[5, 1, 3]),
        }.items():
            for q, op in {
                "free": {"nonconvex": {}},
                "min": {"nonconvex": {"startup_costs": 1.5}, "minimum": 0.5,
                        "maximum": 1},
                "list": {"nonconvex": {"initial_status": 1},
                         "minimum": [0.5, 0, 0.25][:T],
                         "maximum": [1, 0.5, 2][:T]},
            }.items():
                i = {a: v[:P] if isinstance(v, list) else v
                     for a, v in inv.items()}
                out.append(make(
                    "ncshort-%s-%s-%s" % (sn, k, q), sn, {**i, "lifetime": 1},
                    op, [[0.0, 1.0, 2.0]] * P,
                    values=[[0.0, 0.25, 0.5, 1.0, 2.0][:5 if T < 3 else 4]]
                    * T, discount_rate=0.0,
                    role="snk" if k == "min" else "src"))
    # two invested flows in one model
    for sn in ("y3", "gap"):
        ps = periods(sn)
        nodes = [
            bus("b"),
            src("s", "b", variable_costs=1, minimum=1,
                investment=dict(ep_costs=1, lifetime=2)),
            snk("d", "b", variable_costs=2, minimum=1,
                investment=dict(ep_costs=2, lifetime=15, existing=1, age=3)),
        ]
        out.append(
            {
                "name": "two-" + sn,
                "time": {"dt": [1.0] * 3, "periods": ps},
                "nodes": nodes + AUX,
                "runs": [
                    {
                        "static": statics(
                            {
                                **{"inv:s>b:%d" % p: [0.0, 1.0]
                                   for p in range(3)},
                                **{"inv:b>d:%d" % p: [0.0, 1.0]
                                   for p in range(3)},
                            }
                        ),
                        "alphabet": letters(
                            {"s>b": [0, 1, 2, 3], "b>d": [0, 1, 2, 3],
                             **AUXG}, 3,
                        ),
                    }
                ],
            }
        )
    return out + combos.more("M01", deep)
