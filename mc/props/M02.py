"""Costs of investments over several periods."""

import itertools

from .. import combos
from ..explore import letters, run_config as run, statics  # noqa: F401
from ..gen import AUX, AUXG, bus, share, snk, src
from .M01 import STRUCT, make

RULE = (
    "every investment history over several amounts per period, for every"
    " combination of lifetimes, cost series, discounting, remaining value and"
    " fixed costs; the total cost has to be exact"
)


def tasks(tier):
    deep = tier == "thorough"
    out = []
    EP = {
        "s": dict(ep_costs=100),
        "l": dict(ep_costs=[100, 70, 130, 90, 40]),
        "neg": dict(ep_costs=[-10, 20, 0, 5, 1]),
    }
    FC = {
        "": {},
        "f": dict(fixed_costs=3),
        "fl": dict(fixed_costs=[1, 2, 4, 3, 5, 7, 6, 2, 9, 1] * 4),
    }
    EX = {"": {}, "e": dict(existing=2, age=1), "e0": dict(existing=1.5)}
    NC = {
        "": {},
        "n": dict(nonconvex=True, offset=11, maximum=5),
        "nl": dict(nonconvex=True, offset=[11, 7, 23, 5, 3], maximum=5,
                   minimum=1),
    }
    structs = ["y3", "gap", "uneven", "steps2", "one", "four"]
    if deep:
        structs = list(STRUCT)
    lifes = (1, 2, 3, 7, 10, 20, 25)
    for sn, life, (e, ep), (f, fc), (x, ex), (c, nc), rem in itertools.product(
        structs, lifes, EP.items(), FC.items(), EX.items(), NC.items(),
        (False, True),
    ):
        if ex and nc:
            continue
        if ex.get("age", 0) >= life:
            continue
        n = share(sn, life, e, f, x, c, rem)
        if not deep and (n % 4) and not (e == "l" and life in (3, 20)):
            continue
        P = len(STRUCT[sn])
        T = sum(k for _, k in STRUCT[sn])
        inv = {"lifetime": life, **ep, **ex, **nc}
        for q, v in fc.items():
            inv[q] = v
        for q in ("ep_costs", "offset"):
            if isinstance(inv.get(q), list):
                inv[q] = inv[q][:P]
        am = [[0.0, 1.0, 2.5]] * P if P < 4 else [[0.0, 2.0]] * P
        kw = {}
        if n // 4 % 3 == 1:
            kw["discount_rate"] = 0.0
        if n // 4 % 3 == 0:
            kw["discount_rate"] = 0.1
        fixed = {"fix": [0] * T}
        out.append(
            make(
                "%s-%d-%s-%s-%s-%s-%d" % (sn, life, e, f, x, c, rem), sn, inv,
                fixed, am, values=[[0.0]] * T, remaining=rem,
                role="snk" if n // 12 % 2 else "src", **kw,
            )
        )
    # several investments, capacities and operation together
    for rem, dr in itertools.product((False, True), (0.0, 0.07)):
        for sn in ("y3", "uneven"):
            nodes = [
                bus("b"),
                src("s", "b", variable_costs=1,
                    investment=dict(ep_costs=[10, 20, 5], lifetime=2,
                                    fixed_costs=1)),
                snk("d", "b", variable_costs=[2, 0, 1],
                    investment=dict(ep_costs=30, lifetime=15, existing=1,
                                    age=3, maximum=4)),
                snk("n", "b", variable_costs=3,
                    investment=dict(ep_costs=3, lifetime=4, nonconvex=True,
                                    offset=[9, 5, 4], maximum=4)),
                src("c", "b", nominal_capacity=3, variable_costs=4,
                    fixed_costs=2, lifetime=4, age=1),
            ]
            P = 3
            out.append(
                {
                    "name": "all-%s-%d-%g" % (sn, rem, dr),
                    "time": {
                        "dt": [1.0, 2.0, 0.5],
                        "periods": [{"start": a, "n": b}
                                    for a, b in STRUCT[sn]],
                        **({"remaining": True} if rem else {}),
                    },
                    "discount_rate": dr,
                    "nodes": nodes + AUX,
                    "runs": [
                        {
                            "static": statics(
                                {
                                    **{"inv:s>b:%d" % p: [0.0, 1.0]
                                       for p in range(P)},
                                    **{"inv:b>d:%d" % p: [0.0, 1.0]
                                       for p in range(P)},
                                    **{"inv:b>n:%d" % p: [0.0, 1.0]
                                       for p in range(P)},
                                }
                            ),
                            "alphabet": letters(
                                {"s>b": [0, 1], "b>d": [0, 2], "b>n": [0],
                                 "c>b": [0, 1], **AUXG}, P,
                            ),
                        }
                    ],
                }
            )
    # on/off flows (known finding: costs are taken as annual costs)
    out.append(
        make("nonconvex", "y2",
             dict(ep_costs=100, lifetime=3, maximum=4),
             {"nonconvex": {}, "minimum": 0.5}, [[0], [0, 1]],
             values=[[0.0]] * 2)
    )
    # ... which makes no difference when nothing outlives its period and
    # future costs count like present ones
    for sn, (k, inv), two in itertools.product(
        ("y2", "y3", "gap", "uneven", "steps2"),
        {
            "lin": dict(ep_costs=[2, 3, 1, 5, 4], maximum=4),
            "off": dict(ep_costs=[1, 2, 5, 3, 2], maximum=4, nonconvex=True,
                        offset=[5, 1, 3, 7, 2]),
            "off1": dict(ep_costs=2, maximum=4, minimum=1, nonconvex=True,
                         offset=4),
        }.items(),
        (False, True),
    ):
        P = len(STRUCT[sn])
        T = sum(n for _, n in STRUCT[sn])
        i = {q: v[:P] if isinstance(v, list) else v for q, v in inv.items()}
        out.append(make(
            "ncshort-%s-%s-%d" % (sn, k, two), sn, {**i, "lifetime": 1},
            {"nonconvex": {"startup_costs": 2} if two else {},
             "minimum": 0.25 if two else 0},
            [[0.0, 1.0, 2.5]] * P if P < 4 else [[0.0, 2.0]] * P,
            values=[[0.0, 1.0]] * T, discount_rate=0.0,
            remaining=two, role="snk" if two else "src"))
    return out + combos.more("M02", deep)
