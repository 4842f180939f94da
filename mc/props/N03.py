"""Gradient limits of on/off flows."""

import itertools

from .. import combos
from ..explore import cells, letters, run_config as run  # noqa: F401
from ..gen import AUX, bus, edges, snk, src

RULE = (
    "every on/off flow takes every combination over all intervals of 0,"
    " minimum, intermediate values and maximum; steps hit, miss and exceed"
    " each limit, including start-ups and shut-downs"
)
PG, NG = "positive_gradient_limit", "negative_gradient_limit"


def tasks(tier):
    deep = tier == "thorough"
    out = []
    T = 5 if deep else 4
    dt = [1.0, 2.0, 0.5, 1.0, 1.0][:T]
    L1 = [0.5, 0.25, 0.75, 1.0, 0]
    L2 = [0, 0.75, 0.25, 0.5, 1.0]
    opts = {
        "p": {PG: 0.5}, "n": {NG: 0.5}, "pn": {PG: 0.25, NG: 0.75},
        "pl": {PG: L1[:T]}, "nl": {NG: L2[:T]},
        "pnl": {PG: L2[:T], NG: L1[:T]}, "p0": {PG: 0, "initial_status": 1},
        "ps": {PG: 0.5, "startup_costs": 2}, "no": {},
        "nd": {NG: 0.25, "minimum_downtime": 2, "shutdown_costs": 1},
        # no limit in the first interval
        "p1": {PG: [1.0, 0.25, 0, 0.5, 0.75][:T]},
        "n1": {NG: [1.0, 0.5, 0.75, 0, 0.25][:T], "startup_costs": 1},
        "pa": {PG: 0.75, NG: 0.5, "initial_status": 1, "activity_costs": 1},
    }
    vals = [0, 1, 2, 3, 4]

    def add(name, fls, dt=dt, vals=vals, **kw):
        T = len(dt)
        nodes = [bus("b")] + [
            (src if i % 2 else snk)("c%d" % i, "b", **f)
            for i, f in enumerate(fls)
        ] + AUX
        fl = edges(nodes)
        base = {k: 0.0 for k in fl} | {"zs>zb": 1.0, "zb>zd": 1.0}
        out.append(
            {
                "name": name, "time": {"dt": dt}, "nodes": nodes,
                "runs": cells(
                    [{k: vals} for k in fl if "zb" not in k], T, base
                ),
                **kw,
            }
        )

    for (k, nc), mn in itertools.product(opts.items(), (0, 0.25, 0.5)):
        f = dict(nominal_capacity=4, minimum=mn, variable_costs=1, nonconvex=nc)
        add("%s-%g" % (k, mn), [f])
    for n in range(4):
        ks = list(opts)
        ks = ks[n:] + ks[:n]
        add(
            "mix-%d" % n,
            [
                dict(nominal_capacity=(4, 2, 8)[i % 3], minimum=0.25,
                     variable_costs=i, nonconvex=opts[k])
                for i, k in enumerate(ks[:6])
            ],
            dt=dt[:3], vals=[0, 0.5, 1, 2, 4, 8],
        )
    # plain limit on one direction, on/off limit on the other one
    add(
        "cross",
        [dict(nominal_capacity=4, minimum=0.25, variable_costs=1,
              nonconvex={PG: 0.5}, **{}),
         dict(nominal_capacity=4, minimum=0.25, variable_costs=1,
              nonconvex={}, **{PG: 0.5, NG: 0.75})],
    )
    # capacity decided by the model
    for mn in (0, 0.5):
        nodes = [
            bus("b"),
            src("s", "b", minimum=mn, variable_costs=1,
                investment={"ep_costs": 3, "maximum": 8},
                nonconvex={PG: 0.5, NG: 0.25}),
        ] + AUX
        out.append(
            {
                "name": "invest-%g" % mn, "time": {"dt": dt[:3]},
                "nodes": nodes,
                "runs": [
                    {
                        "static": [{"inv:s>b:0": v} for v in (0, 4, 8)],
                        "alphabet": letters(
                            {"s>b": [0, 1, 2, 4, 8], "zs>zb": [1],
                             "zb>zd": [1]}, 3,
                        ),
                    }
                ],
            }
        )
    return out + combos.more("N03", deep)
