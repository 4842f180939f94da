"""Minimum up and down times of on/off flows."""

import itertools

from .. import combos
from ..explore import cells, letters, run_config as run  # noqa: F401
from ..gen import AUX, bus, edges, snk, src

RULE = (
    "every on/off flow takes every 0 / minimum / maximum history over all"
    " intervals; the minimum power is above zero so that the flow reveals"
    " the on/off state, other configurations leave it hidden"
)
ASSUMPTIONS = [
    "a start-up whose minimum up time no longer fits into the horizon is not"
    " judged (the documentation does not say whether it is allowed)"
]


def tasks(tier):
    deep = tier == "thorough"
    out = []
    T = 7 if deep else 5

    def add(name, ncs, T, minimum=0.5, vals=(0, 2), **flow):
        nodes = [bus("b")]
        for j, nc in enumerate(ncs):
            f = dict(nominal_capacity=4, minimum=minimum, variable_costs=1,
                     nonconvex=nc, **flow)
            nodes.append(
                src("s%d" % j, "b", **f) if j % 2 == 0
                else snk("d%d" % j, "b", **f)
            )
        nodes += AUX
        fl = edges(nodes)
        base = {}
        for k, f in fl.items():
            nc = f.get("nonconvex")
            base[k] = 1.0 if nc is None else (
                2.0 if nc.get("initial_status") else 0.0
            )
        grids = [{k: list(vals)} for k in fl if "zb" not in k]
        out.append(
            {
                "name": name,
                "time": {"dt": ([1.0, 2.0, 0.5, 1.0, 3.0, 1.0, 0.5, 1.0])[:T]},
                "nodes": nodes,
                "runs": cells(grids, T, base),
            }
        )

    ups = (0, 1, 2, 3, T - 1, T, T + 2) if deep else (0, 1, 2, 3, T, T + 2)
    for up, down, init in itertools.product(ups, ups, (0, 1)):
        nc = dict(minimum_uptime=up, minimum_downtime=down,
                  initial_status=init)
        add("ud-%d-%d-%d" % (up, down, init), [nc], T)
        if up and down and (deep or (up + down) % 2):
            add(
                "cost-%d-%d-%d" % (up, down, init),
                [{**nc, "startup_costs": 3, "shutdown_costs": 2},
                 {**nc, "maximum_startups": 1},
                 {**nc, "inactivity_costs": 1, "maximum_shutdowns": 1}], T,
                vals=(0, 2, 4),
            ) if T == 5 else None
    # minimum power zero: the state stays hidden while the flow is zero
    for up, down, init in itertools.product((0, 2, 3), (0, 2, 3), (0, 1)):
        add(
            "hidden-%d-%d-%d" % (up, down, init),
            [dict(minimum_uptime=up, minimum_downtime=down,
                  initial_status=init, activity_costs=1, startup_costs=2)],
            5, minimum=0, vals=(0, 1, 3),
        )
    # several flows with different times in one model
    mixes = [
        [(2, 0, 0), (0, 2, 1), (3, 1, 0), (1, 3, 1)],
        [(2, 2, 0), (2, 2, 1), (3, 3, 0), (3, 3, 1)],
        [(0, 3, 0), (3, 0, 1), (2, 1, 1), (1, 2, 0)],
    ]
    for n, m in enumerate(mixes):
        add(
            "mix-%d" % n,
            [dict(minimum_uptime=u, minimum_downtime=d, initial_status=i)
             for u, d, i in m], T,
        )
    # time dependent minimum times
    base = [2, 1, 3, 2, 1, 2, 1]
    for n, (u, d, i) in enumerate(
        [(base, 0, 0), (0, base, 1), (base, base, 0), (base, base, 1),
         ([0, 2, 2, 0, 1, 1, 1], [1, 1, 2, 2, 1, 1, 1], 0),
         ([1, 3, 1, 1, 1, 1, 1], [1, 1, 3, 1, 1, 1, 1], 1)]
    ):
        cut = lambda x: x[:T] if isinstance(x, list) else x  # noqa
        add(
            "lists-%d" % n,
            [dict(minimum_uptime=cut(u), minimum_downtime=cut(d),
                  initial_status=i)], T,
        )
    # two units on one bus
    nodes = [
        bus("b", True),
        src("s", "b", nominal_capacity=2, minimum=0.5, variable_costs=1,
            nonconvex=dict(minimum_uptime=2, startup_costs=1)),
        src("q", "b", nominal_capacity=2, minimum=0.5, variable_costs=2,
            nonconvex=dict(minimum_downtime=2, initial_status=1)),
        snk("d", "b"),
    ]
    out.append(
        {
            "name": "bus", "time": {"dt": [1.0, 0.5, 2.0, 1.0]},
            "nodes": nodes,
            "runs": [
                {
                    "alphabet": letters(
                        {"s>b": [0, 1, 2], "q>b": [0, 2], "b>d": [0, 1, 2, 3, 4]},
                        4,
                    )
                }
            ],
        }
    )
    return out + combos.more("N02", deep)
