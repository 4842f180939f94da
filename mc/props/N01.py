"""On/off flows with fixed capacity: commitment, its costs and its limits."""

import itertools

from .. import combos
from ..explore import cells, letters, run_config as run  # noqa: F401
from ..gen import AUX, bus, edges, flow_values, snk, src, uniq

RULE = (
    "every on/off flow takes every combination over all intervals of 0, the"
    " scaled minimum and maximum, a value between, one just below the"
    " minimum and one above the maximum; the hidden on/off history is"
    " enumerated completely"
)


def cutv(v, T):
    return v[:T] if isinstance(v, list) else v


def cut(f, T):
    out = {}
    for k, v in f.items():
        if k == "nonconvex":
            v = {q: cutv(x, T) for q, x in v.items()}
        out[k] = cutv(v, T)
    return out


def values(f, t, small):
    xs = flow_values(f, t, full=not small)
    return uniq(x for x in xs if x >= 0) if small else xs


def tasks(tier):
    deep = tier == "thorough"
    out = []

    def add(name, nodes, dt, small=True, **kw):
        T = len(dt)
        nodes = nodes + AUX
        fl = edges(nodes)
        base = {k: 0.0 for k in fl} | {"zs>zb": 1.0, "zb>zd": 1.0}
        grids = [
            {k: [values(f, t, small) for t in range(T)]}
            for k, f in fl.items()
            if "zb" not in k
        ]
        out.append(
            {
                "name": name,
                "time": {"dt": dt},
                "nodes": nodes,
                "runs": cells(grids, T, base),
                **kw,
            }
        )

    L3 = [3, 1, 4, 2, 5]
    opt = {
        "startup_costs": [None, 4, L3],
        "shutdown_costs": [None, 2, [1, 5, 2, 3, 1]],
        "activity_costs": [None, 1.5, [2, 0, 1, 3, 1]],
        "inactivity_costs": [None, 0.5, [0, 3, 1, 2, 1]],
        "maximum_startups": [None, 0, 1, 2],
        "maximum_shutdowns": [None, 0, 1, 2],
        "initial_status": [0, 1],
    }
    flows = {
        "m0": dict(nominal_capacity=4, variable_costs=1),
        "m": dict(nominal_capacity=4, minimum=0.5, variable_costs=0.5),
        "ml": dict(nominal_capacity=4, minimum=[0.25, 0.5, 0, 0.75, 0.5],
                   maximum=[1, 0.5, 1, 0.75, 0.25 + 0.5]),
        "mm": dict(nominal_capacity=2, minimum=0.5, maximum=1.5),
    }
    # pairwise-complete over the options on top of all single options
    nc_list = []
    keys = list(opt)
    for k in keys:
        for v in opt[k]:
            nc_list.append({k: v})
    for a, b in itertools.combinations(keys, 2):
        for x in opt[a][1:]:
            for y in opt[b][1:]:
                nc_list.append({a: x, b: y})
    nc_list.append(
        dict(startup_costs=4, shutdown_costs=[1, 5, 2, 3, 1],
             activity_costs=1.5, inactivity_costs=0.5, maximum_startups=2,
             maximum_shutdowns=1, initial_status=1)
    )
    nc_list.append(
        dict(startup_costs=L3, shutdown_costs=2, activity_costs=[2, 0, 1, 3, 1],
             inactivity_costs=[0, 3, 1, 2, 1], maximum_startups=1,
             maximum_shutdowns=2, initial_status=0)
    )
    nc_list = [
        {k: v for k, v in nc.items() if v is not None} for nc in nc_list
    ]
    seen = []
    for nc in nc_list:
        if nc not in seen:
            seen.append(nc)
    T = 4 if deep else 3
    dt = [1.0, 2.0, 0.5, 1.0][:T]
    for n, nc in enumerate(seen):
        nodes = [bus("b")]
        for k, f in flows.items():
            g = cut({**f, "nonconvex": nc}, T)
            nodes.append(
                src("s" + k, "b", **g) if n % 2 else snk("d" + k, "b", **g)
            )
        add("opt-%02d" % n, nodes, dt, small=not (n % 5 == 0) or T > 3)
    # every on/off flow with options of its own (nothing may leak)
    T = 4
    dt = [1.0, 2.0, 0.5, 1.0]
    step = 6
    for n in range(0, len(seen) - step, step if deep else 2 * step):
        nodes = [bus("b")]
        for j in range(step):
            nc = seen[(n + j * 7) % len(seen)]
            f = list(flows.values())[j % 4]
            g = cut({**f, "nonconvex": nc}, T)
            nodes.append(
                src("s%d" % j, "b", **g) if j % 2 else snk("d%d" % j, "b", **g)
            )
        add("leak-%02d" % n, nodes, dt)
    # longer histories: number of starts and stops, initial state
    T = 6 if deep else 5
    dt = [1.0] * T
    for init, ms, md in itertools.product((0, 1), (None, 1, 2), (None, 1)):
        nc = dict(initial_status=init, startup_costs=3, shutdown_costs=2,
                  maximum_startups=ms, maximum_shutdowns=md)
        nc = {k: v for k, v in nc.items() if v is not None}
        out.append(
            {
                "name": "long-%d-%s-%s" % (init, ms, md),
                "time": {"dt": dt},
                "nodes": [
                    bus("b"),
                    src("s", "b", nominal_capacity=2, minimum=0.5,
                        variable_costs=1, nonconvex=nc),
                ] + AUX,
                "runs": [
                    {
                        "alphabet": letters(
                            {"s>b": [0, 1, 2], "zs>zb": [1], "zb>zd": [1]}, T
                        )
                    }
                ],
            }
        )
    # coupled by a balanced bus (statuses decided together)
    T = 3
    nodes = [
        bus("b", True),
        src("s", "b", nominal_capacity=4, minimum=0.5, variable_costs=1,
            nonconvex=dict(startup_costs=3, maximum_startups=1)),
        src("q", "b", nominal_capacity=2, minimum=0.5, variable_costs=2,
            nonconvex=dict(shutdown_costs=[1, 2, 3], initial_status=1)),
        snk("d", "b", nominal_capacity=5, minimum=0.2,
            nonconvex=dict(activity_costs=0.5)),
    ]
    out.append(
        {
            "name": "bus",
            "time": {"dt": [1.0, 0.5, 2.0]},
            "nodes": nodes,
            "runs": [
                {
                    "alphabet": letters(
                        {"s>b": [0, 2, 4], "q>b": [0, 1, 2],
                         "b>d": [0, 1, 3, 4]}, 3,
                    )
                }
            ],
        }
    )
    # fix / integer / converter / storage flows may be switched as well
    nodes = [
        bus("b"), bus("c"),
        {"k": "converter", "n": "v",
         "in": {"b": {"nominal_capacity": 4, "minimum": 0.5,
                      "nonconvex": {"startup_costs": 2, "activity_costs": 1}}},
         "out": {"c": {"variable_costs": 1}}, "cf": {"c": 0.5}},
    ]
    out.append(
        {
            "name": "converter",
            "time": {"dt": [1.0, 0.5, 2.0, 1.0]},
            "nodes": nodes,
            "runs": [
                {
                    "alphabet": [
                        [{"b>v": x, "v>c": x / 2} for x in (0, 1, 2, 4, 5)]
                        + [{"b>v": 2, "v>c": 2}]
                    ] * 4
                }
            ],
        }
    )
    nodes = [
        bus("b"),
        src("s", "b", nominal_capacity=4, minimum=0.5, integer=True,
            nonconvex={"startup_costs": 2}),
        src("q", "b", nominal_capacity=4, minimum=0.25,
            nonconvex={"inactivity_costs": 2}),
    ]
    add("integer", nodes, [1.0, 0.5, 2.0, 1.0])
    for r in out[-1]["runs"]:
        for a in r["alphabet"]:
            for x in list(a):
                if x["s>b"] == 2.0 and len(a) > 3:
                    a.append({**x, "s>b": 2.5})
    # flows in both directions
    T = 4
    both = {
        "bi": dict(nominal_capacity=4, minimum=-1, variable_costs=1),
        "bil": dict(nominal_capacity=4, minimum=[-0.5, 0.25, -1, 0],
                    variable_costs=[1, 2, 3, 4]),
        "bim": dict(nominal_capacity=4, minimum=-0.75, maximum=-0.25),
        "bip": dict(nominal_capacity=4, minimum=[0.25, -0.5, 0, -1]),
    }
    for n in range(0, len(seen), 1 if deep else 4):
        nodes = [bus("b")]
        for k, f in both.items():
            g = cut({**f, "nonconvex": seen[n]}, T)
            nodes.append(
                src("s" + k, "b", **g) if n % 8 else snk("d" + k, "b", **g)
            )
        add("both-%02d" % n, nodes, [1.0, 2.0, 0.5, 1.0], small=False)
    return out + combos.more("N01", deep)
