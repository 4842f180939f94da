"""Invested capacity of flows that can be switched on and off."""

import itertools

from .. import combos
from ..explore import letters, run_config as run  # noqa: F401
from ..gen import AUX, AUXG, bus, edges, snk, src
from .I01 import grids

RULE = (
    "every invested capacity on a grid around each sizing limit x every"
    " on/off trajectory of the flow over 0 and the scaled minimum and maximum"
    " of each capacity, below, between and above"
)


def cut(f, T):
    out = {}
    for k, v in f.items():
        if k == "nonconvex":
            v = cut(v, T)
        elif k != "investment" and isinstance(v, list):
            v = v[:T]
        out[k] = v
    return out


INV = {
    "max": dict(ep_costs=3, maximum=4),
    "minmax": dict(ep_costs=2.5, minimum=1, maximum=4),
    "exist": dict(ep_costs=2, existing=2, maximum=2),
    "exist0": dict(ep_costs=2, existing=2, maximum=0),
    "off": dict(ep_costs=2, maximum=4, nonconvex=True, offset=7),
    "offmin": dict(ep_costs=1, maximum=5, minimum=2, nonconvex=True,
                   offset=3),
    "free": dict(maximum=4),
}
OPS = {
    "def": {},
    "min": dict(minimum=0.5),
    "minl": dict(minimum=[0, 0.5, 0.25]),
    "max": dict(minimum=0.25, maximum=[0.5, 1, 1.5]),
    "max0": dict(maximum=[0.5, 0, 1]),
}
NC = {
    "plain": {},
    "costs": dict(startup_costs=5, shutdown_costs=2),
    "costl": dict(startup_costs=[1, 4, 2], activity_costs=[1, 0, 2],
                  initial_status=1),
    "act": dict(activity_costs=1.5, inactivity_costs=0.5),
    "cnt": dict(maximum_startups=1, maximum_shutdowns=0),
    "up": dict(minimum_uptime=2, startup_costs=1),
    "down": dict(minimum_downtime=2, initial_status=0, shutdown_costs=1),
    "down1": dict(minimum_downtime=2, initial_status=1),
    "grad": dict(positive_gradient_limit=0.5, negative_gradient_limit=0.75),
    "long": dict(minimum_uptime=3, minimum_downtime=2, initial_status=1),
}


def tasks(tier):
    deep = tier == "thorough"
    out = []

    def add(name, F, T, dt=None, kind="num", role="src"):
        dt = dt or [1.0, 2.0, 0.5, 1.0][:T]
        F = {"variable_costs": 0.5, **cut(F, T)}
        key = {"src": "s>b", "snk": "b>s"}[role]
        nodes = [bus("b"), (src if role == "src" else snk)("s", "b", **F)]
        cfg = {
            "name": name, "time": {"dt": dt, "kind": kind},
            "nodes": nodes + AUX,
        }
        caps, vals = grids(cfg, key)
        cfg["runs"] = [
            {
                "static": [{"inv:%s:0" % key: c} for c in caps],
                "alphabet": letters({key: vals, **AUXG}, T),
            }
        ]
        out.append(cfg)

    for (a, inv), (b, op), (c, nc) in itertools.product(
        INV.items(), OPS.items(), NC.items()
    ):
        T = 3
        if not deep and (len(a) + len(b) + len(c)) % 2 and b not in (
            "min", "def"
        ):
            T = 2
        if T == 2 and c == "long":
            T = 3
        add("%s-%s-%s" % (a, b, c),
            {"investment": inv, **op, "nonconvex": nc}, T,
            role="snk" if (len(a) + len(b)) % 2 else "src")
    for c, nc in NC.items():
        add("dt-" + c, {"investment": INV["offmin"], **OPS["min"],
                        "nonconvex": nc}, 3, [0.5, 2.0, 1.0], "dt")
    # full load times and fixed values of such flows
    for k, op in (
        ("flhmax", dict(full_load_time_max=1.5)),
        ("flhmin", dict(full_load_time_min=1, minimum=0.25)),
        ("flhboth", dict(full_load_time_max=2, full_load_time_min=0.5,
                         maximum=[1, 0.5, 1])),
        ("fix", dict(fix=0.5)),
        ("fixl", dict(fix=[0, 1, 0.25])),
    ):
        for a, inv in INV.items():
            for c in ("plain", "costs", "up") if deep else ("costs",):
                add("%s-%s-%s" % (k, a, c),
                    {"investment": inv, **op, "nonconvex": NC[c]}, 3)
        add("%s-dt" % k, {"investment": INV["exist"], **op,
                          "nonconvex": NC["act"]}, 3, [0.5, 2.0, 1.0], "dt")
    # flows in both directions
    for (a, inv), (b, op), c in itertools.product(
        INV.items(),
        (("bi", dict(minimum=-1)),
         ("bil", dict(minimum=[-0.5, 0.25, -1])),
         ("bip", dict(minimum=[0.25, -0.5, -1])),
         ("bim", dict(minimum=-0.75, maximum=-0.25))),
        ("plain", "costs", "act", "cnt", "up"),
    ):
        T = 3 if deep and b == "bil" else 2
        add("%s-%s-%s" % (a, b, c), {"investment": inv, **op,
                                     "nonconvex": NC[c]}, T,
            role="snk" if (len(a) + len(b)) % 2 else "src")
    # next to a plain investment and a plain on/off flow
    nodes = [
        bus("b"),
        src("a", "b", investment=INV["offmin"], minimum=0.5,
            nonconvex=NC["costs"], variable_costs=1),
        snk("c", "b", investment=INV["exist"], minimum=0.25,
            nonconvex=NC["act"], variable_costs=2),
        src("d", "b", nominal_capacity=2, minimum=0.5, nonconvex={},
            variable_costs=3),
        snk("e", "b", investment=dict(ep_costs=4, maximum=3),
            variable_costs=4),
    ]
    for T in (1, 2) if deep else (1,):
        out.append(
            {
                "name": "mixed-%d" % T, "time": {"dt": [1.5, 0.5][:T]},
                "nodes": nodes + AUX,
                "runs": [
                    {
                        "static": [
                            {"inv:a>b:0": x, "inv:b>c:0": y, "inv:b>e:0": z}
                            for x in (0, 1, 2, 4) for y in (0, 1, 2)
                            for z in (0, 2)
                        ],
                        "alphabet": letters(
                            {"a>b": [0, 1, 2, 4], "b>c": [0, 0.5, 1, 3, 4],
                             "d>b": [0, 0.5, 2], "b>e": [0, 2, 3][:3 if T == 1 else 2],
                             **AUXG}, T,
                        ),
                    }
                ],
            }
        )
    return out + combos.more("I02", deep)
