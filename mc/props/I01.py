"""Invested flow capacity in a model with a single investment period."""

import itertools

from .. import combos
from ..explore import letters, run_config as run  # noqa: F401
from ..gen import AUX, AUXG, bus, edges, snk, src, uniq
from ..ref import INF, at, capacities, Ctx

RULE = (
    "every invested capacity on a grid around each sizing limit x every"
    " trajectory of the flow over 0, and the scaled minimum, maximum and"
    " fixed value of each capacity, below, between and above"
)


def grids(cfg, key, extra_caps=()):
    """(capacities, values per interval)"""
    F = edges(cfg["nodes"])[key]
    inv = F["investment"]
    ctx = Ctx(cfg)
    T = ctx.T
    lo, hi = at(inv.get("minimum", 0), 0), at(inv.get("maximum", "inf"), 0)
    caps = [0, lo, lo - 0.5, lo / 2 + 1]
    caps += [hi, hi + 0.5, (lo + hi) / 2] if hi < INF else [lo + 3]
    caps = uniq(c for c in list(caps) + list(extra_caps))
    good = [
        capacities(inv, [c], ctx)[0] for c in caps if lo <= c <= hi or c == 0
    ]
    out = []
    for t in range(T):
        xs = [0.0]
        for c in (min(good), max(good)):
            if F.get("fix") is not None:
                v = at(F["fix"], t) * c
                xs += [v, v + 0.25]
            else:
                a = at(F.get("minimum", 0), t) * c
                b = at(F.get("maximum", 1), t) * c
                xs += [a, a - 0.25, b, b + 0.25]
        out.append(uniq(xs))
    return caps, out


def tasks(tier):
    deep = tier == "thorough"
    out = []

    def add(name, F, T=2, dt=None, kind="num", role="src", extra=()):
        dt = dt or [1.0, 2.0, 0.5, 1.5][:T]
        F = {"variable_costs": 0.5, **F}
        key = {"src": "s>b", "snk": "b>s"}[role]
        nodes = [bus("b"), (src if role == "src" else snk)("s", "b", **F)]
        cfg = {
            "name": name, "time": {"dt": dt, "kind": kind},
            "nodes": nodes + AUX,
        }
        caps, vals = grids(cfg, key, extra)
        cfg["runs"] = [
            {
                "static": [{"inv:%s:0" % key: c} for c in caps],
                "alphabet": letters({key: vals, **AUXG}, T),
            }
        ]
        out.append(cfg)

    invs = {
        "plain": dict(ep_costs=3),
        "minmax": dict(ep_costs=2.5, minimum=1, maximum=4),
        "max0": dict(ep_costs=2, maximum=0, existing=3),
        "exist": dict(ep_costs=2, existing=2),
        "existm": dict(ep_costs=2, existing=1.5, minimum=0.5, maximum=3),
        "neg": dict(ep_costs=-1, maximum=5),
        "free": dict(maximum=4),
        "nc": dict(ep_costs=2, maximum=5, nonconvex=True, offset=7),
        "ncmin": dict(ep_costs=2, maximum=5, minimum=2, nonconvex=True),
        "ncboth": dict(ep_costs=1, maximum=5, minimum=2, nonconvex=True,
                       offset=3),
        "ncneg": dict(ep_costs=1, maximum=5, minimum=2, nonconvex=True,
                      offset=-3),
        "nceq": dict(ep_costs=1, maximum=3, minimum=3, nonconvex=True,
                     offset=1),
        "list": dict(ep_costs=[3], maximum=[4], minimum=[1]),
        "eq": dict(ep_costs=3, maximum=2, minimum=2),
        "exfix": dict(ep_costs=3, maximum=0, existing=2),
    }
    ops = {
        "def": {},
        "min": dict(minimum=0.25),
        "minl": dict(minimum=[0, 0.5, 0.25, 0]),
        "minl2": dict(minimum=[0.5, 0, 0, 0.25]),
        "max": dict(maximum=0.5),
        "maxl": dict(maximum=[1, 0, 1.5, 0.5]),
        "both": dict(minimum=[0.25, 0.5, 0, 0.5], maximum=[0.5, 0.5, 1, 2]),
        "fix": dict(fix=0.5),
        "fixl": dict(fix=[0, 1, 0.25, 1.5]),
        "bi": dict(minimum=-1),
        "bil": dict(minimum=[-0.5, 0.25, -1, 0]),
        "bip": dict(minimum=[0.5, -0.5, 0, -1]),
        "flh": dict(full_load_time_max=1.5),
        "flhmin": dict(full_load_time_min=1),
        "flhb": dict(full_load_time_max=2, full_load_time_min=0.5,
                     maximum=[1, 0.5, 1, 0.25]),
        "cost": dict(variable_costs=[1, -2, 3, 0.5]),
        "nocost": dict(variable_costs=0),
    }

    def cut(f, T):
        return {
            k: (v[:T] if isinstance(v, list) else v) for k, v in f.items()
        }

    T = 3 if deep else 2
    for (a, inv), (b, op) in itertools.product(invs.items(), ops.items()):
        add("%s-%s" % (a, b), {"investment": inv, **cut(op, T)}, T,
            role="snk" if (len(a) + len(b)) % 2 else "src")
    for kind, dt in (
        ("dt", [0.5, 3.0]), ("infer", [2.0, 2.0]), ("tinc", [0.25, 4.0]),
    ):
        for b, op in ops.items():
            add("%s-%s" % (kind, b),
                {"investment": invs["existm"], **cut(op, 2)}, 2, dt, kind)
    # ramp limits relative to the invested capacity
    add("gradient", {"investment": invs["plain"],
                     "positive_gradient_limit": 0.5,
                     "negative_gradient_limit": 0.5}, 2)
    T = 4 if deep else 3
    for b, op in ops.items():
        add("long-%s" % b, {"investment": invs["nc"], **cut(op, T)}, T)
    # several investments next to each other and next to fixed capacities
    names = list(invs)
    for r in range(4 if deep else 2):
        nodes = [bus("b")]
        grid_s, grid_f = {}, {}
        pick = names[r * 4 : r * 4 + 3]
        opn = list(ops.values())
        for j, k in enumerate(pick):
            F = {"investment": invs[k], "variable_costs": j + 1,
                 **cut(opn[(3 * r + j) % 11], 1)}
            nodes.append((src, snk)[j % 2]("u%d" % j, "b", **F))
        nodes.append(src("fixcap", "b", nominal_capacity=2, minimum=0.5,
                         variable_costs=1))
        cfg = {"name": "multi-%d" % r, "time": {"dt": [2.0]},
               "nodes": nodes + AUX}
        for key, F in edges(cfg["nodes"]).items():
            if "investment" in F:
                c, v = grids(cfg, key)
                grid_s["inv:%s:0" % key] = c
                grid_f[key] = v[0][:5]
        grid_f["fixcap>b"] = [1.0, 2.0, 2.5]
        from ..explore import statics

        cfg["runs"] = [
            {
                "static": statics(grid_s),
                "alphabet": letters({**grid_f, **AUXG}, 1),
            }
        ]
        out.append(cfg)
    # investment inside a network
    nodes = [
        bus("b", True),
        src("s", "b", investment=dict(ep_costs=3, maximum=3),
            variable_costs=1),
        src("g", "b", nominal_capacity=1),
        snk("d", "b", nominal_capacity=4, fix=[0.5, 0.25, 1][:2]),
        bus("x", out={"b": {"investment": dict(ep_costs=1, existing=1,
                                               maximum=2)}}),
    ]
    out.append(
        {
            "name": "network", "time": {"dt": [1.0, 2.0]}, "nodes": nodes,
            "runs": [
                {
                    "static": [
                        {"inv:s>b:0": a, "inv:x>b:0": b}
                        for a in (0, 1, 2, 3) for b in (0, 1, 2)
                    ],
                    "alphabet": letters(
                        {"s>b": [0, 1, 2], "g>b": [0, 1], "x>b": [0, 1, 2],
                         "b>d": [1, 2]}, 2,
                    ),
                }
            ],
        }
    )
    return out + combos.more("I01", deep)
