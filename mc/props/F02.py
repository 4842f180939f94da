"""Limits that couple intervals: gradients and full load time."""

from .. import combos
from ..combos import FMAX, FMIN, NG, PG
from ..explore import cells, letters, run_config as run  # noqa: F401
from ..gen import AUX, AUXG, bus, costs, edges, snk, src

RULE = (
    "every flow takes every combination over all intervals from a grid that"
    " contains steps of exactly, just below and just above each limit"
)


def tasks(tier):
    deep = tier == "thorough"
    out = []
    FL = {
        "pos": {PG: 0.5},
        "neg": {NG: 0.25},
        "both": {PG: 0.25, NG: 0.5},
        "poslist": {PG: [0.75, 0.25, 0.5, 1.0, 0]},
        "neglist": {NG: [0, 0.5, 0.25, 1.0, 0.75]},
        "bothlist": {PG: [0.5, 1, 0.25, 0, 0.5], NG: [1, 0.25, 0.75, 0.5, 0]},
        "posfirst": {PG: [1, 0.25, 0.5, 0, 0.75]},
        "negfirst": {NG: [1, 0.25, 0.5, 0, 0.75], PG: [0, 1, 0.25, 1, 1]},
        "poszero": {PG: 0},
        "negzero": {NG: 0},
        "poslistneg": {PG: [0.5, 0, 0.5, 1, 0.25], NG: 0.5},
        "fltmax": {"full_load_time_max": 2},
        "fltmin": {"full_load_time_min": 1.5},
        "fltboth": {"full_load_time_max": 2.5, "full_load_time_min": 1},
        "fltzero": {"full_load_time_max": 0},
        "fltgrad": {"full_load_time_max": 2, PG: 0.5},
        "fltgradmin": {"full_load_time_min": 1.25, NG: 0.25,
                       "maximum": [1, 0.5, 1, 0.75, 1]},
        "intgrad": {PG: 0.5, "integer": True},
        "mingrad": {PG: 0.5, NG: 0.5, "minimum": 0.25},
        "bigrad": {PG: 0.75, NG: 0.75, "minimum": -1},
        "biflt": {"full_load_time_min": 0.5, "full_load_time_max": 1,
                  "minimum": -0.5},
        "none": {},
    }
    dts = [[1.0, 2.0, 0.5], [0.5, 0.5, 2.0, 1.0]]
    if deep:
        dts.append([1.0, 0.5, 3.0, 2.0, 1.0])

    def cut(f, T, **kw):
        f = {k: (v[:T] if isinstance(v, list) else v) for k, v in f.items()}
        return {"nominal_capacity": 4, **f, **kw}

    def grid(f, T):
        if f.get("minimum") == -1:
            return [-4, -1, 0, 2, 4]
        if f.get("minimum") == -0.5:
            return [-2, -1, 0, 1, 3]
        return [0, 1, 2, 3, 4] if T < 5 else [0, 1, 2, 4]

    def base(f, T):
        return 1.0 if "full_load_time_max" not in f else (
            0.0 if f["full_load_time_max"] == 0 else 1.0
        )

    def add(name, nodes, dt, kind="num", only=None):
        T = len(dt)
        nodes = costs(nodes + AUX)
        fl = edges(nodes)
        good = {}
        for k, f in fl.items():
            v = base(f, T)
            if "full_load_time_min" in f and f.get("nominal_capacity"):
                v = max(
                    v, f["full_load_time_min"] * f["nominal_capacity"] / sum(dt)
                )
                if f.get("minimum") == -0.5:
                    v = 0.6 * f["nominal_capacity"] / sum(dt)
            good[k] = v
        out.append(
            {
                "name": name,
                "time": {"dt": dt, "kind": kind},
                "nodes": nodes,
                "runs": cells(
                    [
                        {k: grid(f, T)}
                        for k, f in fl.items()
                        if not k.startswith("z") and (not only or k in only)
                        and "zb" not in k
                    ],
                    T, good,
                ),
            }
        )

    for n, dt in enumerate(dts):
        T = len(dt)
        add(
            "sources-%d" % n,
            [bus("b")] + [src("s" + k, "b", **cut(f, T)) for k, f in FL.items()],
            dt, kind="dt",
        )
        add(
            "sinks-%d" % n,
            [bus("b")] + [snk("d" + k, "b", **cut(f, T)) for k, f in FL.items()],
            dt,
        )
        add(
            "busbus-%d" % n,
            [bus("b")]
            + [bus("x" + k, out={"b": cut(f, T)}) for k, f in FL.items()],
            dt,
        )
        for k, f in FL.items():
            add("alone-%s-%d" % (k, n), [bus("b"), src("s", "b", **cut(f, T))],
                dt)
        # on/off flows are covered by the plain limits too
        for k in ("pos", "neg", "both", "bothlist", "fltmax", "fltmin",
                  "fltgrad"):
            add(
                "nonconvex-%s-%d" % (k, n),
                [bus("b"),
                 src("s", "b", **cut(FL[k], T, minimum=0.25, nonconvex={})),
                 snk("d", "b", **cut(FL[k], T, nominal_capacity=2))],
                dt,
            )
        # different capacities
        add(
            "capacities-%d" % n,
            [bus("b")]
            + [
                src("s%s%d" % (k, c), "b", **cut(FL[k], T, nominal_capacity=c))
                for k in ("pos", "neglist", "fltboth")
                for c in (2, 8)
            ],
            dt,
        )
    # converter flows: the limit on one side carries over to the other
    dt = [1.0, 0.5, 2.0]
    for side in ("in", "out"):
        f = {"nominal_capacity": 4, PG: 0.5, NG: 0.25, "full_load_time_max": 2}
        nodes = [
            bus("a"), bus("b"),
            {"k": "converter", "n": "v", "in": {"a": f if side == "in" else {}},
             "out": {"b": f if side == "out" else {}}, "cf": {"b": 0.5}},
        ]
        if side == "in":
            alpha = [{"a>v": x, "v>b": x / 2} for x in (0, 1, 2, 3, 4)]
        else:
            alpha = [{"a>v": 2 * x, "v>b": x} for x in (0, 1, 2, 3, 4)]
        out.append(
            {
                "name": "converter-" + side,
                "time": {"dt": dt},
                "nodes": costs(nodes),
                "runs": [{"alphabet": [alpha] * 3}],
            }
        )
    # coupled through a bus: every combination of both flows
    out.append(
        {
            "name": "bus",
            "time": {"dt": dt},
            "nodes": costs(
                [bus("b", True), src("s", "b", **cut(FL["both"], 3)),
                 src("q", "b", **cut(FL["fltmax"], 3)), snk("d", "b")]
            ),
            "runs": [
                {
                    "alphabet": letters(
                        {"s>b": [0, 1, 2, 3], "q>b": [0, 2, 4],
                         "b>d": [2, 3, 4]}, 3,
                    )
                }
            ],
        }
    )
    # full load time counts over all periods
    for f in ({"full_load_time_max": 2}, {"full_load_time_min": 1},
              {"full_load_time_max": 2, "full_load_time_min": 1}):
        out.append(
            {
                "name": "periods-" + "-".join(sorted(f)),
                "time": {
                    "dt": [1, 1, 1, 1],
                    "periods": [{"start": "2020", "n": 2},
                                {"start": "2021", "n": 2}],
                },
                "nodes": costs(
                    [bus("b"), src("s", "b", nominal_capacity=4, **f)] + AUX
                ),
                "runs": [
                    {"alphabet": letters({"s>b": [0, 1, 2, 4], **AUXG}, 4)}
                ],
            }
        )
    return out + mixed(deep)


def mixed(deep):
    """Every combination of three options, all trajectories."""
    out = []
    nc = {
        **combos.PLAIN,
        "minimum": [None, 0.25, [0.5, 0, 0.25, 0, 0.75]],
        "nonconvex": [{}, {"startup_costs": 2}, {"initial_status": 1},
                      {"minimum_uptime": 2}],
    }
    nc.pop("fix")
    strength = 4 if deep else 3
    what = combos.involves(PG, NG, FMAX, FMIN)
    a = combos.both_arrays(combos.PLAIN, strength, combos.plain_ok, what)
    b = combos.both_arrays(nc, strength, combos.plain_ok, what)
    for n, dt in enumerate(([1.0, 2.0, 0.5], [0.5, 1.0, 1.0, 2.0])):
        out += combos.flow_tasks("mix-%d" % n, a, dt, limit=8 - 2 * n)
        out += combos.flow_tasks("ncmix-%d" % n, b, dt, limit=8 - 2 * n)
    w = {"periods": [{"start": "2020", "n": 2}, {"start": "2023", "n": 2}]}
    c = combos.both_arrays(combos.PLAIN, 2, combos.plain_ok, what)
    out += combos.flow_tasks("permix", c, [1.0] * 4, limit=6, time=w)
    return out
