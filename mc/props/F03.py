"""Operational costs: objective = sum over flows and intervals of
flow * interval weight * specific cost (* discount factor of the period),
plus yearly fixed costs of limited-lifetime and other flows."""

from .. import combos
from ..explore import cells, letters, run_config as run  # noqa: F401
from ..gen import AUX, bus, edges, snk, src

RULE = (
    "the total costs of every trajectory over a grid per flow are compared,"
    " all containers / signs / weights / time structures"
)

VC = {
    "scalar": 2.5,
    "neg": -1.5,
    "zero": 0,
    "list": [1, 3, 0.5, 7, 2],
    "mixed": [0, -2, 4, 0, 1],
    "late": [0, 0, 5, 0, 1],
    "np": {"form": "np", "v": [4, 0, 2.5, 1, 3]},
    "series": {"form": "series", "v": [0.25, 8, 1, 2, 6]},
    "none": None,
}


def cut(f, T):
    out = {}
    for k, v in f.items():
        if isinstance(v, dict) and "v" in v:
            v = {**v, "v": v["v"][:T]}
        elif isinstance(v, list):
            v = v[:T]
        out[k] = v
    return out


def tasks(tier):
    deep = tier == "thorough"
    out = []

    def add(name, nodes, time, vals=(0, 1, 3), only=None, **kw):
        T = len(time["dt"])
        fl = edges(nodes)
        grids = [
            {k: list(vals if not f.get("_v") else f["_v"])}
            for k, f in fl.items()
            if "zb" not in k and (not only or k in only)
        ]
        for f in fl.values():
            f.pop("_v", None)
        out.append(
            {
                "name": name, "time": time, "nodes": nodes,
                "runs": cells(grids, T, {k: 1.0 for k in fl}), **kw,
            }
        )

    times = {
        "eq": {"dt": [1.0] * 3},
        "non": {"dt": [1.0, 2.0, 0.5]},
        "nondt": {"dt": [0.25, 3.0, 1.5], "kind": "dt"},
        "half": {"dt": [0.5] * 3, "kind": "infer"},
        "two": {"dt": [2.0] * 3, "kind": "tinc"},
        "tinc": {"dt": [2.0, 1.0, 0.25], "kind": "tinc"},
    }
    if deep:
        times["five"] = {"dt": [1.0, 2.0, 0.5, 4.0, 0.25]}
        times["fived"] = {"dt": [0.1, 0.2, 5, 4.0, 0.25], "kind": "dt"}
    for tn, time in times.items():
        T = len(time["dt"])
        for role in ("src", "snk", "busbus"):
            nodes = [bus("b")]
            for k, v in VC.items():
                f = cut({"variable_costs": v}, T)
                if role == "src":
                    nodes.append(src("s" + k, "b", **f))
                elif role == "snk":
                    nodes.append(snk("d" + k, "b", **f))
                else:
                    nodes.append(bus("x" + k, out={"b": f}))
            add("%s-%s" % (role, tn), nodes + AUX, time)
        # own interval weights replace the interval lengths
        ow = [2.0, 0.0, 5.0, 1.0, 3.0][:T]
        nodes = [bus("b")] + [
            src("s" + k, "b", **cut({"variable_costs": v}, T))
            for k, v in VC.items()
        ]
        add("weights-" + tn, nodes + AUX, time, ow=ow)
        # costs of every kind of flow
        nodes = [
            bus("b"),
            src("cap", "b", variable_costs=3, nominal_capacity=4),
            src("bi", "b", variable_costs=[1, 2, 3, 4, 5][:T],
                nominal_capacity=3, minimum=-1, _v=[-3, 0, 3]),
            src("int", "b", variable_costs=2, nominal_capacity=3,
                integer=True),
            src("nc", "b", variable_costs=5, nominal_capacity=3,
                minimum=0.1, nonconvex={}),
            src("fix", "b", variable_costs=[7, 1, 2, 5, 6][:T],
                nominal_capacity=2, fix=0.5, _v=[1]),
            snk("grad", "b", variable_costs=[-1, 1, 2, 3, 4][:T],
                nominal_capacity=3, positive_gradient_limit=1),
            {"k": "converter", "n": "v", "in": {"b": {"variable_costs": 2}},
             "out": {"c": {"variable_costs": [3, 1, 0, 1, 2][:T]}},
             "cf": {}},
            bus("c"),
        ]
        import copy

        nodes = copy.deepcopy(nodes)
        conv = nodes.pop(-2)
        fl = edges(nodes)
        grids = [
            {k: list(f.pop("_v", (0, 1, 3)))} for k, f in fl.items()
        ]
        grids.append(None)
        base = {k: 1.0 for k in fl} | {"b>v": 1.0, "v>c": 1.0}
        runs = cells(grids[:-1], T, base)
        alpha = [
            [{**{k: 1.0 for k in fl}, "b>v": x, "v>c": x} for x in (0, 2, 3)]
        ] * T
        runs.append({"alphabet": alpha})
        out.append(
            {"name": "kinds-" + tn, "time": time, "nodes": nodes + [conv],
             "runs": runs}
        )
        # all flows at once (sums, no cell structure)
        nodes = [bus("b")] + [
            src("s" + k, "b", **cut({"variable_costs": v}, T))
            for k, v in list(VC.items())[:4]
        ] + [snk("d", "b", variable_costs=0.75)]
        if T == 3:
            out.append(
                {
                    "name": "joint-" + tn, "time": time, "nodes": nodes + AUX,
                    "runs": [
                        {
                            "alphabet": letters(
                                {
                                    **{k: ([0, 2] if "b>d" != k else [1])
                                       for k in edges(nodes)},
                                    "zs>zb": [1], "zb>zd": [1],
                                }, T,
                            )
                        }
                    ],
                }
            )
    # several periods: discounting and fixed costs
    structs = {
        "yearly": [{"start": "2020", "n": 2}, {"start": "2021", "n": 2}],
        "gap": [{"start": "2020", "n": 1}, {"start": "2025", "n": 2}],
        "three": [{"start": "2020", "n": 1}, {"start": "2022", "n": 2},
                  {"start": "2030", "n": 1}],
        "grow": [{"start": "2020", "n": 1}, {"start": "2021", "n": 1},
                 {"start": "2023", "n": 2}],
        "shrink": [{"start": "2020", "n": 2}, {"start": "2024", "n": 1},
                   {"start": "2025", "n": 1}],
        "single": [{"start": "2020", "n": 3}],
        "uneven": [{"start": "2021", "n": 3}, {"start": "2022", "n": 1}],
        "long": [{"start": "2020", "n": 2, "freq": "400D", "years": 3},
                 {"start": "2023", "n": 1}],
    }
    for sn, ps in structs.items():
        if sn == "long":
            ps = [
                {"start": "2020", "n": 1},
                {"start": "2023", "n": 2, "freq": "400D", "years": 2},
            ]
        T = sum(p["n"] for p in ps)
        for dr in (None, 0.0, 0.1):
            for w in (0, 1):
                dt = [1.0] * T if not w else [1.0, 2.0, 0.5, 4.0][:T]
                kw = {} if dr is None else {"discount_rate": dr}
                if w:
                    kw["ow"] = [3.0, 1.0, 2.0, 0.5][:T]
                nodes = [bus("b")]
                for k in ("scalar", "list", "neg", "mixed"):
                    nodes.append(
                        src("s" + k, "b", **cut({"variable_costs": VC[k]}, T))
                    )
                FC = {
                    "fc": dict(nominal_capacity=3, fixed_costs=2),
                    "fcl": dict(nominal_capacity=3, fixed_costs=2, lifetime=5),
                    "fca": dict(nominal_capacity=3, fixed_costs=4, lifetime=6,
                                age=3),
                    "life": dict(nominal_capacity=3, lifetime=4, age=2),
                    "life1": dict(nominal_capacity=3, lifetime=2),
                    "life5": dict(nominal_capacity=3, lifetime=6, age=1,
                                  minimum=-1, variable_costs=2),
                    "lifelong": dict(nominal_capacity=3, lifetime=40,
                                     fixed_costs=1.5),
                    "invcost": dict(nominal_capacity=3, variable_costs=1,
                                    fixed_costs=0.5),
                }
                for k, f in FC.items():
                    nodes.append(snk("d" + k, "b", **f))
                fl = edges(nodes)
                base = {
                    k: (0.0 if "life" in k or "fcl" in k or "fca" in k else 1.0)
                    for k in fl
                }
                base.update({"zs>zb": 1.0, "zb>zd": 1.0})
                out.append(
                    {
                        "name": "periods-%s-%s-%d" % (sn, dr, w),
                        "time": {"dt": dt, "periods": ps},
                        "nodes": nodes + AUX,
                        "runs": cells(
                            [{k: [0, 1, 3] + ([-1] if "life5" in k else [])}
                             for k in fl],
                            T, base,
                        ),
                        **kw,
                    }
                )
    return out + combos.more("F03", deep)
