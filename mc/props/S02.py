"""Limits of the storage content, initial content, balancing, costs."""

import itertools

from .. import combos
from ..explore import letters, run_config as run  # noqa: F401
from ..gen import AUX, AUXG, bus
from .S01 import DTS, LOSS, lst, storage

RULE = (
    "every charging/discharging history over a grid of powers x every initial"
    " content on a grid that includes, exceeds and undercuts the limits;"
    " allowed exactly if every point in time respects the limits"
)

# T + 1 values: one for each point in time
LVL = {
    "def": {},
    "max": dict(max_storage_level=0.75),
    "min": dict(min_storage_level=0.25),
    "both": dict(min_storage_level=0.25, max_storage_level=0.5),
    "maxl": dict(max_storage_level=[0.5, 1, 0.25, 0.75, 0.5]),
    "minl": dict(min_storage_level=[0.25, 0, 0.5, 0, 0.25]),
    "lend": dict(min_storage_level=[0, 0, 0, 0.75, 0.75],
                 max_storage_level=[1, 1, 1, 0.75, 1]),
    "lbeg": dict(min_storage_level=[0.5, 0, 0, 0, 0],
                 max_storage_level={"form": "np", "v": [0.75, 1, 1, 0.5, 1]}),
    "zero": dict(max_storage_level=[0.5, 0.5, 0, 0.5, 0.5]),
}
SOC = {
    "half": dict(constant_soc_until=0.5, fraction_saturation_charging=0.25),
    "zero": dict(constant_soc_until=0, fraction_saturation_charging=0.5),
    "end0": dict(constant_soc_until=0.75, fraction_saturation_charging=0),
    "one": dict(constant_soc_until=0.25, fraction_saturation_charging=1),
}


def tasks(tier):
    deep = tier == "thorough"
    out = []

    def add(name, P, T, dts="eq", E=4, init=(0.0, 1.0, 2.0, 3.0, 4.0, 4.5,
                                             -0.5),
            fi=(0, 1, 2), fo=(0, 1, 2), ff=None, fo_=None, node=None, **kw):
        dt, kind = DTS[dts]
        P = {
            k: lst(v, T + 1 if k.endswith("_level") else T)
            for k, v in P.items()
        }
        ff = {k: lst(v, T) for k, v in (ff or {}).items()}
        st = storage("s", "a", "b", nominal_capacity=E,
                     fi={"variable_costs": 1, **ff},
                     fo={"variable_costs": 2, **(fo_ or {})}, **P)
        cfg = {
            "name": name, "time": {"dt": dt[:T], "kind": kind},
            "nodes": [bus("a"), bus("b"), st] + AUX, **kw,
        }
        cfg["runs"] = [
            {
                "static": [{"soc:s": x} for x in init],
                "alphabet": letters(
                    {"a>s": list(map(float, fi)), "s>b": list(map(float, fo)),
                     **AUXG}, T,
                ),
            }
        ]
        out.append(cfg)

    for (a, lv), bal, init in itertools.product(
        LVL.items(), (True, False), (None, 0.0, 0.5, 0.75)
    ):
        P = {**lv, "balanced": bal}
        if init is not None:
            lo, hi = lv.get("min_storage_level", 0), lv.get(
                "max_storage_level", 1)
            first = lambda v: (  # noqa
                v["v"][0] if isinstance(v, dict)
                else v[0] if isinstance(v, list) else v)
            if not first(lo) <= init <= first(hi):
                continue
            P["initial_storage_level"] = init
        n = "%s-%s-%s" % (a, "bal" if bal else "free", init)
        add(n, P, 3)
        if deep:
            add("d-" + n, {**P, "storage_costs": [1, 0.5, -1, 2]}, 4,
                init=(0.0, 1.0, 2.0, 3.0))
            add("u-" + n, {**P, "storage_costs": 0.5}, 3, "num", fi=(0, 1),
                fo=(0, 1), E=4)
        elif (len(a) + bool(bal)) % 2:
            add("u-" + n, {**P, "storage_costs": 0.5}, 3, "num",
                init=(0.0, 1.0, 2.0, 4.0))
    # limits together with losses and efficiencies: the content decays
    for (a, lv), (b, lo) in itertools.product(LVL.items(), LOSS.items()):
        for bal in (True, False):
            add("loss-%s-%s-%s" % (a, b, bal),
                {**lv, **lo, "balanced": bal, "fixed_losses_absolute": 0.5},
                3, init=(1.0, 2.0, 3.0), fi=(0, 0.5, 1), fo=(0, 0.5, 1))
    # costs of the content and of the capacity
    for k, P in {
        "c": dict(storage_costs=2),
        "l": dict(storage_costs=[1, 3, -2, 0.5]),
        "np": dict(storage_costs={"form": "np", "v": [0, 1, 4, 2]}),
        "f": dict(fixed_costs=3),
        "fc": dict(fixed_costs=2, storage_costs=1),
        "fl": dict(fixed_costs=[4]),
    }.items():
        for d in DTS:
            for bal in (True, False):
                add("cost-%s-%s-%s" % (k, d, bal), {**P, "balanced": bal}, 3,
                    d, E=8, init=(2.0, 4.0))
        add("cost-%s-ow" % k, {**P, "balanced": False}, 3, "num", E=8,
            init=(2.0,), ow=[2.0, 0.5, 1.0])
        if k not in ("fl",):
            add("cost-%s-per" % k, {**P, "balanced": True}, 3, "num", E=8,
                init=(2.0, 4.0), discount_rate=0.1)
            out[-1]["time"]["periods"] = [
                {"start": "2020", "n": 2}, {"start": "2023", "n": 1}
            ]
    # charging power that depends on the content
    for (k, P), ff in itertools.product(
        SOC.items(),
        (dict(nominal_capacity=4), dict(nominal_capacity=2, maximum=0.5),
         dict(nominal_capacity=4, maximum=[1, 0.5, 0.25, 0.75]),
         dict(nominal_capacity=4, minimum=0.25)),
    ):
        for lv in ("def", "max", "minl"):
            n = "soc-%s-%s-%s" % (
                k, lv, "-".join(map(str, ff.values())).replace(" ", ""))
            add(n, {**P, **LVL[lv], "balanced": False}, 2,
                "num" if len(k) == 4 and lv == "def" else "eq", E=8,
                init=(0.0, 2.0, 4.0, 6.0), ff=ff,
                fi=(0, 0.25, 0.5, 1, 1.75, 2, 2.5, 3, 4, 4.5), fo=(0, 1, 2))
            if deep:
                add("d-" + n, {**P, **LVL[lv], "balanced": False}, 3, "num",
                    E=8, init=(0.0, 2.0, 4.0, 6.0), ff=ff,
                    fi=(0, 0.5, 1, 2, 3, 4), fo=(0, 1, 2))
    # storages next to each other: with and without all of these features
    nodes = [bus("a"), bus("b")]
    nodes += [
        storage("s", "a", "b", nominal_capacity=2, balanced=True,
                storage_costs=1),
        storage("r", "a", "b", nominal_capacity=3, balanced=False,
                initial_storage_level=1 / 3, min_storage_level=[0, 1 / 3, 0]),
        storage("q", "b", "a", nominal_capacity=2, balanced=False,
                fi=dict(nominal_capacity=2), **SOC["half"]),
    ]
    g = {"a>s": [0, 1, 2], "s>b": [0, 1], "a>r": [0, 1], "r>b": [0, 1],
         "b>q": [0, 1], "q>a": [0, 1]}
    if not deep:
        g["a>s"] = [0, 1]
    out.append(
        {
            "name": "three", "time": {"dt": [1.0, 1.0]},
            "nodes": nodes + AUX,
            "runs": [
                {
                    "static": [{"soc:s": x, "soc:r": y, "soc:q": z}
                               for x in (0.0, 1.0, 2.0) for y in (0.0, 1.0)
                               for z in (0.0, 1.0)],
                    "alphabet": letters({**g, **AUXG}, 2),
                }
            ],
        }
    )
    return out + combos.more("S02", deep)
