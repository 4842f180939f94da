"""Storage content follows from inflow, outflow and losses."""

import itertools

from .. import combos
from ..explore import letters, run_config as run  # noqa: F401
from ..gen import AUX, AUXG, bus, snk, src

RULE = (
    "every charging/discharging history over a grid of powers in every"
    " interval x every initial content on a grid; the content at every point"
    " in time has to be the one that follows from the history"
)


def lst(v, n):
    if isinstance(v, dict):
        return {**v, "v": v["v"][:n]}
    return v[:n] if isinstance(v, list) else v


LOSS = {
    "0": {},
    "c": dict(loss_rate=0.1),
    "l": dict(loss_rate=[0.5, 0, 0.2, 0.1]),
    "np": dict(loss_rate={"form": "np", "v": [0, 0.25, 1, 0.5]}),
}
FIX = {
    "0": {},
    "r": dict(fixed_losses_relative=0.01),
    "rl": dict(fixed_losses_relative=[0.02, 0, 0.05, 0.01]),
    "a": dict(fixed_losses_absolute=0.25),
    "al": dict(fixed_losses_absolute=[0, 0.5, 0.125, 1]),
    "ra": dict(fixed_losses_relative={"form": "series",
                                      "v": [0.01, 0.03, 0, 0.1]},
               fixed_losses_absolute=[0.5, 0, 1, 0.25]),
}
ETA = {
    "0": {},
    "i": dict(inflow_conversion_factor=0.5),
    "o": dict(outflow_conversion_factor=0.5),
    "l": dict(inflow_conversion_factor=[0.5, 1, 0.25, 0.75],
              outflow_conversion_factor={"form": "np",
                                         "v": [1, 0.5, 0.25, 0.8]}),
}
DTS = {
    "num": ([1.0, 2.0, 0.5, 3.0], "num"),
    "eq": ([1.0, 1.0, 1.0, 1.0], "infer"),
    "dt": ([0.25, 4.0, 1.5, 1.0], "dt"),
    "tinc": ([2.0, 0.5, 1.0, 0.25], "tinc"),
}


def storage(n, i, o, **kw):
    fi, fo = kw.pop("fi", {}), kw.pop("fo", {})
    d = {"k": "storage", "n": n, "in": {i: dict(fi)}, "out": {o: dict(fo)}}
    d.update(kw)
    return d


def tasks(tier):
    deep = tier == "thorough"
    out = []

    def add(name, P, T, dts="num", init=(5.0, 12.0), fi=(0, 1, 3),
            fo=(0, 1, 2), **kw):
        dt, kind = DTS[dts]
        P = {k: lst(v, T) for k, v in P.items()}
        nodes = [
            bus("a"), bus("b"),
            storage("s", "a", "b", nominal_capacity=20, balanced=False,
                    fi={"variable_costs": 1}, fo={"variable_costs": 2}, **P),
        ]
        cfg = {
            "name": name, "time": {"dt": dt[:T], "kind": kind},
            "nodes": nodes + AUX, **kw,
        }
        cfg["runs"] = [
            {
                "static": [{"soc:s": x} for x in init],
                "alphabet": letters(
                    {"a>s": list(map(float, fi)), "s>b": list(map(float, fo)),
                     **AUXG}, T,
                ),
            }
        ]
        out.append(cfg)

    for (a, lo), (b, fx), (c, et) in itertools.product(
        LOSS.items(), FIX.items(), ETA.items()
    ):
        add("%s-%s-%s" % (a, b, c), {**lo, **fx, **et}, 3)
        if deep:
            add("d-%s-%s-%s" % (a, b, c), {**lo, **fx, **et}, 4, "dt",
                init=(12.0,), fi=(0, 3))
    for d in ("eq", "dt", "tinc"):
        for (a, lo), (b, fx) in itertools.product(LOSS.items(), FIX.items()):
            if not deep and (len(a) + len(b)) % 2:
                continue
            add("%s-%s-%s" % (d, a, b), {**lo, **fx, **ETA["l"]}, 3, d)
    # given initial level
    for a in LOSS:
        add("lvl-" + a, {**LOSS[a], **FIX["ra"], "initial_storage_level": 0.4},
            3, init=(8.0, 7.0))
    # one bus for both directions, two storages in a row
    for a in ("0", "l"):
        nodes = [
            bus("a", True), src("g", "a", nominal_capacity=5),
            snk("d", "a", nominal_capacity=5),
            storage("s", "a", "a", nominal_capacity=8, balanced=False,
                    **{k: lst(v, 2) for k, v in
                       {**LOSS[a], **ETA["l"]}.items()}),
        ]
        out.append(
            {
                "name": "same-bus-" + a,
                "time": {"dt": [1.0, 2.0]}, "nodes": nodes,
                "runs": [
                    {
                        "static": [{"soc:s": x} for x in (0.0, 4.0)],
                        "alphabet": letters(
                            {"g>a": [0, 1, 2], "a>d": [0, 1, 2],
                             "a>s": [0, 1, 2], "s>a": [0, 1, 2]}, 2,
                        ),
                    }
                ],
            }
        )
        nodes = [
            bus("a"), bus("m", True), bus("b"),
            storage("s", "a", "m", nominal_capacity=20, balanced=False,
                    **{k: lst(v, 3) for k, v in {**LOSS[a], **FIX["al"]}.items()}),
            storage("r", "m", "b", nominal_capacity=20, balanced=False,
                    **{k: lst(v, 3) for k, v in {**LOSS["c"], **ETA["l"]}.items()}),
        ]
        T = 3 if deep else 2
        for d in nodes[3:]:
            for k, v in d.items():
                if isinstance(v, (list, dict)) and k not in ("in", "out"):
                    d[k] = lst(v, T)
        out.append(
            {
                "name": "row-" + a, "time": {"dt": [1.0, 0.5, 2.0][:T]},
                "nodes": nodes + AUX,
                "runs": [
                    {
                        "static": [{"soc:s": 6.0, "soc:r": 5.0},
                                   {"soc:s": 3.0, "soc:r": 0.5}],
                        "alphabet": letters(
                            {"a>s": [0, 1, 2], "s>m": [0, 1, 2],
                             "m>r": [0, 1, 2], "r>b": [0, 1], **AUXG}, T,
                        ),
                    }
                ],
            }
        )
    # the objective weighting does not change the physics
    add("ow", {**LOSS["l"], **FIX["ra"], **ETA["l"]}, 3, ow=[1.0, 3.0, 0.5])
    # several periods
    for a in LOSS:
        add("per-" + a, {**LOSS[a], **FIX["ra"], **ETA["l"]}, 3)
        out[-1]["time"]["periods"] = [
            {"start": "2020", "n": 1}, {"start": "2025", "n": 2}
        ]
    return out + combos.more("S01", deep)
