"""The content of a storage gates the flows of a multiplexer bus."""

import itertools

from .. import combos
from ..explore import letters, run_config as run  # noqa: F401
from ..explore import statics
from ..gen import AUX, AUXG, bus, costs

RULE = (
    "all combinations of flows through the gates and of charging and"
    " discharging in every interval x initial contents; contents lie below,"
    " exactly at and above the levels"
)


def make(name, inp, out, T, par=None, noms=None, cap=4.0, init=(0.0, 2.0, 3.0),
         dt=None, grid=(0.0, 0.5, 1.0), ch=(0.0, 1.0), dis=(0.0, 1.0),
         wire=True, factor=1):
    """inp/out: {bus: level}; the storage is charged and discharged through
    the multiplexer bus (which is left unbalanced, so that all combinations
    are looked at)."""
    noms = noms or {}
    mux = bus("m", in_=None)
    mux.pop("in_")
    nodes = []
    for b in list(inp) + [x for x in out if x not in inp]:
        nodes.append(bus(b))
    m = bus("m")
    m["in"] = {b: {"nominal_capacity": noms.get("i" + b, 1)} for b in inp}
    m["out"] = {b: {"nominal_capacity": noms.get("o" + b, 1)} for b in out}
    nodes.append(m)
    d = {"k": "storage", "n": "s", "in": {"m": {}}, "out": {"m": {}},
         "nominal_capacity": cap, "balanced": False, **(par or {})}
    nodes.append(d)
    g = {}
    for b in inp:
        g["%s>m" % b] = [x * noms.get("i" + b, 1) for x in grid]
    for b in out:
        g["m>%s" % b] = [x * noms.get("o" + b, 1) for x in grid]
    g["m>s"], g["s>m"] = list(ch), list(dis)
    cons = [{"c": "storage_level", "name": "mx", "storage": "s", "bus": "m",
             "inp": inp, "out": out}]
    return {"name": name, "time": {"dt": (dt or [1.0, 1.0, 1.0, 1.0])[:T]},
            "nodes": costs(nodes) + AUX, "constraints": cons,
            "runs": [{"static": statics({"soc:s": list(init)}),
                      "alphabet": letters({**g, **AUXG}, T)}]}


def tasks(tier):
    out = []
    thorough = tier == "thorough"
    lv = [0.0, 0.25, 0.5, 0.75, 1.0]
    # one gate
    for x in lv:
        out.append(make("i-%g" % x, {"a": x}, {}, 2))
        out.append(make("o-%g" % x, {}, {"a": x}, 2))
        for dt in ([1.0, 2.0, 0.5], [0.5, 1.0, 2.0]):
            tag = "%g-%s" % (x, dt[0])
            out.append(make("i3-" + tag, {"a": x}, {}, 3, dt=dt,
                            grid=(0.0, 1.0), init=(1.0, 2.0)))
            out.append(make("o3-" + tag, {}, {"a": x}, 3, dt=dt,
                            grid=(0.0, 1.0), init=(1.0, 2.0)))
    # an input and an output
    for x, y in itertools.product(lv, lv):
        out.append(make("io-%g-%g" % (x, y), {"a": x}, {"b": y}, 2,
                        grid=(0.0, 1.0)))
        if thorough:
            out.append(make("io3-%g-%g" % (x, y), {"a": x}, {"b": y}, 3,
                            grid=(0.0, 1.0), init=(1.0, 2.0, 3.0)))
    # several gates of the same kind with different levels
    for x, y in itertools.combinations(lv, 2):
        out.append(make("ii-%g-%g" % (x, y), {"a": x, "b": y}, {}, 2,
                        grid=(0.0, 1.0)))
        out.append(make("oo-%g-%g" % (x, y), {}, {"a": x, "b": y}, 2,
                        grid=(0.0, 1.0)))
        # the same bus on both sides
        out.append(make("same-%g-%g" % (x, y), {"a": x}, {"a": y}, 2,
                        grid=(0.0, 1.0)))
    # capacities of the gates, losses, other storage sizes
    for x in (0.25, 0.5):
        for k, par in (("loss", {"loss_rate": 0.5}),
                       ("lossl", {"loss_rate": [0.0, 0.5, 0.25, 0.0]}),
                       ("eta", {"inflow_conversion_factor": 0.5,
                                "outflow_conversion_factor": 0.5}),
                       ("fix", {"fixed_losses_absolute": 1}),
                       ("lvl", {"min_storage_level": 0.25,
                                "max_storage_level": 0.75})):
            out.append(make("%s-%g" % (k, x), {"a": x}, {"b": x}, 2, par=par,
                            grid=(0.0, 1.0)))
        out.append(make("nom-%g" % x, {"a": x, "c": 0.75}, {"b": x}, 2,
                        noms={"ia": 4, "ob": 2, "ic": 0.5}, grid=(0.0, 1.0)))
        out.append(make("nomf-%g" % x, {"a": x}, {"b": x}, 1,
                        noms={"ia": 4, "ob": 2}, grid=(0.0, 0.5, 1.0, 1.25)))
        out.append(make("cap-%g" % x, {"a": x}, {"b": x}, 2, cap=8.0,
                        init=(1.0, 2.0, 4.0, 5.0), ch=(0.0, 2.0),
                        dis=(0.0, 2.0), grid=(0.0, 1.0)))
        if thorough:
            out.append(make("t4-%g" % x, {"a": x}, {"b": x}, 4,
                            grid=(0.0, 1.0), init=(1.0, 2.0)))
    return out + mixed(thorough)


def mixed(deep):
    """Every combination of levels, storage options and time structures."""
    store = combos.without(combos.STORE, "soc", "in", "out", "fixed_costs",
                           "initial_storage_level")
    opts = {
        **store,
        "inp": [{"a": 0.25}, {"a": 0.5, "c": 0.75}, {}],
        "out": [{"b": 0.5}, {"b": 0.25, "d": 0.5}, {}, {"a": 0.25}],
        "noms": [{}, {"ia": 4, "ob": 2}],
        "dt": [[1.0, 2.0], [0.5, 1.0]],
        "time": [None, "per"],
        "ow": [None, [3.0, 0.5]],
    }

    def ok(a):
        return a.get("inp") != {} or a.get("out") != {}

    out = []
    for n, a in enumerate(
        combos.both_arrays(opts, 3 if deep else 2, ok, few=3 if deep else 2)
    ):
        par = {
            k: (v[: 2 + k.endswith("_level")] if isinstance(v, list) else v)
            for k, v in a.items() if k in store and v is not None
        }
        t = make("mix-%03d" % n, a["inp"], a["out"], 2, par=par,
                 noms=a["noms"], dt=a["dt"], grid=(0.0, 1.0),
                 init=(1.0, 2.0, 3.0))
        if a["time"]:
            t["time"]["periods"] = [{"start": "2020", "n": 1},
                                    {"start": "2022", "n": 1}]
        if a["ow"]:
            t["ow"] = a["ow"]
        out.append(t)
    return out
