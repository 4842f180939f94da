"""Limits on simultaneously active flows and on shared resources."""

import itertools

from .. import combos
from ..explore import letters, run_config as run  # noqa: F401
from ..explore import statics
from ..gen import AUX, AUXG, bus, costs, snk, src
from .K01 import PER

RULE = (
    "all combinations of flow values (off, least power, more) of all selected"
    " and unselected flows in every interval, with the hidden on/off states"
    " enumerated; all charging histories of the storages on a grid"
)


def count_cfg(name, ncs, cons, T, grid=(0.0, 1.0, 2.0), kw=None, mn=0.5,
              per=None, invest=(), dt=None, cheap=None):
    """ncs: {label: nonconvex dict or None}; kw: {label: keyword names}"""
    nodes = [bus("b")]
    for n, nc in ncs.items():
        f = {"nominal_capacity": 2, "minimum": mn}
        if n in invest:
            f.pop("nominal_capacity")
            f["investment"] = {"maximum": 2, "ep_costs": 1}
        if nc is not None:
            f["nonconvex"] = dict(nc)
        else:
            f["minimum"] = 0
        if kw and n in kw:
            f["custom_properties"] = {k: True for k in kw[n]}
        nodes.append(src(n, "b", **f))
    nodes = costs(nodes)
    g = {"%s>b" % n: list(grid) for n in ncs}
    tm = {"dt": (dt or [1.0, 2.0, 0.5, 1.0])[:T]}
    if per:
        tm["periods"] = PER[per]
    run_ = {"alphabet": letters({**g, **AUXG}, T)}
    if invest:
        run_["static"] = statics(
            {"inv:%s>b:0" % n: [0.0, 2.0] for n in invest})
    return {"name": name, "time": tm, "nodes": nodes + AUX,
            "constraints": cons, "runs": [run_]}


def sto(n, i, o, **kw):
    return {"k": "storage", "n": n, "in": {i: {}}, "out": {o: {}},
            "balanced": False, **kw}


def shared_cfg(name, par, weights, T, c, dt=None, invest=False, init=None,
               comps=("s1", "s2")):
    nodes = [bus("a")]
    stat, g = {}, {}
    for k, (n, p) in enumerate(par.items()):
        d = sto(n, "a", "a", **p)
        if invest:
            d["investment"] = {"maximum": 8, "ep_costs": 1}
            stat["sinv:%s:0" % n] = [4.0]
        else:
            d["nominal_capacity"] = 8
        nodes.append(d)
        stat["soc:%s" % n] = [0.0, 2.0] if init is None else init
        g["a>%s" % n] = [0.0, 1.0, 2.0]
        g["%s>a" % n] = [0.0, 2.0] if k == 0 else [0.0]
    q = "invest_storage_content" if invest else "storage_content"
    cons = [{"c": "shared", "quantity": q, "name": "lim",
             "comps": list(comps), "weights": list(weights), **c}]
    return {"name": name, "time": {"dt": (dt or [1.0, 2.0, 0.5])[:T]},
            "nodes": costs(nodes) + AUX, "constraints": cons,
            "runs": [{"static": statics(stat),
                      "alphabet": letters({**g, **AUXG}, T)}]}


def flow_cfg(name, weights, c, T, comps=None):
    nodes = costs([bus("b"), src("s1", "b"), src("s2", "b"), snk("d", "b")])
    comps = comps or [["s1", "b"], ["b", "d"]]
    cons = [{"c": "shared", "quantity": "flow", "name": "fl", "comps": comps,
             "weights": list(weights), **c}]
    g = {k: [0.0, 1.0, 2.0] for k in ("s1>b", "s2>b", "b>d")}
    return {"name": name, "time": {"dt": [1.0, 2.0][:T]}, "nodes": nodes,
            "constraints": cons, "runs": [{"alphabet": letters(g, T)}]}


def tasks(tier):
    out = []
    thorough = tier == "thorough"
    F = {n: [n, "b"] for n in "xyzw"}
    # --- counts: all selections and limits of three flows
    for n in (1, 2, 3):
        for who in itertools.combinations("xyz", n):
            for lo in range(0, n + 1):
                for up in [None] + list(range(lo, n + 1)):
                    c = {"c": "count", "name": "cnt",
                         "flows": [F[x] for x in who], "lower": lo}
                    if up is not None:
                        c["upper"] = up
                    if not lo and n < 3:
                        c.pop("lower")
                    for T in (1, 2):
                        if T == 2 and not thorough and n == 1:
                            continue
                        out.append(count_cfg(
                            "cnt-%s-%s-%s-%d" % ("".join(who), lo, up, T),
                            {x: {} for x in "xyz"}, [c], T,
                            grid=(0.0, 1.0, 2.0) if T == 1 else (0.0, 1.0)))
                    # an active flow may be at zero power
                    out.append(count_cfg(
                        "cnt0-%s-%s-%s" % ("".join(who), lo, up),
                        {x: {"activity_costs": 1 + k}
                         for k, x in enumerate("xyz")}, [c], 1, mn=0.0))
    # with rules that need the history
    hist = [{"minimum_uptime": 2}, {"minimum_downtime": 2,
                                    "initial_status": 1},
            {"maximum_startups": 1, "startup_costs": 5},
            {"inactivity_costs": 2, "shutdown_costs": 3}]
    for a, b in itertools.product(range(len(hist)), repeat=2):
        for lo, up in ((0, 1), (1, 1), (1, 2)):
            c = {"c": "count", "name": "cnt", "flows": [F["x"], F["y"]],
                 "lower": lo, "upper": up}
            out.append(count_cfg("hist-%d%d-%d%d" % (a, b, lo, up),
                                 {"x": hist[a], "y": hist[b]}, [c],
                                 4 if thorough else 3, grid=(0.0, 1.0)))
    # two limits with flows in common
    c1 = {"c": "count", "name": "c1", "flows": [F["x"], F["y"]], "upper": 1}
    c2 = {"c": "count", "name": "c2", "flows": [F["y"], F["z"]], "lower": 1}
    out.append(count_cfg("two", {x: {} for x in "xyz"}, [c1, c2], 2,
                         grid=(0.0, 1.0)))
    out.append(count_cfg("two-sep", {x: {} for x in "xyzw"},
                         [c1, {**c2, "flows": [F["z"], F["w"]]}], 2,
                         grid=(0.0, 1.0)))
    # flows with invested capacity
    for lo, up in ((0, 1), (1, 1), (1, None), (2, 2)):
        c = {"c": "count", "name": "cnt", "flows": [F["x"], F["y"]],
             "lower": lo}
        if up is not None:
            c["upper"] = up
        for inv in (("x",), ("x", "y")):
            out.append(count_cfg("inv-%s-%s-%s" % (lo, up, "".join(inv)),
                                 {"x": {}, "y": {}}, [c], 2, grid=(0.0, 1.0),
                                 invest=inv))
            out.append(count_cfg(
                "invkw-%s-%s-%s" % (lo, up, "".join(inv)),
                {"x": {}, "y": {}, "z": {}},
                [{"c": "count_kw", "keyword": "grp", "lower": lo,
                  **({} if up is None else {"upper": up})}], 1,
                grid=(0.0, 1.0), invest=inv,
                kw={"x": ["grp"], "y": ["grp"], "z": ["no"]}))
    for pk in ("2", "21"):
        out.append(count_cfg("per-" + pk, {x: {} for x in "xy"}, [c1],
                             sum(q["n"] for q in PER[pk]), grid=(0.0, 1.0),
                             per=pk))
    # --- by keyword: every assignment of the keyword
    for who in itertools.product((0, 1), repeat=4):
        if not sum(who):
            continue
        ncs = {"x": {}, "y": {}, "z": {}, "w": None}
        kw = {n: ["grp"] if b else ["other"] for n, b in zip(ncs, who)}
        if not any(who[:3]):
            continue
        for lo, up in ((0, 1), (1, None), (1, 1), (0, 0)):
            c = {"c": "count_kw", "keyword": "grp"}
            if lo or sum(who) % 2:
                c["lower"] = lo
            if up is not None:
                c["upper"] = up
            out.append(count_cfg(
                "kw-%s-%s-%s" % ("".join(map(str, who)), lo, up), ncs, [c],
                2 if thorough else 1, grid=(0.0, 1.0), kw=kw))
    # --- shared limit of storage contents
    pars = {
        "plain": {"s1": {}, "s2": {}},
        "loss": {"s1": {"loss_rate": 0.5}, "s2": {"loss_rate": 0.25}},
        "eta": {"s1": {"inflow_conversion_factor": 0.5}, "s2": {}},
    }
    for pk, par in pars.items():
        for ws in ((1, 1), (1, 2), (0.5, 1), (1, -1), (2, 0)):
            for lk, lim in (("u", {"upper": 4.0}), ("l", {"lower": 1.0}),
                            ("b", {"lower": 1.0, "upper": 3.0}),
                            ("n", {"lower": -2.0, "upper": 2.0})):
                if lk == "n" and ws != (1, -1):
                    continue
                out.append(shared_cfg("sh-%s-%s-%s" % (pk, ws, lk), par, ws,
                                      2, lim))
                if thorough:
                    out.append(shared_cfg("sh3-%s-%s-%s" % (pk, ws, lk), par,
                                          ws, 3, lim, init=[2.0]))
    for lim in ({"upper": 4.0}, {"lower": 1.0, "upper": 3.0}):
        tag = "%s" % sorted(lim.items())
        out.append(shared_cfg("sh-dt-" + tag, pars["plain"], (1, 1), 3, lim,
                              dt=[0.5, 1.0, 2.0], init=[1.0]))
        out.append(shared_cfg("sh-one-" + tag, pars["plain"], (2,), 2, lim,
                              comps=("s2",)))
        out.append(shared_cfg("sh-inv-" + tag, pars["plain"], (1, 2), 2, lim,
                              invest=True))
        for ws in ((1, 1), (2, -1), (0.5, 3)):
            out.append(flow_cfg("sh-flow-%s-%s" % (ws, tag), ws, lim, 2))
            out.append(flow_cfg("sh-flow2-%s-%s" % (ws, tag), ws, lim, 2,
                                comps=[["s2", "b"], ["s1", "b"]]))
    return out + mixed(thorough)


def mixed(deep):
    """Every combination of options of counted flows, of storages with a
    shared limit, of limits and of time structures."""
    out = []
    strength = 3 if deep else 2
    few = 3 if deep else 2
    flow = combos.without(
        combos.ONOFF, combos.PG, combos.NG, "nominal_capacity", "integer")
    opts = {
        **flow,
        "lo": [0, 1, 2], "up": [None, 1, 2, 0],
        "by": ["count", "count_kw"],
        "per": [None, "21"],
        "other": [{}, {"minimum_uptime": 2}, {"initial_status": 1},
                  {"activity_costs": 1}],
    }

    def ok(a):
        if a.get("up") is not None and a.get("lo") is not None:
            if a["lo"] > a["up"]:
                return False
        return combos.onoff_ok(a)

    for n, a in enumerate(
        combos.both_arrays(opts, strength, ok, few=few)
    ):
        T = 3
        F = combos.clean(
            {k: v for k, v in a.items() if k in flow}, T)
        F["nominal_capacity"] = 2
        G = {"nominal_capacity": 2, "minimum": 0.5,
             "nonconvex": dict(a["other"]), "variable_costs": 2}
        if a["by"] == "count_kw":
            F["custom_properties"] = {"grp": True}
            G["custom_properties"] = {"grp": 0}
        nodes = [bus("b"), src("x", "b", **F), snk("y", "b", **G)]
        vals = combos.grid(F, T, [2], 6)
        vals = [[v for v in q if v >= 0][:4] for q in vals]
        c = {"c": a["by"], "lower": a["lo"]}
        if a["up"] is not None:
            c["upper"] = a["up"]
        if a["by"] == "count":
            c.update(name="cnt", flows=[["x", "b"], ["b", "y"]])
        else:
            c["keyword"] = "grp"
        tm = {"dt": [1.0, 2.0, 0.5]}
        if a["per"]:
            tm["periods"] = PER[a["per"]]
        out.append({
            "name": "mixc-%03d" % n, "time": tm, "nodes": nodes + AUX,
            "constraints": [c],
            "runs": [{"alphabet": letters(
                {"x>b": vals, "b>y": [0.0, 1.0], **AUXG}, T)}]})
    store = combos.without(combos.STORE, "soc", "in", "out", "fixed_costs",
                           "initial_storage_level", "storage_costs")
    opts = {
        **store,
        "ws": [[1, 1], [1, 2], [2, -1]],
        "lim": [{"upper": 4.0}, {"lower": 1.0},
                {"lower": 1.0, "upper": 3.0}],
        "invest": [False, True],
        "dt": [[1.0, 2.0], [0.5, 1.0]],
    }

    def ok2(a):
        return not (
            a.get("invest") and a.get("fixed_losses_absolute") is not None
        )

    for n, a in enumerate(
        combos.both_arrays(opts, strength, ok2, few=few)
    ):
        par = {
            k: (v[: 2 + k.endswith("_level")] if isinstance(v, list) else v)
            for k, v in a.items() if k in store and v is not None
        }
        out.append(shared_cfg(
            "mixs-%03d" % n, {"s1": par, "s2": {"loss_rate": 0.25}},
            a["ws"], 2, a["lim"], dt=a["dt"], invest=a["invest"],
            init=[0.0, 1.0, 2.0, 4.0]))
    return out
