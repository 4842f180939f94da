"""Models with typical periods stand for the expanded time series."""

import itertools

from .. import combos
from ..explore import letters, run_config as run, statics  # noqa: F401
from ..gen import AUX, AUXG, bus, costs, snk, src
from .S01 import storage

RULE = (
    "all trajectories of the typical intervals (x invested capacities x"
    " initial contents) on a grid; the reference carries contents through"
    " the original sequence interval by interval and weights every value with"
    " the number of original intervals it stands for"
)


def axis(order, size=None, segments=None, dt=1.0, kind="dt"):
    if segments is not None:
        d = [float(x) for row in segments for x in row]
        q = {"timesteps_per_period": int(sum(segments[0])), "order": order,
             "segments": segments}
    else:
        d = [float(dt)] * (size * (max(order) + 1))
        q = {"timesteps_per_period": size, "order": order}
    return {"dt": d, "kind": kind, "tsa": [q], "single": True}


AX = {
    "basic": axis([0, 1, 1, 0], 2),
    "rev": axis([1, 1, 1, 0], 2, kind="infer"),
    "three": axis([0, 1, 0, 2, 1], 1),
    "same": axis([0, 0, 0], 2, kind="infer"),
    "seg": axis([0, 1, 1, 0], segments=[[1, 3], [2, 2]]),
    "seg1": axis([0, 1, 0], segments=[[3, 2], [4, 1]]),
    "half": axis([0, 1, 0], 2, dt=0.5),
    "two": axis([1, 0, 0], 2, dt=2, kind="infer"),
}
DEEP = {
    "long": axis([0, 1, 2, 1, 0, 2, 2], 1),
    "seg3": axis([0, 1, 1], segments=[[1, 1, 2], [3, 0.5, 0.5]]),
    "five": axis([0, 0, 1, 1, 0], 2),
    "once": axis([0], 3),
    "listed": {**axis([1, 0, 1], 2), "single": False},
}


def multi(ps, segs=None):
    """several periods; ps: [(start, order, size)]"""
    periods, tsa, dt = [], [], []
    for j, (start, order, size) in enumerate(ps):
        n = size * (max(order) + 1)
        periods.append({"start": start, "n": n, "years": 1})
        q = {"timesteps_per_period": size, "order": order}
        if segs:
            q["segments"] = segs[j]
            dt += [float(x) for row in segs[j] for x in row]
        else:
            dt += [1.0] * n
        tsa.append(q)
    return {"dt": dt, "periods": periods, "tsa": tsa}


MP = {
    "mp2": multi([("2020-01-01", [0, 1, 1], 1), ("2022-01-01", [1, 0, 1], 1)]),
    "mpu": multi([("2020-01-01", [0, 1, 1], 1), ("2023-01-01", [0, 0], 1)]),
    "mpl": multi([("2020-01-01", [0, 0], 1), ("2021-01-01", [0, 1, 0], 1),
                  ("2026-01-01", [0], 1)]),
    "mps": multi([("2020-01-01", [0, 0, 0], 2), ("2025-01-01", [0, 0], 2)],
                 [[[1, 2]], [[3, 1]]]),
    # typical periods of different length
    "mpd": multi([("2020-01-01", [0, 0], 1), ("2022-01-01", [0, 0], 2)]),
    "mpe": multi([("2020-01-01", [0, 0], 2), ("2021-01-01", [1, 0, 1], 1)]),
}


def T_of(time):
    return len(time["dt"])


def cut(v, T):
    return [v[i % len(v)] for i in range(T)] if isinstance(v, list) else v


def tasks(tier):
    deep = tier == "thorough"
    out = []
    axes = {**AX, **(DEEP if deep else {})}

    def add(name, time, nodes, grid, stat=None, **kw):
        r = {"alphabet": letters({**grid, **AUXG}, T_of(time))}
        if stat:
            r["static"] = statics(stat)
        out.append({"name": name, "time": time, "nodes": nodes + AUX,
                    "runs": [r], **kw})

    # operational costs, energy totals
    flows = {
        "vc": dict(variable_costs=2.5),
        "vl": dict(variable_costs=[1, -3, 0.5, 2, 7]),
        "fmax": dict(nominal_capacity=2, full_load_time_max=4,
                     variable_costs=1),
        "fmin": dict(nominal_capacity=2, full_load_time_min=3,
                     variable_costs=1),
        "fboth": dict(nominal_capacity=2, full_load_time_min=2,
                      full_load_time_max=5),
        "bnd": dict(nominal_capacity=2, minimum=[0, 0.5, 0, 0.25],
                    maximum=[1, 0.5, 0.75, 1], variable_costs=1),
    }
    for (a, ax), (b, f) in itertools.product(axes.items(), flows.items()):
        T = T_of(ax)
        f = {k: cut(v, T) for k, v in f.items()}
        add("flow-%s-%s" % (b, a), ax,
            [bus("b"), src("s", "b", **f), snk("d", "b", variable_costs=1)],
            {"s>b": [0.0, 0.5, 1.0, 2.0], "b>d": [1.0]})
        if b in ("vl", "fboth"):
            add("flowow-%s-%s" % (b, a), ax,
                [bus("b"), src("s", "b", **f)],
                {"s>b": [0.0, 1.0, 2.0]}, ow=cut([2, 0.5, 1, 3], T))
        if b.startswith("f"):
            # capacity is a decision
            f2 = dict(f)
            f2.pop("nominal_capacity")
            f2["investment"] = dict(ep_costs=3, maximum=5)
            add("inv-%s-%s" % (b, a), ax, [bus("b"), src("s", "b", **f2)],
                {"s>b": [0.0, 1.0, 2.0]}, {"inv:s>b:0": [0.0, 1.0, 2.0, 4.0]})
            f2["nonconvex"] = dict(startup_costs=2, activity_costs=0.5)
            f2["minimum"] = 0.5
            add("incx-%s-%s" % (b, a), ax, [bus("b"), src("s", "b", **f2)],
                {"s>b": [0.0, 1.0, 2.0]}, {"inv:s>b:0": [0.0, 1.0, 2.0, 4.0]})
    # switching costs
    ncs = {
        "start": dict(startup_costs=3),
        "stop": dict(shutdown_costs=[2, 1, 5, 0.5], initial_status=1),
        "act": dict(activity_costs=[2, 1, 3, 0.25]),
        "inact": dict(inactivity_costs=1.5),
        "all": dict(startup_costs=[3, 1, 2, 4], shutdown_costs=2,
                    activity_costs=0.5, inactivity_costs=[1, 2, 0.5, 4]),
    }
    for (a, ax), (b, nc) in itertools.product(axes.items(), ncs.items()):
        T = T_of(ax)
        nc = {k: cut(v, T) for k, v in nc.items()}
        add("nc-%s-%s" % (b, a), ax,
            [bus("b"), src("s", "b", nominal_capacity=2, minimum=0.25,
                           variable_costs=1, nonconvex=nc)],
            {"s>b": [0.0, 0.25, 0.5, 2.0]})
    # limits on totals
    for (a, ax), lim in itertools.product(axes.items(), (2, 5)):
        T = T_of(ax)
        two = [bus("b"),
               src("s", "b", custom_properties={"emission_factor": 1},
                   variable_costs=1),
               src("q", "b", custom_properties={
                   "emission_factor": cut([2, 0.5, 1, 3], T)},
                   variable_costs=2)]
        for c in ({"c": "emission_limit", "limit": lim},
                  {"c": "integral", "keyword": "emission_factor",
                   "lower": lim},
                  {"c": "integral", "keyword": "emission_factor",
                   "lower": lim / 2, "upper": lim + 1}):
            add("%s%g-%s-%s" % (c["c"], lim, "lower" in c and
                                ("both" if "upper" in c else "lower"), a),
                ax, two, {"s>b": [0.0, 0.5, 1.0], "q>b": [0.0, 1.0]}
                if T < 5 else {"s>b": [0.0, 1.0], "q>b": [0.0, 1.0]},
                constraints=[c])
    # storages
    loss = {
        "0": {},
        "l": dict(loss_rate=0.1),
        "ll": dict(loss_rate=[0.1, 0.2, 0, 0.5]),
        "r": dict(fixed_losses_relative=0.05, loss_rate=0.1),
        "a": dict(fixed_losses_absolute=[0.25, 0, 0.5, 0.125]),
        "e": dict(inflow_conversion_factor=0.5, loss_rate=[0, 0.25, 0.1, 0],
                  outflow_conversion_factor=[0.5, 1, 0.8, 1]),
    }
    lvl = {
        "d": {},
        "m": dict(min_storage_level=0.25, max_storage_level=0.75),
        "x": dict(max_storage_level=0.5),
        "n": dict(min_storage_level=0.5),
    }
    for (a, ax), (b, lo), (c, lv), bal, il in itertools.product(
        axes.items(), loss.items(), lvl.items(), (True, False), (None, 0.5)
    ):
        T = T_of(ax)
        if not deep and (len(a) + len(b) + len(c) + bal + bool(il)) % 2:
            continue
        P = {k: cut(v, T) for k, v in {**lo, **lv}.items()}
        if il is not None:
            P["initial_storage_level"] = il
        P["storage_costs"] = cut([1, 0.5, 2, -1], T)
        fi = [0.0, 0.5, 1.0] if T < 5 else [0.0, 1.0]
        fo = [0.0, 1.0] if T < 5 else [0.0, 0.5]
        init = [0.0, 1.0, 2.0, 3.0, 4.0]
        tag = "%s-%s-%s-%s-%s" % (a, b, c, "bal" if bal else "free", il)
        add("st-" + tag, ax,
            [bus("x"), bus("y"),
             storage("s", "x", "y", nominal_capacity=4, balanced=bal,
                     fi={"variable_costs": 1}, fo={"variable_costs": 2}, **P)],
            {"x>s": fi, "s>y": fo}, {"soc:s": init})
        if not bal:
            add("ist-" + tag, ax,
                [bus("x"), bus("y"),
                 storage("s", "x", "y", balanced=False,
                         investment=dict(ep_costs=3, maximum=9, existing=1),
                         fi={"variable_costs": 1}, fo={"variable_costs": 2},
                         **P)],
                {"x>s": [0.0, 1.0], "s>y": [0.0, 1.0]},
                {"sinv:s:0": [0.0, 1.0, 3.0, 7.0],
                 "soc:s": [0.0, 1.0, 2.0, 4.0]})
    # balance when nothing is lost and when the losses are made up for
    for a, ax in axes.items():
        T = T_of(ax)
        for b, P in (("eq", {}), ("eff", dict(inflow_conversion_factor=0.5)),
                     ("abs", dict(fixed_losses_absolute=0.5))):
            add("bal-%s-%s" % (a, b), ax,
                [bus("x"), bus("y"),
                 storage("s", "x", "y", nominal_capacity=8, **P)],
                {"x>s": [0.0, 0.5, 1.0], "s>y": [0.0, 0.5]},
                {"soc:s": [0.0, 4.0]})
    add("invest-balanced", AX["basic"],
        [bus("x"), bus("y"),
         storage("s", "x", "y", investment=dict(ep_costs=3, maximum=9))],
        {"x>s": [0.0, 1.0], "s>y": [0.0, 1.0]},
        {"sinv:s:0": [4.0], "soc:s": [0.0, 2.0]})
    # gates that depend on the content
    for (a, ax), (x, y) in itertools.product(
        axes.items(), ((0.25, 0.5), (0.5, 0.25), (0.75, 0.75))
    ):
        T = T_of(ax)
        m = bus("m")
        m["in"] = {"i": {"nominal_capacity": 1}}
        m["out"] = {"o": {"nominal_capacity": 1}}
        nodes = costs([bus("i"), bus("o"), m, {
            "k": "storage", "n": "s", "in": {"m": {}}, "out": {"m": {}},
            "nominal_capacity": 4.0, "balanced": False,
            "loss_rate": cut([0, 0.25, 0.1, 0.5], T) if len(a) % 2 else 0,
        }])
        if T > 4:
            continue
        add("gate-%s-%g-%g" % (a, x, y), ax, nodes,
            {"i>m": [0.0, 1.0], "m>o": [0.0, 1.0], "m>s": [0.0, 1.0],
             "s>m": [0.0] if T > 3 and not deep else [0.0, 0.5]},
            {"soc:s": [1.0, 2.0]},
            constraints=[{"c": "storage_level", "name": "mx", "storage": "s",
                          "bus": "m", "inp": {"i": x}, "out": {"o": y}}])
    # several periods
    for a, ax in MP.items():
        T, P = T_of(ax), len(ax["periods"])
        kw = {"discount_rate": 0.1}
        add("mp-flow-" + a, ax,
            [bus("b"), src("s", "b", variable_costs=cut([1, 3, 2, 0.5], T)),
             src("q", "b", nominal_capacity=2, full_load_time_max=3,
                 variable_costs=1)],
            {"s>b": [0.0, 1.0], "q>b": [0.0, 1.0, 2.0]}, **kw)
        add("mp-nc-" + a, ax,
            [bus("b"), src("s", "b", nominal_capacity=1,
                           nonconvex=dict(startup_costs=2, shutdown_costs=1,
                                          activity_costs=0.5))],
            {"s>b": [0.0, 0.5, 1.0]}, **kw)
        for lim in ([3, 2, 2], [1, 4, 0]):
            add("mp-em-%s-%d" % (a, lim[0]), ax,
                [bus("b"), src("s", "b", custom_properties={
                    "emission_factor": cut([1, 2, 0.5, 1], T)})],
                {"s>b": [0.0, 0.5, 1.0, 2.0]},
                constraints=[{"c": "emission_limit_per_period",
                              "limit": lim[:P]},
                             {"c": "emission_limit", "limit": 4}], **kw)
        for b, lo in loss.items():
            pp = {k: cut(v, T) for k, v in lo.items()}
            add("mp-st-%s-%s" % (a, b), ax,
                [bus("x"), bus("y"),
                 storage("s", "x", "y", nominal_capacity=4, balanced=False,
                         storage_costs=1, max_storage_level=0.75,
                         fi={"variable_costs": 1}, fo={"variable_costs": 2},
                         **pp)],
                {"x>s": [0.0, 0.5, 1.0], "s>y": [0.0, 1.0]},
                {"soc:s": [0.0, 1.0, 2.0, 3.0]}, **kw)
            if b == "a":
                continue  # not supported with investments
            for life in (2, 20):
                add("mp-ist-%s-%s-%d" % (a, b, life), ax,
                    [bus("x"), bus("y"),
                     storage("s", "x", "y",
                             investment=dict(ep_costs=3, maximum=9,
                                             lifetime=life),
                             storage_costs=1, max_storage_level=0.75,
                             fi={"variable_costs": 1},
                             fo={"variable_costs": 2}, **pp)],
                    {"x>s": [0.0, 0.5, 1.0], "s>y": [0.0, 0.5]},
                    {**{"sinv:s:%d" % p: [0.0, 2.0 + p] for p in range(P)},
                     "soc:s": [0.0, 1.0]}, **kw)
        if T > 4:
            continue
        for (x, y), lo in itertools.product(
            ((0.25, 0.5), (0.5, 0.25)), ("0", "ll")
        ):
            m = bus("m")
            m["in"] = {"i": {"nominal_capacity": 1}}
            m["out"] = {"o": {"nominal_capacity": 1}}
            add("mp-gate-%s-%g-%s" % (a, x, lo), ax, costs([
                bus("i"), bus("o"), m, {
                    "k": "storage", "n": "s", "in": {"m": {}},
                    "out": {"m": {}}, "nominal_capacity": 4.0,
                    "balanced": False,
                    **{k: cut(v, T) for k, v in loss[lo].items()},
                }]),
                {"i>m": [0.0, 1.0], "m>o": [0.0, 1.0], "m>s": [0.0, 1.0],
                 "s>m": [0.0, 0.5] if T < 4 else [0.0]},
                {"soc:s": [1.0, 2.0]},
                constraints=[{"c": "storage_level", "name": "mx",
                              "storage": "s", "bus": "m", "inp": {"i": x},
                              "out": {"o": y}}], **kw)
    return out + combos.more_t02(axes, MP, deep)
