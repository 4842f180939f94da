"""Small building blocks with every kind of component and option, and every
kind of time axis; used by the checks of results and of model histories.

feature(T, mp) -> (nodes, constraints); every system is feasible and bounded
and all names are unique, so that any set of features can be combined."""

from .gen import bus, snk, src
from .props.C03 import MO
from .props.C05 import MIX
from .props.S01 import storage


def seq(base, T):
    """a value of its own for every interval"""
    return [round(base + 0.25 * t, 4) for t in range(T)]


def inv(mp, **kw):
    return {"ep_costs": 2, "maximum": 8, **({"lifetime": 5} if mp else {}),
            **kw}


def need(n, b, T, q=1.0):
    """a consumer with a given demand"""
    return snk(n, b, nominal_capacity=1, fix=seq(q, T))


def f_flow(T, mp):
    return [bus("a0", True), src("a1", "a0", variable_costs=seq(1, T)),
            src("a2", "a0", nominal_capacity=1, variable_costs=0.5),
            need("a3", "a0", T)], []


def f_balance(T, mp):
    return [bus("b0", False), snk("b1", "b0", nominal_capacity=2, minimum=0.25,
                                  variable_costs=3, full_load_time_min=0.125),
            ], []


def f_free(T, mp):
    """flows that influence nothing in some intervals"""
    return [bus("s0", False),
            src("s1", "s0", nominal_capacity=2, minimum=0.25,
                variable_costs=([0, 1] * T)[:T]),
            snk("s2", "s0", variable_costs=([1, 0] * T)[:T])], []


def f_gradient(T, mp):
    return [bus("c0", True), src("c1", "c0", nominal_capacity=4,
                                 positive_gradient_limit=0.5,
                                 negative_gradient_limit=0.5,
                                 variable_costs=1),
            src("c2", "c0", nominal_capacity=9, variable_costs=2),
            need("c3", "c0", T)], []


def f_integer(T, mp):
    return [bus("d0", True), src("d1", "d0", nominal_capacity=9, integer=True,
                                 variable_costs=1),
            snk("d2", "d0", variable_costs=1), need("d3", "d0", T)], []


def f_nonconvex(T, mp):
    return [bus("e0", True),
            src("e1", "e0", nominal_capacity=4, minimum=0.25,
                variable_costs=1,
                nonconvex=dict(startup_costs=1, shutdown_costs=2,
                               activity_costs=0.5, initial_status=1)),
            src("e2", "e0", nominal_capacity=4, minimum=0.25,
                variable_costs=2,
                nonconvex=dict(minimum_uptime=1, minimum_downtime=1,
                               maximum_startups=5, maximum_shutdowns=5,
                               inactivity_costs=0.25)),
            src("e3", "e0", nominal_capacity=4, minimum=0.25,
                variable_costs=3,
                nonconvex=dict(positive_gradient_limit=1,
                               negative_gradient_limit=1)),
            snk("e4", "e0", variable_costs=4), need("e5", "e0", T)], []


def f_invest(T, mp):
    return [bus("f0", True),
            src("f1", "f0", variable_costs=1, investment=inv(mp)),
            src("f2", "f0", variable_costs=1,
                investment=inv(mp, existing=1)),
            src("f3", "f0", variable_costs=2,
                investment=inv(mp, nonconvex=True, offset=3, minimum=1)),
            need("f4", "f0", T, 2.0)], []


def f_invnc(T, mp):
    return [bus("g0", True),
            src("g1", "g0", variable_costs=1, minimum=0.25,
                investment=inv(mp),
                nonconvex=dict(startup_costs=1, shutdown_costs=1)),
            src("g2", "g0", variable_costs=3, minimum=0.5,
                investment=inv(mp, nonconvex=True, offset=1, minimum=1),
                nonconvex={}),
            snk("g3", "g0", variable_costs=4), need("g4", "g0", T, 1.5)], []


def f_storage(T, mp):
    return [bus("h0", True), bus("h1", True),
            src("h2", "h0", nominal_capacity=4, variable_costs=seq(1, T)),
            storage("h3", "h0", "h1", nominal_capacity=6, balanced=False,
                    initial_storage_level=0.5, loss_rate=0.1,
                    storage_costs=seq(0.1, T), fi={"variable_costs": 1}),
            storage("h4", "h0", "h1", nominal_capacity=6,
                    inflow_conversion_factor=0.9),
            need("h5", "h1", T, 0.5)], []


def f_invstorage(T, mp):
    t = {"lifetime_inflow": 5, "lifetime_outflow": 5} if mp else {}
    return [bus("i0", True), bus("i1", True),
            src("i2", "i0", nominal_capacity=9, variable_costs=seq(1, T)),
            storage("i3", "i0", "i1", balanced=False, loss_rate=0.1,
                    investment=inv(mp), invest_relation_input_capacity=0.5,
                    fi={"investment": inv(mp)}, **t),
            storage("i4", "i0", "i1", balanced=False,
                    investment=inv(mp, nonconvex=True, offset=1, minimum=1)),
            src("i5", "i1", variable_costs=4), need("i6", "i1", T, 0.5)], []


def f_converter(T, mp):
    return [bus("j0"), bus("j1", True),
            {"k": "converter", "n": "j2", "in": {"j0": {"variable_costs": 1}},
             "out": {"j1": {"variable_costs": 0.5, "nominal_capacity": 9}},
             "cf": {"j1": seq(0.5, T)}},
            need("j3", "j1", T)], []


def f_link(T, mp):
    return [bus("k0", True), bus("k1", True), src("k2", "k0",
                                                  variable_costs=1),
            src("k6", "k1", nominal_capacity=1, variable_costs=2),
            {"k": "link", "n": "k3",
             "in": {"k0": {"nominal_capacity": 9},
                    "k1": {"nominal_capacity": 9}},
             "out": {"k1": {"variable_costs": 0.5}, "k0": {}},
             "cf": [["k0", "k1", 0.5], ["k1", "k0", 0.75]]},
            need("k4", "k1", T), need("k5", "k0", T)], []


def f_offset(T, mp):
    return [bus("l0"), bus("l1", True),
            {"k": "offset", "n": "l2",
             "in": {"l0": {"variable_costs": 1, "nominal_capacity": 8,
                           "minimum": 0.125, "nonconvex": {}}},
             "out": {"l1": {}}, "cf": {"l1": 0.5}, "off": {"l1": 0.0625}},
            need("l3", "l1", T)], []


def f_chp(T, mp):
    return [bus("m0"), bus("m1"), bus("m2"),
            {"k": "exturb", "n": "m3", "in": {"m0": {"variable_costs": 1}},
             "out": {"m1": {}, "m2": {"variable_costs": -0.25,
                                      "nominal_capacity": 2}},
             "cf": {"m1": 0.25, "m2": 0.5}, "cff": {"m1": 0.5}}], []


def f_gchp(T, mp):
    p = {k: (v * 2)[:T] for k, v in MO.items()}
    return [bus("n0"), bus("n1"), bus("n2"),
            {"k": "gchp", "n": "n3",
             "fuel": ["n0", {"variable_costs": 0.25, "custom_properties": {
                 k: p[k] for k in ("H_L_FG_share_max", "H_L_FG_share_min")}}],
             "el": ["n1", {"variable_costs": -1, "custom_properties": {
                 k: p[k] for k in ("P_max_woDH", "P_min_woDH",
                                   "Eta_el_max_woDH", "Eta_el_min_woDH")}}],
             "heat": ["n2", {"custom_properties": {
                 "Q_CW_min": p["Q_CW_min"]}}],
             "beta": p["beta"], "bp": False}], []


def f_caes(T, mp):
    return [bus("o0"), bus("o1"),
            {"k": "caes", "n": "o2", "in": {"o0": {"variable_costs": 1},
                                            "o1": {"variable_costs": 0.5}},
             "out": {"o0": {"variable_costs": -3}}, "el": "o0", "gas": "o1",
             "params": MIX}], []


def f_pwl(T, mp):
    return [bus("p0"), bus("p1"),
            {"k": "pwl", "n": "p2",
             "in": {"p0": {"nominal_capacity": 8, "variable_costs": 1}},
             "out": {"p1": {"variable_costs": -2}},
             "bp": [0, 2, 4, 8], "table": [[0, 2, 4, 8], [0, 1, 3, 9]],
             "repn": "CC"}], []


def f_limits(T, mp):
    nodes = [bus("q0", True), src("q1", "q0", nominal_capacity=4,
                                  nonconvex={"activity_costs": 1},
                                  variable_costs=1,
                                  custom_properties={"kw": 1, "em": 2}),
             src("q2", "q0", nominal_capacity=4, nonconvex={},
                 variable_costs=1.5,
                 custom_properties={"kw": 1, "em": 1}),
             need("q3", "q0", T)]
    cons = [{"c": "count", "name": "cnt", "flows": [["q1", "q0"],
                                                    ["q2", "q0"]],
             "upper": 2, "lower": 1},
            {"c": "integral", "keyword": "em", "upper": 99}]
    return nodes, cons


def f_level(T, mp):
    m = bus("r0", True)
    m["in"] = {"r1": {"nominal_capacity": 2}}
    m["out"] = {"r1": {"nominal_capacity": 2, "variable_costs": -1}}
    nodes = [bus("r1"), m,
             {"k": "storage", "n": "r2", "in": {"r0": {}}, "out": {"r0": {}},
              "nominal_capacity": 4, "balanced": False,
              "initial_storage_level": 0.5}]
    return nodes, [{"c": "storage_level", "name": "lev", "storage": "r2",
                    "bus": "r0", "inp": {"r1": 0.25}, "out": {"r1": 0.5}}]


FEATURES = {
    k[2:]: v for k, v in list(globals().items()) if k.startswith("f_")
}
# (not described for models with several periods)
SINGLE = {"caes", "level"}


def periods(ps):
    return [{"start": s, "n": n} for s, n in ps]


def axes(T):
    """name -> (time, multi period?)"""
    dt = [1.0, 2.0, 0.5, 1.5][:T]
    eq = [1.0] * T
    out = {
        "num": ({"dt": dt}, False),
        "dt": ({"dt": dt, "kind": "dt"}, False),
        "infer": ({"dt": eq, "kind": "infer"}, False),
        "tinc": ({"dt": dt, "kind": "tinc"}, False),
        "idx": ({"dt": dt, "kind": "axis",
                 "axis": {"form": "np", "pts": points(dt, 2.0)}}, False),
    }
    if T >= 2:
        out["mp"] = ({"dt": eq, "periods": periods(
            [("2020", 1), ("2025", T - 1)])}, True)
    if T >= 3:
        out["mp3"] = ({"dt": dt, "periods": periods(
            [("2020", 1), ("2022", T - 2), ("2023", 1)])}, True)
        out["mpb"] = ({"dt": eq, "periods": periods(
            [("2020", T - 1), ("2021", 1)])}, True)
    return out


def points(dt, z=0.0):
    out = [z]
    for x in dt:
        out.append(out[-1] + x)
    return out


def system(feats, T, axis):
    tm, mp = axes(T)[axis]
    nodes, cons = [], []
    for f in feats:
        a, b = FEATURES[f](T, mp)
        nodes += a
        cons += b
    cfg = {"name": "%s T%d %s" % ("+".join(feats), T, axis), "time": dict(tm),
           "nodes": nodes, "constraints": cons}
    if mp:
        cfg["discount_rate"] = 0.05
    return cfg


def usable(f, mp):
    return not (mp and f in SINGLE)
