"""Several additional constraints in one model: all of them bind."""

import itertools

from ..explore import letters, run_config as run  # noqa: F401
from ..explore import statics
from ..gen import AUX, AUXG, bus, costs, share, snk, src

RULE = (
    "all pairs of constraints out of a pool (the same kind twice with the"
    " default and with own names, different kinds), in both orders in the"
    " thorough tier, and triples; the flows, capacities and initial contents"
    " which the constraints of a pair are about take all combinations of grid"
    " values"
)

XB, YB, ZB, BD = ["x", "b"], ["y", "b"], ["z", "b"], ["b", "d"]
IB, JB = ["i", "b"], ["j", "b"]

# tag: (constraint, what it is about, host)
POOL = {
    "em": ({"c": "emission_limit", "limit": 3.5}, ["z>b", "x>b", "y>b"]),
    "emA": ({"c": "emission_limit", "flows": [XB, ZB], "limit": 2.0},
            ["z>b", "x>b"]),
    "emB": ({"c": "emission_limit", "flows": [YB], "limit": 2.0}, ["y>b"]),
    "iw": ({"c": "integral", "keyword": "w", "upper": 5.0},
           ["x>b", "z>b", "y>b"]),
    "iwB": ({"c": "integral", "keyword": "w", "flows": [YB], "upper": 1.0},
            ["y>b"]),
    "iwl": ({"c": "integral", "keyword": "w", "lower": 2.0,
             "limit_name": "low"}, ["x>b", "z>b"]),
    "iv": ({"c": "integral", "keyword": "v", "upper": 6.0, "lower": 1.0},
           ["z>b", "b>d", "x>b"]),
    "eqa": ({"c": "equate_flows", "f1": [XB], "f2": [BD], "factor": 2},
            ["x>b", "b>d"]),
    "eqb": ({"c": "equate_flows", "f1": [ZB], "f2": [YB]}, ["z>b", "y>b"]),
    "eqc": ({"c": "equate_flows", "f1": [ZB], "f2": [XB], "factor": 0.5,
             "name": "third"}, ["z>b", "x>b"]),
    "eqk": ({"c": "equate_kw", "k1": "k1", "k2": "k2"}, ["x>b", "z>b"]),
    "eqk2": ({"c": "equate_kw", "k1": "k3", "k2": "k2", "factor": 0.5},
             ["y>b", "z>b"]),
    "cnt1": ({"c": "count", "name": "c1", "flows": [XB, YB], "upper": 1},
             ["x>b", "y>b"]),
    "cnt2": ({"c": "count", "name": "c2", "flows": [YB], "lower": 1},
             ["y>b"]),
    "ckw": ({"c": "count_kw", "keyword": "grp", "lower": 1}, ["x>b", "y>b"]),
    "ckw2": ({"c": "count_kw", "keyword": "grp2", "upper": 0}, ["y>b"]),
    "shf1": ({"c": "shared", "quantity": "flow", "name": "s1f",
              "comps": [XB, ZB], "weights": [1, 1], "upper": 2.0},
             ["x>b", "z>b"]),
    "shf2": ({"c": "shared", "quantity": "flow", "name": "s2f",
              "comps": [YB, BD], "weights": [1, 2], "upper": 4.0,
              "lower": 1.0}, ["y>b", "b>d"]),
    "inv": ({"c": "investment_limit", "limit": 7.0}, ["i", "j", "S"]),
    "addA": ({"c": "additional", "keyword": "space", "limit": 3.0},
             ["i", "j"]),
    "addB": ({"c": "additional", "keyword": "mass", "limit": 2.0}, ["j"]),
    "eqi": ({"c": "equate_invest", "v1": IB, "v2": JB}, ["i", "j"]),
    "eqj": ({"c": "equate_invest", "v1": IB, "v2": "S", "factor": 2},
            ["i", "S"]),
    "sh1": ({"c": "shared", "quantity": "storage_content", "name": "l1",
             "comps": ["s1", "s2"], "weights": [1, 1], "upper": 3.0},
            ["m>s1", "n>s2"]),
    "sh2": ({"c": "shared", "quantity": "storage_content", "name": "l2",
             "comps": ["s2", "s1"], "weights": [2, 1], "lower": 1.0,
             "upper": 5.0}, ["n>s2", "s1>m"]),
    "lv1": ({"c": "storage_level", "name": "g1", "storage": "s1", "bus": "m",
             "inp": {"c": 0.5}, "out": {"e": 0.25}}, ["c>m", "m>e", "m>s1"]),
    "lv2": ({"c": "storage_level", "name": "g2", "storage": "s2", "bus": "n",
             "inp": {"c": 0.25}, "out": {"e": 0.75}},
            ["c>n", "n>e", "n>s2"]),
    "lv3": ({"c": "storage_level", "name": "g3", "storage": "s1", "bus": "n",
             "inp": {"c": 0.75}, "out": {}}, ["c>n", "m>s1"]),
    # the bus or the storage of another one
    "lv4": ({"c": "storage_level", "name": "g4", "storage": "s2", "bus": "m",
             "inp": {"c": 0.75}, "out": {"e": 0.5}},
            ["c>m", "m>e", "n>s2"]),
    "lv5": ({"c": "storage_level", "name": "g5", "storage": "s1", "bus": "m",
             "inp": {}, "out": {"e": 0.5}}, ["m>e", "m>s1"]),
}
# in a model of several periods
PERIODS = {
    "emp": ({"c": "emission_limit_per_period", "limit": [2.0, 1.0]},
            ["z>b", "y>b"]),
    "empA": ({"c": "emission_limit_per_period", "limit": [1.0, 2.0],
              "flows": [ZB, BD]}, ["z>b", "b>d"]),
    "ipv": ({"c": "integral_per_period", "keyword": "v",
             "limit": [2.0, 4.0]}, ["z>b", "b>d"]),
    "ipw": ({"c": "integral_per_period", "keyword": "w", "limit": 1.0},
            ["y>b", "z>b"]),
    "invp": ({"c": "investment_limit_per_period", "limit": [1.0, 0.5]},
             ["i", "j"]),
}
SINGLE = ("sh1", "sh2", "lv1", "lv2", "lv3", "lv4", "lv5")
NOTPER = SINGLE + ("inv",)
GRID = {
    "x>b": [0.0, 1.0, 2.0], "y>b": [0.0, 1.0, 2.0], "z>b": [0.0, 1.0, 2.0],
    "b>d": [1.0, 0.0, 2.0], "i>b": [0.0], "j>b": [0.0],
    "m>s1": [0.0, 1.0], "s1>m": [0.0, 1.0], "n>s2": [0.0, 1.0],
    "s2>n": [0.0], "c>m": [0.0, 1.0], "m>e": [0.0, 1.0], "c>n": [0.0, 1.0],
    "n>e": [0.0, 1.0], "b>S": [0.0], "S>b": [0.0],
}
LABEL = {"i": "inv:i>b", "j": "inv:j>b", "S": "sinv:S"}


def make(name, cons, about, per=False):
    about = list(dict.fromkeys(about))
    P = 2 if per else 1
    F = {
        "x": {"w": 2.0, "emission_factor": 1.0, "grp": True, "k1": 1},
        "y": {"w": 1.0, "emission_factor": 2.0, "grp": 1, "grp2": 1,
              "k3": True},
        "z": {"w": 0.5, "v": [1.0, 3.0], "emission_factor": 0.5, "k2": 0},
        "d": {"v": 2.0, "emission_factor": 0.25},
    }
    on = {"nominal_capacity": 2, "minimum": 0.5, "nonconvex": {}}
    nodes = [
        bus("b"), src("x", "b", **on, custom_properties=F["x"]),
        src("y", "b", **on, custom_properties=F["y"]),
        src("z", "b", nominal_capacity=2, custom_properties=F["z"]),
        snk("d", "b", nominal_capacity=2, custom_properties=F["d"]),
    ]
    used = {"x>b", "y>b", "z>b", "b>d"}
    stat = {}
    if any(k in LABEL for k in about):
        life = {"lifetime": 10} if per else {}
        nodes += [
            src("i", "b", investment={
                "ep_costs": 3, "maximum": 4, **life,
                "custom_properties": {"space": 2.0}}),
            src("j", "b", investment={
                "ep_costs": 2, "maximum": 4, **life,
                "custom_properties": {"space": 1.0, "mass": 2.0}}),
        ]
        used |= {"i>b", "j>b"}
        lab = ["i", "j"]
        if not per:
            nodes.append({"k": "storage", "n": "S", "in": {"b": {}},
                          "out": {"b": {}}, "balanced": False,
                          "investment": {"ep_costs": 1.0, "maximum": 4}})
            used |= {"b>S", "S>b"}
            stat["soc:S"] = [0.0]
            lab.append("S")
        for k in lab:
            for p in range(P):
                gr = [0.0, 1.0, 2.0] if k != "S" else [2.0, 1.0, 0.0]
                if per:
                    gr = [0.0, 0.5, 2.0]
                stat["%s:%d" % (LABEL[k], p)] = gr if k in about else gr[:1]
    if any(k.endswith(("m", "n", "e", "s1", "s2")) for k in about):
        nodes += [bus("c"), bus("e")]
        for q in "mn":
            m = bus(q)
            m["in"] = {"c": {"nominal_capacity": 1}}
            m["out"] = {"e": {"nominal_capacity": 1}}
            nodes.append(m)
        nodes += [
            {"k": "storage", "n": s, "in": {q: {}}, "out": {q: {}},
             "nominal_capacity": 4, "balanced": False, "loss_rate": lr}
            for s, q, lr in (("s1", "m", 0.0), ("s2", "n", 0.25))
        ]
        used |= {"c>m", "c>n", "m>e", "n>e", "m>s1", "s1>m", "n>s2", "s2>n"}
        stat["soc:s1"] = [0.0, 1.0, 2.0]
        stat["soc:s2"] = [1.0, 3.0]
    g = {k: GRID[k] if k in about else GRID[k][:1] for k in sorted(used)}
    T = 2
    tm = {"dt": [1.0, 2.0]}
    if per:
        tm["periods"] = [{"start": "2020", "n": 1}, {"start": "2022", "n": 1}]
    r = {"alphabet": letters({**g, **AUXG}, T)}
    if stat:
        r["static"] = statics(stat)
    return {"name": name, "time": tm, "nodes": costs(nodes) + AUX,
            "constraints": cons, "runs": [r]}


def combine(names, pool, n):
    """All selections of n constraints (in one of the orders)"""
    for sel in itertools.combinations(names, n):
        sel = list(sel)
        orders = list(itertools.permutations(sel))
        yield orders, orders[share(*sel) % len(orders)]


def tasks(tier):
    out = []
    deep = tier == "thorough"
    full = {**POOL, **PERIODS}
    for tag, pool, per in (
        ("one", POOL, False),
        ("per", {k: v for k, v in full.items() if k not in NOTPER
                 and k not in ("eqj",)}, True),
    ):
        for n in (1, 2, 3):
            for orders, one in combine(list(pool), pool, n):
                if per and not any(k in PERIODS for k in one):
                    continue
                if n == 3 and not deep and share(*one) % 8:
                    continue
                for sel in orders if deep and n == 2 else [one]:
                    keep = 3 if n == 1 else 2
                    about = []
                    for k in sel:
                        about += pool[k][1][:keep]
                    if len(set(about)) <= 4 and n > 1:
                        for k in sel:
                            if len(set(about)) < 4:
                                about += pool[k][1][2:]
                    if n == 3:
                        about = [pool[k][1][0] for k in sel] + [
                            pool[sel[0]][1][-1]]
                    out.append(make(
                        "%s-%s" % (tag, "-".join(sel)),
                        [dict(pool[k][0]) for k in sel], about, per))
    return out
