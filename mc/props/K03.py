"""Equated flows and variables are equal up to the factor, nothing else."""

import itertools

from .. import combos
from ..explore import letters, run_config as run  # noqa: F401
from ..explore import statics
from ..gen import AUX, AUXG, bus, costs, snk, src
from .K01 import PER

RULE = (
    "all flows take every combination of grid values in every interval (all"
    " combinations of invested capacities for equated variables)"
)
KEY = {"s1": ["s1", "b"], "s2": ["s2", "b"], "d1": ["b", "d1"],
       "d2": ["b", "d2"]}
ORDER = list(KEY)


def system(props=None):
    nodes = [bus("b"), src("s1", "b"), src("s2", "b"), snk("d1", "b"),
             snk("d2", "b")]
    for d in nodes[1:]:
        f = (d.get("out") or d.get("in"))["b"]
        for k in (props or {}).get(d["n"], []):
            f.setdefault("custom_properties", {})[k] = (props or {}).get(
                "value", True)
    return costs(nodes)


def cfg(name, nodes, T, cons, grid=(0.0, 1.0, 2.0), per=None, dt=None):
    tm = {"dt": (dt or [1.0, 2.0, 0.5])[:T]}
    if per:
        tm["periods"] = PER[per]
    g = {">".join(v): list(grid) for v in KEY.values()}
    return {"name": name, "time": tm, "nodes": nodes, "constraints": cons,
            "runs": [{"alphabet": letters(g, T)}]}


def inv_cfg(name, cons, grid, per=None, P=1, nonconvex=False):
    """Two invested flows and an invested storage without any operation."""
    inv = {"ep_costs": 3, "maximum": 10}
    if per:
        inv = {**inv, "lifetime": 20}
    nodes = [
        bus("b"),
        src("s1", "b", nominal_capacity=None, investment=dict(inv)),
        src("s2", "b", nominal_capacity=None,
            investment={**inv, "ep_costs": 5}),
        {"k": "storage", "n": "st", "in": {"b": {}}, "out": {"b": {}},
         "investment": {**inv, "ep_costs": 7}, "balanced": False},
    ]
    for d in nodes:
        for f in list(d.get("out", {}).values()):
            f.pop("nominal_capacity", None)
    if nonconvex:
        nodes[1]["out"]["b"]["nonconvex"] = {}
    st = {}
    for p in range(P):
        st["inv:s1>b:%d" % p] = grid
        st["inv:s2>b:%d" % p] = grid
        st["sinv:st:%d" % p] = grid
    stat = [{**x, "soc:st": 0.0} for x in statics(st)]
    T = sum(q["n"] for q in PER[per]) if per else 1
    tm = {"dt": [1.0] * T}
    if per:
        tm["periods"] = PER[per]
    g = {"s1>b": [0.0], "s2>b": [0.0], "b>st": [0.0], "st>b": [0.0]}
    return {"name": name, "time": tm, "nodes": nodes + AUX,
            "constraints": cons,
            "runs": [{"static": stat, "alphabet": letters({**g, **AUXG}, T)}]}


def tasks(tier):
    out = []
    thorough = tier == "thorough"
    groups = [x for n in (1, 2) for x in itertools.combinations(ORDER, n)]
    facs = [1, 2, 0.5, -1, 0, 1.25]
    for g1, g2 in itertools.product(groups, groups):
        for f in facs if thorough else (1, 2, 0.5):
            c = {"c": "equate_flows", "f1": [KEY[x] for x in g1],
                 "f2": [KEY[x] for x in g2]}
            if f != 1:
                c["factor"] = f
            out.append(cfg("eq-%s-%s-%g" % ("".join(g1), "".join(g2), f),
                           system(), 2, [c]))
    # (a sum over no flow is zero)
    for f in facs:
        out.append(cfg("none1-%g" % f, system(), 1,
                       [{"c": "equate_flows", "f1": [], "f2": [KEY["s1"]],
                         "factor": f}]))
        out.append(cfg("none2-%g" % f, system(), 1,
                       [{"c": "equate_flows", "f2": [],
                         "f1": [KEY["s1"], KEY["d1"]], "factor": f}]))
    for f in facs:
        c1 = {"c": "equate_flows", "f1": [KEY["s1"]], "f2": [KEY["d1"]],
              "factor": f, "name": "one"}
        c2 = {"c": "equate_flows", "f1": [KEY["s2"], KEY["s1"]],
              "f2": [KEY["d2"]], "name": "two"}
        out.append(cfg("two-%g" % f, system(), 2, [c1, c2]))
        out.append(cfg("three-%g" % f, system(), 3,
                       [{**c1, "f2": [KEY["d1"], KEY["d2"]]}],
                       grid=(0.0, 1.0)))
        for pk in ("2", "21"):
            T = sum(q["n"] for q in PER[pk])
            out.append(cfg("per-%g-%s" % (f, pk), system(), T, [c1],
                           grid=(0.0, 1.0), per=pk))
    # by keyword: every assignment of two keywords to the flows
    kws = [(), ("k1",), ("k2",), ("k1", "k2")]
    for val in (True, 5, 0, "yes"):
        for combo in itertools.product(kws, repeat=4):
            if val is not True and combo.count(()) != 2:
                continue
            props = dict(zip(ORDER, combo))
            if not any("k1" in c for c in combo):
                continue
            if not any("k2" in c for c in combo):
                continue
            if not thorough and combo.count(("k1", "k2")) > 1:
                continue
            props["value"] = val
            f = [1, 2, 0.5][sum(map(len, combo)) % 3]
            out.append(cfg("kw-%s-%s" % (val, "-".join(
                "".join(c) or "0" for c in combo)), system(props), 1,
                [{"c": "equate_kw", "k1": "k1", "k2": "k2", "factor": f}]))
    out.append(cfg("kw-T2", system({"s1": ["k1"], "d1": ["k2"],
                                    "s2": ["k1"]}), 2,
                   [{"c": "equate_kw", "k1": "k1", "k2": "k2", "factor": 2,
                     "name": "q"}]))
    # variables
    vs = [["s1", "b"], ["s2", "b"], "st"]
    grid = [0.0, 1.0, 2.0, 4.0]
    for a, b in itertools.permutations(vs, 2):
        for f in facs:
            for nm in (None, "eqname"):
                c = {"c": "equate_invest", "v1": a, "v2": b}
                if f != 1:
                    c["factor"] = f
                if nm:
                    c["name"] = nm
                tag = "-".join("".join(x) for x in (a, b))
                out.append(inv_cfg("var-%s-%g-%s" % (tag, f, nm), [c], grid))
    for p1, p2 in itertools.product((0, 1), (0, 1)):
        for f in (1, 2):
            c = {"c": "equate_invest", "v1": ["s1", "b"], "v2": ["s2", "b"],
                 "p1": p1, "p2": p2, "factor": f}
            out.append(inv_cfg("varper-%d%d-%g" % (p1, p2, f), [c],
                               [0.0, 1.0, 2.0], per="2", P=2))
    c = {"c": "equate_invest", "v1": ["s1", "b"], "v2": "st", "factor": 2}
    d = {"c": "equate_invest", "v1": ["s2", "b"], "v2": ["s1", "b"]}
    out.append(inv_cfg("var-chain", [c, d], grid))
    out.append(inv_cfg("var-ncx", [{**c, "v1": ["s1", "b"]}], grid,
                       nonconvex=True))
    return out + mixed(thorough)


def mixed(deep):
    """Every combination of selections, factor, time structure and kinds of
    flows."""
    from .T02 import AX

    times = {
        "num": {"dt": [1.0, 2.0]},
        "dt": {"dt": [0.25, 4.0], "kind": "dt"},
        "p2": {"dt": [1.0, 2.0], "periods": PER["2"]},
        "p21": {"dt": [2.0, 1.0, 0.5], "periods": PER["21"]},
        "tsa": AX["three"],
    }
    opts = {
        "time": list(times),
        "ow": [None, [5.0, 0.25, 2.0]],
        "f1": ["s1", "d1", "s1s2", "s1d1", "s1s2d2"],
        "f2": ["d1", "s1", "d1d2", "s2d1", "d2"],
        "factor": [1, 2, 0.5, -1, 0],
        "by": ["list", "kw"],
        "k1": ["plain", "onoff", "bi", "int", "invest", "fix", "free"],
        "k2": ["plain", "onoff", "int", "ramp"],
    }

    def ok(a):
        return not (a.get("time") == "tsa" and a.get("k2") == "ramp")

    def kind(f, k, T, P):
        vals = [0.0, 1.0, 2.0]
        if k == "plain":
            f["nominal_capacity"] = 2
        elif k == "onoff":
            f.update(nominal_capacity=2, minimum=0.5,
                     nonconvex={"startup_costs": 3})
        elif k == "bi":
            f.update(nominal_capacity=2, minimum=-1)
            vals = [-2.0, 0.0, 1.0, 2.0]
        elif k == "int":
            f.update(nominal_capacity=2, integer=True)
            vals = [0.0, 0.5, 1.0, 2.0]
        elif k == "invest":
            f["investment"] = {"ep_costs": 1, "maximum": 2}
            if P > 1:
                f["investment"]["lifetime"] = 20
        elif k == "fix":
            f.update(nominal_capacity=2, fix=0.5)
            vals = [1.0, 2.0]
        elif k == "ramp":
            f.update(nominal_capacity=2, positive_gradient_limit=0.5)
        return vals

    out = []
    for n, a in enumerate(
        combos.both_arrays(opts, 3 if deep else 2, ok, few=3 if deep else 2)
    ):
        tm = times[a["time"]]
        T, P = len(tm["dt"]), len(tm.get("periods", [0]))
        g1 = [x for x in ORDER if x in a["f1"]]
        g2 = [x for x in ORDER if x in a["f2"]]
        props = {}
        if a["by"] == "kw":
            for x in g1:
                props.setdefault(x, []).append("k1")
            for x in g2:
                props.setdefault(x, []).append("k2")
        nodes = system(props)
        v1 = kind(nodes[1]["out"]["b"], a["k1"], T, P)
        v2 = kind(nodes[3]["in"]["b"], a["k2"], T, P)
        c = {"c": "equate_flows", "f1": [KEY[x] for x in g1],
             "f2": [KEY[x] for x in g2]}
        if a["by"] == "kw":
            c = {"c": "equate_kw", "k1": "k1", "k2": "k2"}
        if a["factor"] != 1:
            c["factor"] = a["factor"]
        small = [0.0, 1.0]
        g = {"s1>b": v1 if T < 3 else v1[:2] + v1[-1:],
             "b>d1": v2 if T < 3 else v2[:2] + v2[-1:],
             "s2>b": small if "s2" in g1 + g2 else [1.0],
             "b>d2": small if "d2" in g1 + g2 else [1.0]}
        r = {"alphabet": letters(g, T)}
        if a["k1"] == "invest":
            r["static"] = [
                dict(zip(["inv:s1>b:%d" % p for p in range(P)],
                         [2.0] + [0.0] * P))
            ]
        task = {"name": "mix-%03d" % n, "time": tm, "nodes": nodes,
                "constraints": [c], "runs": [r]}
        if a["ow"]:
            task["ow"] = a["ow"][:T]
        out.append(task)
    return out
