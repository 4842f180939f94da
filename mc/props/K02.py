"""Limits on the total of all investments."""

import itertools

from .. import combos
from ..explore import letters, run_config as run  # noqa: F401
from ..explore import statics
from ..gen import AUX, AUXG, bus, src
from .K01 import PER

RULE = (
    "all combinations of invested capacities on a grid (per period); limits"
    " lie on and between attainable totals"
)
ASSUMPTIONS = (
    "no operation takes place: the limits only concern the investments;"
    " several periods are combined with on/off flows in M02 (known finding)"
)

INV = {
    "lin": {"ep_costs": 3.0, "maximum": 10},
    "lin2": {"ep_costs": 5.0, "maximum": 4, "minimum": 1},
    "off": {"ep_costs": 2.0, "maximum": 10, "nonconvex": True, "offset": 4.0},
    "ex": {"ep_costs": 3.0, "maximum": 10, "existing": 2},
    "free": {"ep_costs": 0.0, "maximum": 10},
}


def node(kind, n, inv, per=None, age=None):
    """flow / on-off flow / storage with an investment"""
    inv = dict(inv)
    if per:
        inv["lifetime"] = {"lin": 20, "lin2": 3}.get(n, 20)
        if inv.get("existing"):
            inv["age"] = 1
    if kind == "flow":
        return src(n, "b", investment=inv)
    if kind == "ncx":
        return src(n, "b", investment=inv, nonconvex={})
    return {"k": "storage", "n": n, "in": {"b": {}}, "out": {"b": {}},
            "investment": inv, "balanced": False}


def make(name, items, cons, grid=(0.0, 1.0, 2.0, 4.0), per=None, P=1,
         remaining=False, dr=None):
    """items: [(kind, label, investment)]"""
    nodes = [bus("b")] + [node(k, n, i, per) for k, n, i in items]
    st, g = {}, {}
    for k, n, inv in items:
        for p in range(P):
            key = "sinv:%s:%d" % (n, p) if k == "sto" else (
                "inv:%s>b:%d" % (n, p))
            st[key] = list(grid)
        g["%s>b" % n] = [0.0]
        if k == "sto":
            g["b>%s" % n] = [0.0]
    stat = statics(st)
    for s in stat:
        for k, n, inv in items:
            if k == "sto":
                s["soc:%s" % n] = 0.0
    tm = {"dt": [1.0]}
    if per:
        tm["periods"] = PER[per]
        tm["dt"] = [1.0] * sum(q["n"] for q in PER[per])
        if remaining:
            tm["remaining"] = True
    c = {"name": name, "time": tm, "nodes": nodes + AUX, "constraints": cons,
         "runs": [{"static": stat,
                   "alphabet": letters({**g, **AUXG}, len(tm["dt"]))}]}
    if dr is not None:
        c["discount_rate"] = dr
    return c


def tasks(tier):
    out = []
    thorough = tier == "thorough"
    kinds = ["flow", "ncx", "sto"]
    # --- the total of the costs, one period
    pool = [(k, i) for k in kinds for i in INV
            if not (k == "ncx" and i == "ex" and False)]
    pairs = list(itertools.combinations_with_replacement(pool, 2))
    for (k1, i1), (k2, i2) in pairs:
        for lim in (12.0, 8.0) if not thorough else (12.0, 8.0, 0.0, 22.0):
            out.append(make(
                "lim-%s.%s-%s.%s-%g" % (k1, i1, k2, i2, lim),
                [(k1, "x", INV[i1]), (k2, "y", INV[i2])],
                [{"c": "investment_limit", "limit": lim}]))
    for i1, i2, i3 in itertools.product(("lin", "off"), repeat=3):
        out.append(make(
            "three-%s-%s-%s" % (i1, i2, i3),
            [("flow", "x", INV[i1]), ("ncx", "y", INV[i2]),
             ("sto", "z", INV[i3])],
            [{"c": "investment_limit", "limit": 14.0}]))
    # --- a custom property of the investments
    W = {"a": 4.0, "b": 1.0, "c": 0.5}
    for (k1, k2) in itertools.product(("flow", "ncx"), repeat=2):
        for i1, i2 in itertools.product(("lin", "off", "lin2"), repeat=2):
            for who in ("ab", "a", "b"):
                items = []
                for (k, n, i) in ((k1, "a", i1), (k2, "b", i2)):
                    inv = dict(INV[i])
                    if n in who:
                        inv["custom_properties"] = {"space": W[n]}
                    elif i == "off":
                        inv["custom_properties"] = {"other": 9}
                    items.append((k, n, inv))
                out.append(make(
                    "add-%s.%s-%s.%s-%s" % (k1, i1, k2, i2, who), items,
                    [{"c": "additional", "keyword": "space", "limit": 6.0}]))
    # the storage does not take part in it
    out.append(make("add-sto", [
        ("flow", "a", {**INV["lin"], "custom_properties": {"space": 2.0}}),
        ("sto", "s", {**INV["lin"], "custom_properties": {"space": 3.0}})],
        [{"c": "additional", "keyword": "space", "limit": 4.0}]))
    # --- several periods
    for pk in ("2", "21") + (("111",) if thorough else ()):
        P = len(PER[pk])
        gr = (0.0, 1.0, 2.0)
        for (k1, i1), (k2, i2) in itertools.combinations_with_replacement(
                [(k, i) for k in ("flow", "sto")
                 for i in ("lin", "off", "ex")], 2):
            items = [(k1, "x", INV[i1]), (k2, "y", INV[i2])]
            for rem in (False, True):
                tag = "%s-%s.%s-%s.%s%s" % (pk, k1, i1, k2, i2,
                                            "-rem" if rem else "")
                out.append(make(
                    "tot-" + tag, items,
                    [{"c": "investment_limit", "limit": 3.0}],
                    grid=gr, per=pk, P=P, remaining=rem, dr=0.03))
                for lk, lim in (("c", 2.0), ("l", [1.5, 0.75, 3.0][:P])):
                    out.append(make(
                        "per-%s-%s" % (tag, lk), items,
                        [{"c": "investment_limit_per_period",
                          "limit": lim}],
                        grid=gr, per=pk, P=P, remaining=rem))
        for k1, k2 in itertools.product(("flow",), repeat=2):
            items = [
                ("flow", "a", {**INV["lin"],
                               "custom_properties": {"space": 2.0}}),
                ("flow", "b", {**INV["ex"],
                               "custom_properties": {"space": 1.0}}),
            ]
            out.append(make(
                "addper-%s" % pk, items,
                [{"c": "additional", "keyword": "space", "limit": 4.0}],
                grid=gr, per=pk, P=P))
    return out + mixed(thorough) + short()


SHAPE = {  # (investment of the first, of the second)
    "lin": ({"ep_costs": [3.0, 2.0, 4.0], "maximum": 10},
            {"ep_costs": [5.0, 1.0, 2.0], "maximum": 4, "minimum": 1}),
    "off": ({"ep_costs": [2.0, 1.0, 3.0], "maximum": 10, "nonconvex": True,
             "offset": [4.0, 1.0, 2.0]},
            {"ep_costs": 2.0, "maximum": 10, "nonconvex": True,
             "offset": -1.0}),
    "plainoff": ({"ep_costs": 2.0, "maximum": 10, "nonconvex": True,
                  "offset": 3.0},
                 {"ep_costs": [1.0, 4.0, 2.0], "maximum": 10}),
    "ex": ({"ep_costs": 3.0, "maximum": 10, "existing": 2},
           {"ep_costs": [3.0, 1.0, 2.0], "maximum": 4, "existing": 1}),
    "overall": ({"ep_costs": 3.0, "maximum": 10, "overall_maximum": 3},
                {"ep_costs": [3.0, 1.0, 2.0], "overall_minimum": 1}),
}


def mixed(deep):
    """Kind of limit, kinds of investments, time structure, life times,
    discounting, fixed costs, remaining value."""
    opts = {
        "cons": ["tot", "add", "per"],
        "limit": [9.0, 3.0, 0.0],
        "shape": list(SHAPE),
        "k1": ["flow", "ncx", "sto"],
        "k2": ["flow", "ncx", "sto"],
        "time": [None, "2", "21", "12", "111"],
        "dr": [None, 0.1],
        "rem": [None, True],
        "life": [None, 1, 4],
        "fixed": [None, 2.0],
        "props": ["both", "first", "second", "list"],
        "ow": [None, [3.0, 0.5, 2.0]],
        "dt": [None, [2.0, 0.5, 1.0]],
    }

    def ok(a):
        single = ("time" in a and a["time"] is None) or "ncx" in (
            a.get("k1"), a.get("k2"))
        if single and any(a.get(k) is not None
                          for k in ("dr", "rem", "life", "fixed")):
            return False
        if single and (a.get("cons") == "per" or a.get("shape") == "overall"):
            return False
        for k in ("k1", "k2"):
            if a.get(k) == "ncx" and (
                a.get("shape") in ("ex", "overall")
                or a.get("time") is not None
            ):
                return False
        if a.get("cons") in ("tot", "per") and a.get("props") not in (
                None, "both"):
            return False
        return True

    out = []
    for num, a in enumerate(combos.both_arrays(
            opts, 3, ok, few=3 if deep else 2)):
        P = len(PER[a["time"]]) if a["time"] else 1
        T = sum(q["n"] for q in PER[a["time"]]) if a["time"] else 1
        items = []
        W = {"x": 2.0, "y": 0.5}
        for n, k, inv in (("x", a["k1"], SHAPE[a["shape"]][0]),
                          ("y", a["k2"], SHAPE[a["shape"]][1])):
            inv = {q: (v[:P] if isinstance(v, list) else v)
                   for q, v in inv.items()}
            if P == 1:
                inv = {q: (v[0] if isinstance(v, list) else v)
                       for q, v in inv.items()}
            if a["fixed"] and n == "x":
                inv["fixed_costs"] = a["fixed"]
            if a["props"] == "list":
                inv["custom_properties"] = {"space": W[n], "other": 7}
            elif a["props"] in ("both", "first" if n == "x" else "second"):
                inv["custom_properties"] = {"space": W[n]}
            items.append((k, n, inv))
        if a["cons"] == "add" and not any(
                "custom_properties" in i[2] and i[0] != "sto" for i in items):
            continue
        cons = {
            "tot": {"c": "investment_limit", "limit": a["limit"]},
            "per": {"c": "investment_limit_per_period",
                    "limit": a["limit"] if num % 2 else
                    [a["limit"], 1.5, 2 * a["limit"]][:P]},
            "add": {"c": "additional", "keyword": "space",
                    "limit": a["limit"]},
        }[a["cons"]]
        c = make("mix-%04d" % num, items, [cons],
                 grid=(0.0, 1.0, 2.0) if P > 1 else (0.0, 0.5, 1.0, 2.0, 3.0),
                 per=a["time"], P=P, remaining=bool(a["rem"]), dr=a["dr"])
        if a["life"] is not None:
            for d in c["nodes"]:
                for f in [d] + list(d.get("out", {}).values()):
                    if isinstance(f.get("investment"), dict):
                        f["investment"]["lifetime"] = a["life"]
                        if f["investment"].get("age", 0) >= a["life"]:
                            f["investment"]["age"] = 0
        if a["dt"]:
            c["time"]["dt"] = (a["dt"] * 2)[:T]
        if a["ow"]:
            c["ow"] = (a["ow"] * 2)[:T]
        out.append(c)
    return out


def short():
    """On/off investments in several periods: their costs are not turned into
    annual ones (M02), which makes no difference for plants that live for one
    year if nothing is discounted."""
    out = []
    for sn, sh, k1, k2, (c, lim) in itertools.product(
        ("2", "21", "111"), ("lin", "off", "plainoff"),
        ("flow", "ncx", "sto"), ("flow", "ncx"),
        (("tot", 5.0), ("per", [4.0, 1.5, 6.0]), ("per", 3.0), ("add", 3.0)),
    ):
        if "ncx" not in (k1, k2):
            continue
        P = len(PER[sn])
        items = []
        for n, k, inv in (("x", k1, SHAPE[sh][0]), ("y", k2, SHAPE[sh][1])):
            inv = {q: (v[:P] if isinstance(v, list) else v)
                   for q, v in inv.items()}
            if k != "sto":
                inv["custom_properties"] = {"space": 2.0 if n == "x" else 0.5}
            items.append((k, n, inv))
        cons = {
            "tot": {"c": "investment_limit", "limit": lim},
            "per": {"c": "investment_limit_per_period",
                    "limit": lim[:P] if isinstance(lim, list) else lim},
            "add": {"c": "additional", "keyword": "space", "limit": lim},
        }[c]
        q = make("short-%s-%s-%s-%s-%s%s" % (
            sn, sh, k1, k2, c, "l" * isinstance(lim, list)), items, [cons],
            grid=(0.0, 1.0, 2.0), per=sn, P=P, dr=0.0)
        for d in q["nodes"]:
            for f in [d] + list(d.get("out", {}).values()):
                if isinstance(f.get("investment"), dict):
                    f["investment"]["lifetime"] = 1
        out.append(q)
    return out
