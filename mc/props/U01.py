"""Components, groups of flows and constraint blocks of the user."""

from .. import catalog, combos, spec, user
from ..explore import cells, letters, run_config
from ..gen import AUX, AUXG, bus, snk, src
from .H01 import content, differ
from .S01 import storage

RULE = (
    "systems of sources and sinks of which every subset is limited and priced"
    " by blocks of the user instead of by the parameters of the flows: classes"
    " with a constraint group, groups of flows, blocks that are found, given"
    " or part of an own model class, in every combination and for several"
    " time axes; every combination of flow values below, on and above the"
    " limits is compared with the limits and the costs the blocks stand for;"
    " every block is created once, for exactly its group, and asked once for"
    " its part of the objective"
)
ASSUMPTIONS = [
    "blocks use the documented sets, variables and weights of the model only",
]

L = [2.0, 1.0, 3.0, 1.0]
C = [1.0, 3.0, 0.5, 2.0]
AXES = {
    "num": {"dt": [1.0, 2.0, 0.5]},
    "dt": {"dt": [0.5, 1.0, 1.5], "kind": "dt"},
    "mp": {"dt": [1.0, 2.0], "periods": [{"start": "2020", "n": 1},
                                         {"start": "2025", "n": 1}]},
    "tsa": {"dt": [1.0] * 4, "kind": "dt", "tsa": [
        {"timesteps_per_period": 2, "order": [0, 1, 1]}]},
}
KINDS = (None, "A", "B", "F")


def system(kinds, T, form):
    """three flows; each of them limited in one of the ways"""
    ks, kd, kq = kinds

    def f(k, n, **kw):
        kw = {q: (v[:T] if isinstance(v, list) else v) for q, v in kw.items()}
        if k is None:
            return kw
        return {**kw, "user": k}

    if form == "cap":
        a, b, c = (dict(nominal_capacity=2), dict(nominal_capacity=1),
                   dict(nominal_capacity=2))
    elif form == "cost":
        a, b, c = (dict(variable_costs=C), dict(variable_costs=-2),
                   dict(variable_costs=4))
    else:
        a, b, c = (dict(nominal_capacity=1, maximum=L, variable_costs=C),
                   dict(nominal_capacity=2, maximum=0.5, variable_costs=3),
                   dict(nominal_capacity=2, variable_costs=L))
    nodes = [bus("b"), src("s", "b", **f(ks, "s", **a)),
             snk("d", "b", **f(kd, "d", **b)),
             src("q", "b", **f(kq, "q", **c))]
    for n, k in zip(nodes[1:], kinds):
        if k in ("A", "B"):
            n["user"] = k
    return nodes


def tasks(tier):
    deep = tier == "thorough"
    opts = {
        "s": list(KINDS), "d": list(KINDS), "q": list(KINDS),
        "form": ["both", "cap", "cost"],
        "given": [None, [], ["A"], ["B", "A"], ["F"], ["A", "B", "F"]],
        "groupings": [["F"], ["kind", "F"], ["F", "const"],
                      ["kind", "const", "F"], [], None],
        "model": [None, "A"],
        "axis": list(AXES),
    }

    def ok(a):
        # a class of models with a block of its own and the same block given
        if a.get("model") == "A" and "A" in (a.get("given") or []):
            return False
        need = "F" in (a.get("s"), a.get("d"), a.get("q"))
        if need and "groupings" in a and "F" not in (a["groupings"] or []):
            return False
        return True

    out = []
    for n, a in enumerate(
        combos.both_arrays(opts, 3 if deep else 2, ok, few=2)
    ):
        tm = AXES[a["axis"]]
        T = len(tm["dt"])
        kinds = (a["s"], a["d"], a["q"])
        u = {"model": a["model"]}
        if a["given"] is not None:
            u["given"] = a["given"]
        if a["groupings"] is not None:
            u["groupings"] = a["groupings"]
        base = {"s>b": 1.0, "b>d": 0.5, "q>b": 1.0, "zs>zb": 1.0, "zb>zd": 1.0}
        runs = cells([
            {"s>b": [[0.0, 1.0, 1.25, 2.0, 2.5, 3.0, 3.25]] * T},
            {"b>d": [[0.0, 1.0, 1.25]] * T},
            {"q>b": [[0.0, 2.0, 2.25]] * T},
        ], T, base)
        runs.append({"alphabet": letters(
            {"s>b": [0.0, 1.0], "b>d": [0.0, 1.0], "q>b": [0.0, 2.0], **AUXG},
            2) + [[base]] * (T - 2)})
        cfg = {"name": "%03d-%s" % (n, "".join(k or "-" for k in kinds)),
               "time": tm, "user": u,
               "nodes": system(kinds, T, a["form"]) + AUX,
               "runs": runs}
        if "periods" in tm:
            cfg["discount_rate"] = 0.1
        out.append(cfg)
    return out


def expected(cfg):
    """block -> what its group consists of (None: nothing)"""
    comps = [d for d in cfg["nodes"] if d["k"] in ("source", "sink")]
    u = cfg["user"]
    want = {}
    for b in "AB":
        want[b] = {d["n"] for d in comps if d.get("user") == b} or None
    fl = set()
    if "F" in (u.get("groupings") or []):
        for d in comps:
            for side in ("in", "out"):
                for o, f in d.get(side, {}).items():
                    if f.get("user") == "F":
                        fl.add((d["n"], o) if side == "out" else (o, d["n"]))
    want["F"] = fl or None
    must = set(u.get("given", []))
    if u.get("model") == "A":
        must.add("A")
    return {b: g for b, g in want.items() if g or b in must}


def again(cfg, b):
    """another model was built before with the same list of blocks"""
    if "given" not in cfg["user"]:
        return None
    first = [user.BLOCKS[x] for x in cfg["user"]["given"]]
    user.SHARED = list(first)
    try:
        other = {**cfg,
                 "nodes": catalog.f_flow(len(cfg["time"]["dt"]), False)[0]
                 + [bus("e"), storage("t", "e", "e", nominal_capacity=1,
                                      balanced=False)]}
        spec.build(other)
        if user.SHARED != first:
            return "the given list of constraint groups was changed: %s" % (
                user.SHARED,)
        c = spec.build(cfg)
    finally:
        user.SHARED = None
    blocks = [{str(k.name) for k in m.block_data_objects()}
              for m in (b.m, c.m)]
    if blocks[0] != blocks[1]:
        return "the second model with the same constraint groups has other" \
            " blocks: %s" % sorted(blocks[0] ^ blocks[1])
    n = {str(v): k for k, v in b.nodes.items()}
    return differ(content(c.m, {str(v): k for k, v in c.nodes.items()}),
                  content(b.m, n))


def run(cfg):
    r = run_config(cfg)
    if r["violations"]:
        return r
    b = spec.build(cfg)
    want = expected(cfg)
    got = {}
    for blk in b.m.block_data_objects():
        if not isinstance(blk, user.LimitBlock):
            continue
        k = [k for k, c in user.BLOCKS.items() if type(blk) is c][0]
        if k in got:
            what = "block %s was created twice" % k
            break
        if len(blk.calls) != 1 or blk.asked != 1:
            what = "block %s: created for %d groups, asked %d times for its" \
                " costs" % (k, len(blk.calls), blk.asked)
            break
        g = blk.calls[0]
        got[k] = g and {
            str(x) if k != "F" else (str(x[0]), str(x[1])) for x in g
        }
        if k == "F" and g and any(
            b.m.flows[x[0], x[1]] is not x[2] for x in g
        ):
            what = "the group of flows has other flows than the model"
            break
    else:
        what = None if got == want else "blocks %s, expected %s" % (got, want)
    what = what or again(cfg, b)
    if what:
        r["violations"].append({"what": what})
    r["stats"]["validated"] += 1
    return r
