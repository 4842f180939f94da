"""Bus balance."""

import itertools

from ..explore import letters, run_config as run  # noqa: F401
from ..gen import bus, costs, snk, src

RULE = (
    "every combination of values from {0,1,2,3(,-1)} for all flows of every"
    " bus topology over all intervals"
)


def tasks(tier):
    out = []
    deep = tier == "thorough"

    def add(name, nodes, grid, dt, fixed=None, time=None, **kw):
        T = len(dt)
        out.append(
            {
                "name": name,
                "time": time or {"dt": dt},
                "nodes": costs(nodes),
                "runs": [
                    {"alphabet": letters({**grid, **(fixed or {})}, T)}
                ],
                **kw,
            }
        )

    V = [0, 1, 2, 3]
    W = [0, 1, 2]
    two = [1.0, 0.5]
    three = [1.0, 2.0, 0.5]
    # stars with n inputs and m outputs
    for n, m in itertools.product(range(1, 4), range(1, 4)):
        nodes = [bus("b", True)]
        nodes += [src("s%d" % i, "b") for i in range(n)]
        nodes += [snk("d%d" % i, "b") for i in range(m)]
        grid = {"s%d>b" % i: (V if n + m < 5 else W) for i in range(n)}
        grid.update({"b>d%d" % i: (V if n + m < 5 else W) for i in range(m)})
        dt = [2.0] if n + m > 4 else two
        if n + m == 6 and not deep:
            grid = {k: [0, 1] for k in grid}
        if deep and n + m <= 4:
            dt = three if n + m == 3 or n + m == 2 else two
        add("star-%d-%d" % (n, m), nodes, grid, dt)
    # only inputs / only outputs: everything has to be zero
    add("noout", [bus("b", True), src("s", "b"), src("q", "b"), bus("c"),
                  snk("x", "c")],
        {"s>b": V, "q>b": V, "c>x": [1]}, three)
    add("noin", [bus("b", True), snk("s", "b"), snk("q", "b"), bus("c"),
                 snk("x", "c")],
        {"b>s": V, "b>q": V, "c>x": [1]}, three)
    add("isolated", [bus("b", True), bus("e", True), snk("q", "b"),
                     src("x", "b")],
        {"b>q": V, "x>b": V}, three)
    # the flag that switches the balance off applies to that bus only
    add(
        "mixed",
        [bus("b", True), bus("c", False), bus("e", True)]
        + [src("s" + x, x) for x in "bce"] + [snk("d" + x, x) for x in "bce"],
        {"s%s>%s" % (x, x): [0, 1] for x in "bce"}
        | {"%s>d%s" % (x, x): [0, 1] for x in "bce"},
        two,
    )
    # direct flows between buses: chain, ring, mesh
    add(
        "chain",
        [bus("a", True), bus("b", True, **{"in": {"a": {}}}),
         bus("c", True, **{"in": {"b": {}}}), src("s", "a"), snk("d", "c"),
         snk("e", "b")],
        {"s>a": W, "a>b": W, "b>c": W, "c>d": W, "b>e": W}, [1.5],
    )
    add(
        "chain-out",
        [bus("a", True, out={"b": {}}), bus("b", True, out={"c": {}}),
         bus("c", True), src("s", "a"), snk("d", "c"), src("e", "b")],
        {"s>a": W, "a>b": W, "b>c": W, "c>d": W, "e>b": W}, [1.5],
    )
    add(
        "ring",
        [bus("a", True, out={"b": {}}), bus("b", True, out={"c": {}}),
         bus("c", True, out={"a": {}}), src("s", "a"), snk("d", "b")],
        {"a>b": W, "b>c": W, "c>a": W, "s>a": W, "b>d": W},
        two if deep else [0.5],
    )
    add(
        "both-ways",
        [bus("a", True, out={"b": {}}, **{"in": {"b": {}}}), bus("b", True),
         src("s", "a"), snk("d", "b")],
        {"a>b": W, "b>a": W, "s>a": W, "b>d": W}, two,
    )
    # flows of every component type count
    conv = {"k": "converter", "n": "v", "in": {"a": {}}, "out": {"b": {}},
            "cf": {"b": 0.5}}
    add(
        "converter",
        [bus("a", True), bus("b", True), conv, src("s", "a"), snk("d", "b"),
         snk("e", "a")],
        {"s>a": W, "a>v": [0, 2], "v>b": [0, 1], "b>d": [0, 1], "a>e": W},
        two if deep else [0.5],
    )
    sto = {"k": "storage", "n": "g", "in": {"b": {}}, "out": {"b": {}},
           "nominal_capacity": 10, "balanced": False}
    add(
        "storage",
        [bus("b", True), sto, src("s", "b"), snk("d", "b")],
        {"s>b": W, "b>d": W, "b>g": W, "g>b": W}, [2.0],
        static=[{"soc:g": 5.0}],
    )
    out[-1]["runs"][0]["static"] = [{"soc:g": 5.0}]
    sto2 = {"k": "storage", "n": "g", "in": {"b": {}}, "out": {"c": {}},
            "nominal_capacity": 10, "balanced": False}
    add(
        "storage-across",
        [bus("b", True), bus("c", True), sto2, src("s", "b"), snk("d", "c"),
         snk("e", "b")],
        {"s>b": W, "c>d": W, "b>g": W, "g>c": W, "b>e": [0, 1]}, [2.0],
    )
    out[-1]["runs"][0]["static"] = [{"soc:g": 5.0}]
    link = {"k": "link", "n": "l", "in": {"a": {}, "b": {}},
            "out": {"a": {}, "b": {}},
            "cf": [["a", "b", 0.5], ["b", "a", 1]]}
    add(
        "link",
        [bus("a", True), bus("b", True), link, src("s", "a"), snk("d", "b")],
        {"s>a": W, "b>d": W, "a>l": [0, 2], "b>l": [0, 1], "l>a": [0, 1],
         "l>b": [0, 1]},
        [1.0],
    )
    # negative and limited, integer and on/off flows
    add(
        "bidirectional",
        [bus("b", True), src("s", "b", nominal_capacity=3, minimum=-1),
         src("q", "b"), snk("d", "b", nominal_capacity=2)],
        {"s>b": [-2, -1, 0, 1], "q>b": W, "b>d": W}, two,
    )
    add(
        "nonconvex",
        [bus("b", True),
         src("s", "b", nominal_capacity=3, minimum=0.5, nonconvex={}),
         src("q", "b", fix=[0.5, 1], nominal_capacity=2),
         snk("d", "b")],
        {"s>b": [0, 2, 3], "q>b": [[1], [2]], "b>d": [1, 2, 3, 4, 5]}, two,
    )
    # investments and several periods
    add(
        "periods",
        [bus("b", True), bus("c", False), src("s", "b"),
         src("q", "c"), snk("d", "b"), snk("e", "c"),
         bus("f", True, **{"in": {"c": {}}, "out": {"b": {}}})],
        {"s>b": [0, 1], "b>d": [0, 1, 2], "q>c": [1], "c>e": [0],
         "c>f": [0, 1], "f>b": [0, 1]},
        [1.0, 1.0],
        time={"dt": [1, 1],
              "periods": [{"start": "2020", "n": 1}, {"start": "2025", "n": 1}]},
    )
    add(
        "long",
        [bus("b", True), src("s", "b"), snk("d", "b")],
        {"s>b": [0, 1], "b>d": [0, 1]},
        [1.0, 0.5, 2.0, 1.0, 0.25, 4.0] + ([1.0] if deep else []),
    )
    for kind in ("dt", "tinc", "infer"):
        add(
            "kind-" + kind,
            [bus("b", True), src("s", "b"), snk("d", "b"), snk("e", "b")],
            {"s>b": W, "b>d": [0, 1], "b>e": [0, 1]}, [2.0, 2.0, 2.0],
            time={"dt": [2.0, 2.0, 2.0], "kind": kind},
        )
    return out
