"""Piecewise linear converter: interpolation between breakpoints."""

import itertools

from .. import compmix
from ..explore import run_config as run  # noqa: F401
from ..gen import AUX, AUXG, bus, costs, uniq

RULE = (
    "in every interval the input takes every breakpoint, points between and"
    " outside; the output the interpolated value, the function itself, values"
    " above and below and those of the neighbouring segments"
)
DTS = [1.0, 2.0, 0.5]
# (BIGM_BIN and BIGM_SOS1 are left out: Pyomo itself declares them incorrect)
REPN = ["CC", "DCC", "MC", "INC", "DLOG", "LOG", "SOS2"]

TABLES = {
    "convex": [[0, 2, 4, 8], [0, 1, 4, 16]],
    "concave": [[0, 2, 4, 8], [0, 4, 6, 7]],
    "affine": [[0, 8], [1, 5]],
    "linear": [[0, 8], [0, 4]],
    "down": [[0, 2, 4, 8], [8, 5, 4, 1]],
    "peak": [[0, 4, 8], [0, 6, 2]],
    "valley": [[0, 4, 8], [6, 1, 4]],
    "wave": [[0, 2, 4, 6, 8], [2, 5, 1, 4, 3]],
    "flat": [[0, 2, 4, 8], [0, 3, 3, 6]],
}
# input and output may take either sign
SIGNED = {
    "kink": [[-8, 0, 8], [-4, 0, 8]],
    "cubic": [[-8, -4, 0, 4, 8], [-8, -1, 0, 1, 8]],
    "bowl": [[-8, -4, 0, 4, 8], [8, 2, 0, 2, 8]],
    "flip": [[-8, 0, 8], [6, -1, -2]],
}
SBPS = {
    "all": [-8, -4, 0, 4, 8],
    "three": [-8, 0, 8],
    "part": [-4, 0, 8],
    "below": [-8, -4, 8],
}
BPS = {
    "all": [0, 2, 4, 8],
    "two": [0, 8],
    "three": [0, 4, 8],
    "five": [0, 2, 4, 6, 8],
    "high": [2, 4, 8],
    "odd": [0, 3, 8],
}


def table(tab, x):
    xs, ys = tab
    for k in range(len(xs) - 1):
        if xs[k] <= x <= xs[k + 1]:
            return ys[k] + (ys[k + 1] - ys[k]) * (x - xs[k]) / (
                xs[k + 1] - xs[k]
            )


def points(n, tab, bp, d=0.125, full=True, signed=False):
    pts = []
    xs = []
    for a, b in zip(bp, bp[1:]):
        xs += [a, (a + b) / 2] if full else [(a + b) / 2]
    xs.append(bp[-1])
    ys = [table(tab, b) for b in bp]
    for x in xs:
        k = max(i for i in range(len(bp) - 1) if bp[i] <= x)
        y = ys[k] + (ys[k + 1] - ys[k]) * (x - bp[k]) / (bp[k + 1] - bp[k])
        cand = [y, y + d, y - d, table(tab, x)]
        if full:
            cand += ys
        for v in uniq(cand):
            if v >= 0 or signed:
                pts.append((x, v))
    pts += [(bp[-1] + d, ys[-1]), (bp[0] - d, ys[0]), (0, 0), (0, ys[0] + d)]
    seen = []
    for x, y in pts:
        if (signed or (x >= 0 and y >= 0)) and (x, y) not in seen:
            seen.append((x, y))
    return [{"a>%s" % n: float(x), "%s>b" % n: round(float(y), 9)}
            for x, y in seen]


def make(name, tab, bp, repn, T, cap=8, full=True, second=None, fin=None,
         periods=False, signed=False):
    nodes = [bus("a"), bus("b")]
    sets = [("v", tab, bp)] + ([("w",) + second] if second else [])
    for n, tb, b in sets:
        nodes.append({"k": "pwl", "n": n,
                      "in": {"a": {"nominal_capacity": cap, **(fin or {})}},
                      "out": {"b": {"nominal_capacity": 20, "minimum": -1}
                              if signed else {}}, "table": tb, "bp": list(b),
                      "repn": repn})
    nodes = costs(nodes)
    letters = [
        {**{k: v for q in combo for k, v in q.items()},
         **{k: v[0] for k, v in AUXG.items()}}
        for combo in itertools.product(
            *[points(n, tb, b, full=full, signed=signed) for n, tb, b in sets])
    ]
    tm = {"dt": DTS[:T]}
    if periods:
        tm["periods"] = [{"start": "2020", "n": 1},
                         {"start": "2022", "n": T - 1}]
    return {"name": name, "time": tm, "nodes": nodes + AUX,
            "runs": [{"alphabet": [letters] * T}]}


def tasks(tier):
    out = []
    thorough = tier == "thorough"
    for tn, tab in TABLES.items():
        for bn, bp in BPS.items():
            for repn in REPN:
                if repn == "DLOG" or repn == "LOG":
                    # only for a power of two of segments
                    if len(bp) - 1 not in (1, 2, 4):
                        continue
                if not thorough and (bn in ("two", "odd") and repn not in
                                     ("CC", "MC")):
                    continue
                out.append(make("%s-%s-%s" % (tn, bn, repn), tab, bp, repn, 1))
    for tn, tab in TABLES.items():
        for repn in REPN if thorough else ("CC", "INC"):
            if repn in ("DLOG", "LOG"):
                continue
            out.append(make("%s-%s-2" % (tn, repn), tab, [0, 2, 4, 8], repn,
                            2, full=False))
            out.append(make("%s-%s-high-2" % (tn, repn), tab, [2, 4, 8],
                            repn, 2, full=False))
    out.append(make("cap", TABLES["convex"], BPS["all"], "CC", 2, cap=5,
                    full=False))
    out.append(make("max", TABLES["convex"], BPS["all"], "CC", 2, full=False,
                    fin={"maximum": [1, 0.5], "minimum": [0, 0.25]}))
    out.append(make("per", TABLES["wave"], BPS["five"], "CC", 3, full=False,
                    periods=True))
    out.append(make("two", TABLES["convex"], [0, 4, 8], "CC", 1,
                    second=(TABLES["wave"], [0, 2, 4, 6, 8])))
    out.append(make("two-down", TABLES["peak"], [2, 4, 8], "MC", 1,
                    second=(TABLES["down"], [0, 2, 8])))
    for (tn, tab), (bn, bp), repn in itertools.product(
        SIGNED.items(), SBPS.items(), REPN
    ):
        if repn in ("DLOG", "LOG") and len(bp) - 1 not in (1, 2, 4):
            continue
        if not thorough and repn not in ("CC", "INC"):
            continue
        kw = dict(signed=True, fin={"minimum": -1})
        out.append(make("s-%s-%s-%s" % (tn, bn, repn), tab, bp, repn, 1, **kw))
        if repn == "CC":
            out.append(make("s2-%s-%s" % (tn, bn), tab, bp, repn, 2,
                            full=False, **kw))
    # only the input may not become negative
    out.append(make("half", SIGNED["cubic"], SBPS["all"], "CC", 1,
                    signed=True))
    return out + mixed(thorough)


def mixed(deep):
    def pw(tab, bp, repn, **kw):
        return lambda: make("x", TABLES[tab], BPS[bp], repn, 2, full=False,
                            **kw)

    tabs = {
        "a": pw("convex", "all", "CC"),
        "b": pw("wave", "five", "DCC"),
        "c": pw("concave", "high", "INC"),
        "d": pw("down", "three", "MC"),
        "e": pw("peak", "three", "SOS2"),
    }
    # the input flow has to have a capacity
    out = compmix.mixes(tabs, deep, skip=("a>v",), tag="mixo", few=2)
    out += compmix.mixes(tabs, deep, kinds=[None, "max", "fix", "int", "ramp",
                                            "flh", "cost"], tag="mixi", few=2,
                         limits={"a>v": 8})
    return out
