"""Helpers to write configurations and their alphabets."""

import zlib

from .explore import cells, letters, statics  # noqa: F401
from .ref import INF, at, vals

NEAR = 0.25


def uniq(xs):
    out = []
    for x in xs:
        x = round(float(x), 9)
        if x == 0:
            x = 0.0
        if x not in out:
            out.append(x)
    return out


def flow_values(F, t, cap=None, extra=(), full=True):
    """Interesting values of a flow in interval t: every bound, something
    just outside of it, something inside."""
    cap = cap if cap is not None else F.get("nominal_capacity")
    xs = [0.0]
    if cap is None:
        xs += [2.5, 1000.0, -0.5]
    elif F.get("fix") is not None:
        v = at(F["fix"], t) * cap
        xs += [v, v + NEAR, v - NEAR]
    else:
        lo, hi = at(F.get("minimum", 0), t) * cap, at(F.get("maximum", 1), t) * cap
        xs += [lo, lo - NEAR]
        if hi < INF:
            xs += [hi, hi + NEAR]
            if full:
                xs.append((lo + hi) / 2)
        else:
            xs += [cap * 7]
    if F.get("integer"):
        xs += [1.0, 2.0, 0.5]
    return uniq(list(xs) + list(extra))


def legal(F, t, cap=None):
    cap = cap if cap is not None else F.get("nominal_capacity")
    if cap is None:
        return 1.0
    if F.get("fix") is not None:
        return float(at(F["fix"], t) * cap)
    lo = at(F.get("minimum", 0), t) * cap
    hi = at(F.get("maximum", 1), t) * cap
    if F.get("integer"):
        import math

        return float(math.ceil(lo - 1e-9))
    if F.get("nonconvex") is not None:
        return 0.0
    if hi == INF:
        return float(max(lo, 0.0))
    return float(lo + 0.5 * (hi - lo))


def edges(nodes):
    fl = {}
    for d in nodes:
        n = d["n"]
        for b, f in d.get("in", {}).items():
            fl["%s>%s" % (b, n)] = f
        for b, f in d.get("out", {}).items():
            fl["%s>%s" % (n, b)] = f
        if d["k"] == "gchp":
            fl["%s>%s" % (d["fuel"][0], n)] = d["fuel"][1]
            fl["%s>%s" % (n, d["el"][0])] = d["el"][1]
            fl["%s>%s" % (n, d["heat"][0])] = d["heat"][1]
    return fl


def flow_cells(nodes, T, cap=None, only=None, extra=None, full=True):
    """Every flow is explored on its own interesting values over all
    intervals while the others rest on a legal base trajectory."""
    fl = edges(nodes)
    cap = cap or {}
    extra = extra or {}
    base = {
        k: [legal(f, t, cap.get(k)) for t in range(T)] for k, f in fl.items()
    }
    grids = []
    for k, f in fl.items():
        if only is not None and k not in only:
            continue
        grids.append(
            {k: [flow_values(f, t, cap.get(k), extra.get(k, ()), full)
                 for t in range(T)]}
        )
    return cells(grids, T, base)


def src(n, b, **f):
    return {"k": "source", "n": n, "out": {b: f}}


def snk(n, b, **f):
    return {"k": "sink", "n": n, "in": {b: f}}


def bus(n, balanced=False, **kw):
    return {"k": "bus", "n": n, "balanced": balanced, **kw}


def vals_of(v):
    return vals(v)


# a balanced bus next to everything else (a model needs a constraint)
AUX = [bus("zb", True), src("zs", "zb"), snk("zd", "zb")]
AUXG = {"zs>zb": [1.0], "zb>zd": [1.0]}


def costs(nodes):
    """Copy of the nodes in which every flow has some distinct cost."""
    import copy

    nodes = copy.deepcopy(nodes)
    for i, f in enumerate(edges(nodes).values()):
        if not f.get("variable_costs"):
            f["variable_costs"] = 0.5 + 0.25 * i
    return nodes


def share(*key):
    """A number that depends on the key, but on no pattern in it."""
    return zlib.crc32(repr(key).encode())
