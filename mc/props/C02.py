"""Offset converters: on their line while on, zero otherwise."""

import itertools
import math

from ..explore import letters, run_config, statics, Stats, finish
from ..gen import AUX, AUXG, bus, uniq
from ..ref import at
from .. import compmix
from .C01 import lst
from .I02 import cut

RULE = (
    "every operating point: the reference flow at zero, its minimum, its"
    " maximum, between and outside; every other flow on its line for each of"
    " these, on the line without offset, at zero and off the line; helper"
    " functions on the full grid of loads and efficiencies"
)

CF = {
    "none": None, "one": 1, "half": 0.5, "big": 2, "neg": -0.5,
    "list": [0.5, 2, 1, 0.25],
    "np": {"form": "np", "v": [1.5, 0.25, 2, 1]},
    "zero": 0,
}
OFF = {
    "none": None, "pos": 0.25, "neg": -0.125, "list": [0.5, 0, 0.25, 0.125],
    "np": {"form": "np", "v": [0, 0.5, -0.125, 0.25]}, "big": 2,
}
REF = {
    "min": dict(nominal_capacity=8, minimum=0.5),
    "minl": dict(nominal_capacity=8, minimum=[0.25, 0.5, 0.75, 0]),
    "max": dict(nominal_capacity=4, minimum=0.5, maximum=[1, 0.75, 0.5, 1.5]),
    "cheap": dict(nominal_capacity=8, minimum=0.5,
                  nonconvex=dict(startup_costs=5, activity_costs=1,
                                 initial_status=1)),
    "zero": dict(nominal_capacity=8),
    "ud": dict(nominal_capacity=8, minimum=0.25,
               nonconvex=dict(minimum_uptime=2, shutdown_costs=1)),
}
INV = {
    "inv": dict(investment=dict(ep_costs=3, maximum=8), minimum=0.5),
    "invex": dict(investment=dict(ep_costs=3, maximum=4, existing=2),
                  minimum=[0.25, 0.5, 0.5]),
    "invnc": dict(investment=dict(ep_costs=1, maximum=8, minimum=2,
                                  nonconvex=True, offset=4), minimum=0.5,
                  nonconvex=dict(activity_costs=2)),
}


def make(name, ins, outs, ref, R, cf, off, T, dt=None, caps=None, others=None,
         coeff=None):
    R = cut({"nonconvex": {}, **R}, T)
    others = others or {}
    d = {"k": "offset", "n": "v", "in": {}, "out": {}}
    cf = {b: lst(v, T) for b, v in (cf or {}).items() if v is not None}
    off = {b: lst(v, T) for b, v in (off or {}).items() if v is not None}
    for j, b in enumerate(list(ins) + list(outs)):
        f = R if b == ref else others.get(b, {})
        f = {"variable_costs": 0.5 + 0.25 * j, **f}
        d["in" if j < len(ins) else "out"][b] = f
    if cf:
        d["cf"] = cf
    if off:
        d["off"] = off
    if coeff:
        d["coeff"] = [lst(c, T) for c in coeff]
    inv = R.get("investment")
    clist = caps or [R.get("nominal_capacity")]
    ex = inv.get("existing", 0) if inv else 0
    key = lambda b: "%s>v" % b if b in ins else "v>%s" % b  # noqa
    grid = {b: [] for b in list(ins) + list(outs)}
    for t in range(T):
        rv = [0.0]
        for c in clist:
            c = c + ex
            lo = at(R.get("minimum", 0), t) * c
            hi = at(R.get("maximum", 1), t) * c
            rv += [lo, hi]
            if len(clist) == 1:
                rv += [(lo + hi) / 2, hi + 1]
                if lo > 0:
                    rv += [lo / 2]
        rv = uniq(rv)
        grid[ref].append(rv)
        for b in grid:
            if b == ref:
                continue
            xs = [0.0]
            for c in clist:
                for r in rv:
                    if coeff:
                        c0, c1 = (at(x, t) for x in coeff)
                        xs += [(r - c0 * (c + ex)) / c1]
                        continue
                    m, y = at(cf.get(b, 1), t), at(off.get(b, 0), t)
                    xs += [r * m + y * (c + ex)]
                    if r == rv[1]:
                        xs += [r * m]
            xs += [y * c] if not coeff else []
            grid[b].append(uniq(xs))
    cfg = {
        "name": name,
        "time": {"dt": (dt or [1.0, 2.0, 0.5, 1.0])[:T]},
        "nodes": [bus(b) for b in dict.fromkeys(list(ins) + list(outs))]
        + [d] + AUX,
        "runs": [
            {
                "alphabet": letters(
                    {**{key(b): g for b, g in grid.items()}, **AUXG}, T
                ),
            }
        ],
    }
    if inv:
        cfg["runs"][0]["static"] = [
            {"inv:%s:0" % key(ref): float(c)} for c in clist
        ]
    return cfg


def tasks(tier):
    deep = tier == "thorough"
    out = []
    free = dict(nominal_capacity=50, minimum=-1)
    for (a, c), (b, o), side in itertools.product(
        CF.items(), OFF.items(), ("in", "out")
    ):
        # the other flow sits on the other side
        other = "y" if side == "in" else "x"
        ref = "x" if side == "in" else "y"
        for r in (REF if deep else ("min", "max")):
            T = 2
            if r == "ud":
                T = 3
                if (len(a) + len(b)) % 3:
                    continue
            out.append(
                make("%s-%s-%s-%s" % (side, a, b, r), ["x"], ["y"], ref,
                     REF[r], {other: c}, {other: o}, T,
                     others={other: free} if "neg" in (a, b) or b == "np"
                     else None)
            )
    for r, side in itertools.product(REF, ("in", "out")):
        ref, other = ("x", "y") if side == "in" else ("y", "x")
        out.append(
            make("ref-%s-%s" % (side, r), ["x"], ["y"], ref, REF[r],
                 {other: [0.5, 2, 1, 0.25]}, {other: [0.25, 0, 0.5, 0.125]},
                 3 if deep else 2)
        )
    # several flows on either side
    for ins, outs, ref in (
        ("x", "yz", "x"), ("x", "yz", "y"), ("x", "yz", "z"),
        ("xw", "y", "x"), ("xw", "y", "w"), ("xw", "y", "y"),
        ("xw", "yz", "w"), ("xw", "yz", "y"),
    ):
        rest = [b for b in ins + outs if b != ref]
        for v in range(3):
            T = 2 if len(rest) < 3 and (deep or v == 0) else 1
            cfs = [[0.5, 2], 3, {"form": "np", "v": [1.5, 0.25]}, 1]
            offs = [[0.25, 0.5], {"form": "np", "v": [0, 0.125]}, 0.75, None]
            cf = {b: cfs[(i + v) % 4] for i, b in enumerate(rest)}
            off = {b: offs[(i + 2 * v) % 4] for i, b in enumerate(rest)}
            if v == 2:
                cf.pop(rest[0])
                off.pop(rest[-1])
            R = REF["cheap" if v else "min"]
            out.append(
                make("multi-%s-%s-%s-%d" % (ins, outs, ref, v), list(ins),
                     list(outs), ref, R, cf, off, T)
            )
    # invested capacity of the reference flow
    for (r, R), side, (b, o) in itertools.product(
        INV.items(), ("in", "out"), OFF.items()
    ):
        ref, other = ("x", "y") if side == "in" else ("y", "x")
        caps = [0, 2, 4] if r == "invex" else [2, 8]
        if r == "inv":
            caps = [0, 4, 8]
        for a in ("half", "list") if deep else ("list",):
            out.append(
                make("%s-%s-%s-%s" % (r, side, a, b), ["x"], ["y"], ref, R,
                     {other: CF[a]}, {other: o}, 2 if r != "invex" else 2,
                     caps=caps,
                     others={other: free} if b in ("neg", "np") else None)
            )
    # deprecated description of the line
    for k, (co, R) in {
        "s": ([-0.25, 0.75], REF["min"]),
        "max": ([-0.25, 0.5], dict(nominal_capacity=8, minimum=0.25,
                                   maximum=0.75)),
        "lists": ([[-0.25, -0.5], [0.75, 1.25]],
                  dict(nominal_capacity=8, minimum=[0.5, 0.25],
                       maximum=[1, 0.75])),
    }.items():
        out.append(
            make("coeff-" + k, ["x"], ["y"], "y", R, None, None, 2, coeff=co)
        )
    # two converters, one invested: each uses its own status
    d1 = make("q", ["x"], ["y"], "x", REF["min"], {"y": 0.5}, {"y": 0.25}, 1)
    d2 = make("q", ["x"], ["y"], "y", INV["inv"], {"x": 2}, {"x": 0.5}, 1,
              caps=[4])
    n1 = [n for n in d1["nodes"] if n["k"] == "offset"][0]
    n2 = dict([n for n in d2["nodes"] if n["k"] == "offset"][0], n="w")
    out.append(
        {
            "name": "two", "time": {"dt": [1.0]},
            "nodes": [bus("x"), bus("y"), n1, n2] + AUX,
            "runs": [
                {
                    "static": [{"inv:w>y:0": c} for c in (0, 4)],
                    "alphabet": letters(
                        {"x>v": [0, 2, 4, 8], "v>y": [0, 1, 2, 4, 6],
                         "x>w": [0, 2, 6, 8, 10], "w>y": [0, 2, 4], **AUXG},
                        1,
                    ),
                }
            ],
        }
    )
    # the helper functions
    loads = [0.1, 0.25, 0.3, 0.5, 0.75, 0.8, 1, 1.1, 1.5, 2]
    etas = [0.1, 0.3, 0.5, 0.8, 0.95, 1, 1.2, 3, 4.5]
    if deep:
        loads = sorted(set(loads + [0.05 * i for i in range(1, 41)]))
        etas = sorted(set(etas + [0.125 * i for i in range(1, 33)]))
    out.append({"name": "helpers", "kind": "helpers", "loads": loads,
                "etas": etas})
    return out + mixed(deep)


def mixed(deep):
    """The reference flow keeps its options; the other flows, the time
    structure and the weights vary."""
    L2, O2 = [0.5, 2], [0.25, 0.125]

    def b(ref, R, cf, off, ins="x", outs="y", caps=None):
        return lambda: make("x", list(ins), list(outs), ref, R, cf, off, 2,
                            caps=caps)

    out = []
    for side, ref, oth in (("i", "x", "y"), ("o", "y", "x")):
        one = {
            "l": b(ref, REF["min"], {oth: L2}, {oth: O2}),
            "m": b(ref, REF["minl"], {oth: [2, 0.5]}, {oth: [0.5, 0]}),
            "x": b(ref, REF["max"], {oth: 1}, {oth: 0.25}),
            "c": b(ref, REF["cheap"], {oth: L2}, None),
            "z": b(ref, REF["zero"], {oth: L2}, {oth: O2}),
        }
        if side == "i":
            one["w"] = b(ref, REF["min"], {"y": L2, "z": 0.5},
                         {"y": O2, "z": [0, 0.5]}, outs="yz")
        else:
            one["w"] = b(ref, REF["min"], {"x": L2, "w": 0.5},
                         {"x": O2, "w": [0, 0.5]}, ins="xw")
        key = "x>v" if ref == "x" else "v>y"
        # only the reference flow may have a status and be sized
        kinds = [k for k in compmix.KINDS if k not in ("inv", "onoff")]
        times = compmix.TIMES
        out += compmix.mixes(one, deep, skip=(key,), times=times,
                             tag="mix" + side, few=2, kinds=kinds)
        inv = {
            "i": b(ref, INV["inv"], {oth: L2}, {oth: O2}, caps=[4, 8]),
            "e": b(ref, INV["invex"], {oth: L2}, {oth: O2}, caps=[0, 2]),
            "n": b(ref, INV["invnc"], {oth: L2}, {oth: O2}, caps=[2, 8]),
        }
        out += compmix.mixes(
            inv, deep, skip=(key,), tag="mixv" + side, few=2,
            times={k: v for k, v in times.items()
                   if k not in ("p11", "p2", "mp")},
            kinds=kinds)
    return out


def run(task):
    if task.get("kind") == "helpers":
        return run_helpers(task)
    return run_config(task)


def run_helpers(task):
    from oemof.solph.components import slope_offset_from_nonconvex_input
    from oemof.solph.components import slope_offset_from_nonconvex_output

    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0)
    viol = []
    seen = set()
    for mx, mn, e1, e0 in itertools.product(
        task["loads"], task["loads"], task["etas"], task["etas"]
    ):
        if mn >= mx - 1e-6:
            continue
        for side, fn in (
            ("input", slope_offset_from_nonconvex_input),
            ("output", slope_offset_from_nonconvex_output),
        ):
            st.add("transitions")
            st.add("leaves")
            s, o = fn(mx, mn, e1, e0)
            # flow relative to the capacity of the reference flow
            if side == "input":
                want = (mx * e1, mn * e0)
            else:
                want = (mx / e1, mn / e0)
            got = (s * mx + o, s * mn + o)
            seen.add(round(s, 6))
            if any(not math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)
                   for a, b in zip(want, got)):
                if len(viol) < 3:
                    viol.append(
                        {
                            "what": "slope_offset_from_nonconvex_%s(%g, %g,"
                            " %g, %g): other flow %s at full and part load,"
                            " expected %s" % (side, mx, mn, e1, e0, got, want)
                        }
                    )
            else:
                st.add("accepted")
                st.add("validated")
    st["states"] = len(seen)
    return finish(task, st, viol, [], seen)
