"""Converters and links: factors couple the flows, nothing else does."""

import itertools

from ..explore import letters, run_config as run  # noqa: F401
from ..gen import AUX, AUXG, bus, costs, uniq
from ..ref import at
from .. import compmix

RULE = (
    "every flow of a component takes every combination of zero, several"
    " multiples of its own factor and values off its line, in every interval"
)


def lst(v, T):
    if isinstance(v, dict):
        return {**v, "v": v["v"][:T]}
    return v[:T] if isinstance(v, list) else v


def conv_cfg(name, ins, outs, cf, T, flows=None, levels=(0, 2), n=None,
             dt=None, slack=True):
    """ins/outs: bus labels; cf: {bus: factor}"""
    flows = flows or {}
    cf = {k: lst(v, T) for k, v in cf.items()}
    nodes = [bus(b) for b in dict.fromkeys(ins + outs)]
    nodes.append(
        {"k": "converter", "n": "v",
         "in": {b: dict(flows.get(b, {})) for b in ins},
         "out": {b: dict(flows.get(b, {})) for b in outs},
         "cf": cf}
    )
    nodes = costs(nodes)
    grid = {}
    for j, b in enumerate(list(ins) + list(outs)):
        key = "%s>v" % b if j < len(ins) else "v>%s" % b
        vs = []
        for t in range(T):
            f = at(cf.get(b, 1), t)
            xs = [lv * f for lv in levels]
            if slack:
                xs.append(1.0)
            vs.append(uniq(xs))
        grid[key] = vs
    return {
        "name": name,
        "time": {"dt": dt or [1.0, 2.0, 0.5, 1.0][:T]},
        "nodes": nodes + AUX,
        "runs": [{"alphabet": letters({**grid, **AUXG}, T)}],
    }


def link_cfg(name, cf, T, ins=None, outs=None, dt=None, flows=None,
             levels=(0, 1, 2)):
    ins = ins if ins is not None else list(dict.fromkeys(a for a, _, _ in cf))
    outs = (
        outs if outs is not None else list(dict.fromkeys(b for _, b, _ in cf))
    )
    flows = flows or {}
    cf = [[a, b, lst(f, T)] for a, b, f in cf]
    nodes = [bus(b) for b in dict.fromkeys(ins + outs)]
    nodes.append(
        {"k": "link", "n": "l",
         "in": {b: dict(flows.get("i" + b, {})) for b in ins},
         "out": {b: dict(flows.get("o" + b, {})) for b in outs},
         "cf": cf}
    )
    nodes = costs(nodes)
    grid = {"%s>l" % b: [list(map(float, levels))] * T for b in ins}
    for b in outs:
        vs = []
        for t in range(T):
            xs = [0.75]
            for a, c, f in cf:
                if c == b:
                    xs += [lv * at(f, t) for lv in levels]
            vs.append(uniq(xs))
        grid["l>%s" % b] = vs
    return {
        "name": name,
        "time": {"dt": dt or [1.0, 2.0, 0.5, 1.0][:T]},
        "nodes": nodes + AUX,
        "runs": [{"alphabet": letters({**grid, **AUXG}, T)}],
    }


def tasks(tier):
    deep = tier == "thorough"
    out = []
    F = {
        "one": 1, "half": 0.5, "big": 3, "zero": 0, "neg": -0.5,
        "list": [0.5, 2, 0.25, 1], "lz": [0.5, 0, 1, 0],
        "np": {"form": "np", "v": [2, 0.25, 1, 3]},
        "series": {"form": "series", "v": [1, 4, 0.5, 2]},
        "tuple": {"form": "tuple", "v": [0.75, 0.5, 1, 2]},
    }
    free = {"nominal_capacity": 8, "minimum": -1}
    # one in, one out: factors at the output, the input, both
    T = 3 if deep else 2
    for k, f in F.items():
        fl = {b: free for b in "ab"} if k == "neg" else None
        add = lambda s, cf, **kw: out.append(  # noqa
            conv_cfg("11-%s-%s" % (s, k), ["a"], ["b"], cf, T, fl,
                     levels=(0, 1, 2, 3), **kw)
        )
        add("out", {"b": f})
        if k not in ("zero", "lz"):
            add("in", {"a": f})
        add("both", {"a": F["list"], "b": f})
        add("same", {"a": f, "b": 2}) if k not in ("zero", "lz") else None
    out.append(conv_cfg("11-none", ["a"], ["b"], {}, T, levels=(0, 1, 2, 3)))
    # fan in / fan out
    for ni, no in ((1, 2), (2, 1), (2, 2), (1, 3), (3, 1)):
        if ni + no > 3:
            T = 2 if (deep or ni + no == 4) else 1
        else:
            T = 3 if deep else 2
        ins, outs = list("abc")[:ni], list("xyz")[:no]
        fs = list(F.items())
        for r, pick in enumerate(
            [(1, 2, 5, 7, 8, 9), (5, 7, 1, 2, 9, 8), (0, 1, 2, 5, 7, 1),
             (8, 5, 9, 1, 2, 7)]
        ):
            if r > 1 and not deep and ni + no > 3:
                continue
            full = {
                b: fs[pick[j]][1] for j, b in enumerate(ins + outs)
            }
            out.append(conv_cfg("f%d%d-%d-all" % (ni, no, r), ins, outs, full,
                                T, levels=(0, 2, 4)[:2 if ni + no > 4 else 3]))
            # factors missing for the inputs / for one flow
            out.append(
                conv_cfg("f%d%d-%d-outs" % (ni, no, r), ins, outs,
                         {b: v for b, v in full.items() if b in outs}, T)
            )
            part = dict(list(full.items())[1:])
            out.append(conv_cfg("f%d%d-%d-part" % (ni, no, r), ins, outs, part,
                                T))
    # bounds of the flows stay what they are
    out.append(
        conv_cfg("bounded", ["a"], ["b", "c"], {"b": 0.5, "c": [0.25, 1]}, 2,
                 {"a": dict(nominal_capacity=4, minimum=0.5),
                  "b": dict(nominal_capacity=3)}, levels=(0, 2, 4, 6))
    )
    out.append(
        conv_cfg("self", ["a"], ["a"], {"a": 2}, 2, levels=(0, 1, 2))
    ) if False else None
    # converters in a row and side by side
    nodes = [bus("a"), bus("m", True), bus("x")]
    nodes += [
        {"k": "converter", "n": "v", "in": {"a": {}}, "out": {"m": {}},
         "cf": {"m": [0.5, 0.25]}},
        {"k": "converter", "n": "w", "in": {"m": {}}, "out": {"x": {}},
         "cf": {"x": [2, 4]}},
        {"k": "converter", "n": "q", "in": {"a": {}}, "out": {"m": {}},
         "cf": {"a": [1, 2]}},
    ]
    out.append(
        {
            "name": "chain", "time": {"dt": [1.0, 0.5]},
            "nodes": costs(nodes) + AUX,
            "runs": [
                {
                    "alphabet": letters(
                        {"a>v": [0, 4], "v>m": [0, 1, 2], "m>w": [0, 1, 2, 3],
                         "w>x": [0, 4, 8], "a>q": [0, 1, 2],
                         "q>m": [0, 1], **AUXG}, 2,
                    )
                }
            ] if deep else [
                {
                    "alphabet": letters(
                        {"a>v": [0, 4], "v>m": [0, 1, 2], "m>w": [0, 2, 3],
                         "w>x": [0, 4, 8], "a>q": [0, 2],
                         "q>m": [0, 1], **AUXG}, 2,
                    )
                }
            ],
        }
    )
    # several periods
    for ps in ([{"start": "2020", "n": 1}, {"start": "2030", "n": 2}],):
        c = conv_cfg("periods", ["a"], ["b"], {"b": [0.5, 2, 1],
                                              "a": [1, 1, 4]}, 3,
                     levels=(0, 1, 2))
        c["time"]["periods"] = ps
        out.append(c)
    # invested flows of a converter
    c = conv_cfg("invest", ["a"], ["b"], {"b": [0.5, 2]}, 2,
                 {"b": dict(investment=dict(ep_costs=2, maximum=4))},
                 levels=(0, 1, 2, 4))
    c["runs"][0]["static"] = [{"inv:v>b:0": x} for x in (0, 1, 2, 4)]
    out.append(c)
    # ----------------------------------------------------------------- links
    T = 2
    pairs = [(a, b) for a in F for b in F]
    for r, (ka, kb) in enumerate(pairs):
        if not deep and r % 3:
            continue
        if "neg" in (ka, kb):
            fl = {k + b: free for k in "io" for b in "ab"}
        else:
            fl = None
        out.append(
            link_cfg("link-%s-%s" % (ka, kb),
                     [["a", "b", F[ka]], ["b", "a", F[kb]]], T, flows=fl,
                     levels=(0, 1, 2) if deep else (0, 2))
        )
    for k, f in F.items():
        if k == "neg":
            continue
        out.append(link_cfg("one-%s" % k, [["a", "b", f]], 3))
    out.append(
        link_cfg("link-missing", [["a", "b", 0.5]], 2, ["a", "b"], ["a", "b"],
                 levels=(0, 2))
    )
    out.append(
        link_cfg("link-star", [["a", "b", 0.5], ["c", "d", [2, 4]]], 2,
                 levels=(0, 2))
    )
    out.append(
        link_cfg("link-three",
                 [["a", "b", 0.5], ["b", "c", [2, 4]], ["c", "a", 1.5]], 1,
                 levels=(0, 1, 2))
    )
    out.append(
        link_cfg("link-bounded", [["a", "b", 0.5], ["b", "a", 0.75]], 2,
                 flows={"ia": dict(nominal_capacity=2),
                        "oa": dict(nominal_capacity=1.5, minimum=0.5)},
                 levels=(0, 1, 2, 3) if deep else (0, 2, 3))
    )
    # two links in one model
    nodes = [bus("a"), bus("b")]
    nodes += [
        {"k": "link", "n": "l", "in": {"a": {}}, "out": {"b": {}},
         "cf": [["a", "b", [0.5, 2]]]},
        {"k": "link", "n": "m", "in": {"a": {}}, "out": {"b": {}},
         "cf": [["a", "b", [2, 0.5]]]},
    ]
    out.append(
        {
            "name": "links", "time": {"dt": [1.0, 0.5]},
            "nodes": costs(nodes) + AUX,
            "runs": [
                {
                    "alphabet": letters(
                        {"a>l": [0, 2], "l>b": [0, 1, 4], "a>m": [0, 2],
                         "m>b": [0, 1, 4], **AUXG}, 2,
                    )
                }
            ],
        }
    )
    return [c for c in out if c] + mixed(deep)


def mixed(deep):
    L2 = [0.5, 2]
    arr = {"form": "np", "v": [2, 0.25]}
    lv = (0, 2, 4)

    def conv(ins, outs, cf, levels=lv):
        return lambda: conv_cfg("x", list(ins), list(outs), cf, 2,
                                levels=levels)

    def link(cf, levels=(0, 2)):
        return lambda: link_cfg("x", cf, 2, levels=levels)

    one = {
        "o": conv("a", "b", {"b": L2}, (0, 1, 2, 4)),
        "i": conv("a", "b", {"a": arr}, (0, 1, 2, 4)),
        "io": conv("a", "b", {"a": L2, "b": arr}, (0, 1, 2, 4)),
        "z": conv("a", "b", {"b": [0, 0.5]}, (0, 1, 2, 4)),
        "n": conv("a", "b", {}, (0, 1, 2, 4)),
    }
    three = {
        "12": conv("a", "xy", {"x": 0.5, "y": L2}),
        "12i": conv("a", "xy", {"a": L2, "y": arr}),
        "21": conv("ab", "x", {"a": 2, "b": L2}),
        "21o": conv("ab", "x", {"x": arr, "b": 0.5}),
    }
    links = {
        "one": link([["a", "b", L2]], (0, 1, 2)),
        "two": link([["a", "b", L2], ["b", "a", 0.75]]),
        "zero": link([["a", "b", arr], ["b", "a", [0, 0.5]]]),
    }
    out = compmix.mixes(one, deep, tag="mix11", strength=3, few=2)
    out += compmix.mixes(three, deep, tag="mix3")
    out += compmix.mixes(links, deep, tag="mixl")
    return out
