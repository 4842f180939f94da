"""Integral and emission limits bind exactly the selected flows."""

import itertools

from .. import combos
from ..explore import letters, run_config as run  # noqa: F401
from ..gen import bus, costs, snk, src

RULE = (
    "the flows take every combination of grid values in every interval; the"
    " limits lie on attainable sums, so that both sides of every limit and"
    " the limit itself are reached"
)
FAC = {
    "c": [2.0, 0.5, 1.0],
    "l": [[1.0, 2.0, 0.5, 3.0], [0.0, 1.0, 4.0, 2.0], [3.0, 0.0, 1.0, 1.0]],
    "np": [{"form": "np", "v": [2.0, 1.0, 0.25, 1.0]},
           {"form": "tuple", "v": [0.5, 3.0, 1.0, 2.0]}, 1.0],
    "neg": [-1.0, 2.0, [1.0, -2.0, 0.5, -0.5]],
    "zero": [0.0, 1.0, 0.0],
}
DT = [1.0, 2.0, 0.5, 3.0]
PER = {
    "2": [{"start": "2020", "n": 1}, {"start": "2022", "n": 1}],
    "21": [{"start": "2020", "n": 2}, {"start": "2025", "n": 1}],
    "12": [{"start": "2020", "n": 1}, {"start": "2021", "n": 2}],
    "111": [{"start": "2020", "n": 1}, {"start": "2023", "n": 1},
            {"start": "2024", "n": 1}],
}


def cut(v, T):
    if isinstance(v, dict):
        return {**v, "v": v["v"][:T]}
    return v[:T] if isinstance(v, list) else v


def system(fac, who, T, kw="emission_factor", extra=None):
    """Two sources and a sink on a bus; the flows in who carry the factor."""
    nodes = [bus("b"), src("s1", "b"), src("s2", "b"), snk("d", "b")]
    fl = {"s1": nodes[1]["out"]["b"], "s2": nodes[2]["out"]["b"],
          "d": nodes[3]["in"]["b"]}
    for n, f in zip(("s1", "s2", "d"), fac):
        if n in who:
            fl[n].setdefault("custom_properties", {})[kw] = cut(f, T)
        else:
            fl[n].setdefault("custom_properties", {})["other"] = 7
        fl[n]["nominal_capacity"] = 100
    if extra:
        k2, f2, who2 = extra
        for n, f in zip(("s1", "s2", "d"), f2):
            if n in who2:
                fl[n]["custom_properties"][k2] = cut(f, T)
    return costs(nodes)


KEY = {"s1": ["s1", "b"], "s2": ["s2", "b"], "d": ["b", "d"]}


def cfg(name, nodes, T, cons, grid=(0.0, 1.0, 2.0), per=None, kind="num",
        ow=None, dt=None):
    tm = {"dt": (dt or DT)[:T]}
    if per:
        tm["periods"] = PER[per]
    elif kind != "num":
        tm["kind"] = kind
    c = {"name": name, "time": tm, "nodes": nodes, "constraints": cons,
         "runs": [{"alphabet": letters(
             {"s1>b": list(grid), "s2>b": list(grid),
              "b>d": [0.0, 1.0] if T > 2 else list(grid)}, T)}]}
    if ow:
        c["ow"] = ow[:T]
    return c


def tasks(tier):
    out = []
    thorough = tier == "thorough"
    subsets = [x for n in (1, 2, 3)
               for x in itertools.combinations(("s1", "s2", "d"), n)]
    limits = [("u", {"upper": 4.0}), ("l", {"lower": 3.0}),
              ("b", {"upper": 6.0, "lower": 2.0}), ("z", {"upper": 0.0}),
              ("e", {"upper": 3.0, "lower": 3.0}),
              ("n", {"upper": -1.0}), ("m", {"lower": 0.0})]
    for fk, fac in FAC.items():
        for who in subsets:
            for lk, lim in limits:
                if lk == "n" and fk != "neg":
                    continue
                T = 3 if thorough else 2
                nodes = system(fac, who, T, "w")
                out.append(cfg("int-%s-%s-%s" % (fk, "".join(who), lk),
                               nodes, T, [{"c": "integral", "keyword": "w",
                                           **lim}]))
        # limit only a part of the flows that carry the factor
        for who in subsets:
            nodes = system(fac, ("s1", "s2", "d"), 2, "w")
            out.append(cfg("sel-%s-%s" % (fk, "".join(who)), nodes, 2,
                           [{"c": "integral", "keyword": "w",
                             "flows": [KEY[x] for x in who], "upper": 4.0,
                             "lower": 0.5 if fk != "neg" else -2.0,
                             "limit_name": "lim"}]))
            out.append(cfg("em-%s-%s" % (fk, "".join(who)),
                           system(fac, ("s1", "s2", "d"), 2), 2,
                           [{"c": "emission_limit",
                             "flows": [KEY[x] for x in who], "limit": 3.0}]))
        # nobody is selected: there is nothing to be limited
        nodes = system(fac, ("s1", "s2", "d"), 2, "w")
        out.append(cfg("none-%s" % fk, nodes, 2,
                       [{"c": "integral", "keyword": "w", "flows": [],
                         "upper": 0.5, "lower": 0.0, "limit_name": "no"},
                        {"c": "integral", "keyword": "w", "upper": 6.0,
                         "limit_name": "lim"}]))
        out.append(cfg("emnone-%s" % fk,
                       system(fac, ("s1", "s2", "d"), 2), 2,
                       [{"c": "emission_limit", "flows": [],
                         "limit": 0.5}]))
        out.append(cfg("emall-%s" % fk, system(fac, ("s1", "d"), 3), 3,
                       [{"c": "emission_limit", "limit": 5.0}]))
        # two limits next to each other
        nodes = system(fac, ("s1", "s2"), 2, "w",
                       ("v", FAC["l"][::-1], ("s2", "d")))
        out.append(cfg("two-%s" % fk, nodes, 2,
                       [{"c": "integral", "keyword": "w", "upper": 5.0},
                        {"c": "integral", "keyword": "v", "upper": 6.0,
                         "lower": 1.0}]))
        # time axes and objective weights do not change the limit
        for kind, dt in (("dt", [0.25, 4.0, 1.5]), ("infer", [1.0] * 3),
                         ("infer", [2.0] * 3), ("tinc", [2.0, 0.5, 1.0])):
            out.append(cfg("time-%s-%s-%g" % (fk, kind, dt[0]),
                           system(fac, ("s1", "d"), 3, "w"), 3,
                           [{"c": "integral", "keyword": "w", "upper": 5.0}],
                           kind=kind, dt=dt))
        out.append(cfg("ow-%s" % fk, system(fac, ("s1", "s2"), 2, "w"), 2,
                       [{"c": "integral", "keyword": "w", "upper": 5.0}],
                       ow=[5.0, 0.25]))
        # several periods: over everything, or in each of them
        for pk, ps in PER.items():
            T = sum(p["n"] for p in ps)
            nodes = system(fac, ("s1", "d"), T)
            out.append(cfg("per-all-%s-%s" % (fk, pk), nodes, T,
                           [{"c": "emission_limit", "limit": 4.0}], per=pk))
            for lk, lim in (("c", 3.0), ("l", [3.0, 1.0, 0.5][:len(ps)]),
                            ("z", [0.0, 4.0, 1.0][:len(ps)]),
                            ("np", {"form": "np",
                                    "v": [1.0, 2.0, 6.0][:len(ps)]})):
                out.append(cfg("per-each-%s-%s-%s" % (fk, pk, lk), nodes, T,
                               [{"c": "emission_limit_per_period",
                                 "limit": lim}], per=pk))
            out.append(cfg("per-sel-%s-%s" % (fk, pk),
                           system(fac, ("s1", "s2", "d"), T, "w"), T,
                           [{"c": "integral_per_period", "keyword": "w",
                             "flows": [KEY["s2"], KEY["d"]],
                             "limit": [2.0, 4.0, 1.0][:len(ps)]}], per=pk))
            out.append(cfg("per-emsel-%s-%s" % (fk, pk),
                           system(fac, ("s1", "s2", "d"), T), T,
                           [{"c": "emission_limit_per_period",
                             "flows": [KEY["s2"], KEY["d"]],
                             "limit": [2.0, 4.0, 1.0][:len(ps)]}], per=pk))
    return out + mixed(thorough)


def mixed(deep):
    """Every combination of the kind of limit, the time structure, objective
    weights, the factors and the kind of flow."""
    from .T02 import AX, MP

    times = {
        "num": {"dt": DT[:3]},
        "dt": {"dt": [0.25, 4.0, 1.5], "kind": "dt"},
        "infer": {"dt": [2.0] * 3, "kind": "infer"},
        "tinc": {"dt": [2.0, 0.5, 1.0], "kind": "tinc"},
        "p2": {"dt": [1.0, 2.0], "periods": PER["2"]},
        "p12": {"dt": [1.0, 2.0, 0.5], "periods": PER["12"]},
        "p21": {"dt": [2.0, 1.0, 0.5], "periods": PER["21"]},
        "tsa": AX["three"],
        "tsaseg": {**AX["seg"]},
        "tsamp": MP["mp2"],
    }
    opts = {
        "time": list(times),
        "ow": [None, [5.0, 0.25, 2.0, 3.0]],
        "dr": [None, 0.5],
        "fac": list(FAC),
        "who": ["s1d", "s1", "s1s2d", "s2d"],
        "kind": ["plain", "onoff", "bi", "invest", "fix", "int", "ramp",
                 "free"],
        "cons": ["u", "l", "b", "emu", "sel", "emsel", "pu", "pemu", "psel",
                 "pemsel"],
        "limit": [4.0, 2.0, 0.0],
    }

    def ok(a):
        per = a.get("time") in (None, "p2", "p12", "p21", "tsamp")
        if not per and (a.get("cons") or "")[:1] == "p":
            return False
        if not per and a.get("dr") is not None:
            return False
        if a.get("cons") in (
            "sel", "emsel", "psel", "pemsel"
        ) and a.get("who") not in (
            None, "s1s2d"
        ):
            return False
        if a.get("time") in ("tsa", "tsaseg", "tsamp") and a.get(
            "kind"
        ) == "ramp":
            return False
        if a.get("time") == "tsa" and a.get("dr") is not None:
            return False
        return True

    out = []
    for n, a in enumerate(
        combos.both_arrays(opts, 3 if deep else 2, ok, few=3 if deep else 2)
    ):
        tm = times[a["time"]]
        T, P = len(tm["dt"]), len(tm.get("periods", [0]))
        em = "em" in a["cons"]
        kw = "emission_factor" if em else "w"
        who = [x for x in ("s1", "s2", "d") if x in a["who"]]
        nodes = system([cut(f, T) for f in FAC[a["fac"]]], who, T, kw)
        f = nodes[1]["out"]["b"]
        vals, stat = [0.0, 1.0, 2.0], None
        if a["kind"] == "onoff":
            f.update(nominal_capacity=2, minimum=0.5,
                     nonconvex={"startup_costs": 3})
        elif a["kind"] == "bi":
            f.update(nominal_capacity=2, minimum=-1)
            vals = [-1.0, 0.0, 1.0]
        elif a["kind"] == "invest":
            f.pop("nominal_capacity")
            f["investment"] = {"ep_costs": 1, "maximum": 2}
            if P > 1:
                f["investment"]["lifetime"] = 20
            stat = [
                dict(zip(["inv:s1>b:%d" % p for p in range(P)], [c] + [0.0] * P))
                for c in (1.0, 2.0)
            ]
        elif a["kind"] == "fix":
            f.update(nominal_capacity=2, fix=[0.5, 0, 1, 0.5][:T])
        elif a["kind"] == "int":
            f.update(nominal_capacity=2, integer=True)
            vals = [0.0, 0.5, 1.0]
        elif a["kind"] == "ramp":
            f.update(nominal_capacity=2, positive_gradient_limit=0.5)
        elif a["kind"] == "free":
            f.pop("nominal_capacity")
        lim = a["limit"]
        lims = [lim + 0.5 * p for p in range(P)]
        fl = [KEY["s2"], KEY["s1"]]
        c = {
            "u": {"c": "integral", "keyword": "w", "upper": lim},
            "l": {"c": "integral", "keyword": "w", "lower": lim},
            "b": {"c": "integral", "keyword": "w", "upper": lim + 2,
                  "lower": lim - 1},
            "emu": {"c": "emission_limit", "limit": lim},
            "sel": {"c": "integral", "keyword": "w", "upper": lim,
                    "flows": fl},
            "emsel": {"c": "emission_limit", "limit": lim, "flows": fl},
            "pu": {"c": "integral_per_period", "keyword": "w", "limit": lims},
            "pemu": {"c": "emission_limit_per_period", "limit": lims},
            "pemsel": {"c": "emission_limit_per_period", "limit": lims,
                       "flows": fl},
            "psel": {"c": "integral_per_period", "keyword": "w",
                     "limit": lims, "flows": fl},
        }[a["cons"]]
        r = {"alphabet": letters(
            {"s1>b": vals, "s2>b": [0.0, 1.0, 2.0] if T < 3 else [0.0, 1.0],
             "b>d": [0.0, 1.0] if T < 4 else [1.0]}, T)}
        if a["kind"] == "fix":
            for t in range(T):
                q = f["fix"][t] * 2.0
                for u in r["alphabet"][t]:
                    if u["s1>b"] == 2.0 and q not in vals:
                        u["s1>b"] = q
        if stat:
            r["static"] = stat
        task = {"name": "mix-%03d" % n, "time": tm, "nodes": nodes,
                "constraints": [c], "runs": [r]}
        if a["ow"]:
            task["ow"] = a["ow"][:T]
        if a["dr"] is not None:
            task["discount_rate"] = a["dr"]
        out.append(task)
    return out
