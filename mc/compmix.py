"""Components under every combination of time structure, objective weights
and options of the connected flows.

``mixes`` takes builders of configurations for two intervals whose flows are
free; every one is combined with the time structures and with the options of
each of its flows (a covering array over all of these choices).
"""

import copy

from . import combos
from .gen import edges, uniq

TIMES = {
    "num": {"dt": [1.0, 2.0]},
    "dt": {"dt": [0.25, 3.0], "kind": "dt"},
    "infer": {"dt": [2.0, 2.0], "kind": "infer"},
    "tinc": {"dt": [2.0, 0.5], "kind": "tinc"},
    "p11": {"dt": [1.0, 0.5],
            "periods": [{"start": "2020", "n": 1}, {"start": "2023", "n": 1}]},
    "p2": {"dt": [1.0, 2.0],
           "periods": [{"start": "2020", "n": 1}, {"start": "2021", "n": 1}]},
    "tsa": {"dt": [1.0, 1.0], "kind": "dt", "single": True,
            "tsa": [{"timesteps_per_period": 1, "order": [0, 1, 1]}]},
    "seg": {"dt": [1.0, 3.0], "kind": "dt", "single": True,
            "tsa": [{"timesteps_per_period": 4, "order": [0, 0],
                     "segments": [[1, 3]]}]},
    "mp": {"dt": [1.0, 1.0],
           "periods": [{"start": "2020-01-01", "n": 1, "years": 1},
                       {"start": "2023-01-01", "n": 1, "years": 1}],
           "tsa": [{"timesteps_per_period": 1, "order": [0, 0]},
                   {"timesteps_per_period": 1, "order": [0, 0, 0]}]},
}
KINDS = [None, "cap", "max", "onoff", "inv", "int", "bi", "fix", "ramp",
         "flh", "cost"]


def values(cfg, key):
    out = [[] for _ in cfg["runs"][0]["alphabet"]]
    for r in cfg["runs"]:
        for t, letters in enumerate(r["alphabet"]):
            for u in letters:
                out[t].append(u[key])
    return [uniq(v) for v in out]


def vary(cfg, key, kind, limit=None):
    """Give one flow of the configuration some options (in place)."""
    if kind is None:
        return True
    F = edges(cfg["nodes"])[key]
    vs = values(cfg, key)
    pos = sorted({v for x in vs for v in x
                  if v > 0 and (limit is None or v <= limit)})
    if not pos:
        return False
    top, mid = pos[-1], pos[len(pos) // 2]
    T = len(vs)
    if kind == "cost":
        F["variable_costs"] = [3.0, -1.0, 2.0][:T]
    elif kind == "cap":
        F["nominal_capacity"] = mid
    elif kind == "max":
        F["nominal_capacity"] = top
        F["maximum"] = [1.0, 0.5, 0.75][:T]
        F["minimum"] = [0.0, 0.125, 0.0][:T]
    elif kind == "onoff":
        F["nominal_capacity"] = top
        F["minimum"] = 0.25
        F["nonconvex"] = {"startup_costs": 3.0, "inactivity_costs": 0.5}
    elif kind == "int":
        F["nominal_capacity"] = top
        F["integer"] = True
    elif kind == "bi":
        F["nominal_capacity"] = top
        F["minimum"] = -0.5
    elif kind == "fix":
        F["nominal_capacity"] = mid
        F["fix"] = [[v for v in sorted(x) if v > 0][0] / mid
                    if any(v > 0 for v in x) else 0.0 for x in vs]
    elif kind == "ramp":
        F["nominal_capacity"] = top
        F["positive_gradient_limit"] = 0.5
        F["negative_gradient_limit"] = 0.25
    elif kind == "flh":
        F["nominal_capacity"] = top
        F["full_load_time_max"] = 1.5
    elif kind == "inv":
        inv = {"ep_costs": 2.0, "maximum": top}
        P = len(cfg["time"].get("periods", [0]))
        if P > 1:
            inv["lifetime"] = 20
        F["investment"] = inv
        for r in cfg["runs"]:
            st = []
            for s in r.get("static") or [{}]:
                for c in uniq([mid, top, 0.0]):
                    s2 = dict(s)
                    for p in range(P):
                        s2["inv:%s:%d" % (key, p)] = c if p == 0 else 0.0
                    st.append(s2)
            r["static"] = st
    return True


def mixes(builders, deep=False, skip=(), kinds=None, times=None, tag="mix",
          few=1, strength=2, extra_ok=None, limits=None):
    """skip: edges that keep their own options"""
    times = times or TIMES
    base = {}
    keys = []
    for n, fn in builders.items():
        c = fn()
        base[n] = c
        ks = [k for k in edges(c["nodes"])
              if k not in ("zs>zb", "zb>zd") and k not in skip]
        keys.append(ks)
    width = max(len(k) for k in keys)
    opts = {
        "base": list(builders),
        "time": list(times),
        "ow": [None, [3.0, 0.5]],
    }
    for j in range(width):
        opts["f%d" % j] = list(kinds or KINDS)
    klen = {n: len(k) for n, k in zip(builders, keys)}

    def ok(a):
        tm = a.get("time")
        n = a.get("base")
        for j in range(width):
            k = a.get("f%d" % j)
            if k is None:
                continue
            if n is not None and j >= klen[n]:
                return False
            if tm in ("tsa", "seg", "mp") and k in ("ramp", "onoff"):
                return False
        # two capacities to be found make spaces too large
        many = [j for j in range(width) if a.get("f%d" % j) == "inv"]
        if len(many) > 1:
            return False
        return True if extra_ok is None else extra_ok(a)

    out = []
    for num, a in enumerate(combos.both_arrays(
            opts, 3 if deep else strength, ok, few=2 if deep else few)):
        c = copy.deepcopy(base[a["base"]])
        c["time"] = copy.deepcopy(times[a["time"]])
        good = True
        ks = [k for k in edges(c["nodes"])
              if k not in ("zs>zb", "zb>zd") and k not in skip]
        for j, k in enumerate(ks):
            good = good and vary(c, k, a["f%d" % j],
                                 (limits or {}).get(k))
        if not good:
            continue
        if a["ow"] is not None:
            c["ow"] = list(a["ow"])
        if "periods" in c["time"]:
            c["discount_rate"] = 0.1
        c["name"] = "%s-%04d" % (tag, num)
        out.append(c)
    return out
