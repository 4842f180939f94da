"""CHP plants: the field of operation of extraction turbine and generic CHP."""

import itertools

from ..explore import run_config as run  # noqa: F401
from ..gen import AUX, AUXG, bus, costs, uniq
from ..ref import at
from .. import compmix

RULE = (
    "in every interval each plant takes the corner points, inner points and"
    " points just outside every edge of its field (fuel, power, heat)"
)
DTS = [1.0, 2.0, 0.5]


def cut(v, T):
    return v[:T] if isinstance(v, list) else v


def with_aux(points):
    return [{**p, **{k: v[0] for k, v in AUXG.items()}} for p in points]


def dedupe(points):
    seen, out = set(), []
    for p in points:
        p = {k: (round(v, 9) or 0.0) for k, v in p.items()}
        h = tuple(sorted(p.items()))
        if h not in seen:
            seen.add(h)
            out.append(p)
    return out


# ------------------------------------------------------ extraction turbine
def ext_points(n, fuel, main, tap, cf, cff, t, d, full):
    em, et, ec = (
        at(cf.get(main, 1), t), at(cf.get(tap, 1), t), at(cff, t)
    )
    beta = (ec - em) / et
    pts = [{}]
    pts[0] = {"f": 0.0, "p": 0.0, "q": 0.0}
    for h in (1.0, 4.0) if full else (4.0,):
        # no heat, some heat, back-pressure line, beyond it
        for share in (0.0, 0.5, 1.0, 1.25):
            q = share * et * h
            pts.append({"f": h, "p": h * ec - beta * q, "q": q})
        pts.append({"f": h, "p": h * ec - beta * et * h * 0.5 + d,
                    "q": et * h * 0.5})
        pts.append({"f": h, "p": h * ec - beta * et * h * 0.5 - d,
                    "q": et * h * 0.5})
        pts.append({"f": h + d, "p": h * ec, "q": 0.0})
        pts.append({"f": h, "p": h * em, "q": h * et + d})
        pts.append({"f": h, "p": h * em, "q": h * et - d})
    pts += [{"f": 0.0, "p": d, "q": 0.0}, {"f": 0.0, "p": 0.0, "q": d},
            {"f": d, "p": 0.0, "q": 0.0}]
    m = {"f": "%s>%s" % (fuel, n), "p": "%s>%s" % (n, main),
         "q": "%s>%s" % (n, tap)}
    return dedupe([{m[k]: v for k, v in p.items()} for p in pts])


def ext_cfg(name, cf, cff, T, swap=False, flows=None, second=None, d=0.125,
            order=None, full=True, periods=False):
    """cf: {"el":, "th":}; main output el; two plants if second is given"""
    flows = flows or {}
    nodes = [bus("el"), bus("th"), bus("gas")]
    outs = ["th", "el"] if swap else ["el", "th"]
    main = (order or ["el", "th"])[0]
    tap = [x for x in ("el", "th") if x != main][0]
    sets = [("v", cf, cff)]
    if second:
        sets.append(("w",) + second)
    per_t = []
    for n, c, f in sets:
        nodes.append({
            "k": "exturb", "n": n,
            "in": {"gas": dict(flows.get("gas", {}))},
            "out": {b: dict(flows.get(b, {})) for b in outs},
            "cf": {b: cut(v, T) for b, v in c.items()},
            "cff": {main: cut(f, T)},
        })
    nodes = costs(nodes)
    alpha = []
    for t in range(T):
        fam = [ext_points(n, "gas", main, tap, c, f, t, d, full)
               for n, c, f in sets]
        alpha.append(with_aux([
            {k: v for q in combo for k, v in q.items()}
            for combo in itertools.product(*fam)
        ]))
    tm = {"dt": DTS[:T]}
    if periods:
        tm["periods"] = [{"start": "2020", "n": 1},
                         {"start": "2023", "n": T - 1}]
    return {"name": name, "time": tm, "nodes": nodes + AUX,
            "runs": [{"alphabet": alpha}]}


# -------------------------------------------------------------- generic CHP
def gchp_points(n, prm, t, d, full, cap=None):
    g = lambda k: at(prm[k], t)  # noqa: E731
    phi, plo = g("P_max_woDH"), g("P_min_woDH")
    fhi, flo = phi / g("Eta_el_max_woDH"), plo / g("Eta_el_min_woDH")
    beta, cool = g("beta"), g("Q_CW_min")

    def line(pw):
        return flo + (pw - plo) / (phi - plo) * (fhi - flo)

    def heat(f, pw, share):
        # power + heat = f (1 - share) - cool, power = pw - beta * heat
        return (f * (1 - share) - cool - pw) / (1 - beta)

    pts = [{"f": 0.0, "p": 0.0, "q": 0.0}]
    mids = (plo, (plo + phi) / 2, phi) if full else (plo, phi)
    for pw in mids:
        f = line(pw)
        edge = [0.0]
        for s in ("H_L_FG_share_max", "H_L_FG_share_min"):
            if s in prm:
                q = heat(f, pw, g(s))
                edge += [q, q + d, q - d]
        if full:
            edge.append((min(edge) + max(edge)) / 2)
        for q in uniq(edge):
            pts.append({"f": f, "p": pw - beta * q, "q": q})
        q = edge[1]
        pts += [{"f": f + d, "p": pw - beta * q, "q": q},
                {"f": f, "p": pw - beta * q + d, "q": q},
                {"f": f, "p": pw - beta * q - d, "q": q}]
    for pw in (plo - d, phi + d):
        f = line(pw)
        q = heat(f, pw, g("H_L_FG_share_max"))
        pts += [{"f": f, "p": pw, "q": 0.0},
                {"f": f, "p": pw - beta * q, "q": q}]
    pts += [{"f": 0.0, "p": d, "q": 0.0}, {"f": 0.0, "p": 0.0, "q": d},
            {"f": d, "p": 0.0, "q": 0.0}]
    m = {"f": "gas>%s" % n, "p": "%s>el" % n, "q": "%s>th" % n}
    pts = dedupe([{m[k]: v for k, v in p.items()} for p in pts])
    return [p for p in pts if min(p.values()) >= 0]


CC = {  # combined cycle extraction
    "P_max_woDH": [8.0, 8.0, 6.0], "P_min_woDH": [4.0, 2.0, 3.0],
    "Eta_el_max_woDH": [0.5, 0.5, 0.6], "Eta_el_min_woDH": [0.4, 0.4, 0.5],
    "H_L_FG_share_max": [0.2, 0.1, 0.15], "Q_CW_min": [0.5, 0.25, 0.0],
    "beta": [0.125, 0.25, 0.1],
}
BP = {**CC, "Q_CW_min": [0.0, 0.0, 0.0], "beta": [0.0, 0.0, 0.0]}
BPB = {**CC, "Q_CW_min": [0.0, 0.0, 0.0]}
MO = {  # motoric
    **BP, "H_L_FG_share_max": [0.125, 0.1, 0.15],
    "H_L_FG_share_min": [0.3, 0.25, 0.35],
}
MOB = {**MO, "beta": [0.125, 0.25, 0.1], "Q_CW_min": [0.25, 0.5, 0.1]}
SPREAD = {  # every interval has its own everything
    "P_max_woDH": [8.0, 6.0, 10.0], "P_min_woDH": [4.0, 2.0, 1.0],
    "Eta_el_max_woDH": [0.5, 0.6, 0.4], "Eta_el_min_woDH": [0.4, 0.5, 0.25],
    "H_L_FG_share_max": [0.2, 0.1, 0.05], "Q_CW_min": [0.0, 0.5, 1.0],
    "beta": [0.0, 0.25, 0.125],
}
FUEL = ("H_L_FG_share_max", "H_L_FG_share_min")
HEAT = ("Q_CW_min",)


def gnode(n, prm, T, bp, flows=None):
    flows = flows or {}
    sub = lambda ks: {k: prm[k][:T] for k in ks if k in prm}  # noqa: E731
    el = [k for k in prm if k not in FUEL + HEAT + ("beta",)]
    return {
        "k": "gchp", "n": n, "bp": bp, "beta": prm["beta"][:T],
        "fuel": ["gas", {**flows.get("gas", {}),
                         "custom_properties": sub(FUEL)}],
        "el": ["el", {**flows.get("el", {}), "custom_properties": sub(el)}],
        "heat": ["th", {**flows.get("th", {}),
                        "custom_properties": sub(HEAT)}],
    }


def gchp_cfg(name, prm, T, bp=False, flows=None, second=None, d=0.125,
             full=True, periods=False):
    nodes = [bus("el"), bus("th"), bus("gas")]
    sets = [("v", prm, bp)]
    if second:
        sets.append(("w",) + second)
    for n, p, b in sets:
        nodes.append(gnode(n, p, T, b, flows))
    nodes = costs(nodes)
    alpha = []
    for t in range(T):
        fam = [gchp_points(n, p, t, d, full) for n, p, _ in sets]
        alpha.append(with_aux([
            {k: v for q in combo for k, v in q.items()}
            for combo in itertools.product(*fam)
        ]))
    tm = {"dt": DTS[:T]}
    if periods:
        tm["periods"] = [{"start": "2020", "n": 1},
                         {"start": "2023", "n": T - 1}]
    return {"name": name, "time": tm, "nodes": nodes + AUX,
            "runs": [{"alphabet": alpha}]}


def tasks(tier):
    out = []
    thorough = tier == "thorough"
    T3 = 3
    # --- extraction turbine
    els = [0.3, [0.3, 0.25, 0.4], {"form": "np", "v": [0.35, 0.3, 0.2]}]
    ths = [0.5, [0.5, 0.4, 0.25]]
    cons = [0.5, [0.5, 0.6, 0.45], 0.3]

    def c3(v, T):
        if isinstance(v, dict):
            return {**v, "v": v["v"][:T]}
        return cut(v, T)

    for a, e in enumerate(els):
        for b, h in enumerate(ths):
            for c, f in enumerate(cons):
                for swap in (False, True):
                    T = 3 if thorough else 2
                    out.append(ext_cfg(
                        "ext-%d%d%d%s" % (a, b, c, "s" if swap else ""),
                        {"el": c3(e, T), "th": c3(h, T)}, c3(f, T), T,
                        swap=swap, full=not thorough or T == 2))
    # the main output may be the heat
    for swap in (False, True):
        out.append(ext_cfg("ext-mainth" + ("s" if swap else ""),
                           {"el": [0.3, 0.25], "th": [0.5, 0.4]},
                           [0.75, 0.8], 2, order=["th", "el"], swap=swap))
    # factors that are not given are one
    out.append(ext_cfg("ext-noth", {"el": 0.3}, 0.5, 2))
    out.append(ext_cfg("ext-noel", {"th": 0.5}, 1.5, 2))
    out.append(ext_cfg("ext-per", {"el": [0.3, 0.25, 0.4],
                                   "th": [0.5, 0.4, 0.3]},
                       [0.5, 0.6, 0.45], 3, periods=True, full=False))
    out.append(ext_cfg("ext-cap", {"el": [0.3, 0.25], "th": 0.5},
                       [0.5, 0.6], 2,
                       flows={"gas": {"nominal_capacity": 4},
                              "el": {"nominal_capacity": 1.75}}))
    out.append(ext_cfg("ext-two", {"el": 0.3, "th": 0.5}, 0.5, 1,
                       second=({"el": 0.2, "th": 0.6}, 0.6)))
    out.append(ext_cfg("ext-two2", {"el": 0.3, "th": 0.5}, 0.5, 2,
                       second=({"el": 0.2, "th": 0.6}, 0.6), full=False))
    # --- generic CHP
    sets = {"cc": (CC, False), "bp": (BP, True), "bpb": (BPB, True),
            "mo": (MO, False), "mob": (MOB, False),
            "sp": (SPREAD, False), "mobp": (BPB, False)}
    for k, (prm, bp) in sets.items():
        for T in (1, 2):
            out.append(gchp_cfg("gchp-%s-%d" % (k, T), prm, T, bp))
        out.append(gchp_cfg("gchp-%s-3" % k, prm, 3, bp, full=thorough))
        out.append(gchp_cfg("gchp-%s-per" % k, prm, 3, bp, full=False,
                            periods=True))
        if thorough:
            out.append(gchp_cfg("gchp-%s-fine" % k, prm, 2, bp, d=0.03125))
    out.append(gchp_cfg("gchp-cap", CC, 2, False,
                        flows={"gas": {"nominal_capacity": 14},
                               "th": {"nominal_capacity": 4}}))
    ks = list(sets)
    for a, b in itertools.combinations(ks, 2):
        out.append(gchp_cfg("gchp-%s+%s" % (a, b), *(sets[a][0], 1, sets[a][1]),
                            second=sets[b]))
    if thorough:
        for a, b in itertools.combinations(ks, 2):
            out.append(gchp_cfg("gchp-%s+%s-2" % (a, b), sets[a][0], 2,
                                sets[a][1], second=sets[b], full=False))
    return out + mixed(thorough)


def mixed(deep):
    def ext(cf, cff, **kw):
        return lambda: ext_cfg("x", cf, cff, 2, full=False, **kw)

    def chp(prm, bp):
        return lambda: gchp_cfg("x", prm, 2, bp, full=False)

    E, H, F = [0.3, 0.25], [0.5, 0.4], [0.5, 0.6]
    plants = {
        "e": ext({"el": E, "th": H}, F),
        "es": ext({"el": 0.3, "th": H}, F, swap=True),
        "em": ext({"el": E, "th": 0.5}, [0.75, 0.8], order=["th", "el"]),
    }
    chps = {
        "cc": chp(CC, False), "bp": chp(BP, True), "mo": chp(MO, False),
        "sp": chp(SPREAD, False), "mob": chp(MOB, False),
    }
    return compmix.mixes(plants, deep, tag="mixe", few=2) + compmix.mixes(
        chps, deep, tag="mixc", few=2)
