"""Compressed air energy storage: documented equations, interval by interval."""

import itertools

from .. import compmix
from ..explore import run_config as run  # noqa: F401
from ..gen import AUX, AUXG, bus, costs, uniq

RULE = (
    "in every interval compression and expansion take zero, values around"
    " their least and their (filling dependent) largest power; the fuel the"
    " documented value and values off it"
)
ASSUMPTIONS = (
    "parameter sets with a constant part of the exergy flows (cav_e_*_b) are"
    " left out: documentation and equations in the code differ there"
)

DIA = {  # diabatic, no heat storage
    "cav_e_in_b": 0, "cav_e_in_m": 0.5, "cav_e_out_b": 0, "cav_e_out_m": 0.25,
    "cav_eta_temp": 1.0, "cav_level_max": 8.0,
    "cmp_p_max_b": 8.0, "cmp_p_max_m": 0.5, "cmp_p_min": 2,
    "cmp_q_out_b": -1.0, "cmp_q_out_m": 1.5, "cmp_q_tes_share": 0,
    "exp_p_max_b": 4.0, "exp_p_max_m": 0.5, "exp_p_min": 1,
    "exp_q_in_b": -0.5, "exp_q_in_m": 1.25, "exp_q_tes_share": 0,
    "tes_eta_temp": 1.0, "tes_level_max": 0.0,
}
ADI = {  # adiabatic: all heat from the storage or another source
    **DIA, "cmp_q_tes_share": 1, "exp_q_tes_share": 1, "tes_level_max": 16.0,
}
MIX = {
    **DIA, "cmp_q_tes_share": 0.5, "exp_q_tes_share": 0.25,
    "tes_level_max": 6.0, "cav_eta_temp": 1.25,
}
SMALL = {**DIA, "cav_level_max": 3.0, "cmp_p_max_m": -0.5}
TIGHT = {**ADI, "tes_level_max": 5.0, "cav_level_max": 5.0}
WASTE = {**MIX, "cmp_q_tes_share": 0.75, "tes_level_max": 4.0,
         "exp_q_tes_share": 0.5}
LOSS = {**DIA, "cav_eta_temp": 2.0, "cav_level_max": 6.0}


def letters(n, q, vals_c, vals_e, d):
    out = []
    for pc, pe in itertools.product(vals_c, vals_e):
        need = q["exp_q_in_m"] * pe + q["exp_q_in_b"] * (pe > 0)
        fuel = need * (1 - q["exp_q_tes_share"])
        fs = [fuel]
        if d:
            fs += [fuel + d] + ([fuel - d] if fuel >= d else [])
        for f in uniq(fs):
            out.append({"el>%s" % n: pc, "%s>eo" % n: pe, "gas>%s" % n: f})
    return out


def make(name, q, T, vc, ve, dt, d=0.125, same=False, second=None):
    eo = "el" if same else "eo"
    nodes = [bus("el"), bus("gas")] + ([] if same else [bus("eo")])
    sets = [("v", q)] + ([("w", second)] if second else [])
    fams = []
    for n, prm in sets:
        nodes.append({"k": "caes", "n": n, "in": {"el": {}, "gas": {}},
                      "out": {eo: {}}, "el": "el", "gas": "gas",
                      "params": prm})
        ls = letters(n, prm, vc, ve, d)
        if same:
            ls = [{k.replace(">eo", ">el"): v for k, v in x.items()}
                  for x in ls]
        fams.append(ls)
    nodes = costs(nodes)
    alpha = [
        {**{k: v for c in combo for k, v in c.items()},
         **{k: v[0] for k, v in AUXG.items()}}
        for combo in itertools.product(*fams)
    ]
    return {"name": name, "time": {"dt": dt[:T]}, "nodes": nodes + AUX,
            "runs": [{"alphabet": [alpha] * T}]}


SETS = {"dia": DIA, "adi": ADI, "mix": MIX, "small": SMALL, "tight": TIGHT,
        "waste": WASTE, "loss": LOSS}


def tasks(tier):
    out = []
    thorough = tier == "thorough"
    fine_c = [0.0, 1.875, 2.0, 4.0, 6.0, 8.0, 8.125, 9.0, 10.0, 12.125]
    fine_e = [0.0, 0.875, 1.0, 2.0, 4.0, 4.125, 5.0, 8.125]
    for k, q in SETS.items():
        for i, dt in enumerate(([1.0, 1.0, 1.0, 1.0], [1.0, 2.0, 0.5, 1.0],
                                [2.0, 0.5, 1.0, 2.0])):
            out.append(make("%s-1-%d" % (k, i), q, 1, fine_c, fine_e, dt))
            out.append(make("%s-2-%d" % (k, i), q, 2,
                            fine_c if thorough else [0.0, 2.0, 4.0, 8.0, 9.0],
                            fine_e if thorough else [0.0, 1.0, 4.0, 5.0],
                            dt, d=0 if thorough else 0.25))
            out.append(make("%s-3-%d" % (k, i), q, 3, [0.0, 2.0, 4.0, 8.0],
                            [0.0, 1.0, 4.0], dt, d=0))
            if thorough:
                out.append(make("%s-4-%d" % (k, i), q, 4, [0.0, 2.0, 8.0],
                                [0.0, 1.0, 4.0], dt, d=0))
        out.append(make("%s-same" % k, q, 2, [0.0, 4.0, 8.0], [0.0, 1.0, 4.0],
                        [1.0, 2.0], same=True))
    out.append(make("two", MIX, 2, [0.0, 2.0, 4.0], [0.0, 1.0], [1.0, 2.0],
                    d=0, second=TIGHT))
    return out + mixed(thorough)


def mixed(deep):
    def ca(q, **kw):
        return lambda: make("x", q, 2, [0.0, 2.0, 4.0, 8.0], [0.0, 1.0, 4.0],
                            [1.0, 2.0], d=0.25, **kw)

    sets = {k: ca(SETS[k]) for k in ("dia", "adi", "mix", "waste", "loss")}
    sets["same"] = ca(MIX, same=True)
    times = {k: v for k, v in compmix.TIMES.items()
             if k not in ("tsa", "seg", "mp")}
    return compmix.mixes(sets, deep, times=times,
                         few=2 if deep else 1)
