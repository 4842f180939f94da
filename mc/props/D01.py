"""Shadow prices are the marginal costs of the balanced buses."""

import itertools
import warnings

import numpy as np
import pandas as pd

from oemof import solph

from .. import combos, spec
from ..explore import Stats, finish
from ..gen import bus, snk, src
from ..ref import at
from .S01 import storage
from .T02 import axis, multi

RULE = (
    "small dispatch systems (two buses, three supplies, a converter, a"
    " storage) whose optimal costs are computed by exhaustive dynamic"
    " programming over a grid of energies; for every pattern"
    " of one unit more or less demand at every bus and in every interval the"
    " costs of the enumeration have to be at least what the optimum and the"
    " reported prices predict, and the optimum not above the enumerated one"
)
ASSUMPTIONS = [
    "prices of models with integer variables are judged only after relaxing",
    "in models with typical periods the price of a typical interval is the"
    " one of its flow, i.e. it counts all the intervals it stands for",
]
INF = float("inf")

OPT = {
    # supplies of the first bus
    "c1": [1, [3, 1, 2], [1, -2, 4], 0],
    "c2": [5, [2, 6, 2]],
    "cap1": [2, 3],
    "flh": [None, 1.5],
    # the converter and the supply of the second bus
    "eff": [1, 0.5, [0.5, 1, 0.5]],
    "ccost": [0, 1],
    "ccap": [2, 4],
    "z": [7, [9, 2, 12]],
    # the storage
    "sto": [None, 1, 2],
    "size": [2, 3],
    "init": [None, "zero", "full"],
    "bal": [True, False],
    "ein": [1, 0.5],
    "scost": [0, 0.5],
    # demand
    "d1": [[1, 2, 1], [2, 0, 3], [0, 0, 1]],
    "d2": [[1, 1, 2], [0, 2, 0]],
    "dump": [False, True],
    "ow": [None, [2.0, 0.5, 3.0]],
    "relax": [None, "integer", "active"],
}
STO = ("size", "init", "bal", "ein", "scost")


def ok(a):
    sto = a.get("sto", 0)
    if "sto" in a and sto is None:
        for k in STO:
            if k in a and a[k] != OPT[k][0]:
                return False
    return True


TIMES = {
    "num": {"dt": [1.0, 1.0, 1.0]},
    "non": {"dt": [1.0, 2.0, 0.5], "kind": "dt"},
    "inf": {"dt": [2.0, 2.0, 2.0], "kind": "infer"},
    "two": {"dt": [0.5, 2.0], "kind": "tinc"},
    "one": {"dt": [2.0], "kind": "dt"},
    "per": {"dt": [1.0, 2.0, 0.5],
            "periods": [{"start": "2020", "n": 2}, {"start": "2025", "n": 1}]},
    "per3": {"dt": [1.0, 1.0, 1.0],
             "periods": [{"start": "2020", "n": 1}, {"start": "2021", "n": 1},
                         {"start": "2023", "n": 1}]},
}
TSA = {
    "tsa": axis([1, 0, 1], 1),
    "tsam": axis([0, 0, 0], 2, kind="infer"),
    "seg": axis([1, 0, 1], segments=[[2], [2]]),
    "segs": axis([0, 0], segments=[[1, 3, 2]]),
    "tmp": multi([("2020-01-01", [0, 1, 0], 1), ("2022-01-01", [0, 0], 1)]),
}


# with more intervals than a digit can number only one interval is changed
LONG = {
    "long": {"dt": [1.0] * 12},
    "plong": {"dt": [1.0] * 11,
              "periods": [{"start": "2020", "n": 4},
                          {"start": "2022", "n": 7}]},
}


def cut(v, T):
    return (v * (T // len(v) + 1))[:T] if isinstance(v, list) else v


# labels of the buses (prices must not depend on their order)
LABELS = (("p", "q"), ("q", "p"), ("b10", "b9"))


def system(name, a, tm, labels=LABELS[0]):
    P, Q = labels
    T = len(tm["dt"])
    a = {k: cut(v, T) for k, v in a.items()}
    cap1 = a["cap1"]
    f1 = {"nominal_capacity": cap1, "variable_costs": cut(a["c1"], T)}
    if a["flh"]:
        f1["full_load_time_max"] = a["flh"]
    if a["relax"] == "integer":
        f1["integer"] = True
    if a["relax"] == "active":
        f1["nonconvex"] = {"activity_costs": 2}
    nodes = [
        bus(P, True), bus(Q, True),
        src("a1", P, **f1),
        src("a2", P, variable_costs=cut(a["c2"], T)),
        {"k": "converter", "n": "c", "in": {P: {
            "nominal_capacity": a["ccap"], "variable_costs": a["ccost"]}},
         "out": {Q: {}}, "cf": {Q: cut(a["eff"], T)}},
        src("z", Q, variable_costs=cut(a["z"], T), nominal_capacity=3),
        snk("dp", P, nominal_capacity=1, fix=cut(a["d1"], T)),
        snk("dq", Q, nominal_capacity=1, fix=cut(a["d2"], T)),
        # not balanced: has no price
        bus("u", False), src("us", "u", nominal_capacity=1, fix=1),
    ]
    if a["dump"]:
        nodes.append(snk("w", P, variable_costs=0.5, nominal_capacity=2))
    if a["sto"]:
        b = labels[a["sto"] - 1]
        kw = {}
        if a["init"]:
            kw["initial_storage_level"] = {"zero": 0, "full": 1}[a["init"]]
        nodes.append(storage(
            "s", b, b, nominal_capacity=a["size"], balanced=a["bal"],
            inflow_conversion_factor=a["ein"], storage_costs=a["scost"],
            fi={"nominal_capacity": 2}, fo={"nominal_capacity": 2}, **kw))
    cfg = {"name": name, "time": tm, "nodes": nodes, "a": a,
           "pq": labels}
    if "periods" in tm:
        cfg["discount_rate"] = 0.1
    elif a["ow"]:
        cfg["ow"] = cut(a["ow"], T)
    return cfg


def tasks(tier):
    deep = tier == "thorough"
    out = []
    arr = combos.both_arrays(OPT, 3 if deep else 2, ok)
    for t, tm in {**TIMES, **TSA}.items():
        n = 0
        for j, a in enumerate(arr):
            if t in TSA and (a["sto"] or a["flh"]):
                continue
            if len(tm["dt"]) == 3 and not deep and a["sto"] and j % 4:
                continue
            out.append(system("%s-%d" % (t, n), a, tm, LABELS[n % 3]))
            n += 1
    for t, tm in LONG.items():
        for n, a in enumerate(arr if deep else arr[::6]):
            if a["flh"] is None:
                out.append(system("%s-%d" % (t, n), a, tm, LABELS[n % 3]))
    return out


def weights(cfg):
    from .R04 import weights as w

    return w(cfg)


def optimum(cfg, unit):
    """{pattern of additional energy: costs} by dynamic programming over
    energies that are multiples of the unit; pattern: ((p, q), ...)"""
    a, tm = cfg["a"], cfg["time"]
    dt = tm["dt"]
    T = len(dt)
    w = weights(cfg)
    if a["sto"]:
        top = int(a["size"] / unit + 1e-9)
    else:
        top = 0
    C = top + 1
    fmax = None
    if a["flh"]:
        fmax = int(a["flh"] * a["cap1"] / unit + 1e-9)
    F = (fmax or 0) + 1
    init = [{None: None, "zero": 0, "full": top}[a["init"]]]
    if init == [None]:
        init = list(range(C))
    if not a["sto"]:
        init = [0]

    def grid(hi):
        return np.arange(0, int(hi / unit + 1e-9) + 1)

    moves = {}
    for t in range(T):
        e1 = grid(a["cap1"] * dt[t])
        ec = grid(a["ccap"] * dt[t])
        wd = grid(2 * dt[t]) if a["dump"] else np.array([0])
        si = so = np.array([0])
        if a["sto"]:
            # (never more than fits in or is there)
            si = grid(min(2 * dt[t], a["size"] / a["ein"] + 2 * dt[t]))
            so = grid(min(2 * dt[t], a["size"] + 2 * dt[t]))
        E1, EC, W, SI, SO = np.meshgrid(e1, ec, wd, si, so, indexing="ij")
        ct = w[t] / dt[t] * unit
        act = 2.0 * w_act(cfg, t) / a["cap1"] / dt[t] * unit
        base = (at(a["c1"], t) * ct * E1 + at(a["ccost"], t) * ct * EC
                + 0.5 * ct * W)
        if a["relax"] == "active":
            base = base + act * E1
        dc = SI * a["ein"] - SO
        keep = np.abs(dc - np.round(dc)) < 1e-9
        q_in = EC * at(a["eff"], t)
        p_out = EC + W + (SI - SO if a["sto"] == 1 else 0)
        q_out = SI - SO if a["sto"] == 2 else 0
        for vp, vq in itertools.product((-1, 0, 1), repeat=2):
            E2 = (at(a["d1"], t) * dt[t] + vp) / unit + p_out - E1
            Z = (at(a["d2"], t) * dt[t] + vq) / unit + q_out - q_in
            good = (keep & (E2 >= -1e-9) & (Z >= -1e-9)
                    & (Z <= 3 * dt[t] / unit + 1e-9))
            cost = base + at(a["c2"], t) * ct * E2 + at(a["z"], t) * ct * Z
            best = {}
            idx = np.round(dc[good]).astype(int)
            use = E1[good] if fmax is not None else np.zeros(len(idx), int)
            key = (idx + 1000) * 10000 + use
            val = cost[good]
            order = np.lexsort((val, key))
            ks, first = np.unique(key[order], return_index=True)
            for k, v in zip(ks, val[order][first]):
                best[int(k) // 10000 - 1000, int(k) % 10000] = float(v)
            moves[t, vp, vq] = best
    trans = [0]

    def step(V, t, v):
        """V[start, content, use]"""
        N = np.full(V.shape, INF)
        for (d, u), c in moves[(t,) + v].items():
            if abs(d) > top or u >= F:
                continue
            trans[0] += 1
            lo, hi = max(0, -d), min(C, C - d)
            if lo >= hi:
                continue
            np.minimum(
                N[:, lo + d:hi + d, u:], V[:, lo:hi, : F - u] + c,
                out=N[:, lo + d:hi + d, u:],
            )
        if a["sto"] and a["scost"]:
            N += (np.arange(C) * unit * a["scost"])[None, :, None]
        return N

    V = np.full((len(init), C, F), INF)
    for i, c in enumerate(init):
        V[i, c, 0] = 0
    out = {}

    def walk(V, t, pat):
        if t == T:
            if a["sto"] and a["bal"]:
                r = min(V[i, c].min() for i, c in enumerate(init))
            else:
                r = V.min()
            out[pat] = float(r)
            return
        for v in itertools.product((-1, 0, 1), repeat=2):
            if T > 3 and v != (0, 0) and any(p != (0, 0) for p in pat):
                continue
            walk(step(V, t, v), t + 1, pat + (v,))

    walk(V, 0, ())
    return out, trans[0]


def w_act(cfg, t):
    """weight of the activity of one interval"""
    tm, occ = cfg["time"], []
    for q in tm.get("tsa") or []:
        n = (len(q["segments"][0]) if q.get("segments")
             else q["timesteps_per_period"])
        for k in range(max(q["order"]) + 1):
            occ += [q["order"].count(k)] * n
    return occ[t] if occ else 1


def rows(cfg):
    """index of the reported prices -> interval of the model"""
    tm = cfg["time"]
    if not tm.get("tsa"):
        return list(range(len(tm["dt"])))
    out, off = [], 0
    for q in tm["tsa"]:
        segs = q.get("segments")
        n = len(segs[0]) if segs else q["timesteps_per_period"]
        for k in q["order"]:
            for s in range(n):
                out += [off + k * n + s] * (int(segs[k][s]) if segs else 1)
        off += n * (max(q["order"]) + 1)
    return out


class Bad(Exception):
    pass


def check(cfg, b, res, C, st):
    m = b.m
    tm = cfg["time"]
    dt = tm["dt"]
    T = len(dt)
    # the optimum itself (between the points of the grid there may be
    # better ones)
    zero = ((0, 0),) * T
    obj = res["objective"]
    if obj > C[zero] + 1e-6 * max(1, abs(obj)):
        raise Bad("the optimum is %s instead of %s" % (obj, C[zero]))
    st.add("exact", int(abs(obj - C[zero]) < 1e-6 * max(1, abs(obj))))
    nodes = {str(n.label): n for n in m.es.nodes}
    kw = {}
    if len(C) % 2 and cfg["name"][-1] in "048":
        kw["remove_last_time_point"] = True
    r = solph.processing.results(m, **kw)
    got = {k[0].label: v for k, v in r.items()
           if k[1] is None and "duals" in v["sequences"].columns}
    if set(got) != set(cfg["pq"]):
        raise Bad("prices of %s" % sorted(got))
    R = rows(cfg)
    ti = m.es.timeindex
    pi = {}
    for n, v in got.items():
        df = v["sequences"]
        want = pd.Index(list(ti))
        if "periods" not in tm and not tm.get("tsa"):
            want = want[:-1]
        if tm.get("tsa"):
            if len(df) != len(R):
                raise Bad("%d prices for %d intervals" % (len(df), len(R)))
        elif list(df.index) != list(want):
            raise Bad("prices of %s at %s" % (n, list(df.index)))
        flow = r[nodes["a1"], nodes[cfg["pq"][0]]]["sequences"]["flow"]
        if list(df.index) != list(flow.index[:len(df)]):
            raise Bad("prices at %s, flows at %s" % (
                list(df.index), list(flow.index)))
        for j, t in enumerate(R):
            x = float(df["duals"].iloc[j])
            if not np.isfinite(x):
                raise Bad("price of %s in %d: %s" % (n, j, x))
            if pi.setdefault((n, t), x) != x:
                raise Bad("different prices of %s for interval %d" % (n, t))
    # energies to powers
    for pat, c in C.items():
        st.add("leaves")
        predicted = obj + sum(
            pi[n, t] * v[i] / dt[t]
            for t, v in enumerate(pat) for i, n in enumerate(cfg["pq"]))
        if c < predicted - 1e-5 * max(1, abs(predicted)):
            raise Bad("with additional energy %s the costs are %s, but the"
                      " prices %s predict at least %s"
                      % (pat, c, {k: round(v, 6) for k, v in pi.items()},
                         predicted))
        st.add("accepted")
    return tuple(round(x, 6) for x in pi.values())


def run(task):
    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0, solver_calls=0)
    viol, seen = [], set()
    a = task["a"]
    unit = 1.0
    if (a["eff"] != 1 or (a["sto"] and a["ein"] < 1) or a["flh"]
            or min(task["time"]["dt"]) < 1):
        unit = 0.5
    C, n = optimum(task, unit)
    st.add("states", len(C))
    st.add("transitions", n)
    zero = ((0, 0),) * len(task["time"]["dt"])
    if C[zero] == INF:
        # nothing is possible: no prices
        st.add("rejected")
        return finish(task, st, viol, [], seen)
    n = int(task["name"].split("-")[1])
    b = None
    for solver in ("cbc", "glpk")[::-1 if n % 3 else 1]:
        if b is None or n % 2:
            # (otherwise the prices of the second run replace the first ones)
            b = spec.build(task)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if n % 4 < 2:
                    b.m.receive_duals()
                if a["relax"]:
                    b.m.relax_problem()
                if n % 4 >= 2:
                    b.m.receive_duals()
                res = b.m.solve(solver)
            st.add("solver_calls")
            seen.add(check(task, b, res, C, st))
            st.add("validated")
        except Bad as e:
            viol.append({"what": "%s: %s" % (solver, e)})
        except Exception as e:  # noqa
            viol.append({"what": "%s fails: %s: %s" % (
                solver, type(e).__name__, str(e)[:200])})
    return finish(task, st, viol, [], seen)
