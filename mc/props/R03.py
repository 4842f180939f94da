"""Results of models with typical periods on the original time axis."""

import itertools
import warnings

import pandas as pd
from oemof import solph
from pyomo.environ import Var

from .. import catalog, spec
from ..explore import Stats, finish
from ..gen import bus, snk, src
from .R01 import Bad, eq, fill
from .S01 import storage
from .T02 import AX, DEEP, MP, axis, cut, multi

RULE = (
    "every kind of component and option x orders, lengths and segmentations;"
    " the values of all variables are pairwise different (and, in a second"
    " state, those the solver found); every value of every original interval"
    " is compared with the value of the typical interval it stands for, and"
    " the storage contents with an independent simulation of the original"
    " sequence"
)
ASSUMPTIONS = [
    "within a segment, storage contents may be interpolated linearly (as"
    " documented by the existing tests)",
    "segments without a frequency of the time index are not judged: the"
    " original resolution is unknown",
]
TOL = 1e-6


class Original:
    """the original time axis of a description"""

    def __init__(self, tm):
        self.lab, self.step, self.frac, self.cl, self.k = [], [], [], [], []
        self.dt = tm["dt"]
        off = c = 0
        for p, q in enumerate(tm["tsa"]):
            K = max(q["order"]) + 1
            seg = q.get("segments")
            n = len(seg[0]) if seg else q["timesteps_per_period"]
            if "periods" in tm:
                z = pd.Timestamp(tm["periods"][p]["start"])
            elif tm.get("kind") == "num":
                z = 0.0
            else:
                z = pd.Timestamp("2021-03-01")
            h = 0.0
            for k in q["order"]:
                for s in range(n):
                    L = seg[k][s] if seg else 1
                    for j in range(int(L)):
                        self.lab.append(
                            z + (h if z == 0.0 else pd.Timedelta(hours=h)))
                        h += 1.0 if seg else tm["dt"][off]
                        self.step.append(off + k * n + s)
                        self.frac.append(j / L)
                        self.cl.append((c, p, k, s))
                c += 1
            off += n * K
        self.n = off
        self.clusters = c




def variables(m):
    out = {}
    for v in m.component_objects(Var):
        if "piecewise" in v.name or not len(v):
            continue
        name = v.name.split(".")[-1]
        kind = [s.name for s in v.index_set().subsets()][-1]
        for i in v:
            t = i if isinstance(i, tuple) else (i,)
            nodes = tuple(x for x in t if not isinstance(x, int))
            idx = tuple(x for x in t if isinstance(x, int))
            out.setdefault((nodes, name), (kind, {}))[1][idx] = v[i].value
    return out


def check(m, o, mp, years, remove, solved, cfg):
    r = solph.processing.results(m, remove_last_time_point=remove)
    sc = "period_scalars" if mp else "scalars"
    cells = 0
    N = len(o.lab)

    def series(key, name):
        if key not in r:
            raise Bad("no %s" % (key,))
        se = r[key]["sequences"]
        if list(se.columns).count(name) != 1:
            raise Bad("%s of %s: %d columns in %s" % (
                name, [str(x) for x in key], list(se.columns).count(name),
                list(se.columns)))
        got = dict(zip(se.index, se[name]))
        if len(got) != len(se):
            raise Bad("labels appear twice: %s" % list(se.index))
        if len(se) not in (N, N + 1) or (len(se) == N + 1 and not eq(
                None, float(se[name].iloc[-1]))):
            raise Bad("%s of %s: %d rows instead of %d"
                      % (name, [str(x) for x in key], len(se), N))
        for j, x in enumerate(o.lab):
            if x not in got:
                raise Bad("%s of %s: no row %s in %s" % (
                    name, [str(x) for x in key], x, list(se.index)))
        return [float(got[x]) for x in o.lab]

    want = variables(m)
    cont = {}
    for (nodes, name), (kind, vals) in want.items():
        if not nodes or all(v is None for v in vals.values()):
            continue
        key = nodes if len(nodes) > 1 else (nodes[0], None)
        where = "%s of %s" % (name, [str(x) for x in nodes])
        if kind in ("TIMESTEPS", "TIMEINDEX"):
            got = series(key, name)
            for j in range(N):
                (v,) = [x for i, x in vals.items() if i[-1] == o.step[j]]
                if not eq(v, got[j]):
                    raise Bad("%s at %s is %s instead of %s"
                              % (where, o.lab[j], got[j], v))
                cells += 1
        elif kind == "PERIODS":
            s = r[key][sc]
            for (p,), v in vals.items():
                if mp:
                    if name not in s.columns:
                        raise Bad(where + " is not among the period scalars"
                                  " %s" % list(s.columns))
                    g = dict(zip(s.index, s[name])).get(years[p])
                else:
                    g = s.get(name)
                if g is None or not eq(v, float(g)):
                    raise Bad("%s in %s is %s instead of %s"
                              % (where, p, g, v))
                cells += 1
        elif name in ("inter_storage_content", "intra_storage_delta"):
            cont.setdefault(nodes[0], {})[name] = vals
        elif isinstance(nodes[0], solph.components.GenericStorage) and (
                name == "init_content"):
            pass
        elif len(next(iter(vals))) == 3:
            # (period, typical period, interval)
            got = series(key, name)
            for j, (c, p, k, s) in enumerate(o.cl):
                if not eq(vals[p, k, s], got[j]):
                    raise Bad("%s at %s is %s instead of %s"
                              % (where, o.lab[j], got[j], vals[p, k, s]))
                cells += 1
        else:
            raise Bad("no rule for %s %s" % (where, kind))
    for s, d in cont.items():
        inter = {i: v for (i,), v in d["inter_storage_content"].items()}
        intra = d["intra_storage_delta"]

        def at(c, p, k, g, first):
            keep = 1.0
            for x in range(g):
                keep *= (1 - s.loss_rate[first + x]) ** o.dt[first + x]
            return inter[c] * keep + intra[p, k, g]

        starts = []
        for j, (c, p, k, g) in enumerate(o.cl):
            starts.append(at(c, p, k, g, o.step[j] - g))
        c, p, k, g = o.cl[-1]
        starts.append(at(c, p, k, g + 1, o.step[-1] - g))
        # linear inside of segments, ending where the next one begins
        nxt = {}
        for j in range(N - 1, -1, -1):
            last = j == N - 1 or o.frac[j + 1] == 0
            nxt[j] = starts[j + 1] if last else nxt[j + 1]
        got = series((s, None), "soc")
        for j in range(N):
            v = starts[j] + (nxt[j] - starts[j]) * o.frac[j]
            if abs(v - got[j]) > TOL * max(1, abs(v)):
                raise Bad("content of %s at %s is %s instead of %s"
                          % (s, o.lab[j], got[j], v))
            cells += 1
        if solved:
            cells += balance(m, r, o, s, series, got)
    return r, cells


def balance(m, r, o, s, series, soc):
    """the shown contents follow from the shown flows"""
    (i,) = s.inputs
    (x,) = s.outputs
    fi, fo = series((i, s), "flow"), series((s, x), "flow")
    n = 0
    j = 0
    while j < len(o.lab):
        e = j + 1
        while e < len(o.lab) and o.frac[e]:
            e += 1
        if e == len(o.lab):
            break
        t = o.step[j]
        dt = o.dt[t]
        inv = s.investment is not None
        cap = None if inv else s.nominal_storage_capacity
        want = soc[j] * (1 - s.loss_rate[t]) ** dt
        if not inv:
            want -= s.fixed_losses_relative[t] * cap * dt
        want -= s.fixed_losses_absolute[t] * dt
        want += fi[j] * s.inflow_conversion_factor[t] * dt
        want -= fo[j] / s.outflow_conversion_factor[t] * dt
        if not (inv and s.fixed_losses_relative[t]) and (
                abs(want - soc[e]) > 1e-4 * max(1, abs(want))):
            raise Bad("content of %s jumps at %s: %s instead of %s"
                      % (s, o.lab[e], soc[e], want))
        n += 1
        j = e
    return n


def check_frames(m, o):
    """the results object keeps the typical intervals, in order"""
    res = solph.Results(m)
    n = 0
    for (nodes, name), (kind, vals) in variables(m).items():
        if kind not in ("TIMESTEPS", "TIMEINDEX", "PERIODS"):
            continue
        df = res[name]
        if not nodes:
            continue
        col = nodes if len(nodes) > 1 else nodes[0]
        js = [j for j, c in enumerate(df.columns) if c == col]
        if len(js) != 1:
            raise Bad("Results: %d columns of %s" % (len(js), name))
        got = [float(x) for x in df.iloc[:, js[0]]]
        v = [vals[i] for i in sorted(vals, key=lambda i: i[-1])]
        if len(got) != len(v) or not all(map(eq, v, got)):
            raise Bad("Results: %s of %s is %s instead of %s"
                      % (name, [str(x) for x in nodes], got, v))
        n += len(v)
    return n


def check_duals(m, r, o):
    n = 0
    for (b, t), con in getattr(m.BusBlock, "balance", {}).items():
        if con not in m.dual:
            continue
        se = r[b, None]["sequences"]
        got = dict(zip(se.index, se["duals"]))
        for j, x in enumerate(o.lab):
            if o.step[j] == t:
                if x not in got or not eq(m.dual[con], float(got[x])):
                    raise Bad("dual of %s at %s is %s instead of %s"
                              % (b, x, got.get(x), m.dual[con]))
                n += 1
    return n


def run(task):
    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0, solver_calls=0)
    viol, seen = [], set()
    o = Original(task["time"])
    mp = "periods" in task["time"]
    years = [pd.Timestamp(p["start"]).year
             for p in task["time"].get("periods", [])]

    def attempt(what, f, *a):
        st.add("leaves")
        st.add("transitions")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = f(*a)
            st.add("accepted")
            st.add("validated")
            n = r[1] if isinstance(r, tuple) else r
            st.add("cells", n)
            return r
        except Bad as e:
            viol.append({"what": "%s: %s" % (what, e)})
        except Exception as e:  # noqa
            import traceback

            w = traceback.extract_tb(e.__traceback__)[-1]
            viol.append({"what": "%s fails: %s: %s (%s:%d)" % (
                what, type(e).__name__, str(e)[:120], w.filename, w.lineno)})
        return None

    for state in ("distinct", "solved", "duals"):
        if state == "duals" and task.get("discrete"):
            continue
        b = spec.build(task)
        m = b.m
        if state == "distinct":
            fill(m)
        else:
            if state == "duals":
                m.receive_duals()
            m.solve(solver="cbc")
            st.add("solver_calls")
        st.add("states")
        for remove in (False, True):
            r = attempt("%s, remove_last_time_point=%s" % (state, remove),
                        check, m, o, mp, years, remove,
                        state != "distinct", task)
            if state == "duals" and r is not None:
                attempt("duals", check_duals, m, r[0], o)
        attempt(state, check_frames, m, o)
        seen.add((state, len(o.lab)))
    return finish(task, st, viol[:4], [], seen)


USE = ("flow", "balance", "free", "integer", "nonconvex", "invest", "invnc",
       "converter", "link", "offset", "chp")
DISC = {"integer", "nonconvex", "invest", "invnc", "offset"}

SEG = {
    "seg": axis([0, 1, 1, 0], segments=[[1, 3], [2, 2]], kind="seg"),
    "seg1": axis([0, 1, 0], segments=[[3, 2], [4, 1]], kind="seg"),
    "seg3": axis([0, 1, 1], segments=[[1, 1, 2], [2, 1, 1]], kind="seg"),
    "sego": axis([1, 0, 2], segments=[[4], [4], [4]], kind="seg"),
}
NUM = {
    "num": axis([0, 1, 1, 0], 2, kind="num"),
    "numh": axis([1, 0, 0], 2, dt=0.5, kind="num"),
}
MPX = {
    "mp3": multi([("2020-01-01", [1, 0], 2), ("2021-01-01", [0, 1, 0], 2),
                  ("2026-01-01", [0, 0, 1, 1], 2)]),
    "mp4": multi([("2020-01-01", [0], 1), ("2021-01-01", [0, 0], 2),
                  ("2022-01-01", [0, 1], 3), ("2024-01-01", [1, 0], 1)]),
    "mps3": multi([("2020-01-01", [0, 1], 4), ("2025-01-01", [0, 0], 4),
                   ("2027-01-01", [1, 0], 4)],
                  [[[1, 3], [2, 2]], [[3, 1]], [[2, 2], [1, 3]]]),
}
for _p in MPX["mps3"]["periods"]:
    _p["n"] = 4 if _p["start"] != "2025-01-01" else 2
for _q in MPX["mps3"]["tsa"]:
    _q["timesteps_per_period"] = 4


def storages(T, mp):
    loss = {
        "0": {},
        "l": dict(loss_rate=0.1),
        "ll": dict(loss_rate=cut([0.1, 0.2, 0, 0.5], T)),
        "r": dict(fixed_losses_relative=0.05, loss_rate=0.1),
        "e": dict(inflow_conversion_factor=0.5,
                  outflow_conversion_factor=cut([0.5, 1, 0.8, 1], T),
                  fixed_losses_absolute=cut([0, 0.25, 0.125], T)),
    }
    life = {"lifetime": 20} if mp else {}
    for a, lo in loss.items():
        for inv in (False, True):
            if inv and a in "re":
                continue
            cap = ({"investment": dict(ep_costs=1, maximum=30, **life)}
                   if inv else {"nominal_capacity": 30})
            yield "st-%s-%s" % (a, inv), [
                bus("x"), bus("y"),
                src("a", "x", nominal_capacity=9, variable_costs=cut(
                    [1, 5, 2, 9], T)),
                storage("s", "x", "y", balanced=False, fi={
                    "nominal_capacity": 9}, fo={}, **cap, **lo),
                src("z", "y", variable_costs=50),
                snk("d", "y", nominal_capacity=1, fix=cut(
                    [0, 3, 1, 2, 0.5], T))]
            if not inv:
                yield "stb-%s" % a, [
                    bus("x"), bus("y"), src("a", "x", variable_costs=cut(
                        [1, 5, 2, 9], T)),
                    storage("s", "x", "y", fi={"nominal_capacity": 9}, fo={},
                            **cap, **lo),
                    storage("s2", "x", "y", loss_rate=0.02,
                            nominal_capacity=5, balanced=False, fi={
                                "nominal_capacity": 1}, fo={}),
                    src("z", "y", variable_costs=50),
                    snk("d", "y", nominal_capacity=1, fix=cut(
                        [0, 3, 1, 2, 0.5], T))]


def gates():
    m = bus("m", True)
    m["in"] = {"i": {"nominal_capacity": 2}}
    m["out"] = {"o": {"nominal_capacity": 2, "variable_costs": -1}}
    return [bus("i"), bus("o"), m,
            {"k": "storage", "n": "s", "in": {"m": {}}, "out": {"m": {}},
             "nominal_capacity": 4.0, "balanced": False}], [
        {"c": "storage_level", "name": "mx", "storage": "s", "bus": "m",
         "inp": {"i": 0.25}, "out": {"o": 0.5}}]


def tasks(tier):
    full = tier == "thorough"
    axes = {k: v for k, v in AX.items() if "segments" not in v["tsa"][0]}
    if full:
        axes.update({k: v for k, v in DEEP.items()
                     if "segments" not in v["tsa"][0]})
    axes.update(SEG)

    axes.update({k: v for k, v in MP.items() if k != "mps"})
    axes.update(MPX)
    axes["mps"] = {**MP["mps"], "periods": [
        dict(p, n=2) for p in MP["mps"]["periods"]], "tsa": [
        dict(q, timesteps_per_period=n) for q, n in zip(
            MP["mps"]["tsa"], (3, 4))]}
    for a, tm in axes.items():
        T, mp = len(tm["dt"]), "periods" in tm
        kw = {"discount_rate": 0.05} if mp else {}

        def cfg(name, nodes, cons=(), disc=False):
            return {"name": "%s %s" % (name, a), "time": tm, "nodes": nodes,
                    "constraints": list(cons), "discrete": disc, **kw}

        sets = [(f,) for f in USE] + [USE]
        if full:
            sets += list(itertools.combinations(USE, 2))
        for s in sets:
            nodes, cons = [], []
            for f in s:
                x, y = catalog.FEATURES[f](T, mp)
                nodes += x
                cons += y
            yield cfg("+".join(s), nodes, cons, bool(DISC & set(s)))
        for n, nodes in storages(T, mp):
            yield cfg(n, nodes)
        g, c = gates()
        yield cfg("gate", g, c, True)
