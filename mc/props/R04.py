"""Costs reported by the results are the ones of the objective."""

import itertools
import warnings

from oemof import solph
from pyomo.environ import Var

from .. import catalog, combos, spec
from ..explore import Stats, finish
from ..gen import bus, snk, src
from ..ref import at
from .R01 import Bad, fill
from .S01 import storage
from .T02 import AX, MP, cut

RULE = (
    "every kind of flow and storage x forms of cost parameters x kinds of time"
    " axes and weights; every state of a grid of values of flows, invested"
    " capacities and investment decisions; each reported cost is compared"
    " with the cost computed from the description, and their sum with the"
    " objective where nothing else costs anything"
)
ASSUMPTIONS = [
    "investment costs of models with several periods are not judged: the code"
    " declares them to be missing",
    "the tables cover variable and investment costs only; other costs (on/off,"
    " storage level, fixed costs) are reported nowhere",
]
TOL = 1e-9


def near(a, b):
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def edges(cfg):
    """(from, to) -> flow description; label -> storage investment"""
    fl, st = {}, {}
    for d in cfg["nodes"]:
        n = d["n"]
        for b, f in d.get("in", {}).items():
            fl[b, n] = f
        for b, f in d.get("out", {}).items():
            fl[n, b] = f
        if d["k"] == "gchp":
            fl[d["fuel"][0], n] = d["fuel"][1]
            fl[n, d["el"][0]] = d["el"][1]
            fl[n, d["heat"][0]] = d["heat"][1]
        if d["k"] == "storage" and d.get("investment"):
            st[n] = d["investment"]
    return fl, st


def plain(v):
    return v["v"] if isinstance(v, dict) and "v" in v else v


def weights(cfg):
    """weight of one unit of flow in each interval of the model"""
    tm = cfg["time"]
    T = len(tm["dt"])
    w = list(cfg["ow"]) if cfg.get("ow") else [float(x) for x in tm["dt"]]
    if tm.get("tsa"):
        occ = []
        for q in tm["tsa"]:
            n = (len(q["segments"][0]) if q.get("segments")
                 else q["timesteps_per_period"])
            for k in range(max(q["order"]) + 1):
                occ += [q["order"].count(k)] * n
        w = [a * b for a, b in zip(w, occ)]
    if "periods" in tm:
        y, t = [], 0
        for p in tm["periods"]:
            y += [int(p["start"][:4])] * p["n"]
        r = 1 + cfg.get("discount_rate", 0.02)
        w = [a * r ** -(b - y[0]) for a, b in zip(w, y)]
    assert len(w) == T
    return w


def check(cfg, m):
    T = len(cfg["time"]["dt"])
    fl, st = edges(cfg)
    w = weights(cfg)
    res = solph.Results(m)
    val = {}
    for v in m.component_objects(Var):
        name = v.name.split(".")[-1]
        for i in v:
            t = i if isinstance(i, tuple) else (i,)
            val[(name,) + tuple(
                x if isinstance(x, int) else str(x.label) for x in t)
                ] = v[i].value
    total, n = 0.0, 0
    vc = res["variable_costs"]
    if len(vc) != T:
        raise Bad("%d rows of variable costs" % len(vc))
    cols = [tuple(str(x.label) for x in c) for c in vc.columns]
    if len(set(cols)) != len(cols) or set(cols) - set(fl):
        raise Bad("columns of variable costs: %s" % cols)
    for e, f in fl.items():
        c = plain(f.get("variable_costs", 0))
        c = 0 if c is None else c
        for t in range(T):
            want = at(c, t) * w[t] * val[("flow",) + e + (t,)]
            total += want
            n += 1
            if e not in cols:
                if want:
                    raise Bad("no variable costs of %s>%s" % e)
                continue
            got = float(vc.iloc[t, cols.index(e)])
            if not near(got, want):
                raise Bad("variable costs of %s>%s in %d: %s instead of %s"
                          % (e + (t, got, want)))
    if "periods" in cfg["time"]:
        return n
    inv = {e: f["investment"] for e, f in fl.items() if f.get("investment")}
    inv.update({(k,): v for k, v in st.items()})
    if inv != {} and "investment_costs" not in res.keys():
        raise Bad("no investment costs")
    ic = res.get("investment_costs")
    if ic is None:
        raise Bad("investment_costs is None")
    if inv and len(ic) != 1:
        raise Bad("%d rows of investment costs" % len(ic))
    cols = [
        tuple(str(x.label) for x in (c if isinstance(c, tuple) else (c,)))
        for c in ic.columns
    ]
    if set(cols) != set(inv) or len(cols) != len(inv):
        raise Bad("investment costs of %s instead of %s" % (cols, list(inv)))
    for e, d in inv.items():
        want = at(plain(d.get("ep_costs", 0)), 0) * val[("invest",) + e + (0,)]
        if d.get("nonconvex"):
            want += at(d.get("offset", 0), 0) * val[
                ("invest_status",) + e + (0,)]
        total += want
        n += 1
        got = float(ic.iloc[0, cols.index(e)])
        if not near(got, want):
            raise Bad("investment costs of %s: %s instead of %s"
                      % (">".join(e), got, want))
    if cfg.get("all") and not near(total, m.objective()):
        raise Bad("costs are %s, the objective is %s" % (total, m.objective()))
    return n


def run(task):
    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0, solver_calls=0)
    viol, seen = [], set()

    def attempt(what, m):
        st.add("leaves")
        st.add("states")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                n = check(task, m)
            st.add("accepted")
            st.add("validated")
            st.add("transitions", n)
        except Bad as e:
            viol.append({"what": "%s: %s" % (what, e)})
        except Exception as e:  # noqa
            import traceback

            w = traceback.extract_tb(e.__traceback__)[-1]
            viol.append({"what": "%s fails: %s: %s (%s:%d)" % (
                what, type(e).__name__, str(e)[:120], w.filename, w.lineno)})

    b = spec.build(task)
    fill(b.m)
    attempt("distinct values", b.m)
    free = [v for v in b.m.component_data_objects(Var)]
    disc = [v for v in free if v.name.split("[")[0].endswith("invest_status")]
    ids = {id(v) for v in disc}
    rest = [v for v in free if id(v) not in ids]
    # all decisions, sizes from a grid
    for d in itertools.product((0, 1), repeat=len(disc)):
        for k in (0.0, 1.5):
            for v, x in zip(disc, d):
                v.set_value(x, skip_validation=True)
            for j, v in enumerate(rest):
                v.set_value(k * (1 + j), skip_validation=True)
            attempt("status %s, values %s" % (d, k), b.m)
            seen.add((d, k))
    # one variable at a time
    for v in rest if task.get("single") else ():
        for u in free:
            u.set_value(0, skip_validation=True)
        v.set_value(3.0, skip_validation=True)
        attempt("only %s" % v.name, b.m)
        seen.add(v.name)
    b = spec.build(task)
    # (what is only about the figures might be infeasible or unbounded)
    if not task.get("free"):
        b.m.solve(solver="cbc")
        st.add("solver_calls")
        attempt("solved", b.m)
    return finish(task, st, viol[:4], [], seen)


FORMS = {
    "zero": 0, "scalar": 2.5, "neg": -1, "list": [1, 3, 0, 2, 5],
    "tuple": {"v": [1, 3, 0, 2, 5], "form": "tuple"},
    "np": {"v": [1.5, 0, 4, 2, 0.5], "form": "np"},
    "none": None,
}


def form(v, T, extra=0):
    if isinstance(v, list):
        return [v[i % len(v)] for i in range(T + extra)]
    if isinstance(v, dict):
        return {**v, "v": form(v["v"], T, extra)}
    return v


def mixed(deep):
    """Configurations of the covering arrays for flows and storages."""
    c = combos
    s = 3 if deep else 2
    dt = [1.0, 2.0, 0.5]
    out = c.invest_tasks("mixi", c.both_arrays(c.INVEST, s, c.invest_ok), dt)
    out += c.invest_tasks("mixn", c.both_arrays(c.INVONOFF, s, c.invest_ok),
                          dt)
    out += c.storage_tasks("mixz", c.both_arrays(c.SIZED, s, c.sized_ok), dt,
                           size=1)
    out += c.storage_tasks("mixs", c.both_arrays(c.STORE, 2, c.store_ok), dt,
                           size=1)
    out += c.flow_tasks("mixf", c.both_arrays(c.PLAIN, s, c.plain_ok), dt,
                        limit=2)
    out += c.flow_tasks("mixo", c.both_arrays(c.ONOFF, 2, c.onoff_ok), dt,
                        limit=2)
    for t in out:
        yield {"name": t["name"], "time": t["time"], "nodes": t["nodes"],
               "constraints": [], "free": True}


def tasks(tier):
    full = tier == "thorough"
    names = [f for f in catalog.FEATURES]
    for T in (1, 2, 3, 4) if full else (1, 2, 3):
        for ax, (tm, mp) in catalog.axes(T).items():
            if not full and T != 2 and ax not in ("dt", "mp3"):
                continue
            kw = {"time": tm, **({"discount_rate": 0.05} if mp else {})}
            # every feature
            sets = [[f] for f in names] + [names]
            if full:
                sets += [list(x) for x in itertools.combinations(names, 2)]
            done = set()
            for s in sets:
                s = [f for f in s if catalog.usable(f, mp)]
                if not s or tuple(s) in done:
                    continue
                done.add(tuple(s))
                yield catalog.system(s, T, ax)
            # forms of costs; nothing else costs anything
            ows = [None] + ([[2.0, 0.5, 1.0, 3.0][:T]] if not mp else [])
            for (a, v), longer, (wi, ow) in itertools.product(
                FORMS.items(), (0, 1), enumerate(ows)
            ):
                if longer and not isinstance(v, (list, dict)):
                    continue
                o = {"ow": ow} if ow else {}
                f = {} if v is None and mp else {
                    "variable_costs": form(v, T, longer)}
                yield {
                    "name": "form %s%s T%d %s w%d" % (
                        a, "+" * longer, T, ax, wi),
                    "nodes": [
                        bus("b", True), src("s", "b", nominal_capacity=9, **f),
                        src("q", "b", variable_costs=9),
                        snk("d", "b", nominal_capacity=1, fix=cut(
                            [1.0, 2.0, 0.5], T)),
                    ], "constraints": [], "all": True, **kw, **o}
            # investments
            for n, (ep, off, sc) in enumerate(itertools.product(
                (0, 3, [4, 1, 2]), (0, 2, [5, 3, 1]), (False, True)
            )):
                if isinstance(ep, list):
                    ep = ep[:len(tm["periods"])] if mp else ep[:1]
                if isinstance(off, list):
                    off = off[:len(tm["periods"])] if mp else off[:1]
                life = {"lifetime": 7} if mp else {}
                i1 = {"ep_costs": ep, "maximum": 9, **life}
                i2 = {"ep_costs": ep, "maximum": 9, "nonconvex": True,
                      "offset": off, "minimum": 1, **life}
                nodes = [bus("b", True), bus("c", True),
                         src("s", "b", investment=i1, variable_costs=1),
                         src("q", "b", investment=i2, variable_costs=2),
                         src("z", "c", variable_costs=7),
                         snk("w", "b", variable_costs=0.5),
                         snk("d", "c", nominal_capacity=1, fix=cut(
                             [1.0, 2.0, 0.5], T))]
                if sc:
                    nodes += [
                        storage("x", "b", "c", balanced=False,
                                investment=i1, fi={"investment": i2,
                                                   "variable_costs": 1}),
                        storage("y", "b", "c", balanced=False, investment=i2,
                                fo={"variable_costs": 3})]
                else:
                    nodes += [
                        src("n", "c", investment=i1, nonconvex={},
                            minimum=0.25, variable_costs=1),
                        src("m", "c", investment=i2, nonconvex={},
                            minimum=0.25, variable_costs=2)]
                yield {"name": "inv %d T%d %s" % (n, T, ax), "nodes": nodes,
                       "constraints": [], "all": not mp, "single": full, **kw}
    # every option together with every other one
    yield from mixed(full)
    # typical periods
    for a, tm in {**AX, **MP}.items():
        T, mp = len(tm["dt"]), "periods" in tm
        life = {"lifetime": 7} if mp else {}
        for n, v in FORMS.items():
            if v is None:
                continue
            c = {"name": "tsa %s %s" % (n, a), "time": tm, "nodes": [
                bus("b", True), bus("c", False),
                src("s", "b", nominal_capacity=9, variable_costs=form(v, T)),
                src("q", "b", variable_costs=9),
                snk("d", "b", nominal_capacity=1, fix=cut([1.0, 2.0, 0.5], T)),
                src("i", "c", variable_costs=-1, investment=dict(
                    ep_costs=2, maximum=9, **life)),
            ], "constraints": [], "all": not mp}
            if mp:
                c["discount_rate"] = 0.05
            yield c
