"""Combinations of flow options.

``covering`` gives a list of option assignments in which every admissible
combination of the values of ``strength`` options occurs (a covering array,
built greedily and without any randomness); ``flow_tasks`` turns assignments
into configurations whose trajectories are enumerated completely.
"""

import itertools

from .explore import cells, letters, okey, reference, statics, Stats
from .gen import AUX, bus, snk, src, uniq
from .ref import INF, Ctx, FlowPart, Ref, at, capacities, vals

PG, NG = "positive_gradient_limit", "negative_gradient_limit"
FMAX, FMIN = "full_load_time_max", "full_load_time_min"


def covering(options, strength=2, ok=lambda a: True, must=None):
    """options: {name: [values]} (the first value means 'not given').

    ok(partial assignment) -> False if it can never be completed legally.
    must(pairs) -> only combinations for which it holds need to be covered.
    """
    names = list(options)
    todo = {}
    for ks in itertools.combinations(names, strength):
        for ix in itertools.product(*[range(len(options[k])) for k in ks]):
            part = {k: options[k][i] for k, i in zip(ks, ix)}
            if not ok(part):
                continue
            if must is not None and not must(dict(zip(ks, ix))):
                continue
            todo[tuple(zip(ks, ix))] = None
    out = []

    def gain(a):
        n = 0
        for ks in itertools.combinations(a, strength):
            if tuple((k, a[k]) for k in names if k in ks) in todo:
                n += 1
        return n

    def legal(a):
        return ok({k: options[k][i] for k, i in a.items()})

    def complete(a):
        rest = [k for k in names if k not in a]
        if not rest:
            return a
        k = rest[0]
        for i in range(len(options[k])):
            b = {**a, k: i}
            if legal(b):
                b = complete(b)
                if b is not None:
                    return b
        return None

    while todo:
        a = dict(next(iter(todo)))
        # most options are better filled in a rotating order
        rest = [k for k in names if k not in a]
        r = len(out) % max(len(rest), 1)
        for k in rest[r:] + rest[:r]:
            best, bi = -1, 0
            n = len(options[k])
            for j in range(n):
                i = (j + len(out)) % n
                b = {**a, k: i}
                if not legal(b):
                    continue
                g = sum(
                    1
                    for ks in itertools.combinations(
                        [q for q in b if q != k], strength - 1
                    )
                    if tuple(
                        (q, b[q]) for q in names if q in ks or q == k
                    )
                    in todo
                )
                if g > best:
                    best, bi = g, i
            if best < 0:
                # a dead end: take any legal completion of the seed
                a = complete(dict(next(iter(todo))))
                break
            a[k] = bi
        if a is None:
            # the combination cannot occur
            todo.pop(next(iter(todo)))
            continue
        for ks in itertools.combinations(names, strength):
            todo.pop(tuple((k, a[k]) for k in ks), None)
        out.append({k: options[k][a[k]] for k in names})
    return out


def sparse(options, strength=2, ok=lambda a: True, must=None):
    """All assignments with at most ``strength`` options given."""
    names = list(options)
    out = []
    base = {k: options[k][0] for k in names}
    for n in range(strength + 1):
        for ks in itertools.combinations(names, n):
            for ix in itertools.product(
                *[range(1, len(options[k])) for k in ks]
            ):
                part = dict(zip(ks, ix))
                if must is not None and not must(part):
                    continue
                a = {**base, **{k: options[k][i] for k, i in part.items()}}
                if ok(a):
                    out.append(a)
    return out


def both_arrays(options, strength, ok=lambda a: True, must=None, few=2):
    return sparse(options, few, ok, must) + covering(
        options, strength, ok, must
    )


def clean(assign, T, P=1):
    """Assignment -> flow; names like 'nonconvex.x' become nested."""
    F = {}
    for k, v in assign.items():
        if v is None or (k == "integer" and not v):
            continue
        if isinstance(v, list) and not k.endswith("fixed_costs"):
            v = v[: P if k.startswith("investment.") else T]
        if isinstance(v, dict):
            v = {
                q: (x[:T] if isinstance(x, list) else x) for q, x in v.items()
            }
        F[k] = v
    for k in [k for k in F if "." in k]:
        a, b = k.split(".")
        v = F.pop(k)
        F.setdefault(a, {})
        F[a] = {**F[a], b: v}
    return F


def grid(F, T, caps, limit):
    """Values per interval: bounds, just outside, and steps of a quarter."""
    out = []
    for t in range(T):
        xs = [0.0]
        for c in caps:
            if F.get("fix") is not None:
                v = at(F["fix"], t) * c
                xs += [v, v + 0.25]
                continue
            lo = at(F.get("minimum", 0), t) * c
            hi = at(F.get("maximum", 1), t) * c
            xs += [hi, lo, hi + 0.25, lo - 0.25]
        c = max(caps)
        if F.get("integer"):
            xs += [1.0, 0.5, 2.0]
        xs += [c / 4, c / 2, 3 * c / 4, c]
        if min(vals(F.get("minimum") or 0)) < 0:
            xs += [-c / 4, -c / 2]
        out.append(uniq(xs)[:limit])
    return out


def feasible(cfg, key, run):
    """first trajectory that the reference accepts, or None"""
    R = Ref(cfg)
    stats = Stats()
    for si, choice, ok, an in reference(
        R, run.get("static") or [{}], run["alphabet"], stats
    ):
        if ok < INF:
            traj = [run["alphabet"][t][li] for t, li in enumerate(choice)]
            return [u[key] for u in traj]
    return None


def flow_tasks(name, assigns, dt, limit=8, time=None, group=3, **kw):
    """One configuration per ``group`` assignments."""
    T = len(dt)
    tm = {"dt": dt, **(time or {})}
    out = []

    def node(j, F, n):
        if n % 3 == 0:
            return [src("s%d" % j, "b", **F)], "s%d>b" % j
        if n % 3 == 1:
            return [snk("d%d" % j, "b", **F)], "b>d%d" % j
        return [bus("x%d" % j, out={"b": F})], "x%d>b" % j

    batch = []

    def flush():
        if not batch:
            return
        nodes, base, grids = [bus("b")], {"zs>zb": 1.0, "zb>zd": 1.0}, []
        for nd, key, b, g in batch:
            nodes += nd
            base[key] = b if b is not None else 0.0
            grids.append({key: g})
        out.append(
            {
                "name": "%s-%03d" % (name, len(out)),
                "time": tm,
                "nodes": nodes + AUX,
                "runs": cells(grids, T, base),
                **kw,
            }
        )
        batch.clear()

    for n, a in enumerate(assigns):
        F = clean(a, T)
        nd, key = node(len(batch), F, n)
        g = grid(F, T, [F["nominal_capacity"]], limit)
        probe = {
            "name": "probe", "time": tm, "nodes": [bus("b")] + nd, **kw,
        }
        run = cells([{key: g}], T, {})[0]
        b = feasible(probe, key, run)
        if b is None:
            # nothing is possible: has to stand alone
            keep = list(batch)
            batch.clear()
            nd, key = node(0, F, n)
            batch.append((nd, key, None, g))
            flush()
            batch.extend(keep)
            continue
        batch.append((nd, key, b, g))
        if len(batch) >= group:
            flush()
    flush()
    return out


def invest_tasks(name, assigns, dt, limit=6, time=None, **kw):
    """One configuration per assignment: capacities x trajectories."""
    T = len(dt)
    tm = {"dt": dt, **(time or {})}
    out = []
    for n, a in enumerate(assigns):
        F = clean(a, T, len(tm.get("periods", [0])))
        inv = F["investment"]
        key = ("s>b", "b>s", "s>b")[n % 3]
        if n % 3 == 0:
            nd = [src("s", "b", **F)]
        elif n % 3 == 1:
            nd = [snk("s", "b", **F)]
        else:
            nd = [bus("s", out={"b": F})]
        cfg = {
            "name": "%s-%03d" % (name, n), "time": tm,
            "nodes": [bus("b")] + nd + AUX, **kw,
        }
        ctx = Ctx(cfg)
        per = []
        for p in range(ctx.P):
            lo = at(inv.get("minimum", 0), p)
            hi = at(inv.get("maximum", "inf"), p)
            caps = [lo, hi if hi < INF else lo + 2, 0]
            if ctx.P == 1:
                caps += [lo - 0.5, hi + 0.5 if hi < INF else lo + 3]
                caps.append((lo + hi) / 2 if hi < INF else lo + 1)
            elif p == 0:
                caps += [hi + 0.5] if hi < INF else [lo - 0.5]
            per.append(uniq(caps))
        static = statics({"inv:%s:%d" % (key, p): c
                          for p, c in enumerate(per)})
        good = [0.0]
        for st in static:
            cs = capacities(inv, [st["inv:%s:%d" % (key, p)]
                                  for p in range(ctx.P)], ctx)
            good += cs
        top = sorted(set(round(g, 6) for g in good if g >= 0))
        pick = [top[-1]] + ([top[len(top) // 2]] if len(top) > 2 else [])
        g = grid(F, T, pick, limit)
        cfg["runs"] = cells([{key: g}], T, {"zs>zb": 1.0, "zb>zd": 1.0},
                            static=static)
        out.append(cfg)
    return out


__all__ = ["covering", "flow_tasks", "invest_tasks", "okey"]


# --------------------------------------------------- common option spaces
def plain_ok(a):
    if a.get("fix") is not None and (
        a.get("minimum") is not None or a.get("maximum") is not None
    ):
        return False
    return True


PLAIN = {
    "nominal_capacity": [4, 2],
    "minimum": [None, 0.25, [0.5, 0, 0.25, 0, 0.75], -0.5],
    "maximum": [None, 0.5, [1, 0.5, 0.75, 1, 0.75], 1.5],
    "fix": [None, 0.5, [0.25, 0.5, 0, 0.75, 1]],
    PG: [None, 0.5, [0.5, 0.25, 0.75, 0, 1]],
    NG: [None, 0.5, [0.25, 0.5, 0, 0.75, 1]],
    FMAX: [None, 1.5],
    FMIN: [None, 0.75],
    "integer": [None, True],
    "variable_costs": [1, [1, -2, 3, 0.5, 2], -0.5],
}


def involves(*names):
    """Only cover combinations in which one of these options is given."""

    def must(ix):
        return any(ix.get(n) for n in names)

    return must


L5 = [3, 1, 4, 2, 5]
ONOFF = {
    "nominal_capacity": [4, 2],
    "minimum": [None, 0.25, [0.5, 0, 0.25, 0.75, 0]],
    "maximum": [None, 0.75, [1, 0.75, 1.5, 1, 0.75]],
    "integer": [None, True],
    "variable_costs": [1, [1, -2, 3, 0.5, 2]],
    PG: [None, 0.5],
    NG: [None, [0.5, 0.25, 0.75, 1, 0]],
    FMAX: [None, 1.5],
    FMIN: [None, 0.75],
    "nonconvex": [{}],
    "nonconvex.startup_costs": [None, 4, L5],
    "nonconvex.shutdown_costs": [None, 2, [1, 5, 2, 3, 1]],
    "nonconvex.activity_costs": [None, 1.5, [2, 0, 1, 3, 1]],
    "nonconvex.inactivity_costs": [None, 0.5, [0, 3, 1, 2, 1]],
    "nonconvex.maximum_startups": [None, 0, 1, 2],
    "nonconvex.maximum_shutdowns": [None, 0, 1],
    "nonconvex.initial_status": [None, 1],
    "nonconvex.minimum_uptime": [None, 2, 3],
    "nonconvex.minimum_downtime": [None, 2, 3],
    "nonconvex.positive_gradient_limit": [None, 0.5],
    "nonconvex.negative_gradient_limit": [None, 0.25],
}
NCG = ("nonconvex.positive_gradient_limit", "nonconvex.negative_gradient_limit")


def onoff_ok(a):
    if any(a.get(k) is not None for k in NCG) and any(
        a.get(k) is not None for k in (PG, NG)
    ):
        return False
    return plain_ok(a)


INVEST = {
    "investment": [{}],
    "investment.ep_costs": [3, 0.5],
    "investment.minimum": [None, 1],
    "investment.maximum": [4, 3],
    "investment.existing": [None, 2],
    "investment.offset": [None, 7, -2],
    "investment.nonconvex": [None, True],
    "minimum": [None, 0.25, [0.5, 0, 0.25, 0.75, 0], -0.5],
    "maximum": [None, 0.5, [1, 0.5, 1.5, 1, 0.75]],
    "fix": [None, 0.5, [0.25, 0.5, 0, 0.75, 1]],
    FMAX: [None, 1.5],
    FMIN: [None, 0.75],
    "variable_costs": [1, [1, -2, 3, 0.5, 2]],
}


def invest_ok(a):
    if (a.get("investment.offset") is not None
            and "investment.nonconvex" in a
            and not a["investment.nonconvex"]):
        return False
    if a.get("investment.existing") is not None and (
        a.get("investment.nonconvex")
        or a.get("investment.offset") is not None
    ):
        return False
    return plain_ok(a)


INVONOFF = {
    **{k: v for k, v in INVEST.items() if k not in ("minimum",)},
    "minimum": [None, 0.25, [0.5, 0, 0.25, 0.75, 0]],
    **{k: v for k, v in ONOFF.items() if k.startswith("nonconvex")},
}


# ------------------------------------------------------------- storages
STORE = {
    "initial_storage_level": [None, 0.5, 0.25],
    "balanced": [True, False],
    "loss_rate": [None, 0.25, [0.5, 0, 0.25, 0.125]],
    "fixed_losses_relative": [None, 0.0625, [0.125, 0, 0.0625, 0.25]],
    "fixed_losses_absolute": [None, 0.25, [0, 0.5, 0.125, 1]],
    "inflow_conversion_factor": [None, 0.5, [0.5, 1, 0.25, 0.8]],
    "outflow_conversion_factor": [None, 0.5, [1, 0.5, 0.25, 0.8]],
    "min_storage_level": [None, 0.125, [0.25, 0, 0.125, 0, 0.25]],
    "max_storage_level": [None, 0.75, [0.5, 1, 0.75, 0.5, 1]],
    "storage_costs": [None, 2, [1, 3, -2, 0.5]],
    "fixed_costs": [None, 1.5],
    "soc": [None, [0.5, 0.25], [0.25, 0]],
    "in": [
        {"variable_costs": 1},
        {"nominal_capacity": 4, "variable_costs": [1, 2, 0, 3]},
        {"nominal_capacity": 4, "maximum": [1, 0.5, 0.75, 1]},
        {"nominal_capacity": 4, "minimum": 0.25, "nonconvex": {}},
    ],
    "out": [
        {"variable_costs": -1},
        {"nominal_capacity": 2, "variable_costs": 1},
        {"nominal_capacity": 4, "full_load_time_max": 0.5},
    ],
}


def store_ok(a):
    if a.get("soc") is not None and "in" in a:
        f = a["in"]
        if "nominal_capacity" not in f or "nonconvex" in f:
            return False
    return True


SIZED = {
    "investment": [{}],
    "investment.ep_costs": [3, 0.5],
    "investment.minimum": [None, 2],
    "investment.maximum": [None, 8],
    "investment.existing": [None, 2],
    "investment.offset": [None, 7, -2],
    "investment.nonconvex": [None, True],
    **{
        k: v for k, v in STORE.items()
        if k not in ("soc", "in", "out", "fixed_costs",
                     "fixed_losses_absolute")
    },
    "fixed_losses_absolute": [None, 0.25],
    "in": [
        {"variable_costs": 1},
        {"nominal_capacity": 4, "variable_costs": [1, 2, 0, 3]},
        {"investment": {"ep_costs": 1, "maximum": 4}},
        {"investment": {"ep_costs": 2, "existing": 1}, "maximum": 0.5},
    ],
    "out": [
        {"variable_costs": -1},
        {"nominal_capacity": 2, "variable_costs": 1},
        {"investment": {"ep_costs": 1.5}, "minimum": 0.25},
        {"investment": {"ep_costs": 0.5, "maximum": 4, "nonconvex": True,
                        "offset": 3}},
    ],
    "invest_relation_input_capacity": [None, 0.5],
    "invest_relation_output_capacity": [None, 0.25],
    "invest_relation_input_output": [None, 2],
}


def sized_ok(a):
    inv = {k[11:]: v for k, v in a.items() if k.startswith("investment.")}
    if inv.get("existing") is not None and (
        inv.get("nonconvex") or inv.get("offset") is not None
    ):
        return False
    if inv.get("offset") is not None and "nonconvex" in inv and not inv[
        "nonconvex"
    ]:
        return False
    if (
        (inv.get("nonconvex") or inv.get("offset") is not None)
        and "maximum" in inv and inv["maximum"] is None
    ):
        return False
    # absolute losses need a capacity that is always there
    if (
        a.get("fixed_losses_absolute") is not None
        and "minimum" in inv and inv["minimum"] is None
        and "existing" in inv and inv["existing"] is None
    ):
        return False
    # a ratio needs invested flows
    rin = a.get("invest_relation_input_capacity") is not None
    rout = a.get("invest_relation_output_capacity") is not None
    rio = a.get("invest_relation_input_output") is not None
    if rin + rout + rio > 2:
        return False
    if (rin or rio) and "in" in a and "investment" not in a["in"]:
        return False
    if (rout or rio) and "out" in a and "investment" not in a["out"]:
        return False
    return True


def storage_tasks(name, assigns, dt, time=None, size=3, **kw):
    """One configuration per assignment: (capacities x) initial contents x
    all charging and discharging histories.  The last interval gets, on top
    of the grid, the powers that bring some histories back to the start."""
    from .ref import StoragePart

    T = len(dt)
    tm = {"dt": dt, **(time or {})}
    out = []

    def lst(v, n):
        return v[:n] if isinstance(v, list) else v

    for num, a in enumerate(assigns):
        d = {"k": "storage", "n": "s"}
        for k, v in a.items():
            if v is None or k in ("in", "out", "soc"):
                continue
            d[k] = lst(v, T + 1 if k.endswith("_level") else T)
        P = len(tm.get("periods", [0]))
        for k in [k for k in d if "." in k]:
            v = d.pop(k)
            if not k.endswith("fixed_costs"):
                v = lst(a[k], P)
            else:
                v = a[k]
            d["investment"] = {**d["investment"], k.split(".")[1]: v}
        if a.get("soc") is not None:
            d["constant_soc_until"], d["fraction_saturation_charging"] = a[
                "soc"
            ]
        fi = {k: lst(v, T) for k, v in a["in"].items()}
        fo = {k: lst(v, T) for k, v in a["out"].items()}
        d["in"], d["out"] = {"a": fi}, {"b": fo}
        inv = d.get("investment")
        cfg = {
            "name": "%s-%03d" % (name, num), "time": tm,
            "nodes": [bus("a"), bus("b"), d] + AUX, **kw,
        }
        ctx = Ctx(cfg)
        sgrid = {}
        if inv is None:
            d["nominal_capacity"] = 8
            tops = [8.0]
        else:
            for p in reversed(range(ctx.P)):
                lo, hi = at(inv.get("minimum", 0), p), inv.get("maximum")
                if hi is not None:
                    hi = at(hi, p)
                xs = [lo, hi if hi is not None else lo + 4, lo + 2, 0]
                if ctx.P == 1:
                    xs += [lo - 0.5, (hi or 8) + 0.5]
                sgrid["sinv:s:%d" % p] = uniq(xs if p == 0 else xs[:2])
            tops = sorted(
                {max(xs[0], 0.0) + inv.get("existing", 0),
                 xs[1] + inv.get("existing", 0)}
            )
            # powers have to fit to the ratios
            c = [x + inv.get("existing", 0) for x in (xs[0], xs[1])]
        for side, f, rel in (
            ("in", fi, d.get("invest_relation_input_capacity")),
            ("out", fo, d.get("invest_relation_output_capacity")),
        ):
            if "investment" not in f:
                continue
            key = "inv:a>s:0" if side == "in" else "inv:s>b:0"
            e = f["investment"].get("existing", 0)
            ps = [0.0, 2.0]
            if rel is not None and inv is not None:
                ps += [x * rel - e for x in c]
            if d.get("invest_relation_input_output") is not None:
                ps += [1.0, 4.0]
                r = d["invest_relation_input_output"]
                if side == "in" and inv is not None:
                    q = d.get("invest_relation_output_capacity")
                    if q is not None:
                        ps += [x * q * r - e for x in c]
                elif inv is not None:
                    q = d.get("invest_relation_input_capacity")
                    ei = fi["investment"].get("existing", 0)
                    if q is not None:
                        ps += [x * q / r - e for x in c]
                    else:
                        ps += [(x + ei) / r - e for x in (0.0, 2.0)]
            sgrid[key] = uniq(p for p in ps if p >= 0)
        lvl = d.get("initial_storage_level")
        if inv is not None and ctx.multi:
            socs = [0.0, 1.0]
        else:
            socs = []
            for top in tops:
                if lvl is not None:
                    socs += [lvl * top, lvl * top + 0.5]
                else:
                    mn = at(d.get("min_storage_level", 0), 0)
                    mx = at(d.get("max_storage_level", 1), 0)
                    socs += [top * mn, top * mx, top * (mn + mx) / 2,
                             top * mx + 0.5]
        sgrid["soc:s"] = uniq(socs)[:5]
        gi = [0.0, 1.0, 2.0, 4.0][: size + 1]
        go = [0.0, 1.0, 2.0][:size]
        alpha = {"a>s": [list(gi) for _ in range(T)],
                 "s>b": [list(go) for _ in range(T)],
                 "zs>zb": [1.0], "zb>zd": [1.0]}
        if a.get("soc") is not None:
            # the charging limit has to be met exactly now and then
            for t in range(T):
                alpha["a>s"][t] += [3.0, 2.5]
        if d.get("balanced", True):
            extra = []
            eta = at(d.get("inflow_conversion_factor", 1), T - 1)
            for top in tops:
                part = StoragePart(d, ctx, [top] * ctx.P, 0.0)
                for c0 in sgrid["soc:s"]:
                    for x in itertools.product(gi[:2], repeat=T - 1):
                        cc = c0
                        for t, q in enumerate(x):
                            cc = part.next(
                                cc, t, {("a", "s"): q, ("s", "b"): 0.0}
                            )
                        last = part.next(
                            cc, T - 1, {("a", "s"): 0.0, ("s", "b"): 0.0}
                        )
                        need = (c0 - last) / eta / ctx.dt[T - 1]
                        if 0 < need < 6:
                            extra.append(need)
            alpha["a>s"][T - 1] = uniq(alpha["a>s"][T - 1] + extra)[:10]
        cfg["runs"] = [
            {"static": statics(sgrid), "alphabet": letters(alpha, T)}
        ]
        out.append(cfg)
    return out


# -------------------------------------------- the spaces of the properties
PER = {
    "gap": [{"start": "2020", "n": 2}, {"start": "2023", "n": 2}],
    "three": [{"start": "2020", "n": 1}, {"start": "2021", "n": 1},
              {"start": "2025", "n": 1}],
}
LIFE = {
    "investment": [{}],
    "investment.ep_costs": [3, [2, 5, 1]],
    "investment.lifetime": [2, 3, 6],
    "investment.age": [None, 1],
    "investment.existing": [None, 2],
    "investment.minimum": [None, 1, [0, 1, 0]],
    "investment.maximum": [4, [3, 1, 2]],
    "investment.offset": [None, 7, [3, 1, 2]],
    "investment.nonconvex": [None, True],
    "investment.overall_maximum": [None, 5],
    "investment.overall_minimum": [None, 1],
    "investment.fixed_costs": [None, 1.5, [1, 2, 4, 3, 5, 7, 6, 2, 9]],
    "minimum": [None, 0.25, [0.5, 0, 0.25, 0.75], -0.5],
    "maximum": [None, 0.5, [1, 0.5, 1.5, 1]],
    "fix": [None, 0.5, [0.25, 0.5, 1, 0.75]],
    FMAX: [None, 1.5],
    FMIN: [None, 0.25],
    "variable_costs": [1, [1, -2, 3, 0.5]],
}


def life_ok(a):
    if a.get("investment.age") is not None and (
        ("investment.existing" in a and a["investment.existing"] is None)
        or a.get("investment.nonconvex")
        or a.get("investment.offset") is not None
    ):
        return False
    return invest_ok(a)


def more(prop, deep):
    """Configurations for every combination of options (per property)."""
    s = 3 if deep else 2
    few = 3 if deep else 2

    def both(*q):
        return both_arrays(*q, few=few)

    out = []
    A, B = [1.0, 2.0, 0.5], [0.5, 1.0, 1.0, 2.0]
    gap, three = {"periods": PER["gap"]}, {"periods": PER["three"]}
    if prop == "F01":
        what = involves("minimum", "maximum", "fix", "integer")
        a = both(PLAIN, 3, plain_ok, what)
        out += flow_tasks("mix", a, A, limit=8)
        if deep:
            a = both(PLAIN, 4, plain_ok, what)
            out += flow_tasks("mix4", a, B, limit=7)
        out += flow_tasks("permix", both(PLAIN, s, plain_ok, what),
                          [1.0, 2.0, 0.5, 1.0], limit=6, time=gap)
    elif prop == "F03":
        opt = {
            **PLAIN, "variable_costs": [1, [1, -2, 3, 0.5, 2], -0.5, None],
            "lifetime": [None, 2, 5], "age": [None, 1],
            "fixed_costs": [None, 2, [1, 3, 2, 5, 4, 1, 2, 3]],
        }

        def ok(a):
            if a.get("age") is not None and (
                "lifetime" in a and a["lifetime"] is None
            ):
                return False
            return plain_ok(a)

        what = involves("variable_costs", "lifetime", "age", "fixed_costs")
        out += flow_tasks("mix", both(PLAIN, 3, plain_ok, involves(
            "variable_costs")), A, limit=7)
        for n, (tm, T) in enumerate(((gap, 4), (three, 3))):
            for dr in (None, 0.1):
                kw = {} if dr is None else {"discount_rate": dr}
                out += flow_tasks(
                    "permix%d-%s" % (n, dr),
                    both(opt, s, ok, what), [1.0, 2.0, 0.5, 1.0][:T],
                    limit=6, time=tm, **kw)
        out += flow_tasks("owmix", both(PLAIN, s, plain_ok), A, limit=7,
                          ow=[2.0, 0.5, 3.0])
    elif prop in ("N01", "N02", "N03"):
        names = {
            "N01": ("nonconvex.startup_costs", "nonconvex.shutdown_costs",
                    "nonconvex.activity_costs", "nonconvex.inactivity_costs",
                    "nonconvex.maximum_startups",
                    "nonconvex.maximum_shutdowns", "minimum", "maximum"),
            "N02": ("nonconvex.minimum_uptime", "nonconvex.minimum_downtime",
                    "nonconvex.initial_status"),
            "N03": NCG,
        }[prop]
        a = both(ONOFF, 3, onoff_ok, involves(*names))
        if not deep:
            a = a[: 150]
        out += flow_tasks("mix", a, [1.0, 2.0, 0.5, 1.0], limit=6, group=2)
        out += flow_tasks("permix", both(ONOFF, 2, onoff_ok), [1.0] * 4,
                          limit=6, group=2, time=gap, discount_rate=0.1)
        if deep:
            out += flow_tasks("longmix", both(ONOFF, 3, onoff_ok),
                              [1.0, 2.0, 0.5, 1.0, 1.0], limit=5, group=2)
    elif prop == "I01":
        out += invest_tasks("mix", both(INVEST, 3, invest_ok), A, limit=8)
        if deep:
            out += invest_tasks("mix4", both(INVEST, 4, invest_ok), A,
                                limit=8)
    elif prop == "I02":
        out += invest_tasks("mix", both(INVONOFF, s, invest_ok), A,
                            limit=7)
    elif prop in ("M01", "M02"):
        a = both(LIFE, s, life_ok)
        out += invest_tasks("mix3", a, [1.0, 2.0, 0.5], limit=7, time=three)
        out += invest_tasks("mix4", a, [1.0] * 4, limit=5, time=gap)
        if prop == "M02":
            out += invest_tasks(
                "mixr", a, [1.0, 2.0, 0.5], limit=5,
                time={**three, "remaining": True}, discount_rate=0.1)
        else:
            opt = {**PLAIN, "lifetime": [None, 2, 3, 5], "age": [None, 1, 2]}

            def ok(a):
                if a.get("age") is not None and "lifetime" in a and (
                    a["lifetime"] is None or a["age"] >= a["lifetime"]
                ):
                    return False
                return plain_ok(a)

            a = both(opt, s, ok, involves("lifetime", "age"))
            out += flow_tasks("plain3", a, [1.0, 2.0, 0.5], limit=7,
                              time=three)
            out += flow_tasks("plain4", a, [1.0] * 4, limit=6, time=gap)
    elif prop in ("S01", "S02"):
        names = {
            "S01": ("loss_rate", "fixed_losses_relative",
                    "fixed_losses_absolute", "inflow_conversion_factor",
                    "outflow_conversion_factor"),
            "S02": ("initial_storage_level", "balanced", "min_storage_level",
                    "max_storage_level", "storage_costs", "soc", "in", "out"),
        }[prop]
        a = both(STORE, 3 if prop == "S02" or deep else 2, store_ok,
                     involves(*names))
        out += storage_tasks("mix", a, A, size=2 if not deep else 3)
        out += storage_tasks("permix", both(STORE, 2, store_ok), A,
                             time=three, size=2, discount_rate=0.1)
    elif prop == "S03":
        a = both(SIZED, 3 if deep else 2, sized_ok)
        out += storage_tasks("mix", a, [1.0, 2.0])
        if deep:
            out += storage_tasks("mixd", both(SIZED, 2, sized_ok), A)
    return out


SIZEDLIFE = {
    "investment": [{}],
    "investment.ep_costs": [3, [2, 5, 1]],
    "investment.lifetime": [2, 3, 6],
    "investment.age": [None, 1],
    "investment.existing": [None, 2],
    "investment.minimum": [None, 1, [0, 1, 0]],
    "investment.maximum": [None, 8, [8, 2, 4]],
    "investment.offset": [None, 7, [3, 1, 2]],
    "investment.nonconvex": [None, True],
    "investment.overall_maximum": [None, 9],
    "investment.overall_minimum": [None, 1],
    "investment.fixed_costs": [None, 1.5, [1, 2, 4, 3, 5, 7, 6, 2, 9]],
    "loss_rate": [None, 0.25, [0.5, 0, 0.25, 0.125]],
    "fixed_losses_relative": [None, 0.0625, [0.125, 0, 0.0625, 0.25]],
    "inflow_conversion_factor": [None, 0.5, [0.5, 1, 0.25, 0.8]],
    "outflow_conversion_factor": [None, 0.5, [1, 0.5, 0.25, 0.8]],
    "min_storage_level": [None, [0, 0.125, 0, 0.125, 0.25]],
    "max_storage_level": [None, 0.75, [0.5, 1, 0.75, 0.5, 1]],
    "storage_costs": [None, 2, [1, 3, -2, 0.5]],
    "in": [
        {"variable_costs": 1},
        {"nominal_capacity": 4, "variable_costs": [1, 2, 0, 3]},
        {"nominal_capacity": 4, "maximum": [1, 0.5, 0.75, 1]},
    ],
    "out": [
        {"variable_costs": -1},
        {"nominal_capacity": 2, "variable_costs": 1},
    ],
}


def sizedlife_ok(a):
    if a.get("investment.age") is not None and (
        ("investment.existing" in a and a["investment.existing"] is None)
        or a.get("investment.nonconvex")
        or a.get("investment.offset") is not None
    ):
        return False
    return sized_ok(a)


def without(options, *names):
    return {k: v for k, v in options.items() if k not in names}


def more_s04(deep):
    s = 3 if deep else 2
    a = both_arrays(SIZEDLIFE, s, sizedlife_ok)
    out = []
    three = {"periods": PER["three"]}
    out += storage_tasks("mix3", a, [1.0, 2.0, 0.5], time=three, size=2)
    out += storage_tasks("mixr", a if deep else a[::2], [1.0, 1.0, 0.5],
                         time={**three, "remaining": True}, size=2,
                         discount_rate=0.1)
    return out


def more_t02(axes, periods, deep):
    """axes / periods: time structures with typical periods."""
    out = []
    flow = without(PLAIN, PG, NG)
    onoff = without(
        ONOFF, PG, NG, *NCG, "nonconvex.maximum_startups",
        "nonconvex.maximum_shutdowns", "nonconvex.minimum_uptime",
        "nonconvex.minimum_downtime")
    store = without(STORE, "soc", "fixed_costs")
    store["min_storage_level"] = [None, 0.125]
    store["max_storage_level"] = [None, 0.75]
    sized = without(SIZED, "invest_relation_input_capacity",
                    "invest_relation_output_capacity",
                    "invest_relation_input_output", "fixed_losses_absolute")
    sized["min_storage_level"] = [None, 0.125]
    sized["max_storage_level"] = [None, 0.75]
    sized["balanced"] = [False]
    fa = both_arrays(flow, 2, plain_ok)
    oa = both_arrays(onoff, 2, onoff_ok)
    ia = both_arrays(INVEST, 2, invest_ok)
    sa = both_arrays(store, 2, store_ok)
    za = both_arrays(sized, 2, sized_ok)
    names = list(axes)
    for j, (a, ax) in enumerate(axes.items()):
        T = len(ax["dt"])
        if T > 4:
            continue
        # (in the quick tier every time structure gets a share)
        step, off = (1, 0) if deep else (len(names) * (1 + (T > 3)), j)
        lim = 6 if T < 4 else 5

        def cut(xs):
            return xs[off::step]

        out += flow_tasks("mixf-" + a, cut(fa), ax["dt"], limit=lim, time=ax)
        out += flow_tasks("mixo-" + a, cut(oa), ax["dt"], limit=lim, time=ax,
                          group=2)
        out += invest_tasks("mixi-" + a, cut(ia), ax["dt"], limit=lim - 1,
                            time=ax)
        out += storage_tasks("mixs-" + a, cut(sa), ax["dt"], time=ax, size=2)
        out += storage_tasks("mixz-" + a, cut(za), ax["dt"], time=ax, size=2)
    for a, ax in periods.items():
        T = len(ax["dt"])
        step = 1 if deep else 3
        kw = {"discount_rate": 0.1}
        out += flow_tasks("mixpf-" + a, fa[::step], ax["dt"], limit=5,
                          time=ax, **kw)
        out += flow_tasks("mixpo-" + a, oa[::step], ax["dt"], limit=5,
                          time=ax, group=2, **kw)
        out += storage_tasks("mixps-" + a, sa[::step], ax["dt"], time=ax,
                             size=2, **kw)
    return out
