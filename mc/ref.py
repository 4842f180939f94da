"""Reference semantics: a small transition system per configuration.

This module interprets the same JSON configuration as ``spec.py`` but never
looks at oemof.solph.  It says, from the documented meaning of the
parameters, which trajectories (flow values per interval, invested
capacities, initial storage contents) are allowed and what they cost.

A configuration becomes a list of *parts*; each part is a (possibly
nondeterministic, because on/off states are hidden) automaton that reads one
interval after the other::

    init()            -> {state: cost}            no entry: not allowed
    step(state, t, u) -> yields (next_state, cost, dontcare)
    final(state)      -> None (not allowed) or (cost, dontcare)

``u`` maps every flow ``(i, o)`` to its value in interval ``t``.
``dontcare`` marks behaviour on which the documentation is silent (or
contradicts itself): such trajectories are explored but not judged.
"""

import math

EPS = 1e-6
INF = math.inf


def at(v, t):
    """Parameter value at index t (scalar or sequence)."""
    if isinstance(v, dict):
        v = v["v"]
    if isinstance(v, list):
        v = v[t]
    return INF if v == "inf" else v


def vals(v):
    if isinstance(v, dict):
        v = v["v"]
    return v if isinstance(v, list) else [v]


def close(a, b):
    return abs(a - b) <= EPS * max(1.0, abs(a), abs(b))


def le(a, b):
    m = max(
        1.0,
        abs(a) if abs(a) < INF else 1.0,
        abs(b) if abs(b) < INF else 1.0,
    )
    return a <= b + EPS * m


def rnd(x):
    x = round(x, 9)
    return 0.0 if x == 0 else x


def annuity(capex, n, wacc):
    if wacc == 0:
        return capex / n
    return capex * (wacc * (1 + wacc) ** n) / ((1 + wacc) ** n - 1)


class Ctx:
    """Time structure of a configuration."""

    def __init__(self, cfg):
        tm = cfg["time"]
        self.dt = [float(x) for x in tm["dt"]]
        self.T = len(self.dt)
        self.w = [float(x) for x in cfg.get("ow", self.dt)]
        # how many real intervals one modelled interval stands for
        self.tw = [1.0] * self.T
        # original sequence of the modelled intervals [(period, interval)]
        self.seq = None
        if "tsa" in tm:
            self.tw, self.seq, self.marks = [0.0] * self.T, [], [0]
            first = 0
            for p, q in enumerate(tm["tsa"]):
                num = max(q["order"]) + 1
                size = (
                    len(q["segments"][0])
                    if "segments" in q
                    else q["timesteps_per_period"]
                )
                for k in q["order"]:
                    for g in range(size):
                        t = first + k * size + g
                        self.tw[t] += 1
                        self.seq.append((p, t))
                    self.marks.append(len(self.seq))
                first += num * size
            assert first == self.T
        self.multi = "periods" in tm
        self.remaining = False
        if self.multi:
            ps = tm["periods"]
            self.P = len(ps)
            y0 = int(ps[0]["start"][:4])
            self.years = [int(p["start"][:4]) - y0 for p in ps]
            self.per = [p for p, q in enumerate(ps) for _ in range(q["n"])]
            # the optimisation ends with the last year of the last period
            self.end_year = self.years[-1] + ps[-1].get("years", 1)
            self.dr = cfg.get("discount_rate", 0.02)
            self.disc = [(1 + self.dr) ** (-self.years[p]) for p in self.per]
            self.remaining = bool(tm.get("remaining"))
        else:
            self.P = 1
            self.years = [0]
            self.per = [0] * self.T
            self.end_year = 1
            self.disc = [1.0] * self.T
            self.dr = 0.0


# ------------------------------------------------------------ investments
def capacities(inv, invested, ctx):
    """Installed capacity per period from the invested amounts."""
    ex = inv.get("existing", 0)
    out = []
    life, age = inv.get("lifetime"), inv.get("age", 0)
    for p in range(ctx.P):
        if not ctx.multi:
            out.append(ex + invested[0])
            continue
        tot = 0.0
        # capacity existing at the start leaves once its remaining life is
        # over (never in the very first period)
        if p == 0 or life - age > ctx.years[p]:
            tot += ex
        for q in range(p + 1):
            if ctx.years[p] - ctx.years[q] < life:
                tot += invested[q]
        out.append(tot)
    return out


def invest_rules(inv, invested, ctx, interest=0.05, storage=False):
    """-> None (not allowed) or
    (capacity per period, cost, invest cost per period, built?)"""
    cost, percost, remaining = 0.0, [0.0] * ctx.P, 0.0
    for p in range(ctx.P):
        v = invested[p]
        lo, hi = at(inv.get("minimum", 0), p), at(inv.get("maximum", "inf"), p)
        status = None
        off = at(inv.get("offset", 0), p)
        if inv.get("nonconvex"):
            # either nothing (status 0) or within [min, max] (status 1)
            opts = []
            if close(v, 0):
                opts.append(0)
            if v >= -EPS and le(lo, v) and le(v, hi):
                opts.append(1)
            if not opts:
                return None
            # cheapest admissible status
            status = opts[0] if len(opts) == 1 else (0 if off >= 0 else 1)
        elif v < -EPS or not le(lo, v) or not le(v, hi):
            return None
        ep = at(inv.get("ep_costs", 0), p)
        if not ctx.multi:
            c = v * ep
            if status is not None:
                c += status * off
        else:
            life = inv["lifetime"]
            horizon = ctx.end_year - ctx.years[p]
            dur = min(horizon, life)
            c = v * annuity(ep, life, interest) / annuity(1, dur, interest)
            if status is not None:
                c += status * off
            if ctx.remaining and horizon < life:
                last = ctx.P - 1
                rl = life - horizon
                epl = at(inv.get("ep_costs", 0), last)
                rem = (
                    v
                    * (annuity(epl, rl, interest) - annuity(ep, rl, interest))
                    / annuity(1, rl, interest)
                )
                if status is not None:
                    rem += status * (at(inv.get("offset", 0), last) - off)
                remaining += rem
        percost[p] += c
        cost += c
    caps = capacities(inv, invested, ctx)
    if ctx.multi:
        if inv.get("overall_maximum") is not None:
            if any(not le(c, inv["overall_maximum"]) for c in caps):
                return None
        if inv.get("overall_minimum") is not None:
            if not le(inv["overall_minimum"], caps[-1]):
                return None
    return caps, cost + remaining, percost


def invest_fixed_costs(inv, invested, ctx):
    """Yearly fixed costs of everything that is installed."""
    fc = inv.get("fixed_costs")
    if not ctx.multi or fc is None:
        return 0.0
    cost = 0.0
    life, age = inv["lifetime"], inv.get("age", 0)
    for p in range(ctx.P):
        for y in range(ctx.years[p], min(ctx.end_year, ctx.years[p] + life)):
            cost += invested[p] * at(fc, y)
    ex = inv.get("existing", 0) or 0
    for y in range(min(ctx.end_year, life - age)):
        cost += ex * at(fc, y)
    return cost


# ------------------------------------------------------------------ flows
class FlowPart:
    """One flow: capacity, bounds, ramps, full load time, costs, on/off."""

    def __init__(self, key, F, ctx, caps=None):
        self.key, self.F, self.ctx = key, F, ctx
        nom = F.get("nominal_capacity")
        if "investment" in F:
            self.cap = [caps[p] for p in ctx.per]
            self.flt_cap = sum(caps)
        elif nom is not None:
            self.cap = [nom] * ctx.T
            self.flt_cap = nom
        else:
            self.cap = None
        self.nc = F.get("nonconvex")
        self.bidir = min(vals(F.get("minimum") or 0)) < 0
        self.grad = [
            (src.get("positive_gradient_limit"),
             src.get("negative_gradient_limit"))
            for src in (F, self.nc or {})
        ]
        self.need_prev = any(g is not None for q in self.grad for g in q)
        self.need_sum = any(
            F.get(k) is not None
            for k in ("full_load_time_max", "full_load_time_min")
        )
        if self.nc is not None:
            nc = self.nc
            self.init_status = nc.get("initial_status", 0)
            self.minup = nc.get("minimum_uptime", 0)
            self.mindown = nc.get("minimum_downtime", 0)
            # the initial state has to be kept for the initial min time
            self.flexible = at(
                self.mindown if self.init_status == 0 else self.minup, 0
            )

    def fixed_costs(self):
        F, ctx = self.F, self.ctx
        fc = F.get("fixed_costs")
        if not ctx.multi or fc is None or F.get("nominal_capacity") is None:
            return 0.0
        n = ctx.end_year
        if F.get("lifetime") is not None:
            n = min(n, F["lifetime"] - (F.get("age") or 0))
        return sum(F["nominal_capacity"] * at(fc, y) for y in range(n))

    # state: ((status, hold, ups, downs) or None, energy so far, previous flow)
    def init(self):
        st = None
        if self.nc is not None:
            st = (self.init_status, 0, 0, 0)
        return {(st, 0.0, None): self.fixed_costs()}

    def step(self, state, t, u):
        st, total, prev = state
        F, ctx = self.F, self.ctx
        f = u[self.key]
        cap = None if self.cap is None else self.cap[t]
        if F.get("integer"):
            if f < -EPS or abs(f - round(f)) > EPS:
                return
        if (
            ctx.multi
            and F.get("lifetime") is not None
            and "investment" not in F
            and F["lifetime"] - (F.get("age") or 0) <= ctx.years[ctx.per[t]]
            and abs(f) > EPS
        ):
            return
        fixed = F.get("fix") is not None and cap is not None
        if fixed and not close(f, at(F["fix"], t) * cap):
            return
        if prev is not None:
            for pg, ng in self.grad:
                if pg is not None and not le(f - prev, at(pg, t) * cap):
                    return
                if ng is not None and not le(prev - f, at(ng, t) * cap):
                    return
        cost = 0.0
        vc = F.get("variable_costs", 0)
        if vc is not None:
            cost = f * ctx.w[t] * ctx.tw[t] * at(vc, t) * ctx.disc[t]
        ntotal = (
            rnd(total + f * ctx.dt[t] * ctx.tw[t]) if self.need_sum else 0.0
        )
        nprev = f if self.need_prev else None
        mx = at(F.get("maximum", 1), t)
        mn = at(F.get("minimum", 0), t)
        if self.nc is None:
            if not fixed:
                if cap is not None:
                    if not le(f, mx * cap) or not le(mn * cap, f):
                        return
                if not self.bidir and f < -EPS:
                    return
            yield (None, ntotal, nprev), cost, False
            return
        # --- unit commitment
        status, hold, ups, downs = st
        nc = self.nc
        for s in (0, 1):
            if t < self.flexible and s != self.init_status:
                continue
            if s == 0 and abs(f) > EPS:
                continue
            if s == 1 and (not le(f, mx * cap) or not le(mn * cap, f)):
                continue
            c, dc = cost, False
            nhold, nups, ndowns = hold, ups, downs
            if s != status:
                if hold > 0:
                    continue  # minimum up/down time not yet served
                if s == 1:
                    if nc.get("maximum_startups") is not None:
                        nups += 1
                    c += at(nc.get("startup_costs") or 0, t) * ctx.tw[t]
                    need = at(self.minup, t)
                    if t + need > ctx.T:
                        dc = True  # does not fit the horizon any more
                else:
                    if nc.get("maximum_shutdowns") is not None:
                        ndowns += 1
                    c += at(nc.get("shutdown_costs") or 0, t) * ctx.tw[t]
                    need = at(self.mindown, t)
                nhold = max(0, need - 1)
            else:
                nhold = max(0, hold - 1)
            if s == 1 and nc.get("activity_costs") is not None:
                c += at(nc["activity_costs"], t) * ctx.tw[t]
            if s == 0 and nc.get("inactivity_costs") is not None:
                c += at(nc["inactivity_costs"], t) * ctx.tw[t]
            if nups > (nc.get("maximum_startups") or 0) and nups:
                continue
            if ndowns > (nc.get("maximum_shutdowns") or 0) and ndowns:
                continue
            yield ((s, nhold, nups, ndowns), ntotal, nprev), c, dc

    def status(self, state):
        return state[0][0]

    def final(self, state):
        total = state[1]
        F = self.F
        if self.need_sum and self.cap is not None:
            mx, mn = F.get("full_load_time_max"), F.get("full_load_time_min")
            if mx is not None and not le(total, mx * self.flt_cap):
                return None
            if mn is not None and not le(mn * self.flt_cap, total):
                return None
        return 0.0, False


class Group:
    """Product of on/off flows whose hidden states are coupled.

    ``preds``: functions (t, statuses {key: 0/1}, u) -> bool."""

    def __init__(self, parts, preds):
        self.parts, self.preds = parts, preds

    def init(self):
        states = {(): 0.0}
        for p in self.parts:
            new = {}
            for s, c in states.items():
                for q, d in p.init().items():
                    new[s + (q,)] = c + d
            states = new
        return states

    def step(self, state, t, u):
        combos = [((), 0.0, False)]
        for p, s in zip(self.parts, state):
            nxt = []
            for q, c, d in p.step(s, t, u):
                for a, b, e in combos:
                    nxt.append((a + (q,), b + c, e or d))
            combos = nxt
            if not combos:
                return
        for s, c, d in combos:
            stat = {
                p.key: p.status(q)
                for p, q in zip(self.parts, s)
                if p.nc is not None
            }
            if all(pr(t, stat, u) for pr in self.preds):
                yield s, c, d

    def final(self, state):
        cost, dc = 0.0, False
        for p, s in zip(self.parts, state):
            r = p.final(s)
            if r is None:
                return None
            cost += r[0]
            dc = dc or r[1]
        return cost, dc


class Relation:
    """Stateless per-interval predicate; fn -> True / False / None(unclear)"""

    def __init__(self, fn):
        self.fn = fn

    def init(self):
        return {(): 0.0}

    def step(self, state, t, u):
        r = self.fn(t, u)
        if r is None:
            yield (), 0.0, True
        elif r:
            yield (), 0.0, False

    def final(self, state):
        return 0.0, False


class SumLimit:
    """lower <= sum of weight(t) * flow <= upper (per group of intervals)."""

    def __init__(self, weights, upper, lower, groups):
        self.weights = weights  # {key: [w_t]}
        self.upper, self.lower, self.groups = upper, lower, groups
        self.n = max(groups) + 1

    def init(self):
        return {(0.0,) * self.n: 0.0}

    def step(self, state, t, u):
        v = list(state)
        g = self.groups[t]
        v[g] = rnd(v[g] + sum(w[t] * u[k] for k, w in self.weights.items()))
        yield tuple(v), 0.0, False

    def final(self, state):
        for g, v in enumerate(state):
            if self.upper is not None and not le(v, at(self.upper, g)):
                return None
            if self.lower is not None and not le(at(self.lower, g), v):
                return None
        return 0.0, False


# --------------------------------------------------------------- storages
class StoragePart:
    """Content follows from the flows.  state = (content at the start,
    content now)."""

    def __init__(self, d, ctx, caps, c0, costs=0.0, in_caps=None):
        self.d, self.ctx, self.n = d, ctx, d["n"]
        self.ein = [(b, d["n"]) for b in d.get("in", {})]
        self.eout = [(d["n"], b) for b in d.get("out", {})]
        self.inv = "investment" in d
        self.caps, self.c0, self.costs = caps, c0, costs
        self.in_caps = in_caps

    def next(self, c, t, u):
        d, ctx = self.d, self.ctx
        dt = ctx.dt[t]
        cap = self.caps[ctx.per[t]]
        loss = at(d.get("loss_rate", 0) or 0, t)
        frel = at(d.get("fixed_losses_relative", 0) or 0, t)
        fabs = at(d.get("fixed_losses_absolute", 0) or 0, t)
        n = c * (1 - loss) ** dt - frel * cap * dt - fabs * dt
        n += sum(u[k] for k in self.ein) * dt * at(
            d.get("inflow_conversion_factor", 1), t
        )
        n -= sum(u[k] for k in self.eout) * dt / at(
            d.get("outflow_conversion_factor", 1), t
        )
        return rnd(n)

    def contents(self, traj):
        c = [rnd(self.c0)]
        for t, u in enumerate(traj):
            c.append(self.next(c[-1], t, u))
        return c

    def level(self, c, t):
        """-> True / False / None (unclear)"""
        d, ctx = self.d, self.ctx
        mx = at(d.get("max_storage_level", 1), t)
        mn = at(d.get("min_storage_level", 0), t)

        def fits(cap):
            return le(c, mx * cap) and le(mn * cap, c) and c >= -EPS

        now = self.caps[ctx.per[min(t, ctx.T - 1)]]
        if not fits(now):
            return False
        if 0 < t < ctx.T and not fits(self.caps[ctx.per[t - 1]]):
            # the capacity changes at this very point in time
            return None
        return True

    def init(self):
        d = self.d
        c0 = rnd(self.c0)
        lvl = d.get("initial_storage_level")
        if self.inv and self.ctx.multi:
            if not close(c0, 0):
                return {}
        elif lvl is not None:
            if not close(c0, lvl * self.caps[0]):
                return {}
        if self.level(c0, 0) is False:
            return {}
        cost = self.costs
        fc = d.get("fixed_costs")
        if fc is not None and not self.inv:
            cost += sum(
                self.caps[0] * at(fc, y) for y in range(self.ctx.end_year)
            )
        return {(c0, c0): cost}

    def step(self, state, t, u):
        c0, c = state
        d = self.d
        n = self.next(c, t, u)
        ok = self.level(n, t + 1)
        if ok is False:
            return
        fin = sum(u[k] for k in self.ein)
        if not self.soc_ok(fin, n, t):
            return
        cost = 0.0
        sc = d.get("storage_costs")
        if sc is not None:
            cost += n * at(sc, t)
        yield (c0, n), cost, ok is None

    def soc_ok(self, fin, n, t):
        """Charging power falls linearly once the store is nearly full."""
        d = self.d
        lim = d.get("constant_soc_until")
        if lim is None:
            return True
        (f,) = d["in"].values()
        power = f["nominal_capacity"] * at(f.get("maximum", 1), t)
        full = self.caps[self.ctx.per[t]] * at(
            d.get("max_storage_level", 1), t
        )
        end = d["fraction_saturation_charging"]
        x = n / full
        if x > lim:
            power *= 1 - (1 - end) * (x - lim) / (1 - lim)
        return le(fin, power)

    def final(self, state):
        c0, c = state
        if self.d.get("balanced", True) and not (self.inv and self.ctx.multi):
            if not close(c0, c):
                return None
        return 0.0, False


class TsaStoragePart(StoragePart):
    """Storage in a model with typical periods: the content is carried
    through the original sequence.  state = flows of the storage in all
    modelled intervals so far."""

    def level(self, c, p, q=None):
        """content at a point in time that belongs to period p (and to the
        end of period q)"""
        d = self.d
        mx, mn = d.get("max_storage_level", 1), d.get("min_storage_level", 0)

        def fits(cap):
            return le(c, mx * cap) and le(mn * cap, c) and c >= -EPS

        if not fits(self.caps[p]):
            return False
        if q is not None and not fits(self.caps[q]):
            return None
        return True

    def init(self):
        r = super().init()
        return {(): c for c in r.values()}

    def step(self, state, t, u):
        fin = rnd(sum(u[k] for k in self.ein))
        fout = rnd(sum(u[k] for k in self.eout))
        yield state + ((fin, fout),), 0.0, False

    def path(self, state):
        """[(period, interval, content before, content after)]"""
        (kin,), (kout,) = self.ein, self.eout
        out, c = [], rnd(self.c0)
        for p, t in self.ctx.seq:
            n = self.next(c, t, {kin: state[t][0], kout: state[t][1]})
            out.append((p, t, c, n))
            c = n
        return out

    def contents(self, traj):
        state = tuple(
            (sum(u[k] for k in self.ein), sum(u[k] for k in self.eout))
            for u in traj
        )
        return [rnd(self.c0)] + [x[3] for x in self.path(state)]

    def final(self, state):
        d, cost, dc = self.d, 0.0, False
        path = self.path(state)
        for j, (p, t, before, n) in enumerate(path):
            nxt = path[j + 1][0] if j + 1 < len(path) else p
            ok = self.level(n, nxt, p if nxt != p else None)
            if ok is False:
                return None
            dc |= ok is None
            if not self.soc_ok(state[t][0], n, t):
                return None
            if d.get("storage_costs") is not None:
                cost += n * at(d["storage_costs"], t)
        if d.get("balanced", True) and not (self.inv and self.ctx.multi):
            if not close(path[-1][3], self.c0):
                return None
        return cost, dc


class TsaWatch:
    """A predicate over contents in the original sequence."""

    def __init__(self, storages, fn):
        self.sts, self.fn = storages, fn

    def init(self):
        return {(): 0.0}

    def step(self, state, t, u):
        yield state + (tuple(sorted(u.items())),), 0.0, False

    def final(self, state):
        us = [dict(x) for x in state]
        paths = []
        for st in self.sts:
            (kin,), (kout,) = st.ein, st.eout
            paths.append(st.path([(u[kin], u[kout]) for u in us]))
        dc = False
        for j, (p, t) in enumerate(self.sts[0].ctx.seq):
            con = {
                st.n: path[j][2:] for st, path in zip(self.sts, paths)
            }
            r = self.fn(t, con, us[t])
            if r is False:
                return None
            dc |= r is None
        return 0.0, dc


class StorageWatch:
    """A predicate over contents: fn(t, {storage: (before, after)}, u)."""

    def __init__(self, storages, fn, first=None):
        self.sts, self.fn, self.first = storages, fn, first

    def init(self):
        s = tuple(rnd(x.c0) for x in self.sts)
        return {s: 0.0}

    def step(self, state, t, u):
        new = tuple(x.next(c, t, u) for x, c in zip(self.sts, state))
        r = self.fn(
            t, {x.n: (a, b) for x, a, b in zip(self.sts, state, new)}, u
        )
        if r is False:
            return
        yield new, 0.0, r is None

    def final(self, state):
        return 0.0, False


# ------------------------------------------------------------ components
def converter_rel(d):
    ins, outs = list(d.get("in", {})), list(d.get("out", {}))
    n, cf = d["n"], d.get("cf", {})

    def rel(t, u):
        # every flow divided by its factor is the same number
        xs = []
        for b in ins:
            xs.append((u[b, n], at(cf.get(b, 1), t)))
        for b in outs:
            xs.append((u[n, b], at(cf.get(b, 1), t)))
        for i in range(len(ins)):
            for o in range(len(ins), len(xs)):
                a, ca = xs[i]
                b, cb = xs[o]
                if not close(a * cb, b * ca):
                    return False
        return True

    return rel


def link_rel(d):
    n = d["n"]

    def rel(t, u):
        for a, b, f in d["cf"]:
            if not close(u[a, n] * at(f, t), u[n, b]):
                return False
        return True

    return rel


def pwl_rel(d):
    n = d["n"]
    (bi,), (bo,) = list(d["in"]), list(d["out"])
    bp, tab = d["bp"], d["table"]

    def table(x):
        xs, ys = tab
        for k in range(len(xs) - 1):
            if xs[k] <= x <= xs[k + 1]:
                return ys[k] + (ys[k + 1] - ys[k]) * (x - xs[k]) / (
                    xs[k + 1] - xs[k]
                )
        raise ValueError(x)

    def rel(t, u):
        x, y = u[bi, n], u[n, bo]
        if x < bp[0] - EPS or x > bp[-1] + EPS:
            return False
        for a, b in zip(bp, bp[1:]):
            if a - EPS <= x <= b + EPS:
                ya, yb = table(a), table(b)
                if close(y, ya + (yb - ya) * (x - a) / (b - a)):
                    return True
        return False

    return rel


def exturb_rel(d):
    """Extraction turbine: fuel, power and heat."""
    n = d["n"]
    (fuel,) = list(d["in"])
    (main,) = list(d["cff"])
    (tap,) = [b for b in d["out"] if b != main]

    def rel(t, u):
        P, Q, H = u[n, main], u[n, tap], u[fuel, n]
        em, et = at(d["cf"].get(main, 1), t), at(d["cf"].get(tap, 1), t)
        ec = at(d["cff"][main], t)
        # power lost per unit of heat extracted
        beta = (ec - em) / et
        if not close(H * ec, P + Q * beta):
            return False
        # not below the back-pressure line
        return le(Q * em / et, P)

    return rel


def gchp_rel(d, ctx):
    """Generic CHP: off, or somewhere in its field of operation."""
    n = d["n"]
    fb, F = d["fuel"]
    eb, E = d["el"]
    hb, H = d["heat"]

    def rel(t, u):
        def prm(src, k):
            return at(src["custom_properties"][k], t)

        fuel, power, heat = u[fb, n], u[n, eb], u[n, hb]
        if all(abs(x) <= EPS for x in (fuel, power, heat)):
            return True  # switched off
        if min(fuel, power, heat) < -EPS:
            return False
        # fuel demand without district heating at both ends of the range
        p_hi, p_lo = prm(E, "P_max_woDH"), prm(E, "P_min_woDH")
        f_hi = p_hi / prm(E, "Eta_el_max_woDH")
        f_lo = p_lo / prm(E, "Eta_el_min_woDH")
        if not le(f_lo, fuel) or not le(fuel, f_hi):
            return False
        # power without district heating lies on the line between them
        p_wo = p_lo + (fuel - f_lo) / (f_hi - f_lo) * (p_hi - p_lo)
        # every unit of heat costs beta units of power
        if not close(power, p_wo - at(d["beta"], t) * heat):
            return False
        cooling = prm(H, "Q_CW_min")
        rest = fuel * (1 - prm(F, "H_L_FG_share_max")) - cooling
        if d["bp"]:
            if not close(power + heat, rest):
                return False
        elif not le(power + heat, rest):
            return False
        if "H_L_FG_share_min" in F["custom_properties"]:
            most = fuel * (1 - prm(F, "H_L_FG_share_min")) - cooling
            if not le(most, power + heat):
                return False
        return True

    return rel


class CaesPart:
    """Compressed air plant.  state = (cavern content, least and largest
    content the heat storage can have)."""

    def __init__(self, d, ctx):
        self.d, self.ctx = d, ctx
        n = d["n"]
        (eo,) = list(d["out"])
        self.cmp, self.fuel = (d["el"], n), (d["gas"], n)
        self.exp = (n, eo)

    def init(self):
        return {(0.0, 0.0, 0.0): 0.0}

    def step(self, state, t, u):
        cav, tlo, thi = state
        q, dt = self.d["params"], self.ctx.dt[t]
        pc, pe, fuel = u[self.cmp], u[self.exp], u[self.fuel]
        if min(pc, pe, fuel) < -EPS:
            return
        # both machines: off, or between the least power and what the
        # present filling of the cavern allows
        on = {}
        for p, m in ((pc, "cmp"), (pe, "exp")):
            on[m] = 0
            if p > EPS:
                on[m] = 1
                if not le(q[m + "_p_min"], p):
                    return
                full = q[m + "_p_max_m"] * q["cav_level_max"]
                if not le(p, full + q[m + "_p_max_b"]):
                    return
            lim = q[m + "_p_max_m"] * cav + q[m + "_p_max_b"]
            if lim < -EPS or not le(p, lim):
                return
        # heat set free by the compression
        heat = q["cmp_q_out_m"] * pc + q["cmp_q_out_b"] * on["cmp"]
        if heat < -EPS:
            return
        store = heat * q["cmp_q_tes_share"]
        # heat needed for the expansion: fuel, heat storage, other source
        need = q["exp_q_in_m"] * pe + q["exp_q_in_b"] * on["exp"]
        if need < -EPS:
            return
        if not close(fuel, need * (1 - q["exp_q_tes_share"])):
            return
        other = max(0.0, need - fuel)
        ein = q["cav_e_in_m"] * pc
        eout = q["cav_e_out_m"] * pe
        if ein < -EPS or eout < -EPS:
            return
        cav = rnd((cav + dt * (ein - eout)) / q["cav_eta_temp"])
        if cav < -EPS or not le(cav, q["cav_level_max"]):
            return
        tlo = rnd(max(0.0, tlo + dt * (store - other)))
        thi = rnd(min(q["tes_level_max"], thi + dt * store))
        if not le(tlo, thi):
            return
        yield (cav, tlo, thi), 0.0, False

    def final(self, state):
        return 0.0, False


def offset_pred(d, ctx, parts):
    n = d["n"]
    flows = {(b, n): f for b, f in d.get("in", {}).items()}
    flows.update({(n, b): f for b, f in d.get("out", {}).items()})
    ref = [k for k, f in flows.items() if f.get("nonconvex") is not None]
    (ref,) = ref
    cf, off = d.get("cf", {}), d.get("off", {})

    def pred(t, stat, u):
        cap = parts[ref].cap[t]
        for k in flows:
            if k == ref:
                continue
            b = k[0] if k[1] == n else k[1]
            if "coeff" in d:
                # output = slope * input + offset * capacity while on
                c0, c1 = (at(x, t) for x in d["coeff"])
                if not close(u[ref], c1 * u[k] + stat[ref] * cap * c0):
                    return False
                continue
            want = u[ref] * at(cf.get(b, 1), t) + stat[ref] * cap * at(
                off.get(b, 0), t
            )
            if not close(u[k], want):
                return False
        return True

    return ref, pred


# ---------------------------------------------------------------- the whole
class Ref:
    def __init__(self, cfg):
        self.cfg = cfg
        self.ctx = Ctx(cfg)
        self.flows = {}
        for d in cfg["nodes"]:
            n = d["n"]
            for b, f in d.get("in", {}).items():
                self.flows[b, n] = f
            for b, f in d.get("out", {}).items():
                self.flows[n, b] = f
            if d["k"] == "gchp":
                self.flows[d["fuel"][0], n] = d["fuel"][1]
                self.flows[n, d["el"][0]] = d["el"][1]
                self.flows[n, d["heat"][0]] = d["heat"][1]
        self.storages = [d for d in cfg["nodes"] if d["k"] == "storage"]

    def start(self, static):
        """static: {("inv", i, o, p): v, ("sinv", n, p): v,
        ("soc", n, 0): v} -> None (not allowed) or (cost, parts)."""
        ctx, cfg = self.ctx, self.cfg
        cost = 0.0
        percost = [0.0] * ctx.P
        totcost = 0.0
        caps, inv_of = {}, {}
        for k, f in self.flows.items():
            if "investment" not in f:
                continue
            inv = f["investment"]
            amounts = [static["inv", k[0], k[1], p] for p in range(ctx.P)]
            r = invest_rules(inv, amounts, ctx)
            if r is None:
                return None
            caps[k], c, pc = r
            inv_of[k] = amounts
            cost += c + invest_fixed_costs(inv, amounts, ctx)
            totcost += c
            percost = [a + b for a, b in zip(percost, pc)]
        scaps = {}
        parts, st_parts = [], {}
        for d in self.storages:
            n = d["n"]
            sc = 0.0
            if "investment" in d:
                inv = d["investment"]
                amounts = [static["sinv", n, p] for p in range(ctx.P)]
                r = invest_rules(
                    inv, amounts, ctx, interest=ctx.dr, storage=True
                )
                if r is None:
                    return None
                scaps[n], c, pc = r
                sc = c + invest_fixed_costs(inv, amounts, ctx)
                totcost += c
                percost = [a + b for a, b in zip(percost, pc)]
                inv_of[n] = amounts
            else:
                scaps[n] = [d["nominal_capacity"]] * ctx.P
            if not self.relations(d, scaps[n], caps):
                return None
            part = (StoragePart if ctx.seq is None else TsaStoragePart)(
                d, ctx, scaps[n], static.get(("soc", n, 0), 0.0), sc
            )
            st_parts[n] = part
            parts.append(part)
        fparts = {
            k: FlowPart(k, f, ctx, caps.get(k)) for k, f in self.flows.items()
        }
        gpreds = []
        for d in cfg["nodes"]:
            k = d["k"]
            n = d["n"]
            if k == "bus":
                if d.get("balanced", True):
                    parts.append(Relation(self.bus_rel(n)))
            elif k == "converter":
                parts.append(Relation(converter_rel(d)))
            elif k == "link":
                parts.append(Relation(link_rel(d)))
            elif k == "pwl":
                parts.append(Relation(pwl_rel(d)))
            elif k == "exturb":
                parts.append(Relation(exturb_rel(d)))
            elif k == "gchp":
                parts.append(Relation(gchp_rel(d, ctx)))
            elif k == "caes":
                parts.append(CaesPart(d, ctx))
            elif k == "offset":
                ref, pred = offset_pred(d, ctx, fparts)
                gpreds.append(([ref], pred))
        for c in cfg.get("constraints", []):
            r = self.constraint(
                c, parts, st_parts, gpreds, caps, scaps, inv_of,
                totcost, percost,
            )
            if not r:
                return None
        # merge coupled on/off flows
        gid = {}
        groups = []
        for keys, pred in gpreds:
            hit = sorted({gid[k] for k in keys if k in gid})
            merged = {"keys": [], "preds": [pred]}
            for h in hit:
                merged["keys"] += groups[h]["keys"]
                merged["preds"] += groups[h]["preds"]
                groups[h] = None
            for k in keys:
                if k not in merged["keys"]:
                    merged["keys"].append(k)
            groups.append(merged)
            for k in merged["keys"]:
                gid[k] = len(groups) - 1
        for g in groups:
            if g is not None:
                parts.append(
                    Group([fparts[k] for k in g["keys"]], g["preds"])
                )
        for k, p in fparts.items():
            if k not in gid:
                parts.append(p)
        self.st_parts = st_parts
        self.caps = caps
        return cost, parts

    def derived(self, traj):
        """Quantities that follow from a whole trajectory."""
        out = {}
        for (i, o), c in self.caps.items():
            # the bookkeeping variable only exists without on/off behaviour
            if self.flows[i, o].get("nonconvex") is None:
                for p, v in enumerate(c):
                    out["tot", i, o, p] = v
        for n, p in self.st_parts.items():
            con = p.contents(traj)
            if self.ctx.seq is not None:
                # the model keeps the content between typical periods
                con = [con[j] for j in self.ctx.marks]
            for t, c in enumerate(con):
                out["soc", n, t] = c
        return out

    def bus_rel(self, n):
        ins = [k for k in self.flows if k[1] == n]
        outs = [k for k in self.flows if k[0] == n]

        def rel(t, u):
            return close(sum(u[k] for k in ins), sum(u[k] for k in outs))

        return rel

    def relations(self, d, scap, caps):
        n = d["n"]
        kin = [(b, n) for b in d.get("in", {})]
        kout = [(n, b) for b in d.get("out", {})]
        rin = d.get("invest_relation_input_capacity")
        rout = d.get("invest_relation_output_capacity")
        rio = d.get("invest_relation_input_output")
        for p in range(self.ctx.P):
            if rin is not None and not close(
                caps[kin[0]][p], scap[p] * at(rin, p)
            ):
                return False
            if rout is not None and not close(
                caps[kout[0]][p], scap[p] * at(rout, p)
            ):
                return False
            if rio is not None and not close(
                caps[kin[0]][p], caps[kout[0]][p] * at(rio, p)
            ):
                return False
        return True

    def constraint(self, c, parts, sts, gpreds, caps, scaps, inv_of,
                   totcost, percost):
        """-> False if the static choices violate it"""
        ctx, k = self.ctx, c["c"]
        prop = lambda key, q: (  # noqa
            (self.flows[key].get("custom_properties") or {}).get(q)
        )
        if k in ("emission_limit", "integral", "emission_limit_per_period",
                 "integral_per_period"):
            kw = c.get("keyword", "emission_factor")
            keys = (
                [tuple(x) for x in c["flows"]]
                if "flows" in c
                else [q for q in self.flows if prop(q, kw) is not None]
            )
            w = {
                q: [ctx.dt[t] * ctx.tw[t] * at(prop(q, kw), t)
                    for t in range(ctx.T)]
                for q in keys
            }
            up = c.get("upper", c.get("limit"))
            lo = c.get("lower")
            groups = (
                ctx.per if k.endswith("per_period")
                else [0] * ctx.T
            )
            parts.append(SumLimit(w, up, lo, groups))
        elif k == "investment_limit":
            return le(totcost, c["limit"])
        elif k == "investment_limit_per_period":
            return all(
                le(v, at(c["limit"], p)) for p, v in enumerate(percost)
            )
        elif k == "additional":
            tot = 0.0
            kw = c["keyword"]
            for q, a in inv_of.items():
                if isinstance(q, tuple):
                    inv = self.flows[q]["investment"]
                else:
                    continue
                f = (inv.get("custom_properties") or {}).get(kw)
                if f is not None:
                    tot += sum(a) * f
            return le(tot, c["limit"])
        elif k == "equate_flows":
            f1 = [tuple(x) for x in c["f1"]]
            f2 = [tuple(x) for x in c["f2"]]
            fac = c.get("factor", 1)
            parts.append(
                Relation(
                    lambda t, u: close(
                        sum(u[q] for q in f1) * fac, sum(u[q] for q in f2)
                    )
                )
            )
        elif k == "equate_kw":
            f1 = [q for q in self.flows if prop(q, c["k1"]) is not None]
            f2 = [q for q in self.flows if prop(q, c["k2"]) is not None]
            fac = c.get("factor", 1)
            parts.append(
                Relation(
                    lambda t, u: close(
                        sum(u[q] for q in f1) * fac, sum(u[q] for q in f2)
                    )
                )
            )
        elif k == "equate_invest":
            def val(key, p):
                key = key if isinstance(key, str) else tuple(key)
                return inv_of[key][p]

            return close(
                val(c["v1"], c.get("p1", 0)) * c.get("factor", 1),
                val(c["v2"], c.get("p2", 0)),
            )
        elif k in ("count", "count_kw"):
            if k == "count":
                keys = [tuple(x) for x in c["flows"]]
            else:
                keys = [
                    q for q, f in self.flows.items()
                    if prop(q, c["keyword"]) is not None
                    and f.get("nonconvex") is not None
                ]
            lo = c.get("lower", 0)
            up = c.get("upper")
            up = len(keys) if up is None else up

            def pred(t, stat, u, keys=keys, lo=lo, up=up):
                return lo <= sum(stat[q] for q in keys) <= up

            gpreds.append((keys, pred))
        elif k == "shared":
            if c["quantity"] == "flow":
                ws = {tuple(x): w for x, w in zip(c["comps"], c["weights"])}
                lo, up = c.get("lower", 0), c.get("upper")
                up = INF if up is None else up

                def rel(t, u):
                    v = sum(w * u[q] for q, w in ws.items())
                    return le(lo, v) and le(v, up)

                parts.append(Relation(rel))
                return True
            comps = [sts[x] for x in c["comps"]]
            ws = dict(zip(c["comps"], c["weights"]))
            lo, up = c.get("lower", 0), c.get("upper")
            up = INF if up is None else up

            def fn(t, con, u):
                # judged at the start of every interval; the end of the last
                # one is the end of the horizon
                v = sum(ws[x] * con[x][0] for x in ws)
                if not (le(lo, v) and le(v, up)):
                    return False
                if t == ctx.T - 1:
                    v = sum(ws[x] * con[x][1] for x in ws)
                    if not (le(lo, v) and le(v, up)):
                        return None
                return True

            parts.append(StorageWatch(comps, fn))
        elif k == "storage_level":
            st = sts[c["storage"]]
            b = c["bus"]

            def fn(t, con, u):
                before, after = con[st.n]
                cap = st.caps[ctx.per[t]]
                for x, lvl in c.get("out", {}).items():
                    if u[b, x] > EPS and not le(lvl * cap, after):
                        return False
                for x, lvl in c.get("inp", {}).items():
                    if u[x, b] > EPS and not le(before, lvl * cap):
                        return False
                return True

            parts.append(
                (StorageWatch if ctx.seq is None else TsaWatch)([st], fn)
            )
        else:
            raise ValueError(k)
        return True
