"""The real built pyomo model, turned into something that can be *evaluated*
on every trajectory of a bounded space.

``System(model)`` reads the active constraints, variable bounds, domains and
the objective of the model that oemof.solph really built.  Nothing about how
solph names or structures its constraints is assumed: only the mathematical
content is used.

``System.evaluate(observed, X)`` takes a list of observed pyomo variables and
a matrix with one concrete trajectory per row, and decides for each row
whether hidden variables exist that complete it to a feasible point of the
real model, and the least objective value among those completions.

Hidden variables are resolved in this order:
  1. equality propagation (a row with a single unresolved variable defines it)
  2. the rest falls apart into independent components; explicit enumeration
     of all assignments of the hidden binaries of each component
  3. only where continuous hidden variables are still not determined: the
     completion of that component is delegated to HiGHS with everything
     observed held fixed.
"""

import itertools
import math

import numpy as np
import pyomo.environ as po
from pyomo.core.base.sos import SOSConstraint
from pyomo.repn import generate_standard_repn

TOL = 1e-6
INF = math.inf


class Unsupported(Exception):
    pass


class System:
    def __init__(self, model):
        self.vars = []
        self.idx = {}
        lb, ub, integer = [], [], []
        for v in model.component_data_objects(po.Var, active=True):
            self._add(v, lb, ub, integer)
        rows = []
        for con in model.component_data_objects(po.Constraint, active=True):
            lo = po.value(con.lower) if con.lower is not None else -INF
            hi = po.value(con.upper) if con.upper is not None else INF
            rep = generate_standard_repn(con.body, compute_values=True)
            if rep.nonlinear_expr is not None:
                raise Unsupported("nonlinear constraint " + con.name)
            lin = {}
            for c, v in zip(rep.linear_coefs, rep.linear_vars):
                j = self._add(v, lb, ub, integer)
                lin[j] = lin.get(j, 0.0) + float(c)
            quad = []
            for c, (v, w) in zip(rep.quadratic_coefs, rep.quadratic_vars):
                quad.append(
                    (
                        float(c),
                        self._add(v, lb, ub, integer),
                        self._add(w, lb, ub, integer),
                    )
                )
            k = float(rep.constant)
            rows.append((con.name, lin, quad, lo - k, hi - k))
        self.sos = list(
            model.component_data_objects(SOSConstraint, active=True)
        )
        objs = list(model.component_data_objects(po.Objective, active=True))
        if len(objs) != 1:
            raise Unsupported("expected exactly one objective")
        rep = generate_standard_repn(objs[0].expr, compute_values=True)
        if rep.nonlinear_expr is not None:
            raise Unsupported("nonlinear objective")
        if rep.quadratic_vars:
            raise Unsupported("quadratic objective")
        self.sign = 1.0 if objs[0].sense == po.minimize else -1.0
        obj = {}
        for c, v in zip(rep.linear_coefs, rep.linear_vars):
            j = self._add(v, lb, ub, integer)
            obj[j] = obj.get(j, 0.0) + float(c)
        n = len(self.vars)
        self.n = n
        self.c = np.zeros(n)
        for j, c in obj.items():
            self.c[j] = c
        self.c0 = float(rep.constant)
        self.rows = rows
        self.lb = np.array(lb, dtype=float)
        self.ub = np.array(ub, dtype=float)
        self.integer = np.array(integer, dtype=bool)

    def _add(self, v, lb, ub, integer):
        key = id(v)
        j = self.idx.get(key)
        if j is not None:
            return j
        j = len(self.vars)
        self.idx[key] = j
        self.vars.append(v)
        if v.fixed:
            val = po.value(v)
            lo = hi = -INF if val is None else float(val)
            # a fixed variable still has to be inside its domain: checked by
            # keeping lb == ub == value (solph relies on fixing only)
        else:
            lo = -INF if v.lb is None else float(v.lb)
            hi = INF if v.ub is None else float(v.ub)
        lb.append(lo)
        ub.append(hi)
        integer.append(bool(v.is_integer() or v.is_binary()))
        return j

    def index(self, v):
        return self.idx[id(v)]

    # ------------------------------------------------------------------
    def plan(self, observed):
        """Prepare evaluation for a list of observed variables."""
        return Plan(self, [self.index(v) for v in observed])


class Plan:
    """Evaluation plan for one set of observed variables."""

    MAXCOMBO = 1 << 18

    def __init__(self, sys_, obs):
        self.s = s = sys_
        self.obs = list(obs)
        no = self.no = len(self.obs)
        obsset = set(self.obs)
        if len(obsset) != no:
            raise Unsupported("variable observed twice")
        # a fixed variable / lb==ub hidden variable is a constant
        self.expr = {}
        self.base = list(self.obs)
        self.const = {}
        used = set()
        for _, lin, quad, _, _ in s.rows:
            used.update(j for j, c in lin.items() if c != 0.0)
            for _, a, b in quad:
                used.update((a, b))
        used.update(np.nonzero(s.c)[0].tolist())
        for sos in s.sos:
            for v in sos.variables:
                used.add(s.index(v))
        # a variable without any admissible value makes the model infeasible
        self.dead = bool(np.any(s.lb > s.ub + TOL))
        unresolved = set()
        for j in range(s.n):
            if j in obsset:
                continue
            if s.lb[j] == s.ub[j]:
                self.const[j] = s.lb[j]
            elif j in used:
                unresolved.add(j)
        # sparse expressions: dict base-symbol -> coef; symbol -1 = constant
        for j in self.obs:
            self.expr[j] = {j: 1.0}
        for j, v in self.const.items():
            self.expr[j] = {-1: v}
        pending = list(s.rows)
        self.rows = []  # (expr, {cont: coef}, quad, lo, hi)
        finite_int = [
            j
            for j in sorted(unresolved)
            if s.integer[j] and np.isfinite(s.lb[j]) and np.isfinite(s.ub[j])
        ]
        self.choices = []
        sos_vars = {s.index(v) for q in s.sos for v in q.variables}
        while True:
            progress = True
            while progress:
                progress = False
                rest = []
                for row in pending:
                    name, lin, quad, lo, hi = row
                    un = [
                        j for j, c in lin.items() if c != 0 and j in unresolved
                    ]
                    qun = any(
                        a in unresolved or b in unresolved for _, a, b in quad
                    )
                    if not un and not qun:
                        self.rows.append(
                            (self._sub(lin), {}, self._subq(quad), lo, hi)
                        )
                        progress = True
                    elif (
                        len(un) == 1 and not quad and lo == hi
                        and abs(lin[un[0]]) > 1e-12
                        and un[0] not in sos_vars
                    ):
                        j = un[0]
                        e = {-1: lo}
                        for q, c in lin.items():
                            if q != j and c != 0:
                                for k, v in self.expr[q].items():
                                    e[k] = e.get(k, 0.0) - c * v
                        self.expr[j] = {
                            k: v / lin[j] for k, v in e.items() if v != 0.0
                        }
                        unresolved.discard(j)
                        progress = True
                    else:
                        rest.append(row)
                pending = rest
            nxt = [j for j in finite_int if j in unresolved]
            if not nxt:
                break
            # prefer choices that are tied to something by an equality
            pick = None
            for row in pending:
                if row[3] == row[4]:
                    for j in row[1]:
                        if j in unresolved and j in finite_int:
                            pick = j
                            break
                if pick is not None:
                    break
            if pick is None:
                pick = nxt[0]
            unresolved.discard(pick)
            self.choices.append(pick)
            self.expr[pick] = {pick: 1.0}
        self.unresolved = sorted(unresolved)
        for name, lin, quad, lo, hi in pending:
            if any(a in unresolved or b in unresolved for _, a, b in quad):
                raise Unsupported("quadratic row with hidden variables")
            known = {j: c for j, c in lin.items() if j not in unresolved}
            cont = {
                j: c for j, c in lin.items() if j in unresolved and c != 0
            }
            self.rows.append(
                (self._sub(known), cont, self._subq(quad), lo, hi)
            )
        # bounds of everything that is resolved
        ints = []
        for j, e in self.expr.items():
            if j in self.const:
                v = self.const[j]
                if s.integer[j] and abs(v - round(v)) > TOL:
                    self.dead = True
                continue
            if np.isfinite(s.lb[j]) or np.isfinite(s.ub[j]):
                self.rows.append((e, {}, [], s.lb[j], s.ub[j]))
            if s.integer[j]:
                ints.append(e)
        # objective
        oe = {-1: s.c0}
        ocont = {}
        for j in np.nonzero(s.c)[0].tolist():
            if j in unresolved:
                ocont[j] = s.c[j]
            else:
                for k, v in self.expr[j].items():
                    oe[k] = oe.get(k, 0.0) + s.c[j] * v
        self._components(ints, oe, ocont)
        self.solver_calls = 0

    # -------------------------------------------------------------- setup
    def _sub(self, lin):
        e = {}
        for j, c in lin.items():
            if c != 0:
                for k, v in self.expr[j].items():
                    e[k] = e.get(k, 0.0) + c * v
        return {k: v for k, v in e.items() if k == -1 or abs(v) > 1e-14}

    def _subq(self, quad):
        return [(c, self.expr[a], self.expr[b]) for c, a, b in quad]

    def _components(self, ints, oe, ocont):
        s = self.s
        hid = set(self.choices) | set(self.unresolved)
        parent = {j: j for j in hid}

        def find(a):
            while parent[a] != a:
                parent[a] = parent[parent[a]]
                a = parent[a]
            return a

        def syms(row):
            e, cont, quad = row[0], row[1], row[2]
            r = {k for k in e if k in hid}
            r.update(cont)
            for _, a, b in quad:
                r.update(k for k in a if k in hid)
                r.update(k for k in b if k in hid)
            return r

        groups = []
        for row in self.rows:
            groups.append(syms(row))
        igroups = [{k for k in e if k in hid} for e in ints]
        sgroups = [{s.index(v) for v in q.variables} & hid for q in s.sos]
        for g in groups + igroups + sgroups:
            g = list(g)
            for a in g[1:]:
                parent[find(a)] = find(g[0])
        self.obs_rows, self.obs_ints = [], []
        comps = {}
        for j in hid:
            comps.setdefault(
                find(j),
                {"vars": [], "rows": [], "ints": [], "sos": []},
            )["vars"].append(j)
        for row, g in zip(self.rows, groups):
            if not g:
                self.obs_rows.append(row)
            else:
                comps[find(next(iter(g)))]["rows"].append(row)
        for e, g in zip(ints, igroups):
            if not g:
                self.obs_ints.append(e)
            else:
                comps[find(next(iter(g)))]["ints"].append(e)
        for q, g in zip(s.sos, sgroups):
            if not g:
                raise Unsupported("SOS over observed variables only")
            comps[find(next(iter(g)))]["sos"].append(q)
        pos = {j: i for i, j in enumerate(self.obs)}
        self.pos = pos
        self.cobs = np.zeros(self.no)
        for k, v in oe.items():
            if k in pos:
                self.cobs[pos[k]] = v
        self.c0 = oe.get(-1, 0.0)
        self._mobs = self._matrix(self.obs_rows)
        self.comps = []
        for c in comps.values():
            c["vars"].sort()
            c["ch"] = [j for j in c["vars"] if j in set(self.choices)]
            c["co"] = [j for j in c["vars"] if j not in set(self.choices)]
            c["cost"] = np.array(
                [oe.get(j, 0.0) if j in set(self.choices) else
                 ocont.get(j, 0.0) for j in c["vars"]]
            )
            # observed columns this component depends on
            dep = set()
            for e, _, quad, _, _ in c["rows"]:
                dep.update(k for k in e if k in pos)
                for _, a, b in quad:
                    dep.update(k for k in a if k in pos)
                    dep.update(k for k in b if k in pos)
            for e in c["ints"]:
                dep.update(k for k in e if k in pos)
            c["dep"] = sorted(pos[k] for k in dep)
            size = 1
            for j in c["ch"]:
                size *= int(s.ub[j] - s.lb[j] + 1.5)
            quad = any(r[2] for r in c["rows"])
            if c["co"] or c["sos"] or size > self.MAXCOMBO:
                if quad:
                    raise Unsupported("quadratic hidden component")
                c["mode"] = "solve"
            else:
                c["mode"] = "enum"
                self._prepare_enum(c, size, quad)
            self.comps.append(c)

    def _matrix(self, rows):
        E = np.zeros((len(rows), self.no))
        k0 = np.zeros(len(rows))
        for i, (e, _, _, _, _) in enumerate(rows):
            for k, v in e.items():
                if k in self.pos:
                    E[i, self.pos[k]] = v
                elif k == -1:
                    k0[i] = v
        lo = np.array([r[3] for r in rows], dtype=float)
        hi = np.array([r[4] for r in rows], dtype=float)
        tl = TOL * np.maximum(1.0, np.where(np.isfinite(lo), np.abs(lo), 1))
        th = TOL * np.maximum(1.0, np.where(np.isfinite(hi), np.abs(hi), 1))
        return E, k0, lo - tl, hi + th

    def _evq(self, e, X, asg=None):
        v = np.zeros(len(X))
        for k, c in e.items():
            if k == -1:
                v += c
            elif k in self.pos:
                v += c * X[:, self.pos[k]]
            else:
                v += c * asg[k]
        return v

    def _prepare_enum(self, c, size, quad):
        s = self.s
        doms = [
            np.arange(math.ceil(s.lb[j] - 1e-9), math.floor(s.ub[j] + 1e-9) + 1)
            for j in c["ch"]
        ]
        grid = np.meshgrid(*doms, indexing="ij")
        A = np.stack([g.ravel() for g in grid], axis=1).astype(float)
        col = {j: i for i, j in enumerate(c["ch"])}
        E, k0, lo, hi = self._matrix(c["rows"])
        H = np.zeros((len(c["rows"]), len(c["ch"])))
        for i, (e, _, _, _, _) in enumerate(c["rows"]):
            for k, v in e.items():
                if k in col:
                    H[i, col[k]] = v
        isq = np.array([bool(r[2]) for r in c["rows"]], dtype=bool)
        honly = ~np.any(E != 0, axis=1) & ~isq
        ok = np.ones(len(A), dtype=bool)
        for i in np.nonzero(honly)[0]:
            v = A @ H[i] + k0[i]
            ok &= (v >= lo[i]) & (v <= hi[i])
        for e in c["ints"]:
            if not any(k in self.pos for k in e):
                v = np.full(len(A), e.get(-1, 0.0))
                for k, x in e.items():
                    if k in col:
                        v += x * A[:, col[k]]
                ok &= np.abs(v - np.round(v)) <= 1e-6
        A = A[ok]
        c["mints"] = [e for e in c["ints"] if any(k in self.pos for k in e)]
        mix = np.nonzero(~honly)[0]
        cost = A @ c["cost"]
        c["E"], c["k0"] = E[mix], k0[mix]
        c["lo"], c["hi"] = lo[mix], hi[mix]
        c["quad"] = [
            (n, c["rows"][i][2]) for n, i in enumerate(mix) if isq[i]
        ]
        F = A @ H[mix].T  # hidden contribution per assignment
        if len(A) and not quad and not c["mints"]:
            # assignments that look the same from outside: keep the cheapest
            key = np.round(F, 9)
            order = np.lexsort((self.s.sign * cost,))
            key, cost, A, F = key[order], cost[order], A[order], F[order]
            if key.shape[1]:
                _, first = np.unique(key, axis=0, return_index=True)
            else:
                first = np.array([0])
            cost, A, F = cost[first], A[first], F[first]
        c["A"], c["F"], c["acost"] = A, F, cost
        c["col"] = col

    # --------------------------------------------------------- evaluation
    def evaluate(self, X):
        """-> array of least completion cost (inf where infeasible)."""
        X = np.asarray(X, dtype=float)
        X = X.reshape(-1, self.no) if self.no else np.zeros((len(X), 0))
        N = len(X)
        sg = self.s.sign
        out = np.full(N, INF)
        if self.dead or not N:
            return out
        ok = np.ones(N, dtype=bool)
        if self.obs_rows:
            E, k0, lo, hi = self._mobs
            V = X @ E.T + k0
            for i, r in enumerate(self.obs_rows):
                for c, a, b in r[2]:
                    V[:, i] += c * self._evq(a, X) * self._evq(b, X)
            ok &= np.all((V >= lo) & (V <= hi), axis=1)
        for e in self.obs_ints:
            v = self._evq(e, X)
            ok &= np.abs(v - np.round(v)) <= 1e-6
        cost = X @ self.cobs + self.c0
        for c in self.comps:
            live = np.nonzero(ok)[0]
            if not len(live):
                break
            dep = c["dep"]
            P = np.round(X[live][:, dep], 9)
            if dep:
                U, first, inv = np.unique(
                    P, axis=0, return_index=True, return_inverse=True
                )
                inv = inv.ravel()
            else:
                first, inv = np.array([0]), np.zeros(len(live), dtype=int)
            XU = X[live][first]
            best = (
                self._enum(c, XU) if c["mode"] == "enum"
                else self._solve(c, XU)
            )
            b = best[inv]
            ok[live] &= b < INF
            cost[live] += np.where(b < INF, sg * b, 0.0)
        out[ok] = cost[ok]
        return out

    def _enum(self, c, X):
        """least sign*cost over the hidden assignments (inf: none)"""
        sg = self.s.sign
        best = np.full(len(X), INF)
        B = X @ c["E"].T + c["k0"]
        for a in range(len(c["A"])):
            V = B + c["F"][a]
            asg = None
            if c["quad"] or c["mints"]:
                asg = {j: c["A"][a, i] for j, i in c["col"].items()}
            if c["quad"]:
                V = V.copy()
                for n, q in c["quad"]:
                    for k, ea, eb in q:
                        V[:, n] += (
                            k * self._evq(ea, X, asg) * self._evq(eb, X, asg)
                        )
            ok = np.all((V >= c["lo"]) & (V <= c["hi"]), axis=1)
            for e in c["mints"]:
                v = self._evq(e, X, asg)
                ok &= np.abs(v - np.round(v)) <= 1e-6
            k = sg * c["acost"][a]
            best = np.where(ok & (k < best), k, best)
        return best

    def _solve(self, c, X):
        import highspy

        s = self.s
        inf = highspy.kHighsInf
        cap = lambda x: inf if x == INF else (-inf if x == -INF else x)  # noqa
        if "h" not in c:
            h = highspy.Highs()
            h.setOptionValue("output_flag", False)
            h.setOptionValue("threads", 1)
            h.setOptionValue("mip_rel_gap", 0.0)
            h.setOptionValue("mip_abs_gap", 1e-7)
            h.setOptionValue("primal_feasibility_tolerance", 1e-7)
            h.setOptionValue("mip_feasibility_tolerance", 1e-7)
            h.setOptionValue("presolve", "off")
            col = {}
            for n, j in enumerate(c["vars"]):
                h.addVar(cap(s.lb[j]), cap(s.ub[j]))
                h.changeColCost(n, s.sign * c["cost"][n])
                if s.integer[j]:
                    h.changeColIntegrality(n, highspy.HighsVarType.kInteger)
                col[j] = n
            for n, e in enumerate(c["ints"]):
                # an integer that was eliminated by an equation comes back
                h.addVar(-inf, inf)
                k = len(c["vars"]) + n
                h.changeColIntegrality(k, highspy.HighsVarType.kInteger)
                col["z", n] = k
                c["rows"] = c["rows"] + [(e, {("z", n): -1.0}, [], 0.0, 0.0)]
            for e, cont, _, lo, hi in c["rows"]:
                coef = {col[k]: v for k, v in e.items() if k in col}
                for k, v in cont.items():
                    coef[col[k]] = coef.get(col[k], 0.0) + v
                js = sorted(coef)
                h.addRow(
                    -inf, inf, len(js), np.array(js, dtype=np.int32),
                    np.array([coef[j] for j in js], dtype=float),
                )
            c["h"] = h
            E, k0, _, _ = self._matrix(c["rows"])
            c["E"], c["k0"] = E, k0
            c["rlo"] = np.array([r[3] for r in c["rows"]])
            c["rhi"] = np.array([r[4] for r in c["rows"]])
            # special ordered sets: every support they allow
            c["supports"] = None
            if c["sos"]:
                fams = []
                for q in c["sos"]:
                    items = sorted(q.get_items(), key=lambda z: z[1])
                    js = [s.index(v) for v, _ in items]
                    if any(j not in col for j in js):
                        raise Unsupported("SOS over resolved variables")
                    w = q.level
                    n = max(1, len(js) - w + 1)
                    fams.append(
                        [[j for j in js if j not in js[k : k + w]]
                         for k in range(n)]
                    )
                c["supports"] = [
                    sorted({col[j] for off in combo for j in off})
                    for combo in itertools.product(*fams)
                ]
        h = c["h"]
        B = X @ c["E"].T + c["k0"]
        best = np.full(len(X), INF)
        if c["supports"] is not None:
            for off in c["supports"]:
                for n in off:
                    j = c["vars"][n]
                    h.changeColBounds(n, max(0.0, s.lb[j]), min(0.0, s.ub[j]))
                best = np.minimum(best, self._solve_rows(c, h, B, cap))
                for n in off:
                    j = c["vars"][n]
                    h.changeColBounds(n, cap(s.lb[j]), cap(s.ub[j]))
            return best
        return self._solve_rows(c, h, B, cap)

    def _solve_rows(self, c, h, B, cap):
        import highspy

        s = self.s
        best = np.full(len(B), INF)
        for r in range(len(B)):
            for i in range(len(c["rows"])):
                h.changeRowBounds(
                    i, cap(c["rlo"][i] - B[r, i]), cap(c["rhi"][i] - B[r, i])
                )
            h.clearSolver()
            h.run()
            self.solver_calls += 1
            st = h.getModelStatus()
            if st == highspy.HighsModelStatus.kOptimal:
                best[r] = h.getInfo().objective_function_value
            elif st == highspy.HighsModelStatus.kInfeasible:
                pass
            elif st in (
                highspy.HighsModelStatus.kUnboundedOrInfeasible,
                highspy.HighsModelStatus.kUnbounded,
            ):
                for n in range(len(c["vars"])):
                    h.changeColCost(n, 0.0)
                h.clearSolver()
                h.run()
                if h.getModelStatus() == highspy.HighsModelStatus.kOptimal:
                    best[r] = -1e30
                for n in range(len(c["vars"])):
                    h.changeColCost(n, s.sign * c["cost"][n])
            elif st == highspy.HighsModelStatus.kModelEmpty:
                best[r] = 0.0
            else:
                raise Unsupported("HiGHS status %s" % st)
        return best

    def values(self, var, X):
        """Values of a variable fully determined by the observed ones
        (None when it is not)."""
        X = np.asarray(X, dtype=float).reshape(-1, self.no)
        j = self.s.index(var)
        e = self.expr.get(j)
        if e is None or any(k != -1 and k not in self.pos for k in e):
            return None
        return self._evq(e, X)
