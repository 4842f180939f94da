"""Results tables show exactly the values of the solved model."""

import itertools
import math
import warnings

import pandas as pd
from oemof import solph
from pyomo.environ import Var
from pyomo.opt import SolverResults

from .. import catalog, spec
from ..explore import Stats, finish

RULE = (
    "every kind of component and option x every kind of time axis; the values"
    " of all variables are pairwise different (and, in a second state, those"
    " the solver found); every access of every table in both interfaces is"
    " compared with the values of the model, cell by cell and label by label"
)
ASSUMPTIONS = [
    "in models with several periods whose time index has no point for the end"
    " of the last interval, the results dictionary may leave out the final"
    " storage content, for which there is no label",
    "auxiliary variables of Pyomo's piecewise functions are not judged",
]


def axis_labels(tm):
    """labels of the T+1 points in time, computed from the description"""
    T = len(tm["dt"])
    if "periods" in tm:
        lab = []
        for p in tm["periods"]:
            z = pd.Timestamp(p["start"])
            lab += [z + pd.Timedelta(hours=h) for h in range(p["n"])]
        return lab + [lab[-1] + pd.Timedelta(hours=tm["dt"][-1])]
    h = catalog.points(tm["dt"])
    k = tm.get("kind", "num")
    if k in ("num", "tinc"):
        return h
    if k == "axis":
        return list(tm["axis"]["pts"])
    z = pd.Timestamp("2021-03-01")
    assert T + 1 == len(h)
    return [z + pd.Timedelta(hours=x) for x in h]


def eq(a, b):
    if a is None or (isinstance(a, float) and math.isnan(a)):
        return b is None or (isinstance(b, float) and math.isnan(b))
    if b is None:
        return False
    return a == b


def model_vars(m):
    """name -> {index: value} of everything the model decides; auxiliary
    variables of Pyomo's piecewise blocks left out. An index is the tuple
    without the points in time, its time kind and the position."""
    out = {}
    for v in m.component_objects(Var):
        full = v.name
        if "piecewise" in full:
            continue
        name = full.split(".")[-1]
        if not len(v):
            out.setdefault(name, {})
            continue
        subs = [s.name for s in v.index_set().subsets()]
        kind = subs[-1]
        d = out.setdefault(name, {})
        for i in v:
            t = i if isinstance(i, tuple) else (i,)
            if kind in ("TIMESTEPS", "TIMEPOINTS", "PERIODS"):
                key = (t[:-1], kind, t[-1])
            elif kind == "TIMEINDEX":
                key = (t[:-2], "TIMESTEPS", t[-1])
            else:
                key = (t, "", None)
            assert key not in d
            d[key] = v[i].value
    return out


def fill(m):
    k = 0
    for v in m.component_data_objects(Var):
        k += 1
        v.set_value(k + 0.5, skip_validation=True)
    m.solver_results = SolverResults()
    m.es.results = m.solver_results


class Bad(Exception):
    pass


def check_results(m, lab, st):
    """the Results object"""
    T = len(lab) - 1
    res = solph.Results(m)
    want = model_vars(m)
    for name, d in want.items():
        if d and name not in res.keys():
            raise Bad("Results: %s is missing" % name)
        if d and name not in res:
            raise Bad("Results: '%s' in results is False" % name)
        for access in ("get", "item", "again"):
            if not d:
                continue
            st.add("transitions")
            df = res[name] if access == "item" else res.get(name)
            cells = 0
            for (nodes, kind, t), val in d.items():
                col = nodes if len(nodes) > 1 else nodes[0] if nodes else None
                if kind == "":
                    # no time: one row for each component
                    try:
                        got = df.loc[nodes if len(nodes) > 1 else nodes[0]]
                        got = got if isinstance(got, float) else got.iloc[0]
                    except Exception as e:
                        raise Bad("Results: no %s of %s: %r"
                                  % (name, nodes, e))
                else:
                    row = t if kind == "PERIODS" else lab[t]
                    n = T + (kind == "TIMEPOINTS")
                    if kind != "PERIODS" and len(df) != n:
                        raise Bad("Results: %s has %d rows instead of %d"
                                  % (name, len(df), n))
                    if kind != "PERIODS" and list(df.index) != lab[:n]:
                        raise Bad("Results: %s is labelled %s instead of %s"
                                  % (name, list(df.index), lab[:n]))
                    if col is None:
                        got = df.loc[row]
                        got = got if isinstance(got, float) else got.iloc[0]
                    else:
                        cols = [j for j, c in enumerate(df.columns)
                                if c == col]
                        if len(cols) != 1:
                            raise Bad("Results: %d columns %s in %s"
                                      % (len(cols), col, name))
                        rows = [j for j, r in enumerate(df.index) if r == row]
                        if len(rows) != 1:
                            raise Bad("Results: %d rows %s in %s"
                                      % (len(rows), row, name))
                        got = df.iloc[rows[0], cols[0]]
                if not eq(val, float(got) if got is not None else None):
                    raise Bad("Results: %s of %s at %s is %s instead of %s"
                              % (name, [str(x) for x in nodes], t, got, val))
                cells += val is not None
                st.add("cells")
            full = int(df.notna().to_numpy().sum())
            if full != cells:
                raise Bad("Results: %s has %d values instead of %d"
                          % (name, full, cells))
    for name in ("no such thing", "flo", ""):
        if name in res or name in res.keys() or res.get(name) is not None:
            raise Bad("Results: %r exists" % name)
        try:
            res[name]
        except KeyError:
            pass
        else:
            raise Bad("Results: no KeyError for %r" % name)
    for name in res.keys():
        if name not in res:
            raise Bad("Results: %r in results is False" % name)
        try:
            res[name]
        except KeyError:
            raise Bad("Results: KeyError for %r" % name)
    if res["objective"] != m.objective():
        raise Bad("Results: objective is %s instead of %s"
                  % (res["objective"], m.objective()))


def check_dict(m, lab, st, mp, years, remove):
    """the dictionary of processing.results"""
    T = len(lab) - 1
    r = solph.processing.results(m, remove_last_time_point=remove)
    st.add("transitions")
    want = {}
    for name, d in model_vars(m).items():
        for (nodes, kind, t), val in d.items():
            want.setdefault(nodes, {}).setdefault(name, {})[kind, t] = val
    keys = set()
    sc = "period_scalars" if mp else "scalars"
    for nodes, names in want.items():
        if all(v is None for x in names.values() for v in x.values()):
            continue
        if not nodes:
            # a variable of the whole model
            continue
        key = nodes if len(nodes) > 1 else (nodes[0], None)
        keys.add(key)
        if key not in r:
            raise Bad("results: no %s" % (key,))
        tab = r[key]
        if set(tab) != {sc, "sequences"}:
            raise Bad("results: %s has %s" % (key, list(tab)))
        se, s = tab["sequences"], tab[sc]
        for name, vals in names.items():
            if all(v is None for v in vals.values()):
                continue
            kind = next(iter(vals))[0]
            st.add("cells", len(vals))
            where = "results: %s of %s" % (name, [str(x) for x in nodes])
            if kind in ("TIMESTEPS", "TIMEPOINTS"):
                if list(se.columns).count(name) != 1:
                    raise Bad(where + ": %d columns in the sequences"
                              % list(se.columns).count(name))
                got = {a: b for a, b in zip(se.index, se[name])}
                if len(got) != len(se):
                    raise Bad(where + ": labels appear twice")
                last = mp or remove
                for (_, t), val in vals.items():
                    if t == T and last:
                        # there may be no label for the final content
                        if lab[T] in got and not eq(val, got[lab[T]]):
                            raise Bad(where + ": final value %s" % got[lab[T]])
                        continue
                    if lab[t] not in got:
                        raise Bad(where + ": no row %s in %s"
                                  % (lab[t], list(se.index)))
                    if not eq(val, float(got[lab[t]])):
                        raise Bad(where + " at %s is %s instead of %s"
                                  % (lab[t], got[lab[t]], val))
                n = T + (not last)
                if len(se) not in ((n, T, T + 1) if mp else (n,)):
                    raise Bad(where + ": %d rows" % len(se))
                if kind == "TIMESTEPS" and lab[T] in got and not eq(
                    None, float(got[lab[T]])
                ):
                    raise Bad(where + ": a value after the last interval")
            elif kind == "PERIODS" and mp:
                if name not in s.columns:
                    raise Bad(where + " is not among the period scalars %s"
                              % list(s.columns))
                got = dict(zip(s.index, s[name]))
                if sorted(got) != years or len(s) != len(years):
                    raise Bad(where + ": periods %s" % list(s.index))
                for (_, p), val in vals.items():
                    if not eq(val, float(got[years[p]])):
                        raise Bad(where + " in %s is %s instead of %s"
                                  % (years[p], got[years[p]], val))
            else:
                if kind == "" and mp:
                    continue
                if name not in s.index:
                    raise Bad(where + " is not among the scalars %s,"
                              " sequences have %s"
                              % (list(s.index), list(se.columns)))
                (val,) = vals.values()
                if not eq(val, float(s[name])):
                    raise Bad(where + " is %s instead of %s" % (s[name], val))
        extra = (set(se.columns) | set(s.columns if mp else s.index)) - set(
            names)
        if extra - {"duals"}:
            raise Bad("results: %s has unknown %s" % (key, extra))
    other = {
        k for k in r
        if k not in keys and all(isinstance(x, solph.Bus) or x is None or
                                 hasattr(x, "inputs") for x in k)
    }
    if m.dual is None and other:
        raise Bad("results: unknown entries %s" % other)
    return r


def check_duals(m, r, lab, st, mp):
    T = len(lab) - 1
    bal = {}
    for i in getattr(m.BusBlock, "balance", ()):
        con = m.BusBlock.balance[i]
        if con in m.dual:
            bal.setdefault(i[0], {})[i[-1]] = m.dual[con]
    for b, vals in bal.items():
        if (b, None) not in r:
            raise Bad("results: no duals of %s" % b)
        se = r[b, None]["sequences"]
        got = dict(zip(se.index, se["duals"]))
        for t, v in vals.items():
            st.add("cells")
            if lab[t] not in got or not eq(v, float(got[lab[t]])):
                raise Bad("results: dual of %s at %s is %s instead of %s"
                          % (b, lab[t], got.get(lab[t]), v))
        if len(se) not in (T, T + 1):
            raise Bad("results: %d duals of %s" % (len(se), b))


def run(task):
    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0, solver_calls=0)
    viol, seen = [], set()
    lab = axis_labels(task["time"])
    mp = "periods" in task["time"]
    years = [pd.Timestamp(p["start"]).year for p in
             task["time"].get("periods", [])]

    def attempt(what, f, *a):
        st.add("leaves")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = f(*a)
            st.add("accepted")
            st.add("validated")
            return r
        except Bad as e:
            viol.append({"what": "%s: %s" % (what, e)})
        except Exception as e:  # noqa
            import traceback

            w = traceback.extract_tb(e.__traceback__)[-1]
            viol.append({"what": "%s fails: %s: %s (%s:%d)" % (
                what, type(e).__name__, str(e)[:120], w.filename, w.lineno)})
        return None

    for state in ("distinct", "solved", "duals"):
        b = spec.build(task)
        m = b.m
        if state == "duals" and task.get("discrete"):
            continue
        if state == "distinct":
            fill(m)
        else:
            if state == "duals":
                m.receive_duals()
            m.solve(solver="cbc")
            st.add("solver_calls")
        st.add("states")
        before = model_vars(m)
        attempt(state + ", Results", check_results, m, lab, st)
        for remove in (False, True):
            r = attempt("%s, remove_last_time_point=%s" % (state, remove),
                        check_dict, m, lab, st, mp, years, remove)
            if state == "duals" and r is not None and not remove:
                attempt("duals", check_duals, m, r, lab, st, mp)
        if str(before) != str(model_vars(m)):
            viol.append({"what": "reading results changed the model"})
        seen.add((state, len(before)))
    return finish(task, st, viol[:4], [], seen)


DISCRETE = {"integer", "nonconvex", "invest", "invnc", "invstorage", "offset",
            "gchp", "caes", "pwl", "limits", "level", "storage"}


def tasks(tier):
    full = tier == "thorough"
    names = list(catalog.FEATURES)
    pairs = list(itertools.combinations(names, 2))
    done = set()
    for T in (1, 2, 3, 4) if full else (1, 2, 3):
        for ax, (tm, mp) in catalog.axes(T).items():
            sets = [[f] for f in names]
            sets.append(list(names))
            if full or (T == 2 and ax in ("dt", "mp")):
                sets += [list(p) for p in pairs]
            for s in sets:
                s = [f for f in s if catalog.usable(f, mp)]
                if not s:
                    continue
                c = catalog.system(s, T, ax)
                if c["name"] in done:
                    continue
                done.add(c["name"])
                c["discrete"] = bool(DISCRETE & set(s))
                yield c
                # classes of the user derived from the ones of the library
                if (full or ax in ("dt", "mp")) and T == 2:
                    yield {**c, "classes": "own", "name": "own " + c["name"]}
