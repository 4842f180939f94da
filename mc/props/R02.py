"""Views and conversions of results lose nothing and change nothing."""

import itertools
import warnings

import numpy as np
import pandas as pd
from oemof import solph
from oemof.solph import processing, views
from oemof.solph.components import GenericStorage

from .. import catalog, spec
from ..explore import Stats, finish
from ..gen import bus, snk, src
from .R01 import DISCRETE, fill
from .S01 import storage

RULE = (
    "every kind of component x kind of time axis x every node x every option"
    " of every view, and all sequences of such calls up to the given depth on"
    " the same results; the oracle is a plain copy of the results made before"
    " and, for parameters, the arguments the components were created with"
)
ASSUMPTIONS = [
    "results are those of a state in which the values of all variables are"
    " pairwise different, and those found by the solver with duals",
    "excluded attributes are only judged when no other attribute starts with"
    " the same letters",
    "options of NonConvex are not judged (handed out as one object)",
]


class Bad(Exception):
    pass


def plain(x):
    if isinstance(x, (float, np.floating)) and x != x:
        return None
    if isinstance(x, np.generic):
        return x.item()
    return x


def copy_table(t):
    """table -> (kind, columns, rows, cells)"""
    if isinstance(t, pd.Series):
        return ("S", list(t.index), [plain(x) for x in t])
    return ("D", list(t.columns), list(t.index),
            [[plain(x) for x in t.iloc[:, j]] for j in range(t.shape[1])])


def copy(r):
    return {k: {n: copy_table(t) for n, t in v.items()} for k, v in r.items()}


def cells(tab, key):
    """{(key, name[, row]): value} of one copied table"""
    if tab[0] == "S":
        return {(key, n): v for n, v in zip(tab[1], tab[2])}
    return {(key, n, row): v for n, col in zip(tab[1], tab[3])
            for row, v in zip(tab[2], col)}


def skey(k, keep):
    return tuple(None if x is None and keep else str(x) for x in k)


def same(a, b, what):
    if list(map(repr, a)) == list(map(repr, b)) and a == b:
        return
    sa, sb = dict(a), dict(b)
    for k in sb:
        if k not in sa:
            raise Bad("%s: %s is missing" % (what, k))
        if sa[k] != sb[k]:
            raise Bad("%s: %s is %s instead of %s" % (what, k, sa[k], sb[k]))
    for k in sa:
        if k not in sb:
            raise Bad("%s: %s does not belong here" % (what, k))


def check_node(r, snap, nd, arg, mi, keep, st, what):
    """views.node: exactly the cells of the entries of this node"""
    st.add("transitions")
    v = views.node(r, arg, multiindex=mi, keep_none_type=keep)
    text = isinstance(arg, str)
    want = {}
    for k, tabs in snap.items():
        if nd not in k:
            continue
        for n, t in tabs.items():
            if not t[1] or (t[0] == "D" and not t[2]):
                continue
            want.setdefault(n, {}).update(
                cells(t, skey(k, keep) if text else k)
            )
    if set(v) != set(want):
        raise Bad("%s: tables %s instead of %s"
                  % (what, sorted(v), sorted(want)))
    for n, t in v.items():
        names = t.columns if n == "sequences" else t.index
        if mi:
            if names.nlevels != 3:
                raise Bad("%s: %d levels" % (what, names.nlevels))
            if list(names.names) != ["from", "to", "type"]:
                raise Bad("%s: levels %s" % (what, list(names.names)))

        def split(x):
            if not mi:
                return x
            a = [None if not isinstance(z, (str, tuple)) and pd.isna(z)
                 else z for z in x[:2]] if all(
                     isinstance(z, (str, float, type(None))) for z in x[:2]
            ) else [None if isinstance(z, float) else z for z in x[:2]]
            return (tuple(a), x[2])

        got = {}
        count = 0
        if n == "sequences":
            for j, c in enumerate(names):
                k, name = split(c)
                for row, val in zip(t.index, t.iloc[:, j]):
                    got[k, name, row] = plain(val)
                    count += 1
        elif n == "scalars":
            for c, val in zip(names, t):
                k, name = split(c)
                got[k, name] = plain(val)
                count += 1
        else:
            for i, c in enumerate(names):
                k, row = split(c)
                for name, val in zip(t.columns, t.iloc[i]):
                    got[k, name, row] = plain(val)
                    count += 1
        if count != len(got):
            raise Bad("%s: %d of %d cells of %s have the same name"
                      % (what, count - len(got), count, n))
        # empty cells are only the filling of the common table
        w = {k: x for k, x in want[n].items() if x is not None}
        g = {k: x for k, x in got.items() if x is not None}
        same(g, w, "%s, %s" % (what, n))
        st.add("cells", len(w))
    return v


def check_filter(r, nodes, snap, st):
    opts = {
        "all": lambda x: True,
        "has_outputs": lambda x: bool(list(x.outputs)),
        "has_inputs": lambda x: bool(list(x.inputs)),
        "has_only_outputs": lambda x: bool(list(x.outputs)) and not list(
            x.inputs),
        "has_only_inputs": lambda x: bool(list(x.inputs)) and not list(
            x.outputs),
    }
    for o, f in opts.items():
        for ex in (False, True):
            for form in (o, views.NodeOption(o)):
                st.add("transitions")
                got = views.filter_nodes(r, option=form, exclude_busses=ex)
                want = {x for x in nodes if f(x) and not (
                    ex and isinstance(x, solph.Bus))}
                if not isinstance(got, set):
                    raise Bad("filter_nodes gives a %s" % type(got).__name__)
                # (entries of constraints are keyed by a name)
                got = {x for x in got if not isinstance(x, str)}
                if {id(x) for x in got} != {id(x) for x in want}:
                    raise Bad(
                        "filter_nodes(%s, exclude_busses=%s): wrong %s,"
                        " missing %s" % (
                            o, ex, sorted(str(x) for x in got - want),
                            sorted(str(x) for x in want - got)))
    for bad in ("any", None, "has_something"):
        try:
            views.filter_nodes(r, option=bad)
        except ValueError:
            continue
        raise Bad("filter_nodes(%r): no error" % bad)


def check_names(r, nodes, st):
    for x in nodes:
        st.add("transitions")
        if views.get_node_by_name(r, str(x)) is not x:
            raise Bad("get_node_by_name(%r)" % str(x))
    for x, y in itertools.permutations(nodes, 2):
        st.add("transitions")
        got = views.get_node_by_name(r, str(x), "?", str(y))
        if len(got) != 3 or got[0] is not x or got[1] is not None or (
            got[2] is not y
        ):
            raise Bad("get_node_by_name(%r, '?', %r)" % (str(x), str(y)))
    if views.get_node_by_name(r, "?") is not None:
        raise Bad("get_node_by_name('?')")


TYPES = None


def types(nodes):
    return sorted({type(x) for x in nodes}, key=lambda c: c.__name__) + [
        (solph.components.Source, solph.components.Sink), solph.Flow]


def as_cells(t, drop=()):
    """table with three header rows -> {(from, to, name, row): value}"""
    got, n = {}, 0
    for j, c in enumerate(t.columns):
        c = c if isinstance(c, tuple) else (c,)
        c = tuple(None if isinstance(x, float) else x for x in c)
        for row, val in zip(t.index, t.iloc[:, j]):
            n += 1
            got[c + (row,)] = plain(val)
    if n != len(got):
        raise Bad("columns with the same name")
    return {k: v for k, v in got.items() if v is not None}


def check_types(r, snap, nodes, st):
    def want(cond, drop=()):
        out, any_ = {}, False
        for k, tabs in snap.items():
            if not cond(k):
                continue
            any_ = True
            for (kk, name, row), v in cells(tabs["sequences"], k).items():
                if v is not None:
                    head = [kk[0], kk[1], name]
                    head = [x for i, x in enumerate(head) if i not in drop]
                    out[tuple(head) + (row,)] = v
        return out if any_ else None

    for ty in types(nodes):
        st.add("transitions")
        cases = [
            ("node_weight_by_type", {}, (1,),
             lambda k: isinstance(k[0], ty) and k[1] is None)]
        for drop in (None, [0], [1], [0, 1]):
            kw = {} if drop is None else {"droplevel": drop}
            cases += [
                ("node_input_by_type", kw, tuple(drop or ()),
                 lambda k: isinstance(k[1], ty)),
                ("node_output_by_type", kw, tuple(drop or ()),
                 lambda k: isinstance(k[0], ty) and k[1] is not None)]
        for fn, kw, drop, cond in cases:
            w = want(cond, drop)
            heads = [k[:-1] for k in want(cond) or ()]
            kept = {tuple(x for i, x in enumerate(h) if i not in drop)
                    for h in heads}
            if len(kept) != len(set(heads)):
                continue
            if w == {}:
                continue
            got = getattr(views, fn)(r, ty, **kw)
            where = "%s(%s, %s)" % (fn, getattr(ty, "__name__", ty), kw)
            if w is None or got is None:
                if w is not None or got is not None:
                    raise Bad(where + ": nothing" if got is None else
                              where + ": something")
                continue
            names = [n for i, n in enumerate(
                ["node", "to", "weight_type"] if "weight" in fn
                else ["from", "to", "type"]) if i not in drop]
            if list(got.columns.names) != names:
                raise Bad("%s: levels %s" % (where, list(got.columns.names)))
            try:
                g = as_cells(got)
            except Bad as e:
                raise Bad("%s: %s" % (where, e))
            same(g, w, where)
            st.add("cells", len(w))


def check_net(r, snap, nodes, st):
    stores = [x for x in nodes if isinstance(x, GenericStorage)]
    st.add("transitions")
    got = views.net_storage_flow(r, GenericStorage)
    if not stores:
        if got is not None:
            raise Bad("net_storage_flow without storages")
        return
    want = {}
    for x in stores:
        (i,), (o,) = x.inputs, x.outputs
        fi = cells(snap[i, x]["sequences"], 0)
        fo = cells(snap[x, o]["sequences"], 0)
        for (_, name, row), v in fo.items():
            if name == "flow" and v is not None:
                want[x, o, "net_flow", row] = v - fi[0, "flow", row]
    g = as_cells(got)
    # (the final point has no flow: the sum of nothing)
    extra = {k[-1] for k in g} - {k[-1] for k in want}
    g = {k: v for k, v in g.items() if not (k[-1] in extra and v == 0)}
    same(g, want, "net_storage_flow")


def operations(r, nodes, st):
    """every kind of call as (name, function)"""
    n0 = nodes[0]
    stores = [x for x in nodes if isinstance(x, GenericStorage)]
    n1 = stores[0] if stores else nodes[-1]
    ops = {
        "keys": lambda: processing.convert_keys_to_strings(r),
        "keys, None kept": lambda: processing.convert_keys_to_strings(
            r, keep_none_type=True),
        "node, label": lambda: views.node(r, str(n1)),
        "node, label, multiindex": lambda: views.node(
            r, str(n0), multiindex=True),
        "node, label, None kept": lambda: views.node(
            r, str(n1), keep_none_type=True),
        "node, multiindex": lambda: views.node(r, n1, multiindex=True),
        "node": lambda: views.node(r, n0),
        "converted, node": lambda: views.node(
            processing.convert_keys_to_strings(r), str(n1)),
        "weights": lambda: views.node_weight_by_type(r, GenericStorage),
        "inputs": lambda: views.node_input_by_type(r, solph.Bus),
        "outputs": lambda: views.node_output_by_type(r, solph.Bus),
        "net": lambda: views.net_storage_flow(r, GenericStorage),
        "filter": lambda: sorted(
            str(x) for x in views.filter_nodes(r, "has_outputs", True)),
        "name": lambda: views.get_node_by_name(r, str(n1)),
    }
    return ops


def show(x):
    """comparable form of anything a view returns"""
    if isinstance(x, dict):
        return {k: show(v) for k, v in x.items()}
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return repr(copy_table(x))
    return repr(x)


def check_histories(r, nodes, depth, st):
    ops = operations(r, nodes, st)
    snap = copy(r)
    order = list(r)
    first = {n: show(f()) for n, f in ops.items()}
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            st.add("histories")
            for n in seq:
                st.add("transitions")
                x = show(ops[n]())
                if x != first[n]:
                    raise Bad("after %s the call '%s' gives another result"
                              % (list(seq), n))
            if list(r) != order or repr(copy(r)) != repr(snap):
                raise Bad("%s changed the results" % (list(seq),))


# --- parameters -----------------------------------------------------------

RENAME = {"storage": {"nominal_capacity": "nominal_storage_capacity"}}


def put(want, name, v):
    """what has been given for a parameter"""
    v = spec._val(v)
    if v is None:
        return
    if isinstance(v, dict):
        for k, x in v.items():
            put(want, "%s_%s" % (name, k), x)
        return
    want[name] = [float(x) for x in v] if hasattr(
        v, "__len__") and not isinstance(v, str) else v


def flow_params(f):
    want = {}
    for k, v in f.items():
        if k == "nonconvex":
            continue
        if k == "investment":
            for a, x in v.items():
                put(want, "investment_" + a, x)
        else:
            put(want, k, v)
    return want


def params(cfg):
    """-> {(from, to | None): {name: value}} out of the description"""
    out = {}
    for d in cfg["nodes"]:
        n = d["n"]
        for b, f in d.get("in", {}).items():
            out.setdefault((b, n), {}).update(flow_params(f))
        for b, f in d.get("out", {}).items():
            out.setdefault((n, b), {}).update(flow_params(f))
        own = out.setdefault((n, None), {})
        own["label"] = n
        k = d["k"]
        if k == "bus":
            own["balanced"] = d.get("balanced", True)
        elif k == "storage":
            for a, x in d.items():
                if a in ("k", "n", "in", "out"):
                    continue
                if a == "investment":
                    for c, y in x.items():
                        put(own, "investment_" + c, y)
                else:
                    put(own, RENAME[k].get(a, a), x)
        elif k == "converter":
            put(own, "conversion_factors", d.get("cf", {}))
        elif k == "exturb":
            put(own, "conversion_factors", d["cf"])
            put(own, "conversion_factor_full_condensation", d["cff"])
        elif k == "gchp":
            b, f = d["fuel"]
            out[b, n] = flow_params(f)
            for e in ("el", "heat"):
                b, f = d[e]
                out[n, b] = flow_params(f)
            put(own, "beta", d["beta"])
            put(own, "back_pressure", d["bp"])
        elif k == "caes":
            put(own, "params", d["params"])
        elif k == "pwl":
            put(own, "in_breakpoints", d["bp"])
            put(own, "pw_repn", d["repn"])
        elif k == "offset":
            put(own, "conversion_factors", d.get("cf", {}))
            put(own, "normed_offsets", d.get("off", {}))
    return out


def check_params(sysm, cfg, st, what, none, excl=None):
    st.add("transitions")
    kw = {} if excl is None else {"exclude_attrs": [excl]}
    r = processing.parameter_as_dict(sysm, exclude_none=none, **kw)
    want = params(cfg)
    s = {skey(k, True): v for k, v in r.items()}
    if len(s) != len(r) or set(s) != set(want):
        raise Bad("%s: entries missing %s, unknown %s"
                  % (what, set(want) - set(s), set(s) - set(want)))
    for k, names in want.items():
        sc, se = s[k]["scalars"], s[k]["sequences"]
        if set(s[k]) != {"scalars", "sequences"}:
            raise Bad("%s: %s has %s" % (what, k, list(s[k])))
        for n, v in names.items():
            gone = excl is not None and n.startswith(excl)
            st.add("cells")
            where = "%s: %s of %s" % (what, n, k)
            if gone:
                if n in sc.index or n in se.columns:
                    raise Bad(where + " has been excluded")
                continue
            if isinstance(v, list):
                if n not in se.columns:
                    raise Bad(where + " is missing in the sequences")
                x = [plain(z) for z in se[n]]
                if [float(z) for z in x[:len(v)]] != v or any(
                    z is not None for z in x[len(v):]
                ):
                    raise Bad("%s is %s instead of %s" % (where, x, v))
            else:
                if n not in sc.index:
                    raise Bad(where + " is missing in the scalars")
                if sc[n] != v or (isinstance(v, bool) != isinstance(
                    sc[n], (bool, np.bool_)
                )):
                    raise Bad("%s is %s instead of %s" % (where, sc[n], v))
        if none and any(x is None for x in sc):
            raise Bad("%s: %s has None" % (what, k))
    return r


def run(task):
    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0, solver_calls=0)
    viol, seen = [], set()

    def attempt(what, f, *a):
        st.add("leaves")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = f(*a)
            st.add("accepted")
            st.add("validated")
            return r
        except Bad as e:
            viol.append({"what": "%s: %s" % (what, e)})
        except Exception as e:  # noqa
            import traceback

            w = [x for x in traceback.extract_tb(e.__traceback__)
                 if "oemof" in x.filename or "mc/" in x.filename][-1]
            viol.append({"what": "%s fails: %s: %s (%s:%d)" % (
                what, type(e).__name__, str(e)[:120], w.filename, w.lineno)})
        return None

    def parameters(b, when):
        for obj, sysm in (("system", b.es), ("model", b.m)):
            if sysm is None:
                continue
            for none in (True, False):
                attempt("parameters of the %s %s, exclude_none=%s"
                        % (obj, when, none), check_params, sysm, task, st,
                        "parameters", none)
            for excl in ("variable_costs", "conversion_factors", "loss_rate",
                         "nominal_"):
                attempt("parameters of the %s %s without %s"
                        % (obj, when, excl), check_params, sysm, task, st,
                        "parameters", True, excl)

    b = spec.Built()
    b.es, b.nodes = spec.build_es(task)
    b.m = None
    parameters(b, "before the model")
    for state in ("distinct", "duals"):
        if state == "duals" and task.get("discrete"):
            continue
        b = spec.build(task)
        m = b.m
        if state == "distinct":
            fill(m)
        else:
            m.receive_duals()
            m.solve(solver="cbc")
            st.add("solver_calls")
            parameters(b, "after the solver")
        st.add("states")
        ns = list(b.nodes.values())
        for remove in (False, True):
            r = processing.results(m, remove_last_time_point=remove)
            snap = copy(r)
            there = [x for x in ns if any(x in k for k in r)]
            seen.add((state, remove, len(r)))
            w = "%s, remove=%s" % (state, remove)
            for keep in (False, True):
                c = attempt("keys", processing.convert_keys_to_strings, r,
                            keep)
                if c is not None and list(c) != [skey(k, keep) for k in r]:
                    viol.append({"what": w + ": keys %s" % (list(c),)})
                elif c is not None and any(
                    x is not y for x, y in zip(c.values(), r.values())
                ):
                    viol.append({"what": w + ": other values for strings"})
            for x in there:
                for arg in (x, str(x)):
                    for mi in (False, True):
                        for keep in (False, True):
                            attempt(w, check_node, r, snap, x, arg, mi, keep,
                                    st, "node(%s %r, multiindex=%s, keep=%s)"
                                    % (type(arg).__name__, str(x), mi, keep))
            if views.node(r, "no such node") != {}:
                viol.append({"what": w + ": results of a missing node"})
            attempt(w, check_filter, r, there, snap, st)
            attempt(w, check_names, r, there, st)
            attempt(w, check_types, r, snap, there, st)
            attempt(w, check_net, r, snap, there, st)
            if repr(copy(r)) != repr(snap) or list(r) != list(snap):
                viol.append({"what": w + ": the results have been changed"})
            attempt(w, check_histories, r, there, task["depth"], st)
        # parameters can be looked at in the same way
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                p = processing.parameter_as_dict(m)
            except Exception:  # noqa: reported above
                continue
        snap = copy(p)
        for x in ns:
            for arg in (x, str(x)):
                attempt("parameters", check_node, p, snap, x, arg, False,
                        False, st, "node(%s %r)" % (type(arg).__name__,
                                                    str(x)))
        attempt("parameters", check_filter, p, ns, snap, st)
        attempt("parameters", check_names, p, ns, st)
    return finish(task, st, viol[:4], [], seen)


def f_levels(T, mp):
    """series of different lengths and kinds of sequences"""
    lv = {"max_storage_level": {"v": [1.0, 0.75, 0.5, 0.75, 1.0][:T] + [1.0],
                                "form": "np"},
          "min_storage_level": [0.0, 0.25, 0.125, 0.0, 0.25][:T] + [0.0],
          "loss_rate": {"v": [0.1, 0.2, 0.3, 0.4][:T], "form": "series"}}
    return [bus("u0", True), bus("u1", True),
            src("u2", "u0", nominal_capacity=4,
                maximum={"v": [1, 0.5, 0.75, 1][:T], "form": "np"},
                variable_costs={"v": [1, 2, 3, 4][:T], "form": "tuple"}),
            storage("u3", "u0", "u1", nominal_capacity=6, balanced=False,
                    initial_storage_level=0.5, **lv),
            src("u5", "u1", variable_costs=9),
            snk("u4", "u1", nominal_capacity=1,
                fix={"v": [0.5, 0.25, 1, 0.5][:T], "form": "series"})], []


def f_years(T, mp):
    """values for each interval and for each period"""
    P = 2
    inv = {"ep_costs": [2.0, 3.0][:P] if mp else 2.0,
           "maximum": [5.0, 6.0][:P] if mp else 5.0,
           "existing": 0.0}
    if mp:
        inv["lifetime"] = 5
        inv["fixed_costs"] = [0.5, 0.25, 0.125, 0.5, 0.25, 0.5, 0.5]
    return [bus("w0", True),
            src("w1", "w0", variable_costs=[1.0, 2.0, 3.0, 4.0][:T],
                investment=inv),
            src("w3", "w0", variable_costs=9),
            snk("w2", "w0", nominal_capacity=1,
                fix=[0.5, 0.25, 1.0, 0.5][:T])], []


def f_sinkbus(T, mp):
    """a bus that nothing leaves, a bus that nothing enters"""
    m = bus("x1", False)
    return [bus("x0", False), m,
            {"k": "converter", "n": "x2", "in": {"x0": {}},
             "out": {"x1": {"nominal_capacity": 2, "variable_costs": -1}}},
            ], []


FEATURES = dict(catalog.FEATURES, levels=f_levels, years=f_years,
                sinkbus=f_sinkbus)
OWN = {"levels", "years", "sinkbus"}


def system(feats, T, axis):
    own = [f for f in feats if f in OWN]
    c = catalog.system([f for f in feats if f not in OWN], T, axis)
    tm, mp = catalog.axes(T)[axis]
    for f in own:
        nodes, cons = FEATURES[f](T, mp)
        c["nodes"] += nodes
        c["constraints"] += cons
    c["name"] = "%s T%d %s" % ("+".join(feats), T, axis)
    return c


def tasks(tier):
    full = tier == "thorough"
    names = list(FEATURES)
    pairs = list(itertools.combinations(names, 2))
    for T in (1, 2, 3) if full else (2,):
        axs = catalog.axes(T) if full else [
            a for a in ("num", "dt", "mp") if a in catalog.axes(T)]
        for ax in axs:
            mp = ax.startswith("mp")
            sets = [[f] for f in names]
            if full and T == 2 and ax in ("dt", "mp"):
                sets += [list(p) for p in pairs]
            seen = set()
            for s in sets:
                if mp and "mp3" == ax and "years" in s:
                    continue
                s = [f for f in s if catalog.usable(f, mp)]
                if not s or tuple(s) in seen:
                    continue
                seen.add(tuple(s))
                c = system(s, T, ax)
                c["discrete"] = bool((DISCRETE | {"years"}) & set(s))
                c["depth"] = 2
                if full and T == 2 and ax in ("dt", "mp") and len(s) == 1:
                    c["depth"] = 3
                if len(s) > 1:
                    c["depth"] = 1
                yield c
                if len(s) == 1 and T == 2 and ax in ("dt", "mp"):
                    yield {**c, "classes": "own", "depth": 1,
                           "name": "own " + c["name"]}
