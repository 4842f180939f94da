"""Parameter sequences behave like the data they stand for.

Explicit enumeration of every container, every length and every history of
accesses up to a depth, run on the real objects and on a reference
(value, size) / list.  Each history starts from a fresh object."""

import ast
import copy
import itertools
import math
import warnings

import numpy as np
import pandas as pd

from oemof import solph
from oemof.solph._plumbing import sequence, valid_sequence

from ..explore import Stats, finish

RULE = (
    "every container x every length argument; all histories of accesses up to"
    " the depth on scalar and on array parameters; every sequence parameter of"
    " every component class with every container, before and after the user's"
    " object has been changed"
)
ASSUMPTIONS = [
    "iterating a scalar parameter of unknown length, generators and a"
    " requested length of zero are not judged",
]

VALS = [3, 0.5, 7, -2, 0]
BIG = [float(i % 7) for i in range(300)]


def series(v):
    return pd.Series(v, index=[100 - 3 * i for i in range(len(v))])


def dated(v):
    return pd.Series(v, index=pd.date_range("2020", periods=len(v), freq="h"))


CONT = {
    "list": list, "tuple": tuple, "np": np.array, "series": series,
    "dated": dated, "floats": lambda v: np.array(v, dtype=float),
    "index": pd.Index, "col": lambda v: pd.DataFrame({"a": v})["a"],
    "strided": lambda v: np.array([x for y in v for x in (y, 99)])[::2],
    "range": lambda v: range(len(v)),
}
HIGH = {
    "list2": lambda v: [v, v], "frame": lambda v: pd.DataFrame({"a": v}),
    "np2": lambda v: np.array([v]), "column": lambda v: [[x] for x in v],
}
SCALARS = {
    "int": 5, "float": 0.25, "zero": 0, "neg": -1.5, "np": np.float64(2.5),
    "npint": np.int64(3), "true": True, "inf": math.inf,
}


def same(a, b):
    if isinstance(b, float) and math.isnan(b):
        return a != a
    return a == b or math.isclose(float(a), float(b), rel_tol=1e-12)


def aslist(x):
    return [float(v) for v in x]


# ------------------------------------------------------------ construction
def run_make(task):
    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0)
    viol, seen = [], set()

    def bad(what):
        if len(viol) < 3:
            viol.append({"what": what})

    def attempt(x, length):
        try:
            return sequence(x, length) if length != "no" else sequence(x), None
        except Exception as e:  # noqa
            return None, e

    n = task["n"]
    data = (VALS * 80)[:n]
    lens = ["no", None, n, n + 1, n - 1, 1, 300] if n > 1 else ["no", None, 1,
                                                               2]
    for cname, mk in CONT.items():
        want = aslist(mk(data))
        for L in lens:
            st.add("leaves")
            st.add("transitions")
            x = mk(data)
            before = copy.deepcopy(x)
            s, e = attempt(x, L)
            ok = L in ("no", None, n)
            seen.add((cname, ok))
            if not ok:
                st.add("rejected")
                if not isinstance(e, ValueError):
                    bad("%s of length %d accepted for length %s (%r)"
                        % (cname, n, L, e))
                continue
            if e is not None:
                bad("%s of length %d rejected for length %s: %r"
                    % (cname, n, L, e))
                continue
            st.add("accepted")
            st.add("validated")
            if aslist(s) != want or [float(s[i]) for i in range(n)] != want:
                bad("%s of length %d: values %s instead of %s"
                    % (cname, n, aslist(s)[:6], want[:6]))
            if aslist(x) != aslist(before):
                bad("%s: the data given was changed" % cname)
            if cname in ("list", "np", "floats", "series", "dated"):
                k = x.index[0] if hasattr(x, "iloc") else 0
                x[k] = 55
                if aslist(s) != want:
                    bad("%s: later change of the user's data shows" % cname)
    for hname, mk in HIGH.items():
        for L in lens:
            st.add("leaves")
            st.add("transitions")
            s, e = attempt(mk(data), L)
            st.add("rejected")
            if not isinstance(e, ValueError):
                bad("two dimensional %s accepted: %r %r" % (hname, s, e))
    for name, v in SCALARS.items():
        for L in lens:
            st.add("leaves")
            st.add("transitions")
            s, e = attempt(v, L)
            seen.add((name, L))
            if e is not None:
                bad("scalar %r rejected: %r" % (v, e))
                continue
            st.add("accepted")
            st.add("validated")
            if any(not same(s[i], v) for i in (0, 1, 17, 100000)):
                bad("scalar %r: wrong value" % v)
            size = None if L == "no" else L
            if s.size != size:
                bad("scalar %r: size %s instead of %s" % (v, s.size, size))
            if size and aslist(s) != [float(v)] * size:
                bad("scalar %r: wrong values on iteration" % v)
    for x in (None, "auto"):
        st.add("leaves")
        st.add("transitions")
        s, e = attempt(x, "no")
        st.add("accepted")
        if e is not None or s != x:
            bad("%r became %r / %r" % (x, s, e))
        if e is None and valid_sequence(s, 4):
            bad("%r is a valid sequence" % x)
    st["states"] = len(seen)
    return finish(task, st, viol, [], seen)


# ----------------------------------------------------------- histories
class Fail(Exception):
    pass


def expect(cond, *what):
    if not cond:
        raise Fail(" ".join(str(w) for w in what))


def call(f, *a):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            return f(*a), None, [x.category for x in w]
        except Exception as e:  # noqa
            return None, e, [x.category for x in w]


def ops_scalar(Ls):
    o = [("get", i) for i in (0, 3, 1000)]
    o += [("len",), ("iter",), ("max",), ("min",), ("sum",), ("repr",)]
    o += [("valid", L) for L in Ls] + [("size", L) for L in Ls]
    o += [("np", None), ("np", 2), ("mul", 2), ("rmul", 3), ("div", 4)]
    o += [("slice",)]
    return o


def step_scalar(x, ref, op):
    """ref = (value, size); returns the object and reference to go on with"""
    v, n = ref
    k = op[0]
    if k == "get":
        expect(same(x[op[1]], v), "value at", op[1], "is", x[op[1]], "not", v)
    elif k == "slice":
        # historic behaviour: anything indexes to the value
        pass
    elif k == "len":
        if n is not None:
            expect(len(x) == n, "len", len(x), "not", n)
    elif k == "iter":
        if n is not None:
            expect(aslist(x) == [v] * n, "iterates", aslist(x)[:5])
            expect(aslist(x) == [v] * n, "second iteration differs")
    elif k == "max":
        expect(same(x.max(), v), "max", x.max())
    elif k == "min":
        expect(same(x.min(), v), "min", x.min())
    elif k == "sum":
        if n is not None:
            expect(same(x.sum(), n * v), "sum", x.sum(), "not", n * v)
    elif k == "repr":
        r = repr(x)
        if n is not None and n < 5:
            expect(aslist(ast.literal_eval(r)) == [v] * n, "repr", r)
    elif k == "valid":
        got, e, _ = call(valid_sequence, x, op[1])
        expect(e is None, "valid_sequence raised", e)
        want = n is None or n == op[1]
        expect(bool(got) == want, "valid for", op[1], "is", got, "size", n)
        if n is None:
            # it may or may not remember the length it was checked for
            n = x.size
            expect(n in (None, op[1]), "size after check is", n)
    elif k == "size":
        x.size = op[1]
        n = op[1]
    elif k == "np":
        m = op[1] if op[1] is not None else n
        got, e, _ = call(x.to_numpy, op[1])
        if m is None:
            expect(isinstance(e, ValueError), "to_numpy without length", e)
        else:
            expect(e is None and aslist(got) == [v] * m, "to_numpy gives",
                   got, e)
    elif k in ("mul", "rmul", "div"):
        f = op[1]
        y = x * f if k == "mul" else f * x if k == "rmul" else x / f
        v2 = v * f if k != "div" else v / f
        expect(same(x[0], v) and x.size == n, "operand changed by", k)
        expect(same(y[0], v2), k, "gives", y[0], "not", v2)
        expect(y.size == n, k, "gives size", y.size, "not", n)
        return y, (float(v2), n)
    expect(x.size == n, "size", x.size, "not", n, "after", op)
    return x, (v, n)


def ops_array(n):
    o = [("get", i) for i in range(min(n, 3))] + [("len",), ("iter",)]
    o += [("max",), ("min",), ("sum",)]
    o += [("valid", L) for L in (n, n + 1, n - 1)]
    o += [("mul", 2), ("rmul", 3), ("div", 4)]
    return o


def step_array(x, ref, op):
    k = op[0]
    n = len(ref)
    if k == "get":
        expect(same(x[op[1]], ref[op[1]]), "value", x[op[1]])
    elif k == "len":
        expect(len(x) == n and x.size == n, "len", len(x))
    elif k == "max":
        expect(same(x.max(), max(ref)), "max", x.max())
    elif k == "min":
        expect(same(x.min(), min(ref)), "min", x.min())
    elif k == "sum":
        expect(same(x.sum(), sum(ref)), "sum", x.sum())
    elif k == "valid":
        got, e, w = call(valid_sequence, x, op[1])
        if op[1] == n:
            expect(e is None and bool(got) and not w, "right length:", got, e)
        elif op[1] < n:
            expect(e is None and bool(got), "longer than needed:", got, e)
            expect(FutureWarning in w, "no warning for surplus values")
        else:
            expect(isinstance(e, ValueError), "too short:", got, e)
    elif k in ("mul", "rmul", "div"):
        f = op[1]
        y = x * f if k == "mul" else f * x if k == "rmul" else x / f
        r2 = [a * f if k != "div" else a / f for a in ref]
        expect(all(same(a, b) for a, b in zip(y, r2)), k, "gives", y)
        return y, r2
    expect(aslist(x) == [float(r) for r in ref], "values changed by", op)
    return x, ref


def run_hist(task):
    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0)
    viol, seen = [], set()
    if task["kind"] == "scalar":
        v, n0 = task["value"], task["size"]
        ops = ops_scalar(task["Ls"])
        mk = lambda: (sequence(v, n0), (float(v), n0))  # noqa
        step = step_scalar
    else:
        vals = VALS[: task["n"]]
        ops = ops_array(task["n"])
        mk = lambda: (sequence(CONT[task["cont"]](vals)), list(vals))  # noqa
        step = step_array
    for hist in itertools.product(ops, repeat=task["depth"]):
        x, ref = mk()
        st.add("leaves")
        try:
            for i, op in enumerate(hist):
                st.add("transitions")
                x, ref = step(x, ref, op)
                seen.add((str(ref), i))
            st.add("accepted")
            st.add("validated")
        except Fail as e:
            if len(viol) < 3:
                viol.append({"what": "history %s: %s" % (hist, e)})
        except Exception as e:  # noqa
            if len(viol) < 3:
                viol.append({"what": "history %s: unexpected %r" % (hist, e)})
    st["states"] = len(seen)
    return finish(task, st, viol, [], {s for s, _ in seen})


# ----------------------------------------- attributes of the real classes
def bus():
    return solph.Bus(label="b")


FLOW = ["variable_costs", "maximum", "minimum", "fix",
        "positive_gradient_limit", "negative_gradient_limit", "fixed_costs"]
NONC = ["startup_costs", "shutdown_costs", "activity_costs",
        "inactivity_costs", "minimum_uptime", "minimum_downtime",
        "positive_gradient_limit", "negative_gradient_limit"]
INVE = ["maximum", "minimum", "ep_costs", "offset", "fixed_costs"]
STOR = ["loss_rate", "fixed_losses_relative", "fixed_losses_absolute",
        "inflow_conversion_factor", "outflow_conversion_factor",
        "max_storage_level", "min_storage_level", "fixed_costs",
        "storage_costs"]


def targets():
    for a in FLOW:
        yield "Flow." + a, lambda x, a=a: getattr(
            solph.Flow(nominal_capacity=4, **{a: x}), a)
        yield "Flow(Investment)." + a, lambda x, a=a: getattr(
            solph.Flow(nominal_capacity=solph.Investment(ep_costs=1,
                                                         maximum=9),
                       **{a: x}), a)
    for a in NONC:
        yield "NonConvex." + a, lambda x, a=a: getattr(
            solph.NonConvex(**{a: x}), a)
    for a in INVE:
        def inv(x, a=a):
            k = {"ep_costs": 1, "maximum": 9, "nonconvex": a == "offset"}
            k.update({a: x})
            return getattr(solph.Investment(**k), a)
        yield "Investment." + a, inv
    for a in STOR:
        def sto(x, a=a):
            b = bus()
            return getattr(solph.components.GenericStorage(
                label="s", inputs={b: solph.Flow()},
                outputs={b: solph.Flow()}, nominal_capacity=4,
                **{a: x}), a)
        yield "GenericStorage." + a, sto

    def conv(x):
        b, c = bus(), solph.Bus(label="c")
        n = solph.components.Converter(
            label="v", inputs={b: solph.Flow()}, outputs={c: solph.Flow()},
            conversion_factors={c: x})
        return n.conversion_factors[c]
    yield "Converter.conversion_factors", conv

    def link(x):
        b, c = bus(), solph.Bus(label="c")
        n = solph.components.Link(
            label="v", inputs={b: solph.Flow(), c: solph.Flow()},
            outputs={c: solph.Flow(), b: solph.Flow()},
            conversion_factors={(b, c): x, (c, b): 1})
        return n.conversion_factors[(b, c)]
    yield "Link.conversion_factors", link

    def ext(x, full=True):
        b, c, d = bus(), solph.Bus(label="c"), solph.Bus(label="d")
        n = solph.components.ExtractionTurbineCHP(
            label="v", inputs={b: solph.Flow()},
            outputs={c: solph.Flow(), d: solph.Flow()},
            conversion_factors={c: 0.5 if full else x, d: 0.5},
            conversion_factor_full_condensation={c: x if full else 0.5})
        return (n.conversion_factor_full_condensation if full
                else n.conversion_factors)[c]
    yield "ExtractionTurbineCHP.full_condensation", ext
    yield "ExtractionTurbineCHP.conversion_factors", lambda x: ext(x, False)

    def off(x, what="cf"):
        b, c = bus(), solph.Bus(label="c")
        n = solph.components.OffsetConverter(
            label="v",
            inputs={b: solph.Flow(nominal_capacity=4,
                                  nonconvex=solph.NonConvex())},
            outputs={c: solph.Flow()},
            conversion_factors={c: x if what == "cf" else 1},
            normed_offsets={c: x if what == "off" else 0})
        return (n.conversion_factors if what == "cf" else n.normed_offsets)[c]
    yield "OffsetConverter.conversion_factors", off
    yield "OffsetConverter.normed_offsets", lambda x: off(x, "off")

    def chp(x):
        b, c, d = bus(), solph.Bus(label="c"), solph.Bus(label="d")
        n = solph.components.GenericCHP(
            label="v",
            fuel_input={b: solph.Flow(custom_attributes={
                "H_L_FG_share_max": [0.5] * 5})},
            electrical_output={c: solph.Flow(custom_attributes={
                "P_max_woDH": [9] * 5, "P_min_woDH": [2] * 5,
                "Eta_el_max_woDH": [0.5] * 5,
                "Eta_el_min_woDH": [0.4] * 5})},
            heat_output={d: solph.Flow(custom_attributes={
                "Q_CW_min": [0] * 5})},
            beta=x, back_pressure=False)
        return n.beta
    yield "GenericCHP.beta", chp


GOOD = {"default": [0.5, 0.25, 1, 0.75], "Investment.minimum": [3, 1, 2, 4]}


def run_attrs(task):
    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0)
    viol, seen = [], set()

    def bad(what):
        if len(viol) < 3:
            viol.append({"what": what})

    f = dict(targets())[task["attr"]]
    ints = "_uptime" in task["attr"] or "_downtime" in task["attr"]
    base = [3, 1, 2, 2] if ints else [0.5, 0.25, 1, 0.75]
    for perm in sorted(set(itertools.permutations(base))):
        for cname, mk in CONT.items():
            if cname == "range":
                continue
            st.add("leaves")
            st.add("transitions")
            x = mk(list(perm))
            before = aslist(x)
            try:
                s = f(x)
            except Exception as e:  # noqa
                bad("%s=%s: %r" % (task["attr"], cname, e))
                continue
            seen.add(tuple(perm))
            if aslist(x) != before:
                bad("%s=%s: the user's object was changed"
                    % (task["attr"], cname))
            got = [float(s[i]) for i in range(4)]
            if got != before:
                bad("%s=%s: holds %s instead of %s"
                    % (task["attr"], cname, got, before))
            if cname in ("list", "np", "series", "floats"):
                k = x.index[1] if hasattr(x, "iloc") else 1
                x[k] = 9
                got = [float(s[i]) for i in range(4)]
                if got != before:
                    bad("%s=%s: follows later changes of the user's object"
                        % (task["attr"], cname))
            st.add("accepted")
            st.add("validated")
    for v in ([1, 2, np.int64(3)] if ints else [0, 0.5, 1, np.float64(0.25)]):
        st.add("leaves")
        st.add("transitions")
        try:
            s = f(v)
        except Exception as e:  # noqa
            bad("%s=%r: %r" % (task["attr"], v, e))
            continue
        if any(not same(s[i], v) for i in (0, 1, 50, 9000)):
            bad("%s=%r: holds %r" % (task["attr"], v, s[1]))
        seen.add(float(v))
        st.add("accepted")
        st.add("validated")
    st["states"] = len(seen)
    return finish(task, st, viol, [], seen)


def run(task):
    return {"make": run_make, "hist": run_hist, "attrs": run_attrs}[
        task["mode"]](task)


def tasks(tier):
    full = tier == "thorough"
    for n in (1, 2, 3, 4, 24, 255, 256, 257, 258, 300):
        yield {"name": "make %d" % n, "mode": "make", "n": n}
    vals = [5, 0.25, 0, -1.5] + ([1e6, 1] if full else [])
    sizes = [None, 2, 3] + ([1, 300] if full else [])
    for v in vals:
        for n in sizes:
            yield {"name": "scalar %s size %s" % (v, n), "mode": "hist",
                   "kind": "scalar", "value": v, "size": n,
                   "Ls": [2, 3] + ([300] if full else []),
                   "depth": 4 if full else 3}
    for c in CONT:
        if c in ("range", "index", "col", "strided") and not full:
            continue
        for n in (1, 2, 4):
            if c == "range":
                continue
            yield {"name": "array %s %d" % (c, n), "mode": "hist",
                   "kind": "array", "cont": c, "n": n,
                   "depth": 4 if full else 3}
    for a, _ in targets():
        yield {"name": "attr " + a, "mode": "attrs", "attr": a}
