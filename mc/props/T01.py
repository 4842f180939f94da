"""Every way of giving the time axis means the same problem."""

import datetime
import itertools
import math

import numpy as np
import pandas as pd

from oemof import solph

from .. import spec
from ..explore import Stats, finish, letters, run_config
from ..gen import bus, snk, src
from .S01 import storage

RULE = (
    "every combination of up to three gaps from a grid x every form of the"
    " axis (lists, tuples, arrays, indexes, dates with and without frequency,"
    " time zones across clock changes, increments, inferred last interval);"
    " on each, all histories of a source with costs and an energy limit and a"
    " storage with losses; every axis with a non-increasing step or with"
    " conflicting arguments has to be rejected"
)
ASSUMPTIONS = [
    "lists of dates that are no DatetimeIndex and axes without any interval"
    " are not judged",
]

GAPS = [0.5, 1.0, 3.0]


def hours_of(a):
    """Independent computation of the points: hours since the first one"""
    if "pts" in a:
        return [float(x) for x in a["pts"]]
    if "hours" in a:
        return [float(x) for x in a["hours"]]
    if "inc" in a:
        return [0.0] + list(np.cumsum([float(x) for x in a["inc"]]))
    raise KeyError


def mini(name, dt, time, extra=None):
    T = len(dt)
    tot = sum(dt)
    nodes = [
        bus("b", True),
        src("g", "b", nominal_capacity=2, variable_costs=3,
            full_load_time_max=tot * 0.75 / 2, full_load_time_min=tot / 16),
        snk("d", "b", nominal_capacity=2,
            variable_costs=[0.5 + t for t in range(T)]),
        storage("s", "b", "b", nominal_capacity=4, balanced=False,
                initial_storage_level=0.5, loss_rate=0.1,
                fixed_losses_absolute=0.125, fi={"variable_costs": 0.25}),
    ]
    cfg = {"name": name, "time": {"dt": dt, **time}, "nodes": nodes}
    cfg["runs"] = [
        {
            "static": [{"soc:s": 2.0}],
            "alphabet": letters(
                {"g>b": [0.0, 1.0], "b>d": [0.0, 1.0],
                 "b>s": [0.0, 1.0], "s>b": [0.0, 1.0]}, T,
            )
        }
    ]
    cfg.update(extra or {})
    return cfg


def labels(a, T):
    """expected labels of the T+1 points"""
    if "inc" in a and "pts" not in a:
        return [0.0] + [float(x) for x in np.cumsum(a["inc"])]
    if "pts" in a:
        return [float(x) for x in a["pts"]]
    return None


def run(task):
    return {"same": run_same, "bad": run_bad, "index": run_index,
            "other": run_config}[
        task["mode"]](task)


def run_same(task):
    r = run_config(task)
    viol = r["violations"]
    T = len(task["time"]["dt"])

    def bad(w):
        viol.append({"what": w, "config": task["name"]})

    try:
        b = spec.build(task)
        g, bb, s = b.nodes["g"], b.nodes["b"], b.nodes["s"]
        n = len([1 for t in b.m.TIMESTEPS if (g, bb, t) in b.m.flow])
        if n != T or len(b.m.TIMESTEPS) != T or len(b.m.TIMEPOINTS) != T + 1:
            bad("%d intervals have %d flow values" % (T, n))
        inc = [float(x) for x in b.m.timeincrement]
        if len(inc) != T or not np.allclose(inc, task["time"]["dt"]):
            bad("interval lengths are %s instead of %s"
                % (inc, task["time"]["dt"]))
        a = task["time"]["axis"]
        if a.get("form") == "f32":
            return r
        res = b.m.solve(solver="cbc")
        r["stats"]["solver_calls"] = r["stats"].get("solver_calls", 0) + 1
        fl = res["flow"][(g, bb)]
        so = res["storage_content"]
        so = so[s] if s in getattr(so, "columns", []) else so.iloc[:, 0]
        if len(fl) != T or len(so) != T + 1:
            bad("results have %d flow values and %d contents for %d"
                " intervals" % (len(fl), len(so), T))
        lab = labels(a, T)
        if lab is not None:
            ok = (np.allclose([float(x) for x in fl.index], lab[:-1])
                  and np.allclose([float(x) for x in so.index], lab))
        else:
            h = [(x - so.index[0]) / pd.Timedelta(hours=1) for x in so.index]
            want = [0.0] + list(np.cumsum(task["time"]["dt"]))
            z = pd.Timestamp(task["z"])
            z0 = so.index[0]
            if z0.tzinfo is not None:
                z0 = z0.tz_convert("UTC").tz_localize(None)
            ok = (np.allclose(h, want) and list(fl.index) == list(so.index)[:-1]
                  and z0 == z)
        if not ok:
            bad("results are labelled %s / %s" % (list(fl.index),
                                                  list(so.index)))
        vals = [b.m.flow[g, bb, t].value for t in range(T)]
        if list(fl) != vals:
            bad("flow values %s instead of %s" % (list(fl), vals))
    except Exception as e:  # noqa
        bad("model or results fail: %s: %s" % (type(e).__name__, e))
    return r


def run_bad(task):
    st = Stats(states=1, transitions=1, leaves=1, accepted=0, rejected=0,
               dontcare=0, validated=0)
    viol = []
    try:
        kw = spec.axis(task["axis"])
        es = solph.EnergySystem(**kw)
        stage = "EnergySystem"
        if task.get("model"):
            nodes = spec.make_nodes(mini("x", [1.0], {}))
            es.add(*nodes.values())
            solph.Model(es)
            stage = "Model"
        viol.append({"what": "%s accepted %s" % (stage, task["axis"])})
    except Exception as e:  # noqa
        st.add("rejected")
        st.add("validated")
        want = task.get("error")
        if want and type(e).__name__ not in want:
            viol.append({"what": "%s raised %s: %s" % (task["axis"],
                                                       type(e).__name__, e)})
    return finish(task, st, viol, [], {1})


def days(y):
    return (datetime.date(y + 1, 1, 1) - datetime.date(y, 1, 1)).days


def run_index(task):
    """create_time_index"""
    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0)
    viol, seen = [], set()
    starts = [None, datetime.date(2021, 3, 1),
              datetime.datetime(2020, 2, 28, 23, 30), "2024-12-31 12:00"]
    for y, iv, n, s in itertools.product(
        task["years"], [0.25, 0.5, 1, 2, 3, 24, 0.1, 1.5],
        [None, 1, 2, 5, 30], starts,
    ):
        st.add("leaves")
        st.add("transitions")
        kw = {}
        if y is not None:
            kw["year"] = y
        if iv != 1:
            kw["interval"] = iv
        if n is not None:
            kw["number"] = n
        if s is not None:
            kw["start"] = s
        try:
            x, e = solph.create_time_index(**kw), None
        except Exception as ex:  # noqa
            x, e = None, ex
        if (y is None and s is None) or (y is None and n is None):
            st.add("dontcare")
            continue
        if y is not None and s is not None:
            st.add("rejected")
            if not isinstance(e, ValueError):
                viol.append({"what": "year and start accepted: %r" % kw})
            continue
        st.add("accepted")
        if e is not None:
            viol.append({"what": "%r: %r" % (kw, e)})
            continue
        z = pd.Timestamp(s) if s is not None else pd.Timestamp(y, 1, 1)
        m = n if n is not None else round(24 * days(y) / iv)
        seen.add((len(x), x[-1]))
        ok = len(x) == m + 1 and x[0] == z and all(
            abs((b - a) / pd.Timedelta(hours=1) - iv) < 1e-9
            for a, b in zip(x[:40], x[1:41])
        )
        end = z + pd.Timedelta(hours=iv * m)
        if not ok or abs((x[-1] - end) / pd.Timedelta(seconds=1)) > 1e-3:
            viol.append({"what": "%r: %d points %s .. %s" % (kw, len(x), x[0],
                                                            x[-1])})
            continue
        st.add("validated")
    st["states"] = len(seen)
    return finish(task, st, viol[:3], [], seen)


def pts(dt, z=0.0):
    return [z] + [float(x) for x in z + np.cumsum(dt)]


def tasks(tier):
    deep = tier == "thorough"
    gaps = GAPS + ([24.0, 0.25] if deep else [])
    out = []

    def same(name, dt, axis, z=None, **extra):
        out.append(
            {**mini(name, dt, {"kind": "axis", "axis": axis}, extra),
             "mode": "same", "z": z}
        )

    combos = [c for n in (1, 2, 3) for c in itertools.product(gaps, repeat=n)]
    for c in combos:
        nm = "-".join("%g" % x for x in c)
        c = list(c)
        ints = all(x == int(x) for x in c)
        eq = len(set(c)) == 1
        for z in (0.0, 10.0) if deep else (0.0,):
            for f in ("list", "tuple", "np", "index", "ints", "npint",
                      "range", "series", "f32"):
                if f in ("ints", "npint") and not ints:
                    continue
                if f == "range" and not (ints and eq):
                    continue
                if not deep and f in ("tuple", "index") and len(c) == 3:
                    continue
                same("%s %s z%g" % (f, nm, z), c,
                     {"form": f, "pts": pts(c, z)})
        same("neg " + nm, c, {"form": "list", "pts": pts(c, -7.5)})
        same("noinfer " + nm, c,
             {"form": "list", "pts": pts(c), "infer": False})
        d0 = "2021-03-27 22:30"
        same("date " + nm, c, {"start": d0, "hours": pts(c)}, d0)
        same("date noinfer " + nm, c,
             {"start": d0, "hours": pts(c), "infer": False}, d0)
        for tz in ("Europe/Berlin", "UTC"):
            same("date %s %s" % (tz, nm), c,
                 {"start": d0, "hours": pts(c), "tz": tz}, d0)
        d1 = "2021-10-30 23:30"
        same("date Berlin autumn " + nm, c,
             {"start": d1, "hours": pts(c), "tz": "Europe/Berlin"}, d1)
        if eq:
            same("date freq " + nm, c,
                 {"start": d0, "hours": pts(c), "freq": True}, d0)
            # the last interval is inferred from the frequency
            for tz in (None, "Europe/Berlin"):
                if len(c) > 1:
                    same("infer freq %s %s" % (tz, nm), c,
                         {"start": d0, "hours": pts(c)[:-1], "freq": True,
                          "infer": True, "tz": tz}, d0)
                # (pandas infers no frequency for days across a clock change)
                if len(c) > 2 and not (tz and c[0] > 23):
                    same("infer %s %s" % (tz, nm), c,
                         {"start": d0, "hours": pts(c)[:-1], "infer": True,
                          "tz": tz}, d0)
        for f in ("list", "tuple", "np", "series"):
            same("inc %s %s" % (f, nm), c, {"inc_form": f, "inc": c})
        same("inc infer " + nm, c,
             {"inc_form": "list", "inc": c, "infer": True})
        # increments given to the model replace those of the energy system
        if deep or len(c) < 3:
            other = {"time": {"dt": c, "kind": "axis", "model_inc": c,
                              "axis": {"form": "list",
                                       "pts": pts([2.0 * x for x in c])}}}
            out.append({**mini("model inc " + nm, c, {}, other),
                        "mode": "other", "z": None})
    # calendar frequencies with intervals of different length
    for n, start, freq, tz, dt in (
        (2, "2021-02-01", "MS", None, [672, 744]),
        (3, "2020-01-01", "MS", None, [744, 696, 744]),
        (2, "2021-01-01", "YS", None, [8760, 8760]),
        (2, "2019-01-01", "YS", None, [8760, 8784]),
        (3, "2021-03-27", "D", "Europe/Berlin", [24, 23, 24]),
        (3, "2021-10-30", "D", "Europe/Berlin", [24, 25, 24]),
        (3, "2021-03-01", "W-MON", None, [168, 168, 168]),
        (3, "2021-03-05", "B", None, [72, 24, 24]),
        (3, "2021-01-01", "15min", None, [0.25] * 3),
        (3, "2021-01-01", "90min", None, [1.5] * 3),
        (2, "2021-01-01", "30s", None, [1 / 120] * 2),
        (1, "2021-01-01", "h", None, [1]),
    ):
        dt = [float(x) for x in dt]
        z = str(pd.Timestamp(start, tz=tz).tz_convert("UTC").tz_localize(None)
                if tz else pd.Timestamp(start))
        a = {"start": start, "freq": freq, "tz": tz}
        if n > 1:
            same("cal %s %s %s" % (freq, start, tz), dt,
                 {**a, "n": n + 1}, z)
            same("cal nofreq %s %s %s" % (freq, start, tz), dt,
                 {**a, "n": n + 1, "nofreq": True}, z)
        same("cal infer %s %s %s" % (freq, start, tz), dt,
             {**a, "n": n, "infer": True}, z)

    def bad(name, axis, **kw):
        out.append({"name": "bad " + name, "mode": "bad", "axis": axis, **kw})

    # steps that are not positive, at any position, in every form
    steps = [1.0, 0.0, -1.0] + ([-0.5, 2.0] if deep else [])
    for n in (1, 2, 3, 4) if deep else (1, 2, 3):
        for c in itertools.product(steps, repeat=n):
            if min(c) > 0:
                continue
            nm = "-".join("%g" % x for x in c)
            for f in ("list", "tuple", "np", "index", "series"):
                bad("%s %s" % (f, nm),
                    {"form": f, "pts": [float(x) for x in pts(list(c))]})
                if f != "index":
                    bad("inc %s %s" % (f, nm),
                        {"inc_form": f, "inc": list(c)})
            for tz in (None, "Europe/Berlin"):
                bad("date %s %s" % (tz, nm),
                    {"start": "2021-01-01", "hours": pts(list(c)), "tz": tz})
            bad("infer " + nm,
                {"start": "2021-01-01", "hours": pts(list(c)), "infer": True})
    # both an index and increments
    for f, g in itertools.product(("list", "np", "date"),
                                  ("list", "np", "series", "tuple")):
        for inc in ([1.0, 1.0], [2.0, 2.0], [1.0]):
            a = ({"start": "2021-01-01", "hours": [0, 1, 2]} if f == "date"
                 else {"form": f, "pts": [0.0, 1.0, 2.0]})
            bad("both %s %s %s" % (f, g, inc),
                {**a, "inc_form": g, "inc": inc}, error=["AttributeError"])
    # the last interval can not be inferred
    for f in ("list", "tuple", "np", "index", "series", "ints"):
        bad("infer " + f, {"form": f, "pts": [0.0, 1.0, 2.0], "infer": True})
    for c in itertools.product(gaps, repeat=3):
        if len(set(c)) > 1:
            bad("infer irregular " + "-".join("%g" % x for x in c),
                {"start": "2021-01-01", "hours": pts(list(c)), "infer": True})
    for c in ([1.0], []):
        bad("infer short %d" % len(c),
            {"start": "2021-01-01", "hours": pts(c), "infer": True})
    bad("none", {}, model=True)
    bad("none infer", {"infer": True}, model=True)
    for raw in ("2021", "abc", ["a", "b"], {"x": 1}, [[0, 1], [1, 2]]):
        bad("raw %s" % (raw,), {"raw": raw}, model=True)
    for y in ([2011, 2012, None], [1900, 2000, 2100], [2024, 2023]):
        out.append({"name": "create_time_index %s" % y, "mode": "index",
                    "years": y})
    return out
