"""Nested nodes: the model is the one of the flat description."""

import itertools
import types
import warnings

from oemof.network import Node
from pyomo.environ import value

from oemof import solph

from .. import catalog, spec
from ..explore import Stats, finish
from .H01 import Bad, content, differ

RULE = (
    "every kind of component and option x every kind of time axis x every way"
    " of nesting (every subset of the nodes inside a parent, one to three"
    " levels, buses and components as parents, parents added before or after"
    " their members are created, equal local names in different parents); the"
    " mathematical content of the model has to be the one of the flat system,"
    " and its results those of the flat system under the names of the nodes"
)
ASSUMPTIONS = []

KINDS = ("Source", "Sink", "Converter", "Link", "OffsetConverter",
         "ExtractionTurbineCHP", "GenericCHP", "GenericStorage",
         "PiecewiseLinearConverter", "GenericCAES", "Bus")


class Nest:
    """lets mc.spec create every node through ``make(cls, label, kw)``"""

    def __init__(self, make):
        self.make = make

    def __enter__(self):
        self.old = spec.LIB
        spec.LIB = types.SimpleNamespace(**{
            **vars(self.old),
            **{k: self.wrap(getattr(self.old, k)) for k in KINDS}})

    def wrap(self, cls):
        def create(*a, label, **kw):
            return self.make(cls, label, kw)
        return create

    def __exit__(self, *e):
        spec.LIB = self.old


def deep(node):
    yield node
    for s in node.subnodes:
        yield from deep(s)


class Way:
    """one way of nesting; inside: names of the nodes that are nested"""

    def __init__(self, how, inside):
        self.how, self.inside = how, set(inside)
        self.roots, self.nodes = [], {}
        self.expect = {}
        if how != "member":
            self.house = Node("house")
            self.roots.append(self.house)
        if how == "levels":
            self.rooms = [self.house.subnode(Node, "room"),
                          self.house.subnode(Node, "cellar")]
            self.rooms.append(self.rooms[0].subnode(Node, "corner"))

    def make(self, cls, label, kw):
        kw["custom_properties"] = {"of": label, "list": [1, 2]}
        n = len(self.nodes)
        how = self.how
        parent = None
        if label not in self.inside:
            x = cls(label=label, **kw)
        elif how == "parent" or how == "early":
            parent = self.house
            x = cls(label=label, parent_node=parent, **kw)
        elif how == "subnode":
            parent = self.house
            x = parent.subnode(cls, label, **kw)
        elif how == "add":
            parent = self.house
            x = cls(label=label, **kw)
            parent.add(x)
        elif how == "levels":
            parent = self.rooms[n % 3]
            x = parent.subnode(cls, label, **kw)
        elif how == "member":
            # nodes of the energy system as parents
            if self.nodes:
                parent = list(self.nodes.values())[n // 2]
                x = cls(label=label, parent_node=parent, **kw)
            else:
                x = cls(label=label, **kw)
        self.nodes[label] = x
        if parent is None:
            self.roots.append(x)
        self.expect[label] = (cls, parent)
        return x


def build(cfg, how, inside, order=0):
    w = Way(how, inside)
    es = spec.make_es(cfg)
    if how == "early":
        es.add(w.house)
    with Nest(w.make):
        nodes = spec.make_nodes(cfg)
    roots = [r for r in w.roots if not (how == "early" and r is w.house)]
    if order:
        roots.reverse()
    es.add(*roots)
    kw = {}
    if "discount_rate" in cfg:
        kw["discount_rate"] = cfg["discount_rate"]
    b = spec.Built()
    b.es, b.nodes = es, nodes
    b.m = solph.Model(es, **kw)
    for c in cfg.get("constraints", []):
        spec.apply_constraint(b, c)
    have = {str(n) for n in es.nodes}
    for label, (cls, parent) in w.expect.items():
        n = nodes[label]
        if str(n) not in have:
            raise Bad("%s is not part of the energy system" % label)
        if type(n) is not cls:
            raise Bad("%s is a %s" % (label, type(n)))
        if n.parent is not parent:
            raise Bad("the parent of %s is %s" % (label, n.parent))
        if n.depth != (parent.depth + 1 if parent is not None else 0):
            raise Bad("%s has the depth %s" % (label, n.depth))
        if dict(n.custom_properties) != {"of": label, "list": [1, 2]}:
            raise Bad("%s has the properties %s" % (
                label, n.custom_properties))
    return b


def names(b):
    return {str(n): k for k, n in b.nodes.items()}


def values(b):
    """results by names of the description"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b.m.solve("cbc")
        r = solph.processing.results(b.m)
        res = solph.Results(b.m)
        nm = names(b)
        out = {}
        for k, v in r.items():
            k2 = tuple(x if x is None else nm.get(str(x), str(x)) for x in k)
            for p in v:
                out[k2, p] = (list(map(str, getattr(
                    v[p], "columns", v[p].index))))
        cols = {}
        for q in ("flow", "storage_content", "invest"):
            df = res.get(q)
            if df is not None:
                cols[q] = sorted(
                    tuple(nm[str(y)] for y in (
                        x if isinstance(x, tuple) else (x,)))
                    for x in df.columns)
    return {"keys": out, "columns": cols,
            "objective": round(value(b.m.objective), 5)}


def ways(labels, full):
    out = []
    sub = [tuple(labels)]
    n = len(labels)
    for r in ((1, 2, n - 1) if full else (1,)):
        sub += list(itertools.combinations(labels, r))
    sub += [tuple(labels[::2]), tuple(labels[1::2])]
    sub = [s for i, s in enumerate(sub) if s and s not in sub[:i]]
    for how in ("parent", "early", "subnode", "add", "levels", "member"):
        for s in (sub if how in ("subnode", "parent") or full
                  else [sub[0]] + sub[-2:]):
            for order in (0, 1):
                out.append((how, s, order))
    return out


def tasks(tier):
    full = tier == "thorough"
    out = []
    for T in ((1, 2, 3) if full else (3,)):
        for x in catalog.axes(T):
            mp = x.startswith("mp")
            for f in catalog.FEATURES:
                if catalog.usable(f, mp) and (
                        full or x in ("num", "infer", "mp", "mpb")):
                    out.append({"name": "%s-%s-%d" % (f, x, T), "f": [f],
                                "T": T, "axis": x, "full": full,
                                "solve": x in ("num", "mpb")})
    F = list(catalog.FEATURES)
    for i in range(0, len(F)):
        f = [F[i], F[(i * 5 + 3) % len(F)]]
        if f[0] != f[1]:
            out.append({"name": "pair-" + "-".join(f), "f": f, "T": 2,
                        "axis": "num", "full": False, "solve": False})
    return out


def run(task):
    st = Stats(states=0, transitions=0, leaves=0, accepted=0, rejected=0,
               dontcare=0, validated=0, solver_calls=0)
    viol, seen = [], set()
    cfg = catalog.system(task["f"], task["T"], task["axis"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            flat = spec.build(cfg)
        except Exception:
            st.add("dontcare")
            return finish(task, st, viol, [], seen)
        want = content(flat.m, names(flat))
    first = None
    if task["solve"]:
        try:
            first = values(flat)
        except RuntimeError:
            first = None
    labels = [d["n"] for d in cfg["nodes"]]
    for n, (how, inside, order) in enumerate(ways(labels, task["full"])):
        what = "%s %s%s" % (how, ",".join(inside), " reversed" * order)
        st.add("leaves")
        st.add("states")
        st.add("transitions", len(labels))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                b = build(cfg, how, inside, order)
                d = differ(content(b.m, names(b)), want)
            if d:
                raise Bad(d)
            st.add("accepted")
            if first is not None and len(inside) == len(labels):
                got = values(b)
                st.add("validated")
                st.add("solver_calls")
                for k in first:
                    if first[k] != got[k]:
                        raise Bad("%s: %s instead of %s" % (
                            k, str(got[k])[:200], str(first[k])[:200]))
        except Bad as e:
            viol.append({"what": "%s: %s" % (what, e)})
        except Exception as e:  # noqa
            viol.append({"what": "%s: %s: %s" % (
                what, type(e).__name__, str(e)[:200])})
        seen.add(what)
        if len(viol) > 3:
            break
    return finish(task, st, viol, [], seen)
