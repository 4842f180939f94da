"""Components, groups of flows and blocks of a user of the library.

A block limits the flows of its group and adds costs to the objective, written
with nothing but the documented sets and attributes of the model."""

import types

from oemof import solph
from oemof.network import groupings
from oemof.solph.components import experimental
from pyomo.core.base.block import ScalarBlock
from pyomo.environ import Constraint


class LimitBlock(ScalarBlock):
    CONSTRAINT_GROUP = True

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.calls = []
        self.asked = 0

    def flows_of(self, group):
        m = self.parent_block()
        for n in group:
            for o in n.outputs:
                yield n, o
            for i in n.inputs:
                yield i, n
        assert m is not None

    def _create(self, group=None):
        self.calls.append(group)
        if group is None:
            return
        m = self.parent_block()
        self.mine = list(self.flows_of(group))

        def rule(block, k, t):
            o, i = block.mine[k]
            lim = getattr(m.flows[o, i], "user_limit", None)
            if lim is None:
                return Constraint.Skip
            return m.flow[o, i, t] <= lim[t]

        self.limit = Constraint(range(len(self.mine)), m.TIMESTEPS, rule=rule)

    def _objective_expression(self):
        self.asked += 1
        if not hasattr(self, "mine"):
            return 0
        m = self.parent_block()
        expr = 0
        for o, i in self.mine:
            cost = getattr(m.flows[o, i], "user_cost", None)
            if cost is None:
                continue
            for p, t in m.TIMEINDEX:
                x = m.flow[o, i, t] * m.objective_weighting[t]
                x *= m.tsam_weighting[t] * cost[t]
                if m.es.periods is not None:
                    x *= (1 + m.discount_rate) ** -m.es.periods_years[p]
                expr += x
        return expr


class BlockA(LimitBlock):
    pass


class BlockB(LimitBlock):
    pass


class FlowBlock(LimitBlock):
    def flows_of(self, group):
        for o, i, f in group:
            yield o, i


BLOCKS = {"A": BlockA, "B": BlockB, "F": FlowBlock}


def of(cls, block):
    class Own(cls):
        def constraint_group(self):
            return block

    Own.__name__ = "Own" + cls.__name__
    return Own


CLASSES = {
    (k, b): of(c, BLOCKS[b])
    for k, c in (("source", solph.components.Source),
                 ("sink", solph.components.Sink)) for b in "AB"
}


class ModelA(solph.Model):
    CONSTRAINT_GROUPS = solph.Model.CONSTRAINT_GROUPS + [BlockA]


def attrs(f):
    """flow of the description -> limit and costs as attributes"""
    f = dict(f)
    cap = f.pop("nominal_capacity", None)
    mx = f.pop("maximum", 1)
    out = {}
    if cap is not None:
        out["user_limit"] = [cap * x for x in mx] if isinstance(
            mx, list) else cap * mx
    if "variable_costs" in f:
        out["user_cost"] = f.pop("variable_costs")
    return f, out


def flow(d, make):
    if "user" not in d:
        return make(d)
    rest, mine = attrs({k: v for k, v in d.items() if k != "user"})
    fl = make(rest)
    fl.user_group = d["user"]
    for k, v in mine.items():
        setattr(fl, k, solph._plumbing.sequence(v))
    return fl


def wanted(stf):
    return getattr(stf[2], "user_group", None) == "F"


def by_kind(n):
    return "kind " + type(n).__name__


def system_args(u):
    """further arguments of the energy system"""
    g = []
    for x in u.get("groupings", []):
        if x == "F":
            g.append(groupings.FlowsWithNodes(
                constant_key=FlowBlock, filter=wanted))
        elif x == "kind":
            g.append(groupings.Entities(key=by_kind))
        elif x == "const":
            g.append(groupings.Entities(constant_key="everything"))
    return {"groupings": g} if "groupings" in u else {}


# the list that is handed to several models
SHARED = None


def model_args(u):
    if "given" not in u:
        return {}
    return {"constraint_groups": [BLOCKS[x] for x in u["given"]]
            if SHARED is None else SHARED}


# the classes of the library, and classes derived from them
LIB = types.SimpleNamespace(
    Bus=solph.buses.Bus, Flow=solph.Flow, Investment=solph.Investment,
    NonConvex=solph.NonConvex,
    PiecewiseLinearConverter=experimental.PiecewiseLinearConverter,
    GenericCAES=experimental.GenericCAES,
    **{n: getattr(solph.components, n) for n in (
        "Source", "Sink", "Converter", "Link", "OffsetConverter",
        "ExtractionTurbineCHP", "GenericCHP", "GenericStorage")},
)
OWN = types.SimpleNamespace(**{
    n: type("My" + n, (c,), {"__doc__": "of the user"})
    for n, c in vars(LIB).items()
})


class EnergySystem(solph.EnergySystem):
    pass
