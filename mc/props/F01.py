"""Flow bounds: nominal capacity, minimum, maximum, fix, integer,
bidirectional; every role a flow can have."""

from .. import combos
from ..explore import run_config as run  # noqa: F401
from ..gen import AUX, AUXG, bus, costs, flow_cells, snk, src

RULE = (
    "every flow of every configuration takes every combination over all"
    " intervals of: 0, each bound, just outside each bound, the middle"
)


def tasks(tier):
    out = []
    deep = tier == "thorough"

    def add(name, nodes, dt, kind="num", **kw):
        nodes = costs(nodes + AUX)
        out.append(
            {
                "name": name,
                "time": {"dt": dt, "kind": kind},
                "nodes": nodes,
                "runs": flow_cells(nodes, len(dt)),
                **kw,
            }
        )

    A = dict(nominal_capacity=10)
    P = {
        "plain": A,
        "minmax": dict(nominal_capacity=8, minimum=0.25, maximum=0.75),
        "lists": dict(
            nominal_capacity=4, minimum=[0.0, 0.5, 0.25, 0.1][:4],
            maximum=[1.0, 0.5, 2.0, 0.4],
        ),
        "fix": dict(nominal_capacity=6, fix=[0.5, 0, 1.5, 0.25]),
        "fixs": dict(nominal_capacity=3, fix=0.5),
        "free": dict(),
        "vc": dict(variable_costs=[1, 2, 3, 4]),
        "int": dict(nominal_capacity=3, integer=True),
        "intmin": dict(
            nominal_capacity=4, integer=True, minimum=[0.3, 0, 0.5, 0.2]
        ),
        "bi": dict(nominal_capacity=5, minimum=-1),
        "bil": dict(nominal_capacity=5, minimum=[-0.4, 0.2, -1, 0]),
        "bip": dict(nominal_capacity=5, minimum=[0.2, -0.4, 0, -1]),
        "bim": dict(nominal_capacity=5, minimum=-0.6, maximum=-0.2),
        "zero": dict(nominal_capacity=0),
        "over": dict(nominal_capacity=2, maximum=3, minimum=1.5),
        "negfix": dict(nominal_capacity=2, fix=[-1, 1, 0, -0.5]),
    }
    forms = ["np", "series", "tuple"]
    dts = [[1.0, 2.0, 0.5], [0.25, 1.0, 3.0]]
    if deep:
        dts += [[1.0] * 4, [2.0, 0.5, 1.0, 4.0]]
    for n, dt in enumerate(dts):
        T = len(dt)

        def cut(f):
            return {
                k: (v[:T] if isinstance(v, list) else v) for k, v in f.items()
            }

        # all parameter sets as sources / sinks / bus-bus flows in one model
        srcs = [src("s_" + k, "b", **cut(f)) for k, f in P.items()]
        snks = [snk("d_" + k, "b", **cut(f)) for k, f in P.items()]
        add("sources-%d" % n, [bus("b")] + srcs, dt)
        add("sinks-%d" % n, [bus("b")] + snks, dt, kind="dt")
        many = [bus("b")]
        for k, f in P.items():
            many.append(bus("x_" + k, out={"b": cut(f)}))
        add("busbus-%d" % n, many, dt)
        many = [bus("b")]
        for k, f in P.items():
            many.append(bus("y_" + k, **{"in": {"b": cut(f)}}))
        add("busbusin-%d" % n, many, dt)
        # one flow alone, every parameter set, and the parameter containers
        for k, f in P.items():
            add("alone-%s-%d" % (k, n), [bus("b"), src("s", "b", **cut(f))], dt)
            g = cut(f)
            lists = [q for q, v in g.items() if isinstance(v, list)]
            if lists:
                for fm in forms:
                    h = {
                        q: ({"form": fm, "v": v} if q in lists else v)
                        for q, v in g.items()
                    }
                    add(
                        "form-%s-%s-%d" % (fm, k, n),
                        [bus("b"), snk("d", "b", **h)], dt,
                    )
        # one component with several limited flows
        fl = [cut(P[k]) for k in ("minmax", "lists", "fix", "int", "bil")]
        for role in ("source", "sink"):
            side = "out" if role == "source" else "in"
            add(
                "multi-%s-%d" % (role, n),
                [bus("b%d" % i) for i in range(len(fl))]
                + [
                    {
                        "k": role, "n": "c",
                        side: {"b%d" % i: f for i, f in enumerate(fl)},
                    }
                ],
                dt,
            )
        # around a storage and converters (flows coupled by the component)
    # two flows explored jointly
    from ..explore import letters
    from ..gen import flow_values

    names = list(P) if deep else ["minmax", "fix", "int", "bil", "lists"]
    dt = [1.0, 2.0]
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            f = {k: (v[:2] if isinstance(v, list) else v) for k, v in P[a].items()}
            g = {k: (v[:2] if isinstance(v, list) else v) for k, v in P[b].items()}
            nodes = [bus("b"), src("s", "b", **f), snk("d", "b", **g)]
            out.append(
                {
                    "name": "joint-%s-%s" % (a, b),
                    "time": {"dt": dt},
                    "nodes": costs(nodes + AUX),
                    "runs": [
                        {
                            "alphabet": letters(
                                {
                                    "s>b": [flow_values(f, t) for t in (0, 1)],
                                    "b>d": [flow_values(g, t) for t in (0, 1)],
                                    **AUXG,
                                },
                                2,
                            )
                        }
                    ],
                }
            )
    return out + combos.more("F01", deep)
