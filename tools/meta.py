"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/oemof/solph/"
FL = S + "flows/"
CO = S + "components/"
CN = S + "constraints/"

TECH_TRAJ = (
    "exhaustive enumeration of all trajectories over a finite alphabet on an "
    "explicit-state reference automaton and on the constraint system the real "
    "code builds, with replay on Model.solve"
)
TECH_HIST = (
    "exhaustive enumeration of operation histories / inputs on the real code "
    "against an executable reference model"
)

TECH_DP = (
    "explicit-state dynamic programming over all trajectories of a small "
    "system for every pattern of demand changes, compared with optimum and "
    "prices the real code reports"
)

# id, title, statement, over, text, why_tests, files, mechanisms, technique
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=TECH_TRAJ,
         note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, tech=tech,
                  note=note))


prop("B01", "Balanced buses conserve energy in every interval",
     "In every interval the flows into a balanced bus add up exactly to the flows out of it, whatever kinds and numbers of components are attached; a bus declared unbalanced imposes nothing. No other way of supplying or losing energy exists at a bus.",
     ["configurations", "inputs"], "all wirings of a bus (kinds of neighbours, fan in/out, bus-to-bus flows, periods, interval lengths) and all flow trajectories over a grid",
     "Tests solve a few models to one optimum; the balance has to hold for every feasible trajectory of every wiring.",
     [S + "buses/_bus.py", S + "_models.py"],
     [("BusBlock balance constraint", S + "buses/_bus.py"), ("Model flow indices", S + "_models.py")])

prop("F01", "Flow bounds follow minimum, maximum, fix and capacity",
     "A flow can take exactly the values allowed by its parameters: between minimum and maximum times capacity, equal to fix times capacity when fixed, whole numbers when declared integer, never negative unless a negative minimum is given, unbounded without a capacity.",
     ["configurations", "inputs"], "all combinations of bound parameters, scalar or per-interval in every container, and all flow values around every bound",
     "A solved optimum touches one bound at a time; missing or too strict bounds elsewhere go unnoticed.",
     [FL + "_flow.py", FL + "_simple_flow_block.py", S + "_models.py"],
     [("variable bounds", S + "_models.py"), ("SimpleFlowBlock", FL + "_simple_flow_block.py")])

prop("F02", "Ramp limits and full load times of simple flows",
     "The increase and decrease of a flow between consecutive intervals never exceeds its gradient limits (relative to its capacity), and its energy over the horizon stays within the full load time limits times capacity. Nothing else restricts the flow.",
     ["configurations", "inputs"], "all parameter combinations and interval structures, all trajectories over a grid per flow",
     "Histories of flow values matter: limits apply to every pair of intervals and to the sum, tests sample one optimum.",
     [FL + "_simple_flow_block.py", FL + "_flow.py"],
     [("gradient and full load constraints", FL + "_simple_flow_block.py")])

prop("F03", "Operational and fixed costs are complete and counted once",
     "The objective value of any feasible operation equals the sum of flow times interval weight times specific cost over all flows and intervals, discounted by the period it falls in, plus yearly fixed costs while a flow is within its lifetime.",
     ["configurations", "inputs"], "all kinds of flows, cost containers and signs, interval weights, period structures and discount rates; all trajectories over a grid",
     "Tests compare single optimal totals; an omitted, doubled or misweighted term only shows for particular operation.",
     [FL + "_simple_flow_block.py", S + "_models.py"],
     [("SimpleFlowBlock objective", FL + "_simple_flow_block.py"), ("objective_weighting", S + "_models.py")])

prop("N01", "On/off flows: semi-continuous operation, switching costs and counts",
     "A nonconvex flow is either exactly zero (off) or within its minimum and maximum (on), its on/off history is consistent with the initial state, and startup, shutdown, activity and inactivity costs and the maximum numbers of startups and shutdowns are counted for exactly the switches and states that occur.",
     ["configurations", "histories"], "all combinations of commitment parameters and all flow histories over a grid up to 4-5 intervals",
     "The meaning is about histories; tests optimise over them and only ever see one.",
     [FL + "_non_convex_flow_block.py", FL + "_shared.py", S + "_options.py"],
     [("status, startup and shutdown constraints", FL + "_shared.py")])

prop("N02", "Minimum up and down times hold over the whole horizon",
     "After a start the flow stays on for at least the minimum uptime and after a stop it stays off for at least the minimum downtime, wherever in the horizon the switch happens, and the initial state is kept for its minimum time. Everything that respects these times is possible.",
     ["configurations", "histories"], "all minimum up/down times up to 3-4 intervals, initial states, and every on/off history up to 5-6 intervals",
     "Edge effects at the start and end of the horizon are reached by few histories.",
     [FL + "_shared.py", S + "_options.py"],
     [("min uptime/downtime constraints", FL + "_shared.py")])

prop("N03", "Ramp limits of on/off flows",
     "Gradient limits given for a nonconvex flow bound every change of the flow between consecutive intervals relative to its capacity and exclude nothing else.",
     ["configurations", "histories"], "gradient limit combinations and all flow histories over a grid",
     "No test checks the ramp of a nonconvex flow against all histories.",
     [FL + "_non_convex_flow_block.py", FL + "_shared.py"],
     [("gradient constraints", FL + "_shared.py")])

prop("I01", "Invested flow capacity: sizing rules, operation limits and costs",
     "An invested capacity respects minimum and maximum (or is zero when nonconvex), operation of the flow is limited by existing plus invested capacity exactly as for a fixed capacity, and the costs are specific costs times invested capacity plus the offset exactly if something is built.",
     ["configurations", "inputs"], "investment parameters x operation parameters, all invested capacities on a grid x all trajectories on a grid",
     "Capacity and dispatch are optimised together; tests see one capacity per model.",
     [FL + "_investment_flow_block.py", S + "_options.py"],
     [("InvestmentFlowBlock", FL + "_investment_flow_block.py")])

prop("I02", "Invested capacity of on/off flows",
     "A flow that has both an investment and on/off behaviour is in each interval either zero or between minimum and maximum times the invested capacity; capacity limits, switching rules and investment costs apply as they do separately.",
     ["configurations", "histories"], "investment x commitment parameters, capacities on a grid x all flow histories",
     "The product of capacity and status is linearised; errors only show in particular combinations.",
     [FL + "_invest_non_convex_flow_block.py", FL + "_shared.py"],
     [("InvestNonConvexFlowBlock", FL + "_invest_non_convex_flow_block.py")])

prop("M01", "Capacity bookkeeping over several periods",
     "With several periods the capacity usable in a period is what existed initially and is not yet too old plus everything invested in this or an earlier period whose lifetime has not ended; per-period and overall capacity limits hold for exactly that capacity.",
     ["configurations", "histories"], "period structures, lifetimes, ages, existing capacity, limits; all investment histories on a grid",
     "Lifetimes interact with period distances; tests contain a few hand-picked cases.",
     [FL + "_investment_flow_block.py", S + "_models.py", S + "_energy_system.py"],
     [("total, old, old_end, old_exo rules", FL + "_investment_flow_block.py"), ("periods_years / matrix", S + "_energy_system.py")])

prop("M02", "Investment and fixed costs over several periods",
     "The total cost of an investment history is, per investment, its annualised cost for the years it is used within the horizon, plus yearly fixed costs for every year it is installed, plus the remaining value correction when enabled.",
     ["configurations", "histories"], "period structures, lifetimes, cost series, discount rates, remaining value on/off; all investment histories on a grid",
     "Tests fix a few numbers; terms at the end of the horizon differ per lifetime and period.",
     [FL + "_investment_flow_block.py", CO + "_generic_storage.py"],
     [("objective expressions", FL + "_investment_flow_block.py")])

prop("C01", "Converters and links couple flows by their factors only",
     "For a converter every input/output pair satisfies flow_in * factor_out = flow_out * factor_in in each interval, with missing factors counting as one; a link transfers exactly factor times the input to the other side for each direction. Nothing else constrains these flows.",
     ["configurations", "inputs"], "numbers of inputs/outputs, factor containers, directions; all flow combinations on a grid",
     "Tests solve particular plants; the relation must hold for all operating points.",
     [CO + "_converter.py", CO + "_link.py"],
     [("ConverterBlock.relation", CO + "_converter.py"), ("LinkBlock.relation", CO + "_link.py")])

prop("C02", "Offset converter follows its line while on and is off otherwise",
     "When the reference flow of an offset converter is on, every other flow equals factor times reference flow plus normed offset times capacity; when it is off all flows are zero, including with invested capacity. The helper that computes slope and offset reproduces the given full and part load efficiencies.",
     ["configurations", "inputs"], "reference at input or output, factors, offsets, containers, invested or given capacity; all operating points on a grid",
     "Only the optimum point on the line is observed by tests.",
     [CO + "_offset_converter.py"],
     [("OffsetConverterBlock.relation", CO + "_offset_converter.py"), ("slope_offset_from_nonconvex_*", CO + "_offset_converter.py")])

prop("C03", "CHP plants operate exactly in their characteristic field",
     "An extraction turbine and a generic CHP allow exactly the combinations of fuel, power and heat given by their documented characteristic (power loss index, efficiencies, minimum and maximum power, heat loss share, back pressure), in each interval.",
     ["configurations", "inputs"], "parameter sets per interval and all (fuel, power, heat) points on a grid with status on or off",
     "Feasible regions are two dimensional per interval; tests observe an optimum.",
     [CO + "_extraction_turbine_chp.py", CO + "_generic_chp.py"],
     [("relations", CO + "_extraction_turbine_chp.py"), ("GenericCHPBlock", CO + "_generic_chp.py")])

prop("C04", "Piecewise linear converter interpolates between breakpoints",
     "The output of a piecewise linear converter is, for every admissible input, the linear interpolation of the conversion function between the neighbouring breakpoints; inputs outside the breakpoints are impossible.",
     ["configurations", "inputs"], "breakpoints, conversion functions, representations; all inputs/outputs on a grid",
     "One test solves one case.",
     [CO + "experimental/_piecewise_linear_converter.py"],
     [("PiecewiseLinearConverterBlock", CO + "experimental/_piecewise_linear_converter.py")])

prop("C05", "Compressed air storage plant follows its documented equations",
     "A generic compressed air storage allows exactly the combinations of charging, discharging, gas input and cavern level given by its documented equations in each interval.",
     ["configurations", "inputs"], "parameter sets and all operating points on a grid over consecutive intervals",
     "Tests observe a single optimum of one parameter set.",
     [CO + "experimental/_generic_caes.py"],
     [("GenericCAESBlock", CO + "experimental/_generic_caes.py")])

prop("S01", "Storage content follows from inflow, outflow and losses",
     "The content at the end of each interval is the content before it reduced by the loss rate compounded over the interval length, minus fixed losses, plus inflow times inflow efficiency times length, minus outflow over outflow efficiency times length; this chain is unbroken over the horizon.",
     ["configurations", "histories"], "loss and efficiency parameters in all containers, interval lengths, several inputs/outputs; all charging histories on a grid",
     "The content is a function of the whole history; a wrong index or exponent only shows with uneven data.",
     [CO + "_generic_storage.py"],
     [("GenericStorageBlock balance", CO + "_generic_storage.py")])

prop("S02", "Storage content limits, initial content, balancing and costs",
     "At every point in time the content lies between minimum and maximum level times capacity, the given initial level is respected, a balanced storage ends as it started (also when the initial level is free), charging limits that depend on the content hold, and content costs are charged once per interval.",
     ["configurations", "histories"], "level parameters incl. time series, initial level, balanced, content-dependent charging; all charging histories on a grid x initial contents",
     "First and last point in time are special and rarely binding in tests.",
     [CO + "_generic_storage.py"],
     [("content bounds, init_content, balanced_cstr", CO + "_generic_storage.py")])

prop("S03", "Invested storage capacity and its coupling to power",
     "For an invested storage the content limits, initial content and losses refer to existing plus invested capacity, the sizing rules and costs hold as for flows, and fixed ratios between storage capacity, charging and discharging power are exact.",
     ["configurations", "histories"], "investment parameters, coupling ratios; all capacities on a grid x all charging histories on a grid",
     "Content bounds depend on two decisions at once; tests observe one optimum.",
     [CO + "_generic_storage.py", S + "_options.py"],
     [("GenericInvestmentStorageBlock", CO + "_generic_storage.py")])

prop("S04", "Storages over several periods",
     "With several periods the usable storage capacity follows lifetimes as for flows, the content starts empty, is limited by the capacity of the period and is carried over between periods; investment, fixed and content costs are complete.",
     ["configurations", "histories"], "period structures, lifetimes, investment histories x charging histories on a grid",
     "Tests solve one or two multi-period storages to optimality.",
     [CO + "_generic_storage.py"],
     [("multi-period rules", CO + "_generic_storage.py")])

prop("K01", "Integral and emission limits bind exactly the selected flows",
     "Limits on emissions or other integrals hold for the sum over the selected flows of flow times interval length times factor (with factors given as constants or series), over the horizon or in each period, and restrict nothing else.",
     ["configurations", "inputs"], "selections, factors, limits, interval lengths, periods; all trajectories on a grid",
     "Tests inspect an LP file or one optimum.",
     [CN + "integral_limit.py"],
     [("generic_integral_limit, emission_limit(_per_period)", CN + "integral_limit.py")])

prop("K02", "Investment limits bind the total of all investments",
     "A limit on investments holds for the sum of the investment costs of everything invested (flows and storages, with or without on/off behaviour), overall or in each period; limits on a custom investment property hold for the weighted sum of invested flow capacities.",
     ["configurations", "inputs"], "sets of investments, periods, limits; all investment choices on a grid",
     "Tests optimise one model with one limit.",
     [CN + "investment_limit.py"],
     [("investment_limit", CN + "investment_limit.py"), ("additional_investment_flow_limit", CN + "investment_limit.py")])

prop("K03", "Equated flows and variables are equal up to the factor",
     "Equated sums of flows (by list or keyword) are equal up to the given factor in every interval, and equated variables are equal up to the factor; nothing else is constrained.",
     ["configurations", "inputs"], "groups of flows, factors, keyword selections; all trajectories on a grid",
     "Tests inspect LP files of one instance.",
     [CN + "equate_flows.py", CN + "equate_variables.py"],
     [("equate_flows", CN + "equate_flows.py"), ("equate_variables", CN + "equate_variables.py")])

prop("K04", "Limits on simultaneously active flows and shared resources",
     "In every interval the number of active flows among the selected ones is within the given limits, and a weighted sum of component quantities under a shared limit stays within its limits at every time step.",
     ["configurations", "histories"], "selections, limits, weights; all histories on a grid",
     "Single-instance tests only.",
     [CN + "flow_count_limit.py", CN + "shared_limit.py"],
     [("limit_active_flow_count", CN + "flow_count_limit.py"), ("shared_limit", CN + "shared_limit.py")])

prop("K05", "Storage level gates flows of a multiplexer bus",
     "An output of the gated bus can only be active when the storage content is at least the level given for it, an input only when the content is at most its level; content strictly on the right side never blocks a flow.",
     ["configurations", "histories"], "levels for inputs and outputs, initial contents; all histories on a grid",
     "One optimum in one test.",
     [CN + "storage_level.py"],
     [("storage_level_constraint", CN + "storage_level.py")])

prop("K06", "All additional constraints of a model bind together",
     "Any number of additional constraints - the same kind several times, with the default or with own names, and different kinds - can be added to one model in any order; the possible plans are exactly those that satisfy all of them, and a constraint added later neither replaces nor weakens an earlier one.",
     ["configurations", "inputs"], "all pairs and triples out of a pool of 35 constraints (emission and integral limits, per period as well, equated flows and variables, active flow counts, shared limits, investment limits, storage levels) on common systems; all combinations of grid values of the flows, capacities and contents concerned",
     "The constraints are tested one at a time.",
     [CN + "equate_flows.py", CN + "equate_variables.py", CN + "flow_count_limit.py", CN + "integral_limit.py", CN + "investment_limit.py", CN + "shared_limit.py", CN + "storage_level.py"],
     [("names of the added components", CN + "integral_limit.py"), ("free_component_name", S + "_plumbing.py")])

prop("U01", "Constraint blocks, components and groups of the user take part in the model",
     "A constraint block of the user - attached to own component classes through their constraint group, to a grouping of flows given to the energy system, given to the model as an additional constraint group, or part of an own model class - is built exactly once, for exactly the nodes or flows of its group, and its constraints and its part of the objective apply next to everything else in the model; what is not in the group is not affected.",
     ["configurations", "inputs"], "a covering array over which of three components are limited by which of three user blocks, what the blocks limit or price, explicitly given groups, groupings, own model classes and four time axes; all flow values on a grid around the limits",
     "The tests never extend the model.",
     [S + "_models.py", S + "_groupings.py", S + "_energy_system.py"],
     [("Model._add_child_blocks, _add_objective", S + "_models.py"), ("groupings", S + "_groupings.py"), ("EnergySystem(groupings)", S + "_energy_system.py")])

prop("T01", "Time axis: every way of giving it means the same problem",
     "However the time axis is given (date index, numeric index, increments, inferred last interval), the model has one flow value per interval and storage contents at both ends of each interval, interval lengths equal the distances of the given points in hours, and inconsistent specifications are rejected.",
     ["inputs"], "all accepted combinations of index kinds, lengths, frequencies, inference flags and increments up to a small size, plus all inconsistent ones",
     "Combinations of arguments are sampled by tests.",
     [S + "_energy_system.py", S + "_models.py", S + "_helpers.py"],
     [("EnergySystem.__init__", S + "_energy_system.py"), ("Model.__init__", S + "_models.py")], TECH_HIST)

prop("T02", "Typical-period models are equivalent to the expanded time series",
     "With aggregated time series every flow value of a typical interval counts with the number of original intervals it stands for, in costs, switching costs and energy totals, and storage contents are carried through the original sequence of typical periods with the content limits holding in every original interval.",
     ["configurations", "histories"], "orders of typical periods, lengths, segmentations, storage parameters; all trajectories of the typical intervals on a grid",
     "Tests optimise one aggregated model.",
     [CO + "_generic_storage.py", S + "_energy_system.py", S + "_models.py", FL + "_shared.py", FL + "_simple_flow_block.py"],
     [("TSAM branches", CO + "_generic_storage.py"), ("tsam_weighting", S + "_models.py")])

prop("H01", "A model depends only on the described system, not on its history",
     "Building a model depends only on the described energy system: the order in which nodes are created or added, the name of nodes, building it before, saving and restoring it, the way in which the model is constructed (at once, step by step, with explicit defaults), or other systems built in the same process do not change the feasible operation or its costs, and building or solving changes no parameter the user gave.",
     ["histories"], "all orders of adding up to 4-5 nodes and all histories of build/solve/dump/restore/rebuild/other-system steps up to depth 2-3, all pairs of ways of constructing the model",
     "Tests build each system once in a fresh order.",
     [S + "_models.py", S + "_energy_system.py", S + "_groupings.py", S + "_plumbing.py", FL + "_flow.py"],
     [("groupings", S + "_groupings.py"), ("sequence objects", S + "_plumbing.py")], TECH_HIST)

prop("R01", "Results tables show exactly the values of the solved model",
     "After solving, the results object and the results dictionary contain for every flow, storage and investment exactly the values of the solution, labelled with the component and the point in time or period they belong to; nothing is missing, shifted or duplicated.",
     ["configurations", "inputs"], "all component kinds and time structures; all distinct-valued solutions from an exhaustive assignment of pairwise different values",
     "Tests compare sums of a few optimal results, which hide permutations and shifts.",
     [S + "_results.py", S + "processing.py"],
     [("Results", S + "_results.py"), ("processing.results", S + "processing.py")], TECH_HIST)

prop("R02", "Views and conversions of results lose nothing",
     "Filtering, node views, key conversion to strings and parameter extraction return for each component exactly the data of the full results that belong to it, under the options given, and do not modify the results they are applied to.",
     ["inputs", "histories"], "all nodes x all options, all sequences of conversions up to depth 3 on results of all component kinds",
     "Tests try few option combinations once each.",
     [S + "views.py", S + "processing.py"],
     [("views.node, filter_nodes, ...", S + "views.py"), ("convert_keys_to_strings, parameter_as_dict", S + "processing.py")], TECH_HIST)

prop("R03", "Results of typical-period models are expanded correctly",
     "Results of a model with aggregated time series are given on the original time axis: each original interval shows the value of the typical interval it is assigned to, and storage contents are continuous over the original time axis.",
     ["configurations", "inputs"], "orders, lengths, segmentations; all assignments of pairwise different values",
     "One test per feature, on optimal results.",
     [S + "processing.py"],
     [("TSAM disaggregation", S + "processing.py")], TECH_HIST)

prop("R04", "Cost figures in the results match the objective",
     "The investment and operational costs reported by the results object for each flow and storage are the ones that enter the objective, so that they add up to it.",
     ["configurations", "inputs"], "cost parameters, interval weights, nonconvex investments; all solutions on a grid",
     "One example in the tests.",
     [S + "_results.py"],
     [("Results costs", S + "_results.py")], TECH_HIST)

prop("V01", "Invalid parameter combinations are rejected, valid ones accepted",
     "Every combination of parameters that the documentation declares invalid is rejected with an error when the object or model is created, and every valid combination is accepted; nothing invalid is silently ignored.",
     ["inputs"], "all subsets up to size 3 (5 in the thorough run) of the parameters of flows, investments, on/off options, storages, converters, limits and energy systems with representative valid and invalid values at every position",
     "Tests try some single invalid inputs.",
     [FL + "_flow.py", S + "_options.py", CO + "_generic_storage.py"],
     [("checks in __init__", FL + "_flow.py")], TECH_HIST)

prop("P01", "Parameter sequences behave like the data they stand for",
     "A scalar parameter behaves like a sequence with that value at any position, a given sequence keeps its values, length checks accept exactly sequences that are long enough, and comparing, iterating or summarising a parameter never changes its values.",
     ["inputs", "histories"], "all container types, lengths and all histories of accesses up to depth 4",
     "Access order matters (sizes are set lazily); tests call each once.",
     [S + "_plumbing.py"],
     [("sequence, valid_sequence, FakeSequence", S + "_plumbing.py")], TECH_HIST)

prop("X01", "A model is only reported as solved when it was",
     "Solving returns results only if the solver found an optimal solution; infeasible, unbounded, interrupted or failing solves raise an error or, when explicitly allowed, a warning, and never yield stale or partial results as if they were optimal. Solver, interface, options and keywords reach the solver as given.",
     ["fault_sequences", "histories"], "all solver outcomes (status x termination condition) as injected answers and all histories of solves with changing models up to depth 3",
     "Tests exercise infeasible and unbounded once each.",
     [S + "_models.py"],
     [("Model.solve", S + "_models.py")], TECH_HIST)

prop("D01", "Shadow prices are the marginal costs of the balanced buses",
     "After receive_duals, the results give for every balanced bus and every interval the marginal costs of one more unit taken from it: for every combination of more or less demand at buses and intervals the optimal costs are at least what optimum and prices predict. Prices stand in the row and at the bus they belong to (also in multi-period models and models with typical periods); integer models give them after relax_problem; buses that are not balanced have none.",
     ["configurations", "inputs"], "small dispatch systems with up to 3 intervals (covering arrays over supplies, converter, storage, demand patterns and weights, with seven kinds of time axes and five typical-period structures): exact optimal costs by exhaustive dynamic programming for every pattern of -1/0/+1 units at two buses in every interval (9^T patterns), compared with the prices of two solvers",
     "Tests compare one dual value of one model.",
     [S + "processing.py", S + "_models.py", S + "buses/_bus.py"],
     [("BusBlock.balance", S + "buses/_bus.py"), ("results (duals)", S + "processing.py"), ("Model.receive_duals, relax_problem", S + "_models.py")], TECH_DP)

prop("D02", "The published parts of the costs add up to the objective",
     "Every part of the costs that a block publishes - variable, fixed and investment costs of flows and storages, investment costs per period, costs of start-ups, shutdowns, activity and inactivity, storage costs - is for every decision exactly the part of the objective that comes from the costs of that kind; the parts of a block add up to its published costs, and all of them to the objective, before and after solving.",
     ["configurations", "inputs"], "covering arrays over which of fifteen kinds of costs are absent, scalar, lists, zero or negative, for one or two flows and storages of every kind, discount rates, remaining values and five time axes; every unit decision (the costs are linear), and the optimal plan",
     "Tests look at the objective value of single models only; users read the parts.",
     [S + "flows/_simple_flow_block.py", S + "flows/_investment_flow_block.py", S + "flows/_non_convex_flow_block.py", S + "flows/_invest_non_convex_flow_block.py", CO + "_generic_storage.py"],
     [("_objective_expression (cost expressions)", S + "flows/_investment_flow_block.py"), ("storage_costs, investment_costs, fixed_costs", CO + "_generic_storage.py"), ("_shared.startup_costs ...", S + "flows/_shared.py")], TECH_HIST)

prop("A01", "Old names of parameters and functions mean the same as the new ones",
     "Until they are removed, deprecated spellings (nominal_value, min, max, bidirectional, custom_attributes, nominal_storage_capacity, coefficients, limit, Results.to_df, Results.timeindex, Model.results) describe exactly the same problem and give the same results as their replacements; giving old and new name together is rejected, whatever the values.",
     ["configurations", "inputs"], "covering arrays of flow, investment and on/off options and the whole catalogue of components x every kind of time axis x every subset of up to two (and all) old names; all pairs of values for old and new name together",
     "Tests give single old names in single models.",
     [S + "flows/_flow.py", S + "_options.py", CO + "_offset_converter.py"],
     [("Flow, Investment, NonConvex, GenericStorage, OffsetConverter (deprecated arguments)", S + "flows/_flow.py"), ("Results.to_df, Results.timeindex", S + "_results.py"), ("generic_integral_limit(limit=...)", CN + "integral_limit.py")], TECH_HIST)

prop("G01", "Nested nodes mean the same as a flat energy system",
     "Components and buses inside other nodes (parent_node, Node.add, Node.subnode, any depth, nodes of the system as parents, parents added before or after their members exist) are part of the energy system of their parent and build exactly the model and results of the flat description; type, parent, depth and custom properties of every node are the ones given.",
     ["configurations", "histories"], "every kind of component and option x kinds of time axes x six ways of nesting x all single nodes, complements and the whole system inside parents x order of adding",
     "Only an example uses nested nodes.",
     [CO + "_source.py", S + "buses/_bus.py", S + "_groupings.py", S + "_models.py"],
     [("parent_node, custom_properties of all component classes", CO + "_source.py"), ("constraint_grouping, EnergySystem.add", S + "_groupings.py")], TECH_HIST)

NOTE_TRAJ = (
    "Exhaustive within the stated grids: every trajectory of every configuration "
    "is judged by the reference automaton and by the constraint system built by "
    "the real code. Trusts the reference semantics (mc/ref.py), the exact "
    "extraction of the constraint system (mc/linsys.py; bound to the code by "
    "replaying accepted and rejected trajectories with Model.solve), and that "
    "the small grids/horizons reach every case distinction."
)
NOTE_HIST = (
    "Exhaustive within the stated alphabet and depth on the real code; trusts "
    "the executable reference in mc/props/<id>.py and that the small scope "
    "reaches every case distinction."
)
NA = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "hook_needed": None,
                },
            }) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
            continue
        if not os.path.exists(os.path.join(HERE, "mc", "props", i + ".py")):
            na.append({"property": i, "reason": "check not built yet"})
            continue
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s quick" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "technique": p["tech"],
            "level": "model_checking",
            "level_note": p["note"] or (
                NOTE_TRAJ if p["tech"] is TECH_TRAJ else NOTE_HIST),
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "true",
            "checks": checks,
            "not_applicable": na,
            "notes": "No hooks: the checks import /repo/src through the "
            "installed development environment /opt/venv and need no build.",
        }, f, indent=1)
        f.write("\n")
    print(len(checks), "checks;", [x["property"] for x in na])


main()
