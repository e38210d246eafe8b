"""The property table: statement, anchors and the comparison units (with the
tags of the obligations that belong to the property)."""

S = "src/oemof/solph/"
PROPS = {}


def prop(id, title, statement, text, why, files, mech, units,
         over=("inputs", "configurations"), note="", assume=(), rule=None,
         tech=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "text": " ".join(text.split()), "why": " ".join(why.split()),
         "files": [S + f for f in files],
         "mech": [(n, S + w) for n, w in mech],
         "units": [(u, None if t is None else set(t)) for u, t in units],
         "over": list(over), "note": note, "assume": list(assume)}
    if rule:
        d["rule"] = rule
    if tech:
        d["tech"] = tech
    PROPS[id] = d


SAMPLED = ("The tests build a few example systems and compare solver "
           "optima or LP files; ")

prop("P01", "Bus balance",
     """At every bus and every timestep of the optimisation, the sum of all
     flows entering the bus equals the sum of all flows leaving it; no bus and
     no timestep is left out and nothing else is added to the balance.""",
     "every energy system (any set of buses and connections) and every "
     "timestep",
     SAMPLED + "they reach a handful of topologies, the guarantee ranges over "
     "all of them.",
     ["buses/_bus.py"],
     [("balance constraint", "buses/_bus.py BusBlock._create")],
     [("BusBlock", None)])

prop("P02", "Full-load-time limits of flows with given capacity",
     """A flow with a given nominal capacity and an upper (lower) full-load-time
     limit carries at most (at least) that limit times its nominal capacity in
     energy over the whole horizon, energy being the flow times the interval
     length times how often the timestep stands for a represented one. Without
     a limit, no such restriction is made.""",
     "all combinations of limits, interval lengths and aggregation weights",
     SAMPLED + "unequal intervals and aggregated series are hardly sampled.",
     ["flows/_simple_flow_block.py"],
     [("full load time constraints",
       "flows/_simple_flow_block.py SimpleFlowBlock._create")],
     [("SimpleFlowBlock", ["full_load_time_max", "full_load_time_min"])])

prop("P03", "Gradient limits of plain flows",
     """For a flow with a positive (negative) gradient limit, the increase
     (decrease) from one timestep to the next never exceeds the limit of the
     later timestep times the nominal capacity, for every pair of consecutive
     timesteps. Flows without such a limit may change arbitrarily.""",
     "all flows, limits (scalar or sequence) and timesteps",
     SAMPLED + "only single limits and horizons occur.",
     ["flows/_simple_flow_block.py"],
     [("gradient bounds and constraints",
       "flows/_simple_flow_block.py SimpleFlowBlock._create")],
     [("SimpleFlowBlock", ["gradient"])])

prop("P04", "Integer flows",
     """A flow declared integer only takes non-negative integer values, in
     every timestep; other flows stay continuous.""",
     "all flows and timesteps",
     SAMPLED + "one integer flow is sampled.",
     ["flows/_simple_flow_block.py"],
     [("integer_flow variable",
       "flows/_simple_flow_block.py SimpleFlowBlock._create")],
     [("SimpleFlowBlock", ["integer"])])

prop("P05", "Flows with given capacity stop at the end of their lifetime",
     """In a multi-period model, a flow with given capacity, a lifetime and an
     age is zero in every timestep of every period starting when the unit has
     reached its lifetime, and is not restricted before that.""",
     "all lifetimes, ages and period layouts",
     SAMPLED + "two or three period layouts are used.",
     ["flows/_simple_flow_block.py"],
     [("lifetime output constraints",
       "flows/_simple_flow_block.py SimpleFlowBlock._create")],
     [("SimpleFlowBlock", ["lifetime"])])

prop("P06", "Operational and fixed costs of flows with given capacity",
     """The total cost contains, for each flow and timestep, the variable
     costs times the flow times the objective weighting and the aggregation
     weighting (discounted to the start of the optimisation in multi-period
     models), and in multi-period models the yearly fixed costs times the
     nominal capacity for the years the unit exists within the horizon.
     Flows without costs contribute nothing.""",
     "all cost sequences, weightings, periods and lifetimes",
     SAMPLED + "the cost of a sample system is compared as one number.",
     ["flows/_simple_flow_block.py"],
     [("objective of simple flows",
       "flows/_simple_flow_block.py SimpleFlowBlock._objective_expression")],
     [("SimpleFlowBlock", ["variable_costs", "fixed_costs"])])

prop("P07", "On/off flows stay within their operating range or are off",
     """A flow with on/off behaviour and given capacity is, in every timestep,
     either zero or between its minimum and maximum fraction of the nominal
     capacity; the on/off state is binary. In the initial timesteps that are
     not flexible the state equals the given initial state.""",
     "all flows, limits and timesteps",
     SAMPLED + "few limits sampled, and the solver only shows the optimum.",
     ["flows/_shared.py", "flows/_non_convex_flow_block.py"],
     [("status variables and range constraints",
       "flows/_shared.py variables_for_non_convex_flows, "
       "minimum_flow_constraint, maximum_flow_constraint"),
      ("status_nominal",
       "flows/_non_convex_flow_block.py NonConvexFlowBlock._create")],
     [("NonConvexFlowBlock", ["range", "initial_status"])])

prop("P08", "Startups and shutdowns are counted, limited and charged",
     """Whenever a flow with on/off behaviour and startup (shutdown) costs or
     limits turns on (off) from one timestep to the next, or at the first
     timestep relative to the initial state, a startup (shutdown) is
     registered; the number over the horizon never exceeds the given maximum,
     and each is charged with the costs of its timestep times the weighting
     of the aggregated timestep. Without such data nothing is registered.""",
     "all flows (with and without investment), costs, limits and schedules",
     SAMPLED + "a few schedules are produced by the solver.",
     ["flows/_shared.py", "flows/_non_convex_flow_block.py",
      "flows/_invest_non_convex_flow_block.py"],
     [("startup and shutdown constraints",
       "flows/_shared.py startup_constraint, shutdown_constraint, "
       "max_startup_constraint, max_shutdown_constraint"),
      ("startup and shutdown costs",
       "flows/_shared.py startup_costs, shutdown_costs")],
     [("NonConvexFlowBlock", ["startup", "shutdown", "startup_costs",
                              "shutdown_costs"]),
      ("InvestNonConvexFlowBlock", ["startup", "shutdown", "startup_costs",
                                    "shutdown_costs"])],
     over=("inputs", "schedules", "configurations"))

prop("P09", "Minimum up- and downtime",
     """Once a flow with on/off behaviour turns on (off) after its initial
     fixed phase, it stays on (off) for at least the minimum uptime (downtime)
     in force at that timestep, or until the end of the horizon, whichever
     comes first. No such restriction exists for flows without it.""",
     "all uptime and downtime sequences, initial phases and horizons",
     SAMPLED + "the windows at the end of the horizon are sampled once.",
     ["flows/_shared.py"],
     [("minimum uptime and downtime",
       "flows/_shared.py min_uptime_constraint, min_downtime_constraint")],
     [("NonConvexFlowBlock", ["min_uptime", "min_downtime"]),
      ("InvestNonConvexFlowBlock", ["min_uptime", "min_downtime"])],
     over=("inputs", "schedules", "configurations"))

prop("P10", "Ramping and activity costs of on/off flows",
     """For an on/off flow with a positive (negative) gradient limit, the
     increase (decrease) of the running flow between consecutive timesteps
     is captured by a non-negative ramp quantity in every timestep, zero at
     the first. Activity (inactivity) costs are charged in exactly the
     timesteps the flow is on (off), times the weighting of the aggregated
     timestep.""",
     "all flows, costs and schedules",
     SAMPLED + "single cost values and short horizons are used.",
     ["flows/_shared.py"],
     [("gradients", "flows/_shared.py positive_gradient_limit, "
       "negative_gradient_limit, _gradient"),
      ("activity costs", "flows/_shared.py activity_costs, "
       "inactivity_costs")],
     [("NonConvexFlowBlock", ["gradient", "activity_costs",
                              "inactivity_costs"]),
      ("InvestNonConvexFlowBlock", ["gradient", "activity_costs",
                                    "inactivity_costs"])],
     over=("inputs", "schedules", "configurations"))

prop("P11", "On/off flows with capacity investment",
     """For a flow with both on/off behaviour and capacity investment, the
     flow in each timestep is zero when off and between its minimum and
     maximum fraction of the capacity built in that timestep's period when on;
     this product is represented exactly by linear relations. The invested
     capacity respects its limits, and costs are the specific costs times the
     capacity plus, for non-convex investments, the offset when
     anything is built.""",
     "all flows, limits, periods and schedules",
     SAMPLED + "one or two investment sizes are sampled.",
     ["flows/_invest_non_convex_flow_block.py", "flows/_shared.py"],
     [("linearised product",
       "flows/_invest_non_convex_flow_block.py "
       "InvestNonConvexFlowBlock._create"),
      ("range constraints", "flows/_shared.py minimum_flow_constraint")],
     [("InvestNonConvexFlowBlock", ["range", "linearisation", "invest",
                                    "investment_costs"])],
     over=("inputs", "schedules", "configurations"))

prop("P12", "Investment limits of flow capacities",
     """The capacity invested in each period lies between the minimum and the
     maximum of that period; if the investment is non-convex it may instead be
     zero. In multi-period models the total capacity
     never exceeds the overall maximum in any period and reaches the overall
     minimum in the last one.""",
     "all investment parameters and periods",
     SAMPLED + "the solver reaches only single optima.",
     ["flows/_investment_flow_block.py"],
     [("investment bounds",
       "flows/_investment_flow_block.py InvestmentFlowBlock._create")],
     [("InvestmentFlowBlock", ["invest_bounds", "overall"])])

prop("P13", "Installed capacity balance and decommissioning of flows",
     """The total capacity of an investment flow in a period is the existing
     plus newly invested capacity in the first period, and the previous total
     plus the new investment minus what is decommissioned afterwards.
     Capacity built in a period is decommissioned in the first period
     starting at least its lifetime later, existing capacity once, when its
     remaining lifetime has passed, and never earlier or twice.""",
     "all lifetimes, ages, existing capacities and period layouts",
     SAMPLED + "two multi-period layouts are used.",
     ["flows/_investment_flow_block.py"],
     [("total, old, old_end, old_exo rules",
       "flows/_investment_flow_block.py "
       "InvestmentFlowBlock._create_constraints")],
     [("InvestmentFlowBlock", ["total", "decommissioning", "lifetime"])])

prop("P14", "Flows stay within the installed capacity",
     """The flow of an investment flow is at most its maximum and at least its
     minimum fraction of the capacity installed in the period of the timestep,
     or exactly the given fraction if the flow is fixed. Its energy over the
     horizon respects full-load-time limits relative to the installed
     capacity, counting interval lengths and aggregation weights.""",
     "all investment flows, sequences, periods and timesteps",
     SAMPLED + "few sequences and one weighting are sampled.",
     ["flows/_investment_flow_block.py"],
     [("flow limits", "flows/_investment_flow_block.py "
       "InvestmentFlowBlock._create_constraints")],
     [("InvestmentFlowBlock", ["flow_limits", "full_load_time"])])

prop("P15", "Investment costs of flows",
     """The total cost contains the investment costs of each flow: specific
     costs (and offset of a non-convex investment) for single-period models;
     in multi-period models the annuity of the specific costs over the
     lifetime valued over the years within the horizon, corrected by the
     remaining value if that is requested, plus the yearly fixed costs of the
     new and existing capacity during its life within the horizon.""",
     "all cost parameters, lifetimes, periods and years",
     SAMPLED + "the objective of a few systems is compared as one number.",
     ["flows/_investment_flow_block.py"],
     [("objective", "flows/_investment_flow_block.py "
       "InvestmentFlowBlock._objective_expression")],
     [("InvestmentFlowBlock", ["investment_costs", "annuity_costs",
                               "remaining_value", "fixed_costs"])])

prop("P16", "Converters couple every input with every output",
     """For each converter, timestep, input and output, the input flow times
     the conversion factor of the output equals the output flow times the
     conversion factor of the input; no pair is left out.""",
     "all converters with any number of inputs and outputs and any factors",
     SAMPLED + "one converter shape per test.",
     ["components/_converter.py"],
     [("relation", "components/_converter.py ConverterBlock._create")],
     [("ConverterBlock", None)])

prop("P17", "Links convert each connection with its factor",
     """For each link, timestep and connection with a conversion factor, the
     flow into the target equals the factor times the flow out of the source
     of that connection.""",
     "all links and conversion factors",
     SAMPLED + "one link is sampled.",
     ["components/_link.py"],
     [("relation", "components/_link.py LinkBlock._create")],
     [("LinkBlock", None)])

prop("P18", "Offset converters follow their affine characteristic",
     """For each offset converter and timestep, every flow other than the
     reference flow equals its slope times the reference flow plus its
     normalised offset times the nominal capacity in use (zero when the
     reference flow is off), with the reference on either the input or the
     output side and with given or invested capacity.""",
     "all offset converters, any number of inputs and outputs",
     SAMPLED + "a few slopes and offsets are sampled.",
     ["components/_offset_converter.py"],
     [("relation",
       "components/_offset_converter.py OffsetConverterBlock._create")],
     [("OffsetConverterBlock", None)])

prop("P19", "Extraction turbine characteristic",
     """For an extraction turbine and each timestep, the input flow equals the
     main output plus the tapped output times the loss index, divided by the
     efficiency in full condensation, and the main output is at least the
     tapped output times the power-to-heat ratio of the back-pressure line.""",
     "all efficiencies and timesteps",
     SAMPLED + "one turbine is sampled.",
     ["components/_extraction_turbine_chp.py"],
     [("relations", "components/_extraction_turbine_chp.py "
       "ExtractionTurbineCHPBlock._create")],
     [("ExtractionTurbineCHPBlock", None)])

prop("P20", "Generic combined heat and power characteristic",
     """A generic CHP obeys, in each timestep, its documented fuel, power and
     heat characteristic: fuel use follows from power and heat while running
     (linear between the given points of minimal and maximal power with their
     efficiencies, for each timestep on its own), lies between the documented limits, heat is bounded by the exhaust-gas
     losses at maximum (equality for back-pressure), and by those at
     minimum whenever these are given. It is off or on as a whole.""",
     "all parameters and timesteps",
     SAMPLED + "one parameter set per type is sampled.",
     ["components/_generic_chp.py"],
     [("relations", "components/_generic_chp.py GenericCHPBlock._create"),
      ("fuel characteristic", "components/_generic_chp.py "
       "GenericCHP._calculate_alphas")],
     [("GenericCHPBlock", None)] + [
         (f"GenericCHP: alpha {k}" + a, None)
         for k in (0, 1) for a in ("", ", read again")])

GS = "components/_generic_storage.py "

prop("P21", "Storage balance",
     """For every storage (with given or invested capacity) and every interval,
     the content at the end equals the content at the start minus losses
     (relative to the content over the interval length, relative to the
     capacity, and absolute) plus the charged energy times the inflow factor
     minus the discharged energy divided by the outflow factor. For
     aggregated time series the content is the sum of the original cluster's
     initial content, carried from cluster to cluster with its losses, and the
     change within the representing cluster.""",
     "all storages, loss rates, efficiencies, interval lengths and "
     "aggregations",
     SAMPLED + "equal intervals and constant parameters dominate.",
     ["components/_generic_storage.py"],
     [("balance", GS + "GenericStorageBlock._create"),
      ("balance with investment",
       GS + "GenericInvestmentStorageBlock._create_constraints")],
     [("GenericStorageBlock", ["storage_balance"]),
      ("GenericInvestmentStorageBlock", ["storage_balance"])],
     over=("inputs", "schedules", "configurations"))

prop("P22", "Storage content stays within its level limits",
     """At every time point the storage content lies between the minimum and
     the maximum level times the capacity (given, or installed in the period),
     also within every original cluster of an aggregated series, where the
     limits of the representing timestep apply.""",
     "all storages, limits (scalar or sequence), periods and aggregations",
     SAMPLED + "constant limits dominate.",
     ["components/_generic_storage.py"],
     [("bounds of storage_content", GS + "GenericStorageBlock._create"),
      ("min/max storage content",
       GS + "GenericInvestmentStorageBlock._create_constraints")],
     [("GenericStorageBlock", ["levels"]),
      ("GenericInvestmentStorageBlock", ["levels"])],
     over=("inputs", "schedules", "configurations"))

prop("P23", "Initial content and balanced storages",
     """If an initial storage level is given, the content at the first time
     point equals that level times the capacity; for a balanced storage the
     content at the last time point equals that at the first. Without these
     settings both are free within the level limits (an invested
     storage's initial content within its capacity). For invested storages
     of multi-period models neither setting applies, as documented: a given
     level is rejected, they start empty (without aggregation) and end
     freely.""",
     "all storages, levels and horizons",
     SAMPLED + "single values are used.",
     ["components/_generic_storage.py"],
     [("init_content, balanced_cstr", GS + "GenericStorageBlock._create"),
      ("init_content, initially_empty",
       GS + "GenericInvestmentStorageBlock._create_constraints")],
     [("GenericStorageBlock", ["initial", "balanced"]),
      ("GenericInvestmentStorageBlock", ["initial", "balanced"])],
     note="balanced is not decided for invested storages of aggregated "
     "series: two stable tests pin that it is ignored there.",
     over=("inputs", "configurations"))

prop("P24", "Storage charging limits and capacity couplings",
     """Invested charging, discharging and storage capacities keep the given
     ratios to each other in every period, as far as ratios are given. For
     storages with state-of-charge dependent charging, charging power
     decreases linearly from its maximum to the given fraction once the
     content passes the given level.""",
     "all storages, ratios, periods and limits",
     SAMPLED + "single ratios are used.",
     ["components/_generic_storage.py"],
     [("power_coupled, storage_capacity_inflow/outflow",
       GS + "GenericInvestmentStorageBlock._create_constraints"),
      ("power_coupled, soc charging", GS + "GenericStorageBlock._create")],
     [("GenericStorageBlock", ["couplings", "soc_charging"]),
      ("GenericInvestmentStorageBlock", ["couplings"])])

prop("P25", "Storage investment limits, totals and decommissioning",
     """The storage capacity invested in each period lies within its limits,
     or is zero for non-convex investments; the total capacity of a
     period is the previous plus the newly built minus what is decommissioned,
     which happens exactly once, in the first period starting at least the
     lifetime after it was built; overall limits hold for the total.""",
     "all investment parameters, lifetimes, ages and period layouts",
     SAMPLED + "two multi-period layouts are used.",
     ["components/_generic_storage.py"],
     [("investment variables and rules",
       GS + "GenericInvestmentStorageBlock._create_variables, "
       "_create_constraints")],
     [("GenericInvestmentStorageBlock",
       ["invest_bounds", "total", "decommissioning", "overall"])])

prop("P26", "Storage costs",
     """The total cost contains for each storage the storage costs times the
     content at the end of each interval (with aggregated time series: of
     each represented interval), the yearly fixed costs times the
     capacity during its life within the horizon, and for invested storages
     the investment costs: specific costs and offset, in multi-period
     models as annuity over the lifetime valued over the years within the
     horizon and corrected by the remaining value if requested.""",
     "all cost parameters, periods, lifetimes and years",
     SAMPLED + "the objective of a few systems is compared as one number.",
     ["components/_generic_storage.py"],
     [("objective", GS + "GenericStorageBlock._objective_expression, "
       "GenericInvestmentStorageBlock._objective_expression")],
     [("GenericStorageBlock", ["fixed_costs", "storage_costs"]),
      ("GenericInvestmentStorageBlock",
       ["fixed_costs", "storage_costs", "investment_costs",
        "remaining_value"])])

prop("P27", "Compressed air storage characteristic",
     """A generic compressed-air storage obeys its documented equations in
     every timestep: compression and expansion are either off or between
     their (cavern-filling dependent) limits, heat follows from power, the
     cavern is charged and discharged only while the respective unit
     runs, its filling follows from the exchange and stays within its
     bounds, and the thermal storage balances exactly.""",
     "all parameters and timesteps",
     SAMPLED + "one parameter set is sampled.",
     ["components/experimental/_generic_caes.py"],
     [("relations", "components/experimental/_generic_caes.py GenericCAESBlock._create")],
     [("GenericCAESBlock", None)])

prop("P28", "Piecewise linear converters",
     """In each timestep the output of a piecewise linear converter is the
     linear interpolation of the conversion function between the given
     breakpoints, at the value of the input; the input stays within
     the breakpoints and the output within the range of the function.""",
     "all functions, breakpoints and timesteps",
     SAMPLED + "one function is sampled.",
     ["components/experimental/_piecewise_linear_converter.py"],
     [("piecewise relation", "components/experimental/_piecewise_linear_converter.py "
       "PiecewiseLinearConverterBlock._create")],
     [("PiecewiseLinearConverterBlock", None)])

CO = "constraints/"
CW = ("The tests build one model per function and compare its LP file; ")

prop("P29", "Equated flows and variables stay equal",
     """After equating two groups of flows (listed or selected by keyword), the
     sum of the first group times the factor equals the sum of the second in
     every timestep; after equating two variables, the first times the
     factor equals the second. Nothing else is restricted.""",
     "all models, groups, keywords, factors and timesteps",
     CW + "single groups and factors are sampled.",
     [CO + "equate_flows.py", CO + "equate_variables.py"],
     [("equate_flows", CO + "equate_flows.py equate_flows, "
       "equate_flows_by_keyword"),
      ("equate_variables", CO + "equate_variables.py equate_variables")],
     [("equate_flows", ["equate", "return"]),
      ("equate_flows_by_keyword", ["equate", "return"]),
      ("equate_variables", ["equate"])])

prop("P30", "Number of active flows stays within its limits",
     """After limiting the number of active flows, the number of the listed (or
     keyword-carrying) on/off flows with given capacity that are on lies
     between the lower and the upper limit in every timestep, and is
     available under the given name; a limit that is not given does not
     restrict.""",
     "all models, groups, limits and timesteps",
     CW + "one pair of limits is sampled.",
     [CO + "flow_count_limit.py"],
     [("count variable and constraint", CO + "flow_count_limit.py "
       "limit_active_flow_count, limit_active_flow_count_by_keyword")],
     [("limit_active_flow_count", ["count", "*", "return"]),
      ("limit_active_flow_count_by_keyword", ["count", "*", "return"])])

prop("P31", "Shared limits",
     """After adding a shared limit, the weighted sum of the quantity over the
     given components lies between the lower and the upper limit in every
     timestep; a limit that is not given does not restrict.""",
     "all quantities, components, weights, limits and timesteps",
     CW + "one storage pair is sampled.",
     [CO + "shared_limit.py"],
     [("shared variable and weighted sum",
       CO + "shared_limit.py shared_limit")],
     [("shared_limit", ["shared", "*"])])

prop("P32", "Integral (emission) limits over the whole horizon",
     """After adding an integral limit for a keyword, the sum over the given
     flows (or all flows carrying the keyword) and all timesteps of flow
     times interval length times the number of timesteps it stands for times
     the flow's factor lies within the upper and lower limit given; the sum
     is available on the model. Flows without the keyword, or a call without
     any limit, are rejected. An emission limit is such a limit for
     emission_factor.""",
     "all flows, factors (scalar or sequence), interval lengths and limits",
     CW + "equal intervals and scalar factors dominate.",
     [CO + "integral_limit.py"],
     [("sum and limit", CO + "integral_limit.py generic_integral_limit, "
       "emission_limit")],
     [("generic_integral_limit", ["limit", "AttributeError", "ValueError",
                                  "return", "expression"]),
      ("emission_limit", ["limit", "AttributeError", "ValueError",
                          "expression"])])

prop("P33", "Integral (emission) limits per period",
     """After adding a periodical integral limit in a multi-period model, in
     every period the sum over the given flows (or those carrying the
     keyword) and the period's timesteps of flow times interval length times
     represented timesteps times factor does not exceed the limit of
     that period. Single-period models and missing limits are rejected.""",
     "all flows, factors, period layouts and limits (scalar or sequence)",
     CW + "one layout is sampled.",
     [CO + "integral_limit.py"],
     [("sum and limit",
       CO + "integral_limit.py generic_periodical_integral_limit, "
       "emission_limit_per_period")],
     [("generic_periodical_integral_limit",
       ["limit", "AttributeError", "ValueError", "return"]),
      ("emission_limit_per_period",
       ["limit", "AttributeError", "ValueError"])])

prop("P34", "Investment budgets",
     """After limiting investments, the investment costs of all invested flows
     (with or without on/off behaviour) and storages together do not exceed
     the budget: over the horizon, or for each period the costs of what is
     invested in it. Models without one of these kinds of investment are
     handled. Per-period limits on single-period models and missing limits
     are rejected.""",
     "all mixes of investments, periods and limits",
     CW + "flows and storages appear together only.",
     [CO + "investment_limit.py", "flows/_investment_flow_block.py",
      "components/_generic_storage.py",
      "flows/_invest_non_convex_flow_block.py"],
     [("sum over the blocks", CO + "investment_limit.py investment_limit, "
       "investment_limit_per_period"),
      ("costs per period",
       "flows/_investment_flow_block.py "
       "InvestmentFlowBlock._objective_expression")],
     [("investment_limit", ["limit", "return"]),
      ("investment_limit_per_period", ["limit", "ValueError", "return"]),
      ("InvestmentFlowBlock", ["expression:investment_costs",
                               "expression:period_investment_costs"]),
      ("InvestNonConvexFlowBlock", ["expression:investment_costs",
                                    "expression:period_investment_costs"]),
      ("GenericInvestmentStorageBlock",
       ["expression:investment_costs",
        "expression:period_investment_costs"])])

prop("P35", "Limits on properties of invested flows",
     """After limiting a property of investments, the sum over all invested
     flows carrying the keyword and all periods of the invested capacity times
     the property stays at most the limit, and is available on the model;
     flows with on/off behaviour count like others.""",
     "all flows, keywords, factors and periods",
     CW + "one pair of flows is sampled.",
     [CO + "investment_limit.py"],
     [("sum and limit",
       CO + "investment_limit.py additional_investment_flow_limit")],
     [("additional_investment_flow_limit", None)])

prop("P36", "Flows restricted by the storage level",
     """After adding a storage level constraint, each listed output of the
     multiplexer bus can only be used in intervals at whose end the content is
     at least its level, and each listed input only in intervals at whose
     start the content is at most its level, for plain and aggregated time
     series (there in every original cluster represented).""",
     "all storages, levels, timesteps and aggregations",
     CW + "one storage with a few levels is sampled.",
     [CO + "storage_level.py"],
     [("active inputs and outputs",
       CO + "storage_level.py storage_level_constraint")],
     [("storage_level_constraint", ["output", "input", "*"])])

prop("P37", "Added constraints do not replace earlier ones",
     """Calling a constraint function again with another name or keyword keeps
     what earlier calls added: everything a call puts on the model is named
     after the caller's name or keyword, and no call uses one name twice.""",
     "all sequences of calls with different names or keywords",
     "The tests call each function once per model.",
     [CO + "integral_limit.py", CO + "equate_flows.py",
      CO + "flow_count_limit.py", CO + "storage_level.py",
      CO + "shared_limit.py", CO + "investment_limit.py",
      CO + "equate_variables.py"],
     [("component names", CO + "integral_limit.py generic_integral_limit, "
       "generic_periodical_integral_limit"),
      ("component names", CO + "storage_level.py storage_level_constraint")],
     [(f, ["names"]) for f in (
         "equate_flows", "equate_flows_by_keyword", "equate_variables",
         "limit_active_flow_count", "limit_active_flow_count_by_keyword",
         "shared_limit", "generic_integral_limit",
         "generic_periodical_integral_limit",
         "additional_investment_flow_limit", "storage_level_constraint")],
     over=("histories", "inputs"),
     rule="the name of every component a constraint function puts on the "
     "model is computed symbolically and has to contain the parameter that "
     "tells calls apart; names of one call are pairwise different")


# ------------------------------------------------------- data of the objects
CT = ("every combination of arguments, given or not, None, scalar or "
      "sequence")
CS = ("The tests construct some objects with valid data and a few invalid "
      "ones; ")
FL = "flows/_flow.py"
CR = ("the constructor is evaluated symbolically for all, for only the "
      "required and for the deprecated arguments: the value of every "
      "attribute it stores, as a guarded term over the arguments, and the "
      "condition of every error it raises have to coincide with the "
      "specification's")

prop("P38", "Flow data reach the model unchanged",
     """A flow stores its data as given, scalars acting as constant
     sequences: a number given as nominal capacity is its capacity, an
     investment makes the capacity an optimisation result; unset limits
     default to 0 and 1 (minimum -1 if the flow is declared bidirectional), a
     negative minimum makes it bidirectional; further unset data mean no
     restriction and no cost.""",
     CT, CS + "defaults interact (bidirectional, minimum, fix, investment).",
     [FL], [("constructor", FL + " Flow.__init__")],
     [("new Flow", ["attributes"])], rule=CR)

prop("P39", "Contradictory flow data are rejected",
     """A flow is rejected with an error if its nominal capacity is neither a
     finite number nor an investment; if it is fixed and also has limits; if
     relative data (fix, limits other than the defaults, full-load-time
     limits) come without any capacity; if gradient limits are given both at
     the flow and at its on/off behaviour; if an on/off flow has an unbounded
     investment. Other data are accepted.""",
     CT, CS + "both directions range over all combinations.",
     [FL], [("constructor", FL + " Flow.__init__")],
     [("new Flow", ["reject_capacity", "reject_fix", "reject_relative",
                    "reject_gradient", "reject_invest"])], rule=CR)

prop("P40", "Investment data and their consistency",
     """An investment stores its limits, costs, existing capacity, offset,
     overall limits, lifetime and age as given. It is rejected if a decision
     to invest is combined with an existing capacity or an unlimited
     investment, if an offset is given without such a decision, or if the age
     reaches the lifetime; otherwise accepted.""",
     CT, CS + "both directions range over all combinations.",
     ["_options.py"], [("constructor", "_options.py Investment.__init__")],
     [("new Investment", ["attributes", "reject"])], rule=CR)

prop("P41", "On/off data and the initial phase",
     """On/off behaviour stores its limits and costs as given, and the first
     timestep in which the status may differ from the initial one is the
     minimum downtime if the flow is initially off and the minimum uptime if
     it is initially on.""",
     CT, CS + "only some initial states are sampled.",
     ["_options.py"], [("constructor", "_options.py NonConvex.__init__")],
     [("new NonConvex", ["attributes"])], rule=CR)

GS = "components/_generic_storage.py"
prop("P42", "Storage data and the choice of the formulation",
     """A storage stores its data as given, scalars acting as constant
     sequences. A number as nominal capacity makes it a storage of that
     capacity, an investment one whose capacity is optimised, and each is
     built with the respective formulation. The deprecated name of the
     capacity means the same.""",
     CT, CS + "every attribute ranges over scalars and sequences.",
     [GS], [("constructor", GS + " GenericStorage.__init__"),
            ("choice of the block", GS + " GenericStorage.constraint_group")],
     [("new GenericStorage", ["attributes", "constraint_group()",
                              "connections"])], rule=CR)

prop("P43", "Contradictory storage data are rejected",
     """A storage is rejected with an error if it has more than one input or
     output; if its capacity is neither a number nor an investment; if a
     relation between investments is given without these investments, or all
     three relations are; if the initial level is outside the level limits; if
     absolute losses are given for an invested storage without existing or
     minimum capacity; if a charging limit depending on the content is given
     with an investment or without exactly one input flow. Other data are
     accepted.""",
     CT, CS + "both directions range over all combinations.",
     [GS], [("constructor", GS + " GenericStorage.__init__, "
             "_check_invest_attributes, _check_infeasible_parameter_"
             "combinations, _check_number_of_flows")],
     [("new GenericStorage", ["reject_capacity", "reject_charging",
                              "reject_flows", "reject_level",
                              "reject_losses", "reject_relation"])], rule=CR)

prop("P44", "Conversion factors and their defaults",
     """Converters, links and extraction turbines use each given conversion
     factor as a sequence for the bus (connection) it is given for; converters
     and turbines use 1 for every other connected bus, links have no further
     connections. Their formulations are those of their own kind.""",
     CT, CS + "only some buses have factors.",
     ["components/_converter.py", "components/_link.py",
      "components/_extraction_turbine_chp.py"],
     [("constructor", "components/_converter.py Converter.__init__"),
      ("constructor", "components/_link.py Link.__init__"),
      ("constructor", "components/_extraction_turbine_chp.py "
       "ExtractionTurbineCHP.__init__")],
     [(u, ["conversion_factors", "conversion_factor_full_condensation",
           "constraint_group()"])
      for u in ("new Converter", "new Link", "new ExtractionTurbineCHP")],
     rule=CR)

OC = "components/_offset_converter.py"
prop("P45", "Offset converters: reference flow, factors and offsets",
     """An offset converter has exactly one on/off flow, its reference; all
     other connected buses have the given conversion factor (default 1) and
     normed offset (default 0). It is rejected if there is no or more than one
     on/off flow, if a factor or offset is given for the reference, or if
     another flow than the reference is invested in. The helper functions
     return the slope and offset of the line through both operating
     points. The deprecated pair of coefficients (c0, c1) of a converter with
     one output, output = c1 * input + c0 * nominal output, is exchanged for
     the equivalent factor 1 / c1 and offset -c0 / c1 at every time step;
     another number of coefficients is rejected.""",
     CT, CS + "one or two characteristics are sampled.",
     [OC], [("constructor", OC + " OffsetConverter.__init__"),
            ("characteristic", OC + " slope_offset_from_nonconvex_input, "
             "slope_offset_from_nonconvex_output"),
            ("coefficients", OC + " OffsetConverter."
             "normed_offset_and_conversion_factors_from_coefficients")],
     [("new OffsetConverter", ["attributes", "constraint_group()", "alias",
                               "reject_reference", "reject_invest"]),
      ("slope_offset_from_nonconvex_input", ["value"]),
      ("slope_offset_from_nonconvex_output", ["value"]),
      ("OffsetConverter: offsets from coefficients", ["value"]),
      ("OffsetConverter: factors from coefficients", ["value"]),
      ("OffsetConverter: number of coefficients", ["ValueError"])], rule=CR)

prop("P46", "CHP, CAES and piecewise linear converters keep their data",
     """Generic CHPs, generic CAES and piecewise linear converters store their
     parameters as given, connect exactly the given flows, and are built with
     the formulation of their kind. A piecewise linear converter is rejected
     if it has more than one input or output or its breakpoints do not cover
     the capacity of its input.""",
     CT, CS + "one example each is sampled.",
     ["components/_generic_chp.py", "components/experimental/_generic_caes.py",
      "components/experimental/_piecewise_linear_converter.py"],
     [("constructor", "components/_generic_chp.py GenericCHP.__init__"),
      ("constructor", "components/experimental/_generic_caes.py GenericCAES.__init__"),
      ("constructor", "components/experimental/_piecewise_linear_converter.py "
       "PiecewiseLinearConverter.__init__")],
     [(u, None) for u in ("new GenericCHP", "new GenericCAES",
                          "new PiecewiseLinearConverter")], rule=CR)

prop("P47", "Every node is connected as declared and built as its kind",
     """Each bus, sink, source, converter, link, turbine, offset converter and
     storage hands its label, inputs, outputs, parent and custom properties to
     the energy system graph, and names the formulation it is built with: a
     balanced bus the bus balance, an unbalanced bus, a sink and a source
     none, every other its own.""",
     CT, "The tests check single nodes.",
     ["buses/_bus.py", "components/_sink.py", "components/_source.py",
      "components/_converter.py", "components/_link.py",
      "components/_extraction_turbine_chp.py",
      "components/_offset_converter.py", "components/_generic_storage.py"],
     [("constructor", "buses/_bus.py Bus.__init__"),
      ("constructor", "components/_sink.py Sink.__init__"),
      ("constructor", "components/_source.py Source.__init__")],
     [("new Bus", None), ("new Sink", None), ("new Source", None)]
     + [(u, ["super.label", "super.inputs", "super.outputs",
             "super.parent_node", "super.custom_properties",
             "constraint_group()"])
        for u in ("new Converter", "new Link", "new ExtractionTurbineCHP",
                  "new OffsetConverter", "new GenericStorage")], rule=CR)

prop("P48", "Deprecated argument names mean the same as current ones",
     """Where an argument has a deprecated name (nominal_value, min, max,
     nominal_storage_capacity, custom_attributes), giving the value by either
     name results in the same object, and giving both is rejected with an
     error. The deprecated coefficients of offset converters cannot be
     combined with conversion factors or normed offsets.""",
     CT, CS + "the renamed arguments are sampled one at a time.",
     [FL, "_options.py", GS, OC],
     [("aliases", FL + " Flow.__init__"),
      ("aliases", "_options.py Investment.__init__, NonConvex.__init__")],
     [("new Flow", ["alias", "nominal_capacity", "investment", "minimum",
                    "maximum", "super.custom_properties"]),
      ("new Investment", ["alias", "custom_properties"]),
      ("new NonConvex", ["alias", "custom_properties"]),
      ("new GenericStorage", ["alias", "nominal_storage_capacity",
                              "investment"]),
      ("new OffsetConverter", ["alias"])], rule=CR)

PL = "_plumbing.py"
prop("P49", "A scalar acts as a constant series",
     """Wherever a time series is accepted, a scalar gives the same value for
     every timestep, its minimum and maximum are that value, its sum and
     length are those of a series as long as the longest index used, and
     iterables, None and strings pass unchanged. A series has to be long
     enough for the horizon, otherwise it is rejected.""",
     "all values, indices and lengths",
     "The tests use a few lists and indices.",
     [PL], [("conversion", PL + " sequence, valid_sequence, _FakeSequence")],
     [(u, None) for u in ["sequence", "valid_sequence"] + [
         "_FakeSequence: " + m for m in (
             "item", "extremes", "sum", "to_numpy", "length", "iterate",
             "times", "divided")]],
     rule="the value each function returns, as a guarded term over its "
     "arguments, and the attributes it changes have to coincide with the "
     "specification's")


# ------------------------------------------------------------------- model
MD = "_models.py"
MW = "The tests inspect a few models with short horizons; "
MR = ("the constructor of the model is evaluated symbolically: the value of "
      "every set and attribute, every restriction of the flow variable, the "
      "blocks built and the objective have to coincide with the "
      "specification's")

prop("P50", "Flow variables respect the limits of their flows",
     """The flow variable exists for every flow and timestep. With a given
     capacity, a fixed flow equals its fixed series times the capacity in
     every timestep; otherwise the flow is at most its maximum and (unless on
     or off) at least its minimum, both relative to the capacity. A flow that
     is not bidirectional and has no other lower bound is not negative.""",
     "all flows, series and timesteps",
     MW + "bounds range over all combinations of data.",
     [MD], [("flow variable", MD + " BaseModel, Model."
             "_add_parent_block_variables")],
     [("new Model", ["flow"])], rule=MR)

prop("P51", "Index sets cover the whole horizon",
     """A model has one timestep per interval of the time increment and one
     time point more; without periods all timesteps belong to period 0, in a
     multi-period model they are assigned consecutively and completely, each
     to exactly one period, as many as the period has. The sets of nodes and
     flows hold all nodes and all flows, bidirectional and unidirectional
     flows being told apart. A model without time increment is rejected.""",
     "all horizons, periods and systems",
     MW + "period lengths and their order are hardly sampled.",
     [MD], [("sets", MD + " Model._add_parent_block_sets")],
     [("new Model", ["NODES", "TIMESTEPS", "TIMEPOINTS", "PERIODS",
                     "TIMEINDEX", "TIMESTEPS_IN_PERIOD", "FLOWS",
                     "BIDIRECTIONAL_FLOWS", "UNIDIRECTIONAL_FLOWS",
                     "timeincrement"])], rule=MR)

prop("P52", "Aggregated time series: weights and cluster indices",
     """In a model with aggregated time series every timestep of a typical
     period weighs as often as the typical period occurs, in the order of the
     timesteps; without aggregation every timestep weighs 1. The cluster index
     sets enumerate, over all periods, the original clusters in their order,
     the typical clusters, and the timesteps within them; the timestep of a
     step within a typical cluster is the one at that position of its
     period.""",
     "all aggregations and periods",
     MW + "one or two aggregations are sampled.",
     [MD], [("sets", MD + " Model._add_parent_block_sets, "
             "get_cluster_index, get_timestep_from_tsam_timestep")],
     [("new Model", ["tsam_weighting", "TSAM_MODE", "CLUSTERS",
                     "CLUSTERS_OFFSET", "TYPICAL_CLUSTERS",
                     "TIMEINDEX_CLUSTER", "TIMEINDEX_TYPICAL_CLUSTER",
                     "TIMEINDEX_TYPICAL_CLUSTER_OFFSET"]),
      ("get_cluster_index", None),
      ("get_timestep_from_tsam_timestep", None)], rule=MR)

prop("P53", "Every block is built once and counts in the minimised objective",
     """Constructing a model builds each formulation (the standard ones, those
     requested and those the nodes of the system ask for) exactly once, for
     exactly the nodes or flows grouped for it, and the objective, which is
     minimised, is the sum of the costs of all of them.""",
     "all systems and additional formulations",
     MW + "the set of blocks is implicit in the few examples.",
     [MD], [("blocks and objective", MD + " BaseModel._add_child_blocks, "
             "_add_objective")],
     [("new Model", ["calls", "objective"]),
      ("new Model with options", ["calls", "objective"])], rule=MR)

prop("P54", "Options of the model",
     """A time increment or objective weighting given to the model is used
     instead of the one of the energy system, the weighting defaulting to the
     time increment; the discount rate is the given one, 2 % by default, and
     only set for multi-period models; with automatic construction switched
     off nothing is built; a root logger on debug level is rejected unless
     debug is requested.""",
     "all combinations of options",
     MW + "options are hardly combined.",
     [MD], [("constructor", MD + " BaseModel.__init__, Model.__init__")],
     [("new Model", ["logging", "timeincrement", "objective_weighting",
                     "discount_rate"]),
      ("new Model with options", None),
      ("new Model with timeincrement", None),
      ("new Model with all options", None)], rule=MR)

prop("P55", "Solving hands over the options and never hides a failure",
     """Solving uses the named solver and interface, sets exactly the given
     command line options and passes the other arguments on to it. The
     outcome is kept at the model and the energy system. If the solver did
     not find an optimum, an error is raised, or, if explicitly allowed, the
     outcome of the solver is returned instead of results; only an optimal
     solution gives results.""",
     "all outcomes of solvers, all options",
     "The tests solve small feasible models with one solver.",
     [MD], [("solving", MD + " BaseModel.solve")],
     [("solve", None)],
     rule="the value returned, the errors raised, the attributes stored and "
     "the calls of the solver, as guarded terms over the arguments, have to "
     "coincide with the specification's")

prop("P56", "Dual values and relaxation are requested from the model",
     """Asking for duals attaches import suffixes for dual values and reduced
     costs to the model, and relaxing turns all integer variables of the
     model itself into continuous ones and returns the model.""",
     "all models",
     "The tests look at few models.",
     [MD], [("duals and relaxation", MD + " BaseModel.receive_duals, "
             "relax_problem")],
     [("receive_duals", None), ("relax_problem", None)],
     rule="the value returned, the components attached and the calls of the "
     "transformation have to coincide with the specification's")

prop("P57", "Every flow and node gets the formulations for its data",
     """Every flow is in the group of the standard formulation; a flow is in
     the group for investments, for on/off operation or for both exactly if
     it has an investment only, an on/off operation only or both. Every node
     is grouped with the formulation it names, nodes that name none with
     none, and every formulation a node can name or a flow be grouped for is
     one that the model builds. An energy system always uses these groupings,
     additional ones coming on top.""",
     "all flows and all kinds of nodes",
     "The tests group a few flows and nodes.",
     ["_groupings.py", "_energy_system.py"],
     [("groupings", "_groupings.py constraint_grouping, "
       "_investment_grouping, _nonconvex_grouping, GROUPINGS")],
     [("groupings", None), ("new EnergySystem", ["super.groupings"])],
     rule="the truth value of each grouping filter, as a formula over the "
     "data of the flow, has to be equivalent to the specification's; every "
     "class that a constraint_group method returns has to offer what the "
     "model calls")

# ----------------------------------------------------------- energy system
ES = "_energy_system.py"
EW = "The tests use a few horizons; "
ER = ("the constructor of the energy system is evaluated symbolically for "
      "every kind of given data; sequences are compared by length and by the "
      "element at a symbolic position, so that list, numpy and pandas "
      "operations are the same if they hold the same")
EA = ["the data given are of the documented kinds, so that no error other "
      "than the checked ones occurs"]

prop("P58", "Time increments follow from the time index",
     """The time increment between two time points is their difference (in
     hours for dates), one for each interval between consecutive time points;
     if only increments are given they are used and the time index is their
     cumulated sum starting at 0. Inferring the last interval adds one time
     point a step after the last one. Increments that are not positive are
     rejected, and so is giving both an index and increments without
     periods.""",
     "all indices and increments",
     EW + "steps are mostly equidistant.",
     [ES], [("constructor", ES + " EnergySystem.__init__, "
             "_init_timeincrement")],
     [("new EnergySystem", ["timeincrement", "timeindex", "reject"])],
     rule=ER, assume=EA)

prop("P59", "Periods, their years and the end of the optimisation",
     """The years of the periods are those between the first dates of the
     first and the respective period, the matrix of periods holds the years
     from each period to every later one and 0 for earlier ones, a period
     lasts from the year of its first to the year of its last date, both
     inclusive, and the optimisation ends with the last period. Without
     periods it ends after 1 year.""",
     "all numbers and lengths of periods",
     EW + "one or two sets of periods are sampled.",
     [ES], [("periods", ES + " EnergySystem._extract_periods_years, "
             "_extract_periods_matrix, _extract_end_year_of_optimization, "
             "get_period_duration")],
     [("new EnergySystem", ["periods", "periods_years", "periods_matrix",
                            "end_year_of_optimization",
                            "use_remaining_value"]),
      ("get_period_duration", None)], rule=ER, assume=EA)

prop("P60", "Parameters of aggregated time series",
     """With aggregated time series every typical period occurs as often as
     it stands in the order of its period; it has as many timesteps as
     segments fall on each typical period, or the timesteps per period
     without segments. Segments give the time increments, in the order of
     the periods; they cannot be combined with given increments and have to
     be given for all periods or none. A single aggregation acts as a list of
     one.""",
     "all aggregations",
     EW + "two aggregations are sampled.",
     [ES], [("constructor", ES + " EnergySystem.__init__, "
             "_init_timeincrement")],
     [("new EnergySystem", ["tsa_parameters", "parameters", "timeincrement",
                            "reject"])], rule=ER, assume=EA)

# ----------------------------------------------------------------- results
RW = "The tests look at a few quantities of a few solved systems; "
RR = ("the method is evaluated symbolically for symbolic results; the value "
      "(for tables: every column and its elements) has to be equivalent to "
      "the specification's in every case")
RA = ["data frames of flows and investments have the pairs of nodes (or the "
      "storages) of the model as columns"]

prop("P61", "Results by name",
     """Every quantity of the optimised model can be read from the results by
     its name: the table holds all parts of the model that have the quantity
     (whichever block it belongs to), storage contents over the points of the time index and everything else
     that depends on time over its intervals. The keys, the membership test
     and the access by name agree; an unknown name gives the default (or
     KeyError where there is none).""",
     "all models and names", RW + "the names are a handful.",
     ["_results.py"], [("results", "_results.py Results.__init__, get, keys, "
                        "__contains__, __getitem__, to_df")],
     [("new Results", None)] + [("Results." + m, None) for m in
      ("get", "keys", "__contains__", "__getitem__", "to_df")],
     rule=RR, assume=RA)

prop("P62", "Costs in the results",
     """The variable costs in the results are, for every flow and timestep,
     the flow times its variable costs times the weight that the objective
     gives the timestep; the investment costs are, for every flow and storage
     with investment, the specific costs times the invested capacity, plus
     the offset if the investment is made (for non-convex investments only
     then, for others always).""",
     "all flows, storages, costs and timesteps",
     RW + "interval lengths other than 1 and offsets do not occur.",
     ["_results.py"], [("economy", "_results.py Results._calc_variable_costs, "
                        "_calc_capex")],
     [("Results: variable costs", None), ("Results: investment costs", None)],
     rule=RR, assume=RA)

prop("P63", "Selecting nodes and flows from results",
     """The nodes found in results are those at an end of any entry; with an
     option only the nodes with outputs (inputs), or those with outputs but no
     inputs (inputs but no outputs), and without busses if they are excluded;
     an unknown option is rejected. Nodes are found by their label, None
     standing for a label that is not there. The inputs (outputs) of a kind of
     nodes are the sequences of exactly the flows that end (start) at such
     nodes, the weights those of the nodes themselves; without any the value
     is None.""",
     "all results, options, labels and kinds of nodes",
     "The tests look at two solved systems.",
     ["views.py"], [("views", "views.py filter_nodes, get_node_by_name, "
                     "node_weight_by_type, node_input_by_type, "
                     "node_output_by_type")],
     [("filter_nodes", None), ("get_node_by_name: one", None),
      ("get_node_by_name: some", None), ("node_weight_by_type", None),
      ("node_input_by_type", None), ("node_output_by_type", None)],
     rule=RR, assume=["labels of nodes are unique"])

prop("P64", "Results under labels",
     """Results keyed by nodes can be read by labels: every entry is kept, a
     tuple of nodes becomes the tuple of the labels and anything else its
     text; None becomes the text None, or stays None on request, inside of
     tuples as well as alone.""",
     "all results", "The tests convert a few keys.",
     ["processing.py"], [("convert", "processing.py convert_keys_to_strings")],
     [("convert_keys_to_strings", None),
      ("convert_keys_to_strings, keeping None", None)], rule=RR)

prop("P65", "Meta results",
     """The meta results hold the value of the objective and all that the
     solver reports on the problem and on itself, entries that are undefined
     only on request; the relative gap between the bounds is their distance
     divided by the mean of the two (zero if they coincide).""",
     "all reports of solvers", "One solver's reports are sampled.",
     ["processing.py"], [("meta", "processing.py meta_results")],
     [("meta_results: " + x, None)
      for x in ("parts", "solver", "problem", "gap")], rule=RR,
     assume=["the solver reports numbers as bounds (for the gap)",
             "reading an entry of the report does not raise TypeError"])

prop("P66", "Time index of a year or a number of intervals",
     """A created time index starts at the given start or the first hour of
     the given year (not both) and has one point more than intervals: the
     given number of them, otherwise as many of the given length as fit a
     year, a leap year having 8784 hours and any other 8760.""",
     "all years, lengths and numbers of intervals",
     "The tests create a handful of indices.",
     ["_helpers.py"], [("create", "_helpers.py create_time_index")],
     [("create_time_index", None)], rule=RR,
     assume=["the alias 'h' for hours is known to pandas"])

PR = "processing.py "
prop("P67", "Values of aggregated models on the original time axis",
     """In the results of a model with aggregated time series every original
     cluster, in the given order, has the values its typical period has in
     the model (of the same investment period): flows those of the typical
     period's timesteps; storages the content at the beginning of the
     original cluster, decayed by the loss rates of the timesteps passed
     (each to the power of its length), plus the content reached within the
     typical period; multiplexers their states. With segments, the value
     belongs to the first timestep of a segment, further timesteps of it
     have none of their own: flows keep their last value there, contents are
     interpolated (up to the final point in time of the model, which has no
     timestep of its own). Values of investment periods stay as they are.
     The joined values are numbered from 0 on; the time axis has as many
     steps as the original clusters have together.""",
     "all orders of clusters, numbers of periods, segmentations, loss rates "
     "and interval lengths",
     "The tests use constant losses, mostly without segments, and look at "
     "few values.",
     ["processing.py"],
     [("flows", PR + "_disaggregate_tsa_result"),
      ("storage contents", PR + "_calculate_soc_from_inter_and_intra_soc"),
      ("multiplexers", PR + "_calculate_multiplexer_actives"),
      ("segments", PR + "_disaggregate_segmentation"),
      ("tables of storages", PR + "_get_storage_soc_flows_and_keys"),
      ("tables of multiplexers", PR + "_get_multiplexer_flows_and_keys"),
      ("time axis", PR + "_disaggregate_tsa_timeindex")],
     [("clusters: " + u, None) for u in (
         "flows", "contents", "multiplexers", "segments", "times",
         "parameters", "storage parameters", "storage tables",
         "storage keys", "multiplexer tables", "multiplexer keys",
         "joined flows", "joined contents", "joined multiplexers")], rule=RR,
     assume=["pandas' methods (concat, ffill, interpolate, …) do what they "
             "are documented to do; in what the joined tables go through "
             "only methods known to keep or to change values are judged"])

prop("P68", "Every value of the solved model under its nodes, name and time",
     """The table results are made from has one row for each value of each
     variable of the solved model that has one: filed under the nodes (or
     other keys) its index names, without the last entry if that is a time
     step or period, under the last part of the variable's name and under
     that time step (0 if the index has nodes only).  Variables without
     nodes are filed under the names of their block and their own.  Zero is a
     value; variables without value and the auxiliary ones of piecewise
     linear functions have no row; nothing is lost because another block has
     a variable of the same name.""",
     "all models, variables and indices",
     "The tests look at some flows of a few systems.",
     ["processing.py"], [("rows", PR + "create_dataframe"),
                         ("nodes", PR + "get_tuple"),
                         ("time step", PR + "get_timestep, remove_timestep")],
     [("create_dataframe", None)], rule="rows: conditions and values of the "
     "rows of the table equal those specified",
     tech="symbolic evaluation of table operations (rows as guarded, "
     "quantified tuples), compared with a specification",
     assume=["the index of a flow is two nodes and a time step; indices of "
             "other variables are nodes, tuples, or neither"])

prop("P69", "Suspicious, experimental and outdated usage is announced",
     """A warning is given in exactly these cases. Suspicious usage: fixed
     costs of a flow; an investment that need not be nonconvex (no minimum,
     no offset); a converter, extraction turbine, link or storage without
     inputs or outputs; a link without exactly two inputs, outputs and
     factors; a model with its own time increment; a model with investment
     periods without discount rate. Experimental: flows in both directions;
     energy systems with aggregated time series or investment periods; costs
     in the results. Outdated: every deprecated argument that is given, an
     energy system with a time increment but no time index, an array longer
     than the horizon. An outcome of the solver that is not optimal but
     allowed is announced, too.""",
     "all arguments, given or not; all outcomes",
     "The tests expect single warnings and mostly silence them.",
     [FL, "_options.py", "_helpers.py", "components/", MD,
      "_energy_system.py", "_results.py", "_plumbing.py",
      "constraints/integral_limit.py"],
     [("flows", FL + " Flow.__init__"),
      ("options", "_options.py Investment, NonConvex"),
      ("nodes", "_helpers.py warn_if_missing_attribute"),
      ("model", MD + " Model.__init__, solve"),
      ("energy system", "_energy_system.py EnergySystem.__init__")],
     [(u, ["warnings"]) for u in (
         "new Flow", "new Investment", "new NonConvex", "new Converter",
         "new ExtractionTurbineCHP", "new Link", "new GenericStorage",
         "new Model", "new Model with options",
         "new Model with timeincrement", "new Model with all options",
         "new EnergySystem", "solve",
         "valid_sequence", "generic_integral_limit",
         "Results: variable costs", "Results: investment costs",
         "Results.get")],
     rule="the conditions under which warnings of each category are given "
     "have to coincide with the specification's",
     tech="symbolic evaluation of the constructors and functions; guards of "
     "the calls that warn, through the call graph, compared with a "
     "specification",
     assume=["filters that users set up for warnings are theirs; the text of "
             "a warning does not count"])

prop("P73", "What is handed over stays as it was",
     """Creating flows, options, nodes and energy systems, building a model,
     adding constraints with the functions of solph.constraints and looking at
     results with the views change nothing the caller handed over: no list,
     mapping or series given as an argument is changed in place, no flow,
     option or node gets another value for an attribute its constructor set,
     and no result loses or changes entries. The same investment can be used
     for several flows, the same energy system for several models, the same
     list of flows for several constraints. What is meant to change: the
     object under construction and the model; nodes are connected with each
     other; constant sequences remember their length; a time index is told
     its frequency; the parameters of time series aggregation are completed;
     a solved model leaves its solver's report with its energy system.""",
     "all arguments, groups of nodes, and orders in which models and "
     "constraints are made",
     "The tests build one model from each energy system and look at the model, "
     "not at what it was built from.",
     [FL, "_options.py", "_models.py", "_energy_system.py", "_plumbing.py",
      "components/", "flows/", "buses/", "constraints/", "views.py",
      "_results.py"],
     [("constructors", FL + " Flow.__init__ and those of all nodes"),
      ("model", MD + " Model.__init__ and _create of all blocks"),
      ("constraints", "constraints/integral_limit.py and all others"),
      ("views", "views.py all functions")],
     [("changes in place", ["changes"])],
     rule="an effect that changes something in place (a mutating method, a "
     "stored entry or attribute, an in-place operator) must not have a target "
     "that was handed over",
     tech="effect analysis: symbolic evaluation of all constructors, blocks "
     "and functions; the target of every in-place change is traced back "
     "through attributes, entries and loops to what it is a part of",
     assume=["functions of other packages change what they are given only by "
             "a mutating method or inplace=True",
             "processing.results and parameter_as_dict are not covered"])

NOT_APPLICABLE = {}


def not_applicable(id, title, statement, text, why, files, mech, reason):
    NOT_APPLICABLE[id] = {"reason": " ".join(reason.split()), "property": {
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": ["inputs", "configurations"],
                       "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": [S + f for f in files],
                    "mechanism": [{"name": n, "where": S + w}
                                  for n, w in mech],
                    "observe_at": ["what the user gets back"],
                    "hook_needed": None}}}


not_applicable(
    "P70", "The values handed back are optimal and feasible",
    """After a successful solve, the values of the variables satisfy every
    constraint of the model within the solver's tolerance, and no feasible
    choice of values has a lower objective.""",
    "every model and every solver",
    "the tests solve a few small systems",
    ["_models.py"], [("hand-over to the solver", "_models.py Model.solve")],
    """the values come from an external solver (cbc, glpk, gurobi ...) at run
    time; no source of it is in the repository, and the feasibility of
    floating-point values is no property of the source. What the source does
    decide, that the model handed over is the documented one and that a failed
    solve is announced, is checked by the other properties.""")

not_applicable(
    "P71", "Parameters of a solved system can be read back completely",
    """parameter_as_dict gives, for every node and flow of the energy system,
    every public attribute with its current value, numbers as scalars and
    series as sequences, and leaves out only what the caller excludes.""",
    "every energy system and every selection of excluded attributes",
    "the tests read back two example systems",
    ["processing.py"],
    [("reflection", "processing.py parameter_as_dict"),
     ("separation", "processing.py __separate_attrs")],
    """the function reflects over live objects: dir() and getattr() over
    whatever attributes users and sub-classes gave an object, recursion over
    the values found, and a distinction of cases by catching the errors that
    operations on unknown values raise. Which attributes exist and which
    operation fails is only known at run time; a static argument would have to
    assume it, and then would decide nothing.""")

not_applicable(
    "P72", "Tables of the legacy result views keep their layout",
    """views.node, views.net_storage_flow and views.convert_to_multiindex give
    tables with one column per flow of the node asked for, labelled with the
    levels asked for, and the rows of the results.""",
    "every result dictionary and every node",
    "the tests look at the columns of one example system",
    ["views.py"],
    [("node view", "views.py node"),
     ("net flows of storages", "views.py net_storage_flow"),
     ("column index", "views.py convert_to_multiindex")],
    """the layout is the outcome of pandas' own index algebra (sorting,
    factorising and dropping of levels, alignment of labels) on labels that
    are only known at run time; what the functions contribute besides is
    checked where it can be expressed (the selections of nodes and flows, the
    weights, the inputs and outputs by type).""")
