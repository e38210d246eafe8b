"""Documented behaviour of the constraint functions (evaluated symbolically,
never imported)."""
import math

from oemof.solph._plumbing import sequence


def equate_flows(model, flows1, flows2, factor1=1, name="equate_flows"):
    for t in M.TIMESTEPS:
        require(sum(M.flow[i, o, t] for i, o in flows1) * factor1
                == sum(M.flow[i, o, t] for i, o in flows2), "equate")
    return model


def equate_flows_by_keyword(model, keyword1, keyword2, factor1=1,
                            name="equate_flows"):
    for t in M.TIMESTEPS:
        require(
            sum(M.flow[i, o, t] for i, o in M.flows
                if keyword1 in M.flows[i, o].custom_properties) * factor1
            == sum(M.flow[i, o, t] for i, o in M.flows
                   if keyword2 in M.flows[i, o].custom_properties),
            "equate")
    return model


def equate_variables(model, var1, var2, factor1=1, name=None):
    require(var1 * factor1 == var2, "equate")


def limit_active_flow_count(model, constraint_name, flows, lower_limit=0,
                            upper_limit=None):
    for t in M.TIMESTEPS:
        n = getattr(M, constraint_name)[t]
        variable(n)
        require(sum(M.NonConvexFlowBlock.status[i, o, t] for i, o in flows)
                == n, "count")
        if lower_limit is not None:
            require(n >= lower_limit, "count")
        if upper_limit is not None:
            require(n <= upper_limit, "count")
    return model


def limit_active_flow_count_by_keyword(model, keyword, lower_limit=0,
                                       upper_limit=None):
    for t in M.TIMESTEPS:
        n = getattr(M, keyword)[t]
        variable(n)
        require(sum(
            M.NonConvexFlowBlock.status[i, o, t] for i, o in
            M.NonConvexFlowBlock.FIXED_CAPACITY_NONCONVEX_FLOWS
            if keyword in M.flows[i, o].custom_properties) == n, "count")
        if lower_limit is not None:
            require(n >= lower_limit, "count")
        if upper_limit is not None:
            require(n <= upper_limit, "count")
    return model


def shared_limit(model, quantity, limit_name, components, weights,
                 lower_limit=0, upper_limit=None):
    for t in M.TIMESTEPS:
        n = getattr(M, limit_name)[t]
        variable(n)
        require(sum(quantity[c, t] * w for c, w in zip(components, weights))
                == n, "shared")
        if lower_limit is not None:
            require(n >= lower_limit, "shared")
        if upper_limit is not None:
            require(n <= upper_limit, "shared")


def amount(i, o, t):
    return M.flow[i, o, t] * M.timeincrement[t] * M.tsam_weighting[t]


def check_flows(flows, keyword):
    if flows is not None:
        for i, o in flows:
            reject(keyword not in flows[i, o].custom_properties,
                   "AttributeError")


def selected(flows, keyword):
    if flows is None:
        return {(i, o): M.flows[i, o] for i, o in M.flows
                if keyword in M.flows[i, o].custom_properties}
    return flows


def generic_integral_limit(om, keyword, flows=None, upper_limit=None,
                           lower_limit=None, limit=None, limit_name=None):
    check_flows(flows, keyword)
    if limit_name is None:
        limit_name = "integral_limit_" + keyword
    upper = upper_limit if limit is None else limit
    announce(limit is not None, "FutureWarning")
    reject(upper is None and lower_limit is None, "ValueError")
    sel = selected(flows, keyword)
    total = sum(
        amount(i, o, t)
        * sequence(sel[i, o].custom_properties[keyword])[t]
        for i, o in sel for t in M.TIMESTEPS)
    expression(limit_name, total)
    if upper is not None:
        require(total <= upper, "limit")
    if lower_limit is not None:
        require(total >= lower_limit, "limit")
    return om


def emission_limit(om, flows=None, limit=None):
    generic_integral_limit(om, "emission_factor", flows, limit)


def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
    check_flows(flows, keyword)
    reject(M.es.periods is None, "ValueError")
    reject(limit is None, "ValueError")
    sel = selected(flows, keyword)
    for p in M.PERIODS:
        require(
            sum(amount(i, o, t)
                * sequence(sel[i, o].custom_properties[keyword])[t]
                for i, o in sel for t in M.TIMESTEPS_IN_PERIOD[p])
            <= sequence(limit)[p], "limit")
    return om


def emission_limit_per_period(om, flows=None, limit=None):
    generic_periodical_integral_limit(om, "emission_factor", flows, limit)


def investment_blocks():
    out = []
    if hasattr(M, "InvestmentFlowBlock") and hasattr(
            M.InvestmentFlowBlock, "INVESTFLOWS"):
        out.append(M.InvestmentFlowBlock)
    if hasattr(M, "InvestNonConvexFlowBlock") and hasattr(
            M.InvestNonConvexFlowBlock, "INVEST_NON_CONVEX_FLOWS"):
        out.append(M.InvestNonConvexFlowBlock)
    if hasattr(M, "GenericInvestmentStorageBlock"):
        out.append(M.GenericInvestmentStorageBlock)
    return out


def investment_limit(model, limit=None):
    require(sum(b.investment_costs for b in investment_blocks()) <= limit,
            "limit")
    return model


def investment_limit_per_period(model, limit=None):
    reject(M.es.periods is None, "ValueError")
    reject(limit is None, "ValueError")
    for p in M.PERIODS:
        total = 0
        for b in ("InvestmentFlowBlock", "InvestNonConvexFlowBlock"):
            if hasattr(M, b) and hasattr(getattr(M, b),
                                         "period_investment_costs"):
                total += getattr(M, b).period_investment_costs[p]
        if hasattr(M, "GenericInvestmentStorageBlock"):
            total += M.GenericInvestmentStorageBlock.period_investment_costs[
                p]
        require(total <= sequence(limit)[p], "limit")
    return model


def additional_investment_flow_limit(model, keyword, limit=None):
    total = 0
    for i, o in M.flows:
        inv = M.flows[i, o].investment
        if inv is not None and keyword in inv.custom_properties:
            for p in M.PERIODS:
                if M.flows[i, o].nonconvex is None:
                    total += (M.InvestmentFlowBlock.invest[i, o, p]
                              * inv.custom_properties[keyword])
                else:
                    total += (M.InvestNonConvexFlowBlock.invest[i, o, p]
                              * inv.custom_properties[keyword])
    expression("invest_limit_" + keyword, total)
    require(total <= limit, "limit")
    return model


def content(s, p, i, g):
    """content of storage s at the beginning of timestep g of cluster i"""
    k = M.es.tsa_parameters[p]["order"][i]
    first = M.get_timestep_from_tsam_timestep(p, k, 0)
    position = i + sum(len(M.es.tsa_parameters[q]["order"])
                       for q in range(p))
    keep = math.prod((1 - s.loss_rate[t]) ** M.timeincrement[t]
                     for t in range(first, first + g))
    return (M.GenericStorageBlock.intra_storage_delta[s, p, k, g]
            + M.GenericStorageBlock.inter_storage_content[s, position]
            * keep)


def storage_level_constraint(model, name, storage_component, multiplexer_bus,
                             input_levels, output_levels):
    s = storage_component
    cap = s.nominal_storage_capacity
    active = getattr(M, f"{name}_active_output")
    closed = getattr(M, f"{name}_active_input")
    if M.TSAM_MODE:
        for o in output_levels:
            for p, k, g in M.TIMEINDEX_TYPICAL_CLUSTER_OFFSET:
                binary(active[o, p, k, g])
            for p, i, g in M.TIMEINDEX_CLUSTER:
                k = M.es.tsa_parameters[p]["order"][i]
                require(content(s, p, i, g + 1) / cap
                        >= active[o, p, k, g] * output_levels[o], "output")
            for p, k, g in M.TIMEINDEX_TYPICAL_CLUSTER:
                t = M.get_timestep_from_tsam_timestep(p, k, g)
                require(M.flow[multiplexer_bus, o, t]
                        / M.flows[multiplexer_bus, o].nominal_capacity
                        <= active[o, p, k, g], "output")
        for n in input_levels:
            for p, k, g in M.TIMEINDEX_TYPICAL_CLUSTER_OFFSET:
                binary(closed[n, p, k, g])
            for p, i, g in M.TIMEINDEX_CLUSTER:
                k = M.es.tsa_parameters[p]["order"][i]
                require(content(s, p, i, g) / cap - input_levels[n]
                        <= closed[n, p, k, g], "input")
            for p, k, g in M.TIMEINDEX_TYPICAL_CLUSTER:
                t = M.get_timestep_from_tsam_timestep(p, k, g)
                require(M.flow[n, multiplexer_bus, t]
                        / M.flows[n, multiplexer_bus].nominal_capacity
                        <= 1 - closed[n, p, k, g], "input")
    else:
        soc = M.GenericStorageBlock.storage_content
        for t in M.TIMESTEPS:
            for o in output_levels:
                binary(active[o, t])
                require(soc[s, t + 1] / cap
                        >= active[o, t] * output_levels[o], "output")
                require(M.flow[multiplexer_bus, o, t]
                        / M.flows[multiplexer_bus, o].nominal_capacity
                        <= active[o, t], "output")
            for n in input_levels:
                binary(closed[n, t])
                require(soc[s, t] / cap - input_levels[n] <= closed[n, t],
                        "input")
                require(M.flow[n, multiplexer_bus, t]
                        / M.flows[n, multiplexer_bus].nominal_capacity
                        <= 1 - closed[n, t], "input")
