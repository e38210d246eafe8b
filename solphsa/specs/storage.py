"""Documented formulation of the storage blocks (evaluated symbolically, never
imported)."""
import math

from .flows import decommission
from oemof.tools.economics import annuity


def GenericStorageBlock(b, GROUP):
    for n in GROUP:
        i = [k for k in n.inputs][0]
        o = [k for k in n.outputs][0]
        cap = n.nominal_storage_capacity
        if M.TSAM_MODE:
            clustered(b, n, i, o, lambda p: cap)
            if n.initial_storage_level is not None:
                require(b.inter_storage_content[n, 0]
                        == n.initial_storage_level * cap, "initial")
            if n.balanced is True:
                require(
                    b.inter_storage_content[n, M.CLUSTERS_OFFSET.at(-1)]
                    == b.inter_storage_content[n, M.CLUSTERS_OFFSET.at(1)],
                    "balanced")
        else:
            for t in M.TIMEPOINTS:
                variable(b.storage_content[n, t])
                require(b.storage_content[n, t]
                        >= cap * n.min_storage_level[t], "levels")
                require(b.storage_content[n, t]
                        <= cap * n.max_storage_level[t], "levels")
            if n.initial_storage_level is not None:
                require(b.storage_content[n, 0]
                        == n.initial_storage_level * cap, "initial")
            for t in M.TIMESTEPS:
                dt = M.timeincrement[t]
                variable(b.storage_losses[n, t])
                require(
                    b.storage_losses[n, t]
                    == b.storage_content[n, t]
                    * (1 - (1 - n.loss_rate[t]) ** dt)
                    + n.fixed_losses_relative[t] * cap * dt
                    + n.fixed_losses_absolute[t] * dt,
                    "storage_balance",
                )
                require(
                    b.storage_content[n, t + 1]
                    == b.storage_content[n, t] - b.storage_losses[n, t]
                    + M.flow[i, n, t] * n.inflow_conversion_factor[t] * dt
                    - M.flow[n, o, t] / n.outflow_conversion_factor[t] * dt,
                    "storage_balance",
                )
            if n.balanced is True:
                require(
                    b.storage_content[n, M.TIMEPOINTS.at(-1)]
                    == b.storage_content[n, M.TIMEPOINTS.at(1)],
                    "balanced")
        couple_flows(n, i, o)
        if n.constant_soc_until is not None:
            sat = n.fraction_saturation_charging
            frac = 1 - n.constant_soc_until
            for t in M.TIMESTEPS:
                power = n.max_charge_capacity * n.relative_charge_limit[t]
                full = cap * n.max_storage_level[t]
                require(
                    M.flow[i, n, t]
                    <= power * ((1 - sat) / frac + sat)
                    - (power * (1 - sat)) / (full * frac)
                    * b.storage_content[n, t + 1],
                    "soc_charging",
                )
    for n in GROUP:
        if valid_sequence(n.fixed_costs, len(M.PERIODS)):
            for y in range(M.es.end_year_of_optimization):
                c = n.nominal_storage_capacity * n.fixed_costs[y]
                objective(c, "fixed_costs")
                expression("fixed_costs", c)
    storage_costs(b, GROUP)


def storage_costs(b, GROUP):
    for n in GROUP:
        if valid_sequence(n.storage_costs, len(M.TIMESTEPS)):
            if not M.TSAM_MODE:
                for t in M.TIMESTEPS:
                    c = b.storage_content[n, t + 1] * n.storage_costs[t]
                    objective(c, "storage_costs")
                    expression("storage_costs", c)
            else:
                for p, i, g in M.TIMEINDEX_CLUSTER:
                    k = M.es.tsa_parameters[p]["order"][i]
                    t = M.get_timestep_from_tsam_timestep(p, k, g)
                    pos = sum(len(M.es.tsa_parameters[q]["order"])
                              for q in range(p)) + i
                    kept = math.prod(
                        (1 - n.loss_rate[s]) ** M.timeincrement[s]
                        for s in range(t - g, t + 1))
                    c = n.storage_costs[t] * (
                        b.inter_storage_content[n, pos] * kept
                        + b.intra_storage_delta[n, p, k, g + 1])
                    objective(c, "storage_costs")
                    expression("storage_costs", c)


def couple_flows(n, i, o):
    if n.invest_relation_input_output is not None:
        for p in M.PERIODS:
            require(
                M.InvestmentFlowBlock.total[n, o, p]
                * n.invest_relation_input_output[p]
                == M.InvestmentFlowBlock.total[i, n, p],
                "couplings")


def clustered(b, n, i, o, capacity):
    """superposition of the content at the start of each original cluster
    and the change within the cluster standing for it"""
    par = M.es.tsa_parameters
    for p, k in M.TYPICAL_CLUSTERS:
        require(b.intra_storage_delta[n, p, k, 0] == 0, "storage_balance")
    for p, k, g in M.TIMEINDEX_TYPICAL_CLUSTER_OFFSET:
        variable(b.intra_storage_delta[n, p, k, g])
    for c in M.CLUSTERS_OFFSET:
        variable(b.inter_storage_content[n, c])
        require(b.inter_storage_content[n, c] >= 0, "levels")
    for p, k, g in M.TIMEINDEX_TYPICAL_CLUSTER:
        t = M.get_timestep_from_tsam_timestep(p, k, g)
        dt = M.timeincrement[t]
        require(
            b.intra_storage_delta[n, p, k, g + 1]
            == b.intra_storage_delta[n, p, k, g]
            * (1 - n.loss_rate[t]) ** dt
            - n.fixed_losses_relative[t] * capacity(p) * dt
            - n.fixed_losses_absolute[t] * dt
            + M.flow[i, n, t] * n.inflow_conversion_factor[t] * dt
            - M.flow[n, o, t] / n.outflow_conversion_factor[t] * dt,
            "storage_balance",
        )
    for c in M.CLUSTERS:
        # position c of all original clusters lies in period p
        before = 0
        for p in M.PERIODS:
            before += len(par[p]["order"])
            if before > c:
                before -= len(par[p]["order"])
                before = c - before
                break
        k = par[p]["order"][before]
        t0 = M.get_timestep_from_tsam_timestep(p, k, 0)
        kept = math.prod(
            (1 - n.loss_rate[t0 + s]) ** M.timeincrement[t0 + s]
            for s in range(par[p]["timesteps"]))
        require(
            b.inter_storage_content[n, c + 1]
            == b.inter_storage_content[n, c] * kept
            + b.intra_storage_delta[n, p, k, par[p]["timesteps"]],
            "storage_balance",
        )
    for p, c, g in M.TIMEINDEX_CLUSTER:
        k = par[p]["order"][c]
        t = M.get_timestep_from_tsam_timestep(p, k, g)
        pos = sum(len(par[q]["order"]) for q in range(p)) + c
        kept = math.prod((1 - n.loss_rate[s]) ** M.timeincrement[s]
                         for s in range(t - g, t))
        level = (b.inter_storage_content[n, pos] * kept
                 + b.intra_storage_delta[n, p, k, g])
        require(level >= capacity(p) * n.min_storage_level[t], "levels")
        require(level <= capacity(p) * n.max_storage_level[t], "levels")


def GenericInvestmentStorageBlock(b, GROUP):
    for n in GROUP:
        v = n.investment
        i = [k for k in n.inputs][0]
        o = [k for k in n.outputs][0]
        if M.es.periods is not None:
            if n.fixed_losses_absolute[0] != 0:
                raise ValueError("fixed absolute losses")
            if n.initial_storage_level is not None:
                raise ValueError("initial storage level")
        for p in M.PERIODS:
            invest = b.invest[n, p]
            variable(invest)
            require(invest >= 0, "invest_bounds")
            require(invest <= v.maximum[p], "invest_bounds")
            if v.nonconvex is False:
                require(invest >= v.minimum[p], "invest_bounds")
            elif v.nonconvex is True:
                variable(b.invest_status[n, p])
                binary(b.invest_status[n, p])
                require(invest >= v.minimum[p] * b.invest_status[n, p],
                        "invest_bounds")
                require(invest <= v.maximum[p] * b.invest_status[n, p],
                        "invest_bounds")
            variable(b.total[n, p])
            require(b.total[n, p] >= 0, "total")
            if p == 0:
                require(b.total[n, p] == invest + v.existing, "total")
            else:
                require(b.total[n, p] == b.total[n, p - 1] + invest
                        - b.old[n, p], "total")
        couple_flows(n, i, o)
        for p in M.PERIODS:
            if n.invest_relation_input_capacity is not None:
                require(M.InvestmentFlowBlock.total[i, n, p]
                        == b.total[n, p]
                        * n.invest_relation_input_capacity[p], "couplings")
            if n.invest_relation_output_capacity is not None:
                require(M.InvestmentFlowBlock.total[n, o, p]
                        == b.total[n, p]
                        * n.invest_relation_output_capacity[p], "couplings")
        if M.TSAM_MODE:
            clustered(b, n, i, o, lambda p: b.total[n, p])
            content0 = b.inter_storage_content[n, 0]
        else:
            plain(b, n, i, o)
            content0 = b.storage_content[n, 0]
        if M.es.periods is None:
            cap0 = v.existing + b.invest[n, 0]
            if n.initial_storage_level is None:
                require(content0 <= cap0, "initial")
            else:
                require(content0 == n.initial_storage_level * cap0,
                        "initial")
        else:
            decommission(b, M.flow, (n,), v)
            for p in M.PERIODS:
                if v.overall_maximum is not None:
                    require(b.total[n, p] <= v.overall_maximum, "overall")
            if v.overall_minimum is not None:
                require(b.total[n, M.PERIODS.last()] >= v.overall_minimum,
                        "overall")
            if not M.TSAM_MODE:
                require(content0 == 0, "initial")
    costs(b, GROUP)
    storage_costs(b, GROUP)
    # what investment_limit_per_period adds up, for any one period
    p = symbol("PP", "PERIODS")
    r = M.discount_rate
    for n in GROUP:
        v = n.investment
        if M.es.periods is not None:
            years = min(M.es.end_year_of_optimization
                        - M.es.periods_years[p], v.lifetime)
            c = b.invest[n, p] * annuity(
                capex=v.ep_costs[p], n=v.lifetime, wacc=r) * (
                1 / annuity(capex=1, n=years, wacc=r))
            if v.nonconvex is True:
                c = c + b.invest_status[n, p] * v.offset[p]
            expression("period_investment_costs", c)


def plain(b, n, i, o):
    for t in M.TIMEPOINTS:
        variable(b.storage_content[n, t])
        require(b.storage_content[n, t] >= 0, "levels")
    for p, t in M.TIMEINDEX:
        dt = M.timeincrement[t]
        require(
            b.storage_content[n, t + 1]
            == b.storage_content[n, t] * (1 - n.loss_rate[t]) ** dt
            - n.fixed_losses_relative[t] * b.total[n, p] * dt
            - n.fixed_losses_absolute[t] * dt
            + M.flow[i, n, t] * n.inflow_conversion_factor[t] * dt
            - M.flow[n, o, t] / n.outflow_conversion_factor[t] * dt,
            "storage_balance",
        )
    low = sum([n.min_storage_level[t] for t in M.TIMESTEPS]) > 0
    if M.es.periods is None:
        for t in M.TIMEPOINTS:
            require(b.storage_content[n, t]
                    <= b.total[n, 0] * n.max_storage_level[t], "levels")
            if low:
                require(b.storage_content[n, t]
                        >= b.total[n, 0] * n.min_storage_level[t], "levels")
        if n.balanced is True:
            require(
                b.storage_content[n, M.TIMEPOINTS.at(-1)]
                == b.storage_content[n, M.TIMEPOINTS.at(1)], "balanced")
    else:
        for p, t in M.TIMEINDEX:
            require(b.storage_content[n, t]
                    <= b.total[n, p] * n.max_storage_level[t], "levels")
            if low:
                require(b.storage_content[n, t]
                        >= b.total[n, p] * n.min_storage_level[t], "levels")


def costs(b, GROUP):
    END = M.es.end_year_of_optimization
    YEAR = M.es.periods_years
    r = M.discount_rate
    for n in GROUP:
        v = n.investment
        for p in M.PERIODS:
            invest = b.invest[n, p]
            if M.es.periods is None:
                if v.nonconvex is False:
                    c = invest * v.ep_costs[p]
                    objective(c, "investment_costs")
                    expression("investment_costs", c)
                elif v.nonconvex is True:
                    c = (invest * v.ep_costs[p]
                         + b.invest_status[n, p] * v.offset[p])
                    objective(c, "investment_costs")
                    expression("investment_costs", c)
                continue
            L = v.lifetime
            c = (invest * annuity(capex=v.ep_costs[p], n=L, wacc=r)
                 * (1 / annuity(capex=1, n=min(END - YEAR[p], L), wacc=r)))
            left = L - (END - YEAR[p])
            d = 0
            if M.es.use_remaining_value and END - YEAR[p] < L:
                d = invest * (
                    annuity(capex=v.ep_costs[-1], n=left, wacc=r)
                    - annuity(capex=v.ep_costs[p], n=left, wacc=r)
                ) * (1 / annuity(capex=1, n=left, wacc=r))
            if v.nonconvex is False:
                objective(c, "investment_costs")
                objective(d, "remaining_value")
                expression("investment_costs", c + d)
            elif v.nonconvex is True:
                c = c + b.invest_status[n, p] * v.offset[p]
                if M.es.use_remaining_value and END - YEAR[p] < L:
                    d = d + b.invest_status[n, p] * (
                        v.offset[-1] - v.offset[p])
                objective(c, "investment_costs")
                objective(d, "remaining_value")
                expression("investment_costs", c + d)
        if M.es.periods is not None and valid_sequence(
                v.fixed_costs, len(M.PERIODS)):
            for p in M.PERIODS:
                for y in range(YEAR[p], min(END, YEAR[p] + v.lifetime)):
                    c = b.invest[n, p] * v.fixed_costs[y]
                    objective(c, "fixed_costs")
                    expression("fixed_costs", c)
            if v.existing is not None:
                for y in range(min(END, v.lifetime - v.age)):
                    objective(v.existing * v.fixed_costs[y], "fixed_costs")
                    expression("fixed_costs", v.existing * v.fixed_costs[y])
