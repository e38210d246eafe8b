"""Documented formulation of the flow blocks (evaluated symbolically, never
imported)."""
import numpy as np
from oemof.tools.economics import annuity


def BusBlock(b, GROUP):
    for n in GROUP:
        for t in M.TIMESTEPS:
            require(
                sum(M.flow[i, n, t] for i in n.inputs)
                == sum(M.flow[n, o, t] for o in n.outputs),
                "balance",
            )


def SimpleFlowBlock(b, FLOWS):
    for i, o, f in FLOWS:
        if f.full_load_time_max is not None and f.nominal_capacity is not None:
            require(
                sum(
                    M.flow[i, o, t]
                    * M.timeincrement[t]
                    * M.tsam_weighting[t]
                    for t in M.TIMESTEPS
                )
                <= f.full_load_time_max * f.nominal_capacity,
                "full_load_time_max",
            )
        if f.full_load_time_min is not None and f.nominal_capacity is not None:
            require(
                sum(
                    M.flow[i, o, t]
                    * M.timeincrement[t]
                    * M.tsam_weighting[t]
                    for t in M.TIMESTEPS
                )
                >= f.full_load_time_min * f.nominal_capacity,
                "full_load_time_min",
            )
        if f.integer:
            for t in M.TIMESTEPS:
                integer(b.integer_flow[i, o, t])
                variable(b.integer_flow[i, o, t])
                require(b.integer_flow[i, o, t] >= 0, "integer")
                require(b.integer_flow[i, o, t] == M.flow[i, o, t],
                        "integer")
        gradient(b, i, o, f)
        lifetime(b, i, o, f)
        variable_costs(i, o, f)
    fixed_costs(FLOWS)


def gradient(b, i, o, f):
    if f.positive_gradient_limit is not None:
        for t in M.TIMESTEPS:
            variable(b.positive_gradient[i, o, t])
            require(b.positive_gradient[i, o, t] >= 0, "gradient")
            if t > 0:
                require(
                    M.flow[i, o, t] - M.flow[i, o, t - 1]
                    <= b.positive_gradient[i, o, t],
                    "gradient",
                )
            else:
                require(b.positive_gradient[i, o, t] == 0, "gradient")
    if valid_sequence(f.positive_gradient_limit, len(M.TIMESTEPS)):
        for t in M.TIMESTEPS:
            require(
                b.positive_gradient[i, o, t]
                <= f.positive_gradient_limit[t] * f.nominal_capacity,
                "gradient",
            )
    if f.negative_gradient_limit is not None:
        for t in M.TIMESTEPS:
            variable(b.negative_gradient[i, o, t])
            require(b.negative_gradient[i, o, t] >= 0, "gradient")
            if t > 0:
                require(
                    M.flow[i, o, t - 1] - M.flow[i, o, t]
                    <= b.negative_gradient[i, o, t],
                    "gradient",
                )
            else:
                require(b.negative_gradient[i, o, t] == 0, "gradient")
    if valid_sequence(f.negative_gradient_limit, len(M.TIMESTEPS)):
        for t in M.TIMESTEPS:
            require(
                b.negative_gradient[i, o, t]
                <= f.negative_gradient_limit[t] * f.nominal_capacity,
                "gradient",
            )


def lifetime(b, i, o, f):
    if M.es.periods is not None and f.lifetime is not None:
        age = 0 if f.age is None else f.age
        for p in M.PERIODS:
            if f.lifetime - age <= M.es.periods_years[p]:
                for t in M.TIMESTEPS_IN_PERIOD[p]:
                    require(M.flow[i, o, t] == 0, "lifetime")


def variable_costs(i, o, f):
    if valid_sequence(f.variable_costs, len(M.TIMESTEPS)):
        if M.es.periods is None:
            for t in M.TIMESTEPS:
                objective(
                    M.flow[i, o, t]
                    * f.variable_costs[t]
                    * M.objective_weighting[t]
                    * M.tsam_weighting[t],
                    "variable_costs",
                )
        else:
            for p in M.PERIODS:
                for t in M.TIMESTEPS_IN_PERIOD[p]:
                    objective(
                        M.flow[i, o, t]
                        * f.variable_costs[t]
                        * M.objective_weighting[t]
                        * M.tsam_weighting[t]
                        * (1 + M.discount_rate) ** -M.es.periods_years[p],
                        "variable_costs",
                    )


def fixed_costs(FLOWS):
    if M.es.periods is not None:
        END = M.es.end_year_of_optimization
        for i, o, f in FLOWS:
            if f.lifetime is None:
                if f.fixed_costs is not None and (
                    f.nominal_capacity is not None
                ):
                    for y in range(END):
                        objective(f.nominal_capacity * f.fixed_costs[y],
                                  "fixed_costs")
            elif valid_sequence(f.fixed_costs, len(M.TIMESTEPS)):
                age = 0 if f.age is None else f.age
                for y in range(min(END, f.lifetime - age)):
                    objective(f.nominal_capacity * f.fixed_costs[y],
                              "fixed_costs")


# ------------------------------------------------------------ non convex
def NonConvexFlowBlock(b, FLOWS):
    for i, o, f in FLOWS:
        n = f.nonconvex
        status(b, i, o, f)
        for t in M.TIMESTEPS:
            variable(b.status_nominal[i, o, t])
            require(b.status_nominal[i, o, t] >= 0, "range")
            require(
                b.status_nominal[i, o, t]
                == b.status[i, o, t] * f.nominal_capacity,
                "range",
            )
        if n.initial_status is not None:
            for t in range(0, n.first_flexible_timestep):
                require(b.status[i, o, t] == n.initial_status,
                        "initial_status")


def InvestNonConvexFlowBlock(b, FLOWS):
    P = symbol("PP", "PERIODS")
    for i, o, f in FLOWS:
        status(b, i, o, f)
        v = f.investment
        # what investment_limit_per_period adds up, for any one period
        c = b.invest[i, o, P] * v.ep_costs[P]
        if v.nonconvex:
            c = c + b.invest_status[i, o, P] * v.offset[P]
        expression("period_investment_costs", c)
        for t in M.TIMESTEPS:
            variable(b.status_nominal[i, o, t])
            require(b.status_nominal[i, o, t] >= 0, "linearisation")
        for p in M.PERIODS:
            variable(b.invest[i, o, p])
            require(b.invest[i, o, p] >= 0, "invest")
            if v.nonconvex:
                binary(b.invest_status[i, o, p])
                variable(b.invest_status[i, o, p])
                require(b.invest[i, o, p] <= v.maximum[p], "invest")
                require(b.invest[i, o, p]
                        >= v.minimum[p] * b.invest_status[i, o, p],
                        "invest")
                require(b.invest[i, o, p]
                        <= v.maximum[p] * b.invest_status[i, o, p],
                        "invest")
                objective(
                    b.invest[i, o, p] * v.ep_costs[p]
                    + b.invest_status[i, o, p] * v.offset[p],
                    "investment_costs",
                )
                expression(
                    "investment_costs",
                    b.invest[i, o, p] * v.ep_costs[p]
                    + b.invest_status[i, o, p] * v.offset[p],
                )
            else:
                require(b.invest[i, o, p] >= v.minimum[p], "invest")
                require(b.invest[i, o, p] <= v.maximum[p], "invest")
                objective(b.invest[i, o, p] * v.ep_costs[p],
                          "investment_costs")
                expression("investment_costs",
                           b.invest[i, o, p] * v.ep_costs[p])
            # status_nominal == status * invest, linearised
            if f.minimum is not None:
                for t in M.TIMESTEPS_IN_PERIOD[p]:
                    s = b.status_nominal[i, o, t]
                    require(s <= b.status[i, o, t] * v.maximum[p],
                            "linearisation")
                    require(s <= b.invest[i, o, p], "linearisation")
                    require(
                        s >= b.invest[i, o, p]
                        - (1 - b.status[i, o, t]) * v.maximum[p],
                        "linearisation",
                    )


def status(b, i, o, f):
    n = f.nonconvex
    T = len(M.TIMESTEPS)
    for t in M.TIMESTEPS:
        binary(b.status[i, o, t])
        variable(b.status[i, o, t])
        if f.minimum is not None:
            require(M.flow[i, o, t]
                    >= f.minimum[t] * b.status_nominal[i, o, t], "range")
            require(M.flow[i, o, t]
                    <= f.maximum[t] * b.status_nominal[i, o, t], "range")
    # ------------------------------------------------ startup / shutdown
    if n.startup_costs is not None or n.maximum_startups is not None:
        for t in M.TIMESTEPS:
            binary(b.startup[i, o, t])
            variable(b.startup[i, o, t])
            before = n.initial_status if t == 0 else b.status[i, o, t - 1]
            require(b.startup[i, o, t] >= b.status[i, o, t] - before,
                    "startup")
            if valid_sequence(n.startup_costs, T):
                objective(
                    b.startup[i, o, t] * n.startup_costs[t]
                    * M.tsam_weighting[t],
                    "startup_costs",
                )
                expression("startup_costs",
                    b.startup[i, o, t] * n.startup_costs[t]
                    * M.tsam_weighting[t])
    if n.maximum_startups is not None:
        require(sum(b.startup[i, o, t] for t in M.TIMESTEPS)
                <= n.maximum_startups, "startup")
    if n.shutdown_costs is not None or n.maximum_shutdowns is not None:
        for t in M.TIMESTEPS:
            binary(b.shutdown[i, o, t])
            variable(b.shutdown[i, o, t])
            before = n.initial_status if t == 0 else b.status[i, o, t - 1]
            require(b.shutdown[i, o, t] >= before - b.status[i, o, t],
                    "shutdown")
            if valid_sequence(n.shutdown_costs, T):
                objective(
                    b.shutdown[i, o, t] * n.shutdown_costs[t]
                    * M.tsam_weighting[t],
                    "shutdown_costs",
                )
                expression("shutdown_costs",
                    b.shutdown[i, o, t] * n.shutdown_costs[t]
                    * M.tsam_weighting[t])
    if n.maximum_shutdowns is not None:
        require(sum(b.shutdown[i, o, t] for t in M.TIMESTEPS)
                <= n.maximum_shutdowns, "shutdown")
    # ------------------------------------------------ up and down times
    for t in M.TIMESTEPS:
        if n.first_flexible_timestep < t and t < M.TIMESTEPS.last():
            if n.minimum_uptime.max() > 0:
                require(
                    (b.status[i, o, t] - b.status[i, o, t - 1])
                    * n.minimum_uptime[t]
                    <= sum(
                        b.status[i, o, u]
                        for u in range(t, min(t + n.minimum_uptime[t], T))
                    ),
                    "min_uptime",
                )
            if n.minimum_downtime.max() > 0:
                require(
                    (b.status[i, o, t - 1] - b.status[i, o, t])
                    * n.minimum_downtime[t]
                    <= n.minimum_downtime[t] - sum(
                        b.status[i, o, u]
                        for u in range(t, min(t + n.minimum_downtime[t], T))
                    ),
                    "min_downtime",
                )
    # ------------------------------------------------ gradients
    if n.positive_gradient_limit is not None:
        for t in M.TIMESTEPS:
            g = b.positive_gradient[i, o, t]
            variable(g)
            require(g >= 0, "gradient")
            if t > 0:
                require(
                    M.flow[i, o, t] * b.status[i, o, t]
                    - M.flow[i, o, t - 1] * b.status[i, o, t - 1] <= g,
                    "gradient",
                )
            else:
                require(g == 0, "gradient")
    if n.negative_gradient_limit is not None:
        for t in M.TIMESTEPS:
            g = b.negative_gradient[i, o, t]
            variable(g)
            require(g >= 0, "gradient")
            if t > 0:
                require(
                    M.flow[i, o, t - 1] * b.status[i, o, t - 1]
                    - M.flow[i, o, t] * b.status[i, o, t] <= g,
                    "gradient",
                )
            else:
                require(g == 0, "gradient")
    # ------------------------------------------------ status costs
    for t in M.TIMESTEPS:
        if valid_sequence(n.activity_costs, T):
            objective(b.status[i, o, t] * n.activity_costs[t]
                      * M.tsam_weighting[t], "activity_costs")
            expression("activity_costs",
                b.status[i, o, t] * n.activity_costs[t]
                * M.tsam_weighting[t])
        if valid_sequence(n.inactivity_costs, T):
            objective((1 - b.status[i, o, t]) * n.inactivity_costs[t]
                      * M.tsam_weighting[t], "inactivity_costs")
            expression("inactivity_costs",
                (1 - b.status[i, o, t]) * n.inactivity_costs[t]
                * M.tsam_weighting[t])


# ------------------------------------------------------------ investment
def InvestmentFlowBlock(b, FLOWS):
    for i, o, f in FLOWS:
        v = f.investment
        for p in M.PERIODS:
            invest = b.invest[i, o, p]
            variable(invest)
            require(invest >= 0, "invest_bounds")
            require(invest <= v.maximum[p], "invest_bounds")
            if v.nonconvex:
                y = b.invest_status[i, o, p]
                variable(y)
                binary(y)
                require(invest >= v.minimum[p] * y, "invest_bounds")
                require(invest <= v.maximum[p] * y, "invest_bounds")
            else:
                require(invest >= v.minimum[p], "invest_bounds")
            variable(b.total[i, o, p])
            require(b.total[i, o, p] >= 0, "total")
            if p == 0:
                require(b.total[i, o, p] == invest + v.existing, "total")
            else:
                require(
                    b.total[i, o, p]
                    == b.total[i, o, p - 1] + invest - b.old[i, o, p],
                    "total",
                )
        if M.es.periods is not None:
            decommission(b, M.flow, (i, o), v)
            for p in M.PERIODS:
                if v.overall_maximum is not None:
                    require(b.total[i, o, p] <= v.overall_maximum,
                            "overall")
            if v.overall_minimum is not None:
                require(b.total[i, o, M.PERIODS.last()]
                        >= v.overall_minimum, "overall")
        for p, t in M.TIMEINDEX:
            if f.fix is not None:
                require(M.flow[i, o, t] == b.total[i, o, p] * f.fix[t],
                        "flow_limits")
            else:
                require(M.flow[i, o, t] <= b.total[i, o, p] * f.maximum[t],
                        "flow_limits")
            if f.minimum.min() != 0:
                require(M.flow[i, o, t] >= b.total[i, o, p] * f.minimum[t],
                        "flow_limits")
        if f.full_load_time_max is not None:
            require(
                sum(M.flow[i, o, t] * M.timeincrement[t]
                    * M.tsam_weighting[t] for t in M.TIMESTEPS)
                <= f.full_load_time_max
                * sum(b.total[i, o, p] for p in M.PERIODS),
                "full_load_time",
            )
        if f.full_load_time_min is not None:
            require(
                sum(M.flow[i, o, t] * M.timeincrement[t]
                    * M.tsam_weighting[t] for t in M.TIMESTEPS)
                >= f.full_load_time_min
                * sum(b.total[i, o, p] for p in M.PERIODS),
                "full_load_time",
            )
    invest_costs(b, [((i, o), f.investment) for i, o, f in FLOWS])
    # what investment_limit_per_period adds up, for any one period
    p = symbol("PP", "PERIODS")
    r = 0.05
    for i, o, f in FLOWS:
        v = f.investment
        if M.es.periods is not None:
            years = min(M.es.end_year_of_optimization
                        - M.es.periods_years[p], v.lifetime)
            c = b.invest[i, o, p] * annuity(
                capex=v.ep_costs[p], n=v.lifetime, wacc=r) * (
                1 / annuity(capex=1, n=years, wacc=r))
            if v.nonconvex:
                c = c + b.invest_status[i, o, p] * annuity(
                    capex=v.offset[p], n=v.lifetime, wacc=r)
            expression("period_investment_costs", c)


def decommission(b, flow, k, v):
    """capacity leaves the system once its lifetime is reached"""
    lifetime = v.lifetime
    if lifetime is None:
        raise ValueError("lifetime")
    matrix = M.es.periods_matrix
    out = np.argmin(np.where(matrix >= lifetime, matrix, np.inf), axis=1)
    for p in M.PERIODS:
        for x in (b.old[*k, p], b.old_end[*k, p], b.old_exo[*k, p]):
            variable(x)
            require(x >= 0, "decommissioning")
        require(b.old[*k, p] == b.old_end[*k, p] + b.old_exo[*k, p],
                "decommissioning")
    # endogenous capacity: what was built in the periods leaving in p
    require(b.old_end[*k, 0] == 0, "decommissioning")
    if form("grouped"):
        for p in M.PERIODS:
            if p != 0:
                require(b.old_end[*k, p] == sum(
                    b.invest[*k, q] for q, d in enumerate(out) if d == p),
                    "decommissioning")
    else:
        for p in M.PERIODS:
            if p not in out and p != 0:
                require(b.old_end[*k, p] == 0, "decommissioning")
        last = np.nan
        expr = None
        for q, p in enumerate(out):
            if p != last and last is not np.nan:
                require(b.old_end[*k, last] == expr, "decommissioning")
            if p == 0:
                last = 0
            elif p == last:
                expr += b.invest[*k, q]
                last = p
            else:
                expr = b.invest[*k, q]
                last = p
        if last != 0:
            require(b.old_end[*k, last] == expr, "decommissioning")
    # existing capacity leaves once
    gone = False
    for p in M.PERIODS:
        if p == 0:
            require(b.old_exo[*k, p] == 0, "decommissioning")
        elif lifetime - v.age <= M.es.periods_years[p]:
            if not gone:
                require(b.old_exo[*k, p] == v.existing, "decommissioning")
                gone = True
            else:
                require(b.old_exo[*k, p] == 0, "decommissioning")
        else:
            require(b.old_exo[*k, p] == 0, "decommissioning")


def invest_costs(b, items):
    END = M.es.end_year_of_optimization
    YEAR = M.es.periods_years
    r = 0.05
    total = 0
    fixed = 0
    for k, v in items:
        for p in M.PERIODS:
            invest = b.invest[*k, p]
            if M.es.periods is None:
                c = invest * v.ep_costs[p]
                if v.nonconvex:
                    c = c + b.invest_status[*k, p] * v.offset[p]
                objective(c, "investment_costs")
                expression("investment_costs", c)
                continue
            L = v.lifetime
            # annuities over the years until the end of the optimisation
            pv = 1 / annuity(capex=1, n=min(END - YEAR[p], L), wacc=r)
            c = invest * annuity(capex=v.ep_costs[p], n=L, wacc=r) * pv
            if v.nonconvex:
                c = c + b.invest_status[*k, p] * annuity(
                    capex=v.offset[p], n=L, wacc=r)
            objective(c, "annuity_costs")
            expression("investment_costs", c)
            if M.es.use_remaining_value and END - YEAR[p] < L:
                n = L - (END - YEAR[p])
                d = invest * (
                    annuity(capex=v.ep_costs[-1], n=n, wacc=r)
                    - annuity(capex=v.ep_costs[p], n=n, wacc=r)
                ) * (1 / annuity(capex=1, n=n, wacc=r))
                if v.nonconvex:
                    d = d + b.invest_status[*k, p] * (
                        v.offset[-1] - v.offset[p])
                objective(d, "remaining_value")
                expression("investment_costs", d)
        if M.es.periods is not None and valid_sequence(
                v.fixed_costs, len(M.PERIODS)):
            for p in M.PERIODS:
                for y in range(YEAR[p], min(END, YEAR[p] + v.lifetime)):
                    objective(b.invest[*k, p] * v.fixed_costs[y],
                              "fixed_costs")
                    expression("fixed_costs",
                               b.invest[*k, p] * v.fixed_costs[y])
            if v.existing is not None:
                for y in range(min(END, v.lifetime - v.age)):
                    objective(v.existing * v.fixed_costs[y], "fixed_costs")
                    expression("fixed_costs", v.existing * v.fixed_costs[y])
