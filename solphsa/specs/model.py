"""What setting up an optimisation model has to provide.

The index sets are those the formulations of the blocks are stated over; every
flow has its variable, every block of the system is built once with the nodes
or flows of its group, and the objective is the sum of what all blocks
contribute.
"""
from logging import getLogger

from pyomo import environ as po
from pyomo.core.plugins.transform.relax_integrality import RelaxIntegrality
from pyomo.opt import SolverFactory


BLOCKS = ("BusBlock", "ConverterBlock", "InvestmentFlowBlock",
          "SimpleFlowBlock", "NonConvexFlowBlock",
          "InvestNonConvexFlowBlock")


def base_blocks():
    return [cls("BusBlock"), cls("ConverterBlock"),
            cls("InvestmentFlowBlock"), cls("SimpleFlowBlock"),
            cls("NonConvexFlowBlock"), cls("InvestNonConvexFlowBlock")]


def Model(self, energysystem):
    """without options"""
    reject(getLogger().level <= 10, "logging")
    es = energysystem
    self.es = es
    self.timeincrement = es.timeincrement
    self.objective_weighting = es.timeincrement
    self.flows = es.flows()
    if es.periods is not None:
        self.discount_rate = 0.02
        announce(True, "SuspiciousUsageWarning")
    sets(self, es)
    flow_variable(self)
    blocks(self, es, base_blocks())
    total_cost(self, po.minimize)


def ModelOptions(self, energysystem, objective_weighting,
                 constraint_groups, discount_rate, debug, auto_construct):
    reject(getLogger().level <= 10 and debug is False, "logging")
    es = energysystem
    self.es = es
    self.timeincrement = es.timeincrement
    self.objective_weighting = objective_weighting
    if es.periods is not None:
        announce(discount_rate is None, "SuspiciousUsageWarning")
        if discount_rate is None:
            self.discount_rate = 0.02
        else:
            self.discount_rate = discount_rate
    self.flows = es.flows()
    if auto_construct:
        sets(self, es)
        flow_variable(self)
        blocks(self, es, base_blocks() + constraint_groups)
        total_cost(self, po.minimize)


def ModelTimeincrement(self, energysystem, timeincrement, auto_construct):
    """the time increment of the model is that of the system unless given"""
    reject(getLogger().level <= 10, "logging")
    announce(timeincrement, "SuspiciousUsageWarning")
    announce(energysystem.periods is not None, "SuspiciousUsageWarning")
    self.timeincrement = (timeincrement if timeincrement
                          else energysystem.timeincrement)
    self.objective_weighting = self.timeincrement


def ModelAllOptions(self, energysystem, timeincrement, objective_weighting,
                    discount_rate, debug, name, auto_construct):
    """every option counts, whatever else is given"""
    reject(getLogger().level <= 10 and debug is False, "logging")
    announce(timeincrement, "SuspiciousUsageWarning")
    es = energysystem
    self.name = name
    self.es = es
    self.timeincrement = timeincrement if timeincrement else es.timeincrement
    self.objective_weighting = objective_weighting
    self.flows = es.flows()
    if es.periods is not None:
        announce(discount_rate is None, "SuspiciousUsageWarning")
        if discount_rate is None:
            self.discount_rate = 0.02
        else:
            self.discount_rate = discount_rate


def sets(self, es):
    reject(es.timeincrement is None, "timeincrement")
    n = len(es.timeincrement)
    self.NODES = po.Set(initialize=list(es.nodes))
    self.TIMESTEPS = po.Set(initialize=range(n))
    self.TIMEPOINTS = po.Set(initialize=range(n + 1))
    # timesteps are consecutively assigned to the periods
    if es.periods is None:
        index = [(0, t) for t in range(n)]
        self.PERIODS = po.Set(initialize=[0])
    else:
        index = list(zip([p for p in range(len(es.periods))
                          for _ in range(len(es.periods[p]))], range(n)))
        self.PERIODS = po.Set(initialize=range(len(es.periods)))
    self.TIMEINDEX = po.Set(initialize=index)
    self.TIMESTEPS_IN_PERIOD = {
        p: [t for q, t in self.TIMEINDEX if q == p] for p in self.PERIODS}
    # every timestep of a typical period stands for its occurrences
    tsa = es.tsa_parameters
    self.TSAM_MODE = tsa is not None
    if tsa is None:
        self.tsam_weighting = [1 for _ in range(n)]
    else:
        self.tsam_weighting = [
            tsa[p]["occurrences"][k] for p in self.PERIODS
            for k in range(len(tsa[p]["occurrences"]))
            for _ in range(tsa[p]["timesteps"])]
        clusters = sum(len(tsa[p]["order"]) for p in self.PERIODS)
        self.CLUSTERS = po.Set(initialize=range(clusters))
        self.CLUSTERS_OFFSET = po.Set(initialize=range(clusters + 1))
        self.TYPICAL_CLUSTERS = po.Set(initialize=[
            (p, k) for p in self.PERIODS
            for k in range(len(tsa[p]["occurrences"]))])
        self.TIMEINDEX_CLUSTER = positions(tsa, "order", 0)
        self.TIMEINDEX_TYPICAL_CLUSTER = positions(tsa, "occurrences", 0)
        self.TIMEINDEX_TYPICAL_CLUSTER_OFFSET = positions(
            tsa, "occurrences", 1)
    self.FLOWS = po.Set(initialize=self.flows.keys())
    self.BIDIRECTIONAL_FLOWS = po.Set(initialize=[
        k for k, f in self.flows.items() if f.bidirectional])
    self.UNIDIRECTIONAL_FLOWS = po.Set(initialize=[
        k for k, f in self.flows.items() if not f.bidirectional])


def positions(tsa, kind, more):
    return [(p, k, g) for p in range(len(tsa))
            for k in range(len(tsa[p][kind]))
            for g in range(tsa[p]["timesteps"] + more)]


def get_cluster_index(self, cluster_type, offset):
    return positions(self.es.tsa_parameters, cluster_type, offset)


def get_timestep_from_tsam_timestep(self, p, ik, g):
    return (self.TIMESTEPS_IN_PERIOD[p][0]
            + ik * self.es.tsa_parameters[p]["timesteps"] + g)


def flow_variable(self):
    self.flow = po.Var(self.FLOWS, self.TIMESTEPS, within=po.Reals)
    for (i, o), f in self.flows.items():
        cap = f.nominal_capacity
        for t in self.TIMESTEPS:
            x = self.flow[i, o, t]
            if cap is not None and f.fix is not None:
                require(x == f.fix[t] * cap, "flow")
                continue
            if cap is not None:
                require(x <= f.maximum[t] * cap, "flow")
                if not f.nonconvex:
                    require(x >= f.minimum[t] * cap, "flow")
                    continue
            # further restrictions follow from the blocks
            if not f.bidirectional:
                require(x >= 0, "flow")


def blocks(self, es, base):
    more = [g for g in es.groups
            if hasattr(g, "CONSTRAINT_GROUP") and g not in base]
    for group in base + more:
        block = group()
        self.add_component(str(block), block)
        block._create(group=es.groups.get(group))


def total_cost(self, sense):
    total = 0
    for block in self.component_data_objects():
        if hasattr(block, "_objective_expression"):
            total += block._objective_expression()
    self.objective = po.Objective(expr=total, sense=sense)


def _add_objective(self, sense, update):
    if update:
        self.del_component("objective")
    total_cost(self, sense)


# ----------------------------------------------------------------- solving
def solve(self, solver, solver_io, allow_nonoptimal, solve_kwargs,
          cmdline_options):
    opt = SolverFactory(solver, solver_io=solver_io)
    if cmdline_options is not None:
        for k in cmdline_options:
            opt.options[k] = cmdline_options[k]
    if solve_kwargs is None:
        solve_kwargs = {}
    found = opt.solve(self, **solve_kwargs)
    self.solver_results = found
    self.es.results = found
    optimal = (found.Solver.Status == "ok"
               and found.Solver.Termination_condition == "optimal")
    reject(not optimal and not allow_nonoptimal, "nonoptimal")
    announce(not optimal, "UserWarning")
    if optimal:
        return cls("Results")(self)
    return found


def receive_duals(self):
    self.dual = po.Suffix(direction=po.Suffix.IMPORT)
    self.rc = po.Suffix(direction=po.Suffix.IMPORT)


def relax_problem(self):
    RelaxIntegrality()._apply_to(self)
    return self
