"""What the results of a solved model show."""
import pandas as pd
from pyomo.core.base.var import Var

from oemof.solph.components import GenericStorage


# variable costs: of every flow and timestep, valued like in the objective
def variable_costs(self):
    announce(True, "ExperimentalFeatureWarning")
    m = self._model
    flow = self.get("flow", pd.DataFrame())
    weights = [m.objective_weighting[t] for t in m.TIMESTEPS]
    costs = pd.DataFrame()
    for i, o in m.FLOWS:
        if (i, o) in flow.columns:
            costs[i, o] = flow[i, o] * m.flows[i, o].variable_costs * weights
    return costs


# investment costs: specific costs times size, and the offset of what is built
def investment_costs(self):
    announce(True, "ExperimentalFeatureWarning")
    m = self._model
    built = self["invest"]
    costs = {}
    for i, o in m.FLOWS:
        if hasattr(m.flows[i, o], "investment"):
            if (i, o) in built.columns:
                costs[i, o] = price(self, m.flows[i, o].investment, built,
                                    (i, o))
    for node in m.nodes:
        if isinstance(node, GenericStorage) and node in built.columns:
            costs[node] = price(self, node.investment, built, node)
    return pd.DataFrame([costs])


def price(self, investment, built, column):
    costs = investment.ep_costs[0] * built[column][0]
    if investment.nonconvex:
        return costs + investment.offset[0] * self["invest_status"][column][0]
    return costs + investment.offset[0]


# every quantity of the model under its name, time dependent ones over the
# time index: of points for contents, of intervals for everything else
def by_name(self, key, default=None):
    if key == "variable_costs" or key == "investment_costs":
        announce(True, "ExperimentalFeatureWarning")
        return opaque("costs")
    if key not in self._variables:
        return default
    parts = list(self._variables[key].values())
    table = pd.concat([
        pd.DataFrame(x.extract_values(), index=[0]).stack(future_stack=True)
        for x in parts], axis=1)
    over = tuple(parts[-1].index_set().subsets())[-1].name
    if over == "TIMEPOINTS":
        table.index = self._model.es.timeindex
    elif over == "TIMESTEPS":
        table.index = self._model.es.timeindex[:-1]
    else:
        table.index = table.index.get_level_values(-1)
    return table


def names(self):
    return (self._solver_results.keys() | self._meta_results.keys()
            | self._variables.keys() | self._economy.keys())


def has_name(self, key):
    return key in self.keys()


def item(self, key):
    if key in self._solver_results:
        return self._solver_results[key]
    if key in self._meta_results:
        return self._meta_results[key]
    value = self.get(key)
    reject(value is None, "KeyError")
    return value


def to_df(self, variable):
    value = self.get(variable)
    reject(value is None, "KeyError")
    return value


def Results(self, model):
    """the variables of all blocks by name and block; costs of investments
    only if there are investments"""
    named = {}
    for value in model.component_data_objects(Var):
        variable = value.parent_component()
        name = str(variable).split(".")[-1]
        if name not in model.solver_results:
            named.setdefault(name, {})[
                str(variable)[:-(len(name) + 1)]] = variable
    costs = {"variable_costs": None}
    if "invest" in named:
        costs["investment_costs"] = None
    store("_variables", named)
    store("_economy", costs)
    store("_model", model)
    store("_solver_results", model.solver_results)
    store("_meta_results", {"objective": model.objective()})
