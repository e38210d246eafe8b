"""What the constructors have to store, and which data they must reject.

A scalar is as good as a sequence repeating it (sequence()).  Every argument
may be None; the deprecated names mean the same as the current ones and
must not be combined with them.
"""
from inspect import isbuiltin
from math import isfinite
from numbers import Real

from oemof.solph._options import Investment as cls_investment
from oemof.solph._plumbing import sequence
from oemof.solph.flows import Flow as cls_flow


def either(current, deprecated):
    reject(current is not None and deprecated is not None, "alias")
    announce(deprecated is not None, "FutureWarning")
    if deprecated is not None:
        return deprecated
    return current


# ----------------------------------------------------------------- options
def Investment(self, maximum=float("inf"), minimum=0, ep_costs=0, existing=0,
               nonconvex=False, offset=0, overall_maximum=None,
               overall_minimum=None, lifetime=None, age=0, fixed_costs=None,
               custom_attributes=None, custom_properties=None):
    custom_properties = either(custom_properties, custom_attributes)
    if custom_properties is None:
        custom_properties = {}
    store("custom_properties", custom_properties)
    store("maximum", sequence(maximum))
    store("minimum", sequence(minimum))
    store("ep_costs", sequence(ep_costs))
    store("existing", existing)
    store("nonconvex", nonconvex)
    store("offset", sequence(offset))
    store("overall_maximum", overall_maximum)
    store("overall_minimum", overall_minimum)
    store("lifetime", lifetime)
    store("age", age)
    store("fixed_costs", sequence(fixed_costs))
    # an offset needs the decision to invest, which excludes existing units
    reject(existing != 0 and nonconvex is True, "reject")
    reject(sequence(maximum)[0] == float("inf") and nonconvex is True,
           "reject")
    reject(sequence(offset)[0] != 0 and nonconvex is False, "reject")
    reject(lifetime is not None and age >= lifetime, "reject")
    reject(not isinstance(nonconvex, bool), "reject")
    # the decision to invest is not needed
    announce(nonconvex and sequence(minimum).min() == 0
             and sequence(offset).min() == 0, "SuspiciousUsageWarning")


def NonConvex(self, initial_status=0, minimum_uptime=0, minimum_downtime=0,
              maximum_startups=None, maximum_shutdowns=None,
              startup_costs=None, shutdown_costs=None, activity_costs=None,
              inactivity_costs=None, negative_gradient_limit=None,
              positive_gradient_limit=None, custom_attributes=None,
              custom_properties=None):
    store("custom_properties", either(custom_properties, custom_attributes))
    store("initial_status", initial_status)
    store("minimum_uptime", sequence(minimum_uptime))
    store("minimum_downtime", sequence(minimum_downtime))
    store("maximum_startups", maximum_startups)
    store("maximum_shutdowns", maximum_shutdowns)
    store("startup_costs", sequence(startup_costs))
    store("shutdown_costs", sequence(shutdown_costs))
    store("activity_costs", sequence(activity_costs))
    store("inactivity_costs", sequence(inactivity_costs))
    store("negative_gradient_limit", sequence(negative_gradient_limit))
    store("positive_gradient_limit", sequence(positive_gradient_limit))
    # the initial state has to be kept for its minimum duration
    if initial_status == 0:
        store("first_flexible_timestep", sequence(minimum_downtime)[0])
    else:
        store("first_flexible_timestep", sequence(minimum_uptime)[0])


# -------------------------------------------------------------------- flow
def Flow(self, nominal_capacity=None, nominal_value=None, min=None, max=None,
         variable_costs=0, minimum=None, maximum=None, fix=None,
         positive_gradient_limit=None, negative_gradient_limit=None,
         full_load_time_max=None, full_load_time_min=None, integer=False,
         bidirectional=False, nonconvex=None, lifetime=None, age=None,
         fixed_costs=None, custom_attributes=None, custom_properties=None):
    nominal_capacity = either(nominal_capacity, nominal_value)
    custom_properties = either(custom_properties, custom_attributes)
    minimum = either(minimum, None if isbuiltin(min) else min)
    maximum = either(maximum, None if isbuiltin(max) else max)
    if maximum is None:
        maximum = 1
    if minimum is None:
        minimum = 0
    store("super.custom_properties", custom_properties)

    # capacity: given or to be optimised
    capacity = None
    invest = None
    if nominal_capacity is not None:
        real = isinstance(nominal_capacity, Real)
        reject(not real and not isinstance(nominal_capacity, cls_investment),
               "reject_capacity")
        if real:
            reject(not isfinite(nominal_capacity), "reject_capacity")
            capacity = nominal_capacity
        else:
            invest = nominal_capacity
    store("nominal_capacity", capacity)
    store("investment", invest)

    store("fixed_costs", sequence(fixed_costs))
    store("variable_costs", sequence(variable_costs))
    store("positive_gradient_limit", sequence(positive_gradient_limit))
    store("negative_gradient_limit", sequence(negative_gradient_limit))
    store("full_load_time_max", full_load_time_max)
    store("full_load_time_min", full_load_time_min)
    store("integer", integer)
    store("nonconvex", nonconvex)
    store("lifetime", lifetime)
    store("age", age)

    reject(fix is not None and (minimum != 0 or maximum != 1), "reject_fix")

    # negative flows
    two_way = sequence(minimum).min() < 0
    announce(two_way, "ExperimentalFeatureWarning")
    announce(bidirectional and not two_way, "FutureWarning")
    # costs per year are charged in models with several periods only
    announce(fixed_costs is not None, "SuspiciousUsageWarning")
    store("bidirectional", True if two_way or bidirectional else False)
    if not two_way and bidirectional and minimum == 0:
        minimum = -1
    store("fix", sequence(fix))
    store("maximum", sequence(maximum))
    store("minimum", sequence(minimum))

    # relative data need a capacity they are relative to
    lo, up = sequence(minimum), sequence(maximum)
    lo0 = -1 if two_way or bidirectional else 0
    reject(invest is None and capacity is None and (
        fix is not None or full_load_time_max is not None
        or full_load_time_min is not None
        or lo.min() != lo0 or lo.max() != lo0
        or up.min() != 1 or up.max() != 1), "reject_relative")
    reject(capacity is not None and not isfinite(up.max()),
           "reject_capacity")

    # gradients of on/off flows replace those of plain flows
    if nonconvex:
        reject((nonconvex.positive_gradient_limit is not None
                or nonconvex.negative_gradient_limit is not None)
               and (positive_gradient_limit is not None
                    or negative_gradient_limit is not None),
               "reject_gradient")
        reject(invest and not isfinite(invest.maximum.max()),
               "reject_invest")


# ------------------------------------------------------------------- nodes
def node(label, inputs, outputs, parent_node, custom_properties):
    """what every node hands to the graph library (None means empty)"""
    store("super.label", label)
    store("super.inputs", inputs)
    store("super.outputs", outputs)
    store("super.parent_node", parent_node)
    store("super.custom_properties", custom_properties)


def unconnected(*needed):
    for x in needed:
        announce(not x, "SuspiciousUsageWarning")


def Bus(self, label=None, *, inputs=None, outputs=None, parent_node=None,
        balanced=True, custom_properties=None):
    node(label, inputs, outputs, parent_node, custom_properties)
    store("balanced", balanced)
    store("constraint_group()", cls("BusBlock") if balanced else None)


def Sink(self, label=None, *, inputs, parent_node=None,
         custom_properties=None):
    node(label, inputs, None, parent_node, custom_properties)
    store("constraint_group()", None)


def Source(self, label=None, *, outputs, parent_node=None,
           custom_properties=None):
    node(label, None, outputs, parent_node, custom_properties)
    store("constraint_group()", None)


def given_factors(factors):
    if factors is None:
        return {}
    return {k: sequence(v) for k, v in factors.items()}


def all_factors(self, factors, default):
    """the given ones, the default for every other connected bus"""
    d = given_factors(factors)
    for k in (set(self.inputs) | set(self.outputs)) - set(d):
        d[k] = sequence(default)
    return d


def Converter(self, label=None, inputs=None, outputs=None, parent_node=None,
              conversion_factors=None, custom_properties=None):
    node(label, inputs, outputs, parent_node, custom_properties)
    unconnected(inputs, outputs)
    store("conversion_factors", all_factors(self, conversion_factors, 1))
    store("constraint_group()", cls("ConverterBlock"))


def Link(self, label=None, inputs=None, outputs=None, parent_node=None,
         conversion_factors=None, custom_properties=None):
    node(label, inputs, outputs, parent_node, custom_properties)
    unconnected(inputs, outputs)
    # two buses, one factor for each of the directions
    for x in (inputs, outputs, conversion_factors):
        announce(x is None, "SuspiciousUsageWarning")
        announce(x is not None and len(x) != 2, "SuspiciousUsageWarning")
    store("conversion_factors", given_factors(conversion_factors))
    store("constraint_group()", cls("LinkBlock"))


def ExtractionTurbineCHP(self, conversion_factor_full_condensation,
                         label=None, inputs=None, outputs=None,
                         parent_node=None, conversion_factors=None,
                         custom_properties=None):
    node(label, inputs, outputs, parent_node, custom_properties)
    unconnected(inputs, outputs)
    store("conversion_factors", all_factors(self, conversion_factors, 1))
    store("conversion_factor_full_condensation",
          {k: sequence(v) for k, v in
           conversion_factor_full_condensation.items()})
    store("constraint_group()", cls("ExtractionTurbineCHPBlock"))


def GenericCHP(self, fuel_input, electrical_output, heat_output, beta,
               back_pressure, parent_node=None, label=None,
               custom_properties=None):
    store("super.label", label)
    store("super.parent_node", parent_node)
    store("super.custom_properties", custom_properties)
    store("fuel_input", fuel_input)
    store("electrical_output", electrical_output)
    store("heat_output", heat_output)
    store("beta", sequence(beta))
    store("back_pressure", back_pressure)
    fuel_bus = list(fuel_input.keys())[0]
    fuel_bus.outputs.update({self: list(fuel_input.values())[0]})
    self.outputs.update(electrical_output)
    self.outputs.update(heat_output)
    store("constraint_group()", cls("GenericCHPBlock"))


def GenericCAES(self, label, *, electrical_input, fuel_input,
                electrical_output, params, parent_node=None,
                custom_properties=None):
    store("super.label", label)
    store("super.parent_node", parent_node)
    store("super.custom_properties", custom_properties)
    store("electrical_input", electrical_input)
    store("fuel_input", fuel_input)
    store("electrical_output", electrical_output)
    store("params", params)
    self.inputs.update(electrical_input)
    self.inputs.update(fuel_input)
    self.outputs.update(electrical_output)
    store("constraint_group()", cls("GenericCAESBlock"))


def PiecewiseLinearConverter(self, label, *, inputs, outputs,
                             conversion_function, in_breakpoints, pw_repn,
                             parent_node=None, custom_properties=None):
    node(label, inputs, outputs, parent_node, custom_properties)
    store("in_breakpoints", list(in_breakpoints))
    store("conversion_function", conversion_function)
    store("pw_repn", pw_repn)
    reject(len(self.inputs) > 1 or len(self.outputs) > 1, "reject")
    # the breakpoints have to cover the operating range
    capacity = list(self.inputs.values())[0].nominal_capacity
    reject(max(in_breakpoints) < capacity, "reject")
    store("constraint_group()", cls("PiecewiseLinearConverterBlock"))


def OffsetConverter(self, inputs, outputs, parent_node=None, label=None,
                    conversion_factors=None, normed_offsets=None,
                    coefficients=None, custom_properties=None):
    node(label, inputs, outputs, parent_node, custom_properties)
    reject(coefficients is not None and (conversion_factors is not None
                                         or normed_offsets is not None),
           "alias")
    if coefficients is not None:
        normed_offsets, conversion_factors = \
            self.normed_offset_and_conversion_factors_from_coefficients(
                coefficients)
    # exactly one on/off flow, the reference
    ref_in = [f for f in self.inputs.values() if f.nonconvex]
    ref_out = [f for f in self.outputs.values() if f.nonconvex]
    refs = ref_in + ref_out
    reject(len(refs) != 1, "reject_reference")
    at_input = any(f.nonconvex for f in self.inputs.values())
    ref = refs[0].input if at_input else refs[0].output
    store("_reference_flow", refs[0])
    store("_reference_node_at_input", True if at_input else False)
    store("_reference_node", ref)
    # only the reference may be invested in
    inv = [f.input for f in self.inputs.values() if f.investment]
    inv += [f.output for f in self.outputs.values() if f.investment]
    if form("each flow"):
        reject(any(f.investment and f is not refs[0] for f in
                   [*self.inputs.values(), *self.outputs.values()]),
               "reject_invest")
    else:
        reject(len(inv) > 1 or len(inv) > 0 and ref != inv[0],
               "reject_invest")
    # its factor and offset are fixed
    reject(conversion_factors is not None and ref in conversion_factors,
           "reject_reference")
    reject(normed_offsets is not None and ref in normed_offsets,
           "reject_reference")
    store("conversion_factors", all_factors(self, conversion_factors, 1))
    store("normed_offsets", all_factors(self, normed_offsets, 0))
    store("constraint_group()", cls("OffsetConverterBlock"))


def GenericStorage(self, label=None, inputs=None, outputs=None,
                   parent_node=None, nominal_capacity=None,
                   nominal_storage_capacity=None, initial_storage_level=None,
                   invest_relation_input_output=None,
                   invest_relation_input_capacity=None,
                   invest_relation_output_capacity=None, min_storage_level=0,
                   max_storage_level=1, balanced=True, loss_rate=0,
                   fixed_losses_relative=0, fixed_losses_absolute=0,
                   inflow_conversion_factor=1, outflow_conversion_factor=1,
                   constant_soc_until=None,
                   fraction_saturation_charging=None, fixed_costs=0,
                   storage_costs=None, lifetime_inflow=None,
                   lifetime_outflow=None, custom_properties=None):
    node(label, inputs, outputs, parent_node, custom_properties)
    unconnected(inputs, outputs)
    nominal_capacity = either(nominal_capacity, nominal_storage_capacity)
    capacity = None
    invest = None
    if nominal_capacity is not None:
        real = isinstance(nominal_capacity, Real)
        reject(not real and not isinstance(nominal_capacity, cls_investment),
               "reject_capacity")
        if real:
            capacity = nominal_capacity
        else:
            invest = nominal_capacity
    store("nominal_storage_capacity", capacity)
    store("investment", invest)
    rio = sequence(invest_relation_input_output)
    ric = sequence(invest_relation_input_capacity)
    roc = sequence(invest_relation_output_capacity)
    store("invest_relation_input_output", rio)
    store("invest_relation_input_capacity", ric)
    store("invest_relation_output_capacity", roc)
    store("initial_storage_level", initial_storage_level)
    store("balanced", balanced)
    store("loss_rate", sequence(loss_rate))
    store("fixed_losses_relative", sequence(fixed_losses_relative))
    store("fixed_losses_absolute", sequence(fixed_losses_absolute))
    store("inflow_conversion_factor", sequence(inflow_conversion_factor))
    store("outflow_conversion_factor", sequence(outflow_conversion_factor))
    store("max_storage_level", sequence(max_storage_level))
    store("min_storage_level", sequence(min_storage_level))
    store("fixed_costs", sequence(fixed_costs))
    store("storage_costs", sequence(storage_costs))
    store("lifetime_inflow", lifetime_inflow)
    store("lifetime_outflow", lifetime_outflow)
    store("constant_soc_until", constant_soc_until)
    store("fraction_saturation_charging", fraction_saturation_charging)

    reject(len(self.inputs) > 1 or len(self.outputs) > 1, "reject_flows")

    # relations between investments need those investments
    in_inv = invested(self.inputs)
    out_inv = invested(self.outputs)
    own = invest is not None
    reject(ric is not None and not (in_inv and own), "reject_relation")
    reject(roc is not None and not (out_inv and own), "reject_relation")
    reject(rio is not None and not (in_inv and out_inv), "reject_relation")
    reject(rio is not None and roc is not None and ric is not None,
           "reject_relation")

    reject(initial_storage_level is not None and (
        initial_storage_level < sequence(min_storage_level)[0]
        or initial_storage_level > sequence(max_storage_level)[0]),
        "reject_level")
    # absolute losses need a content they can be taken from
    reject(own and sequence(fixed_losses_absolute).max() != 0
           and invest.existing == 0 and invest.minimum.min() == 0,
           "reject_losses")
    soc = (constant_soc_until is not None
           or fraction_saturation_charging is not None)
    n = len([v for v in self.inputs.values() if isinstance(v, cls_flow)])
    reject(soc and own, "reject_charging")
    reject(soc and n != 1, "reject_charging")
    if soc:
        flow = next(v for v in self.inputs.values())
        store("max_charge_capacity", flow.nominal_capacity)
        store("relative_charge_limit", flow.maximum)
    store("constraint_group()", cls("GenericInvestmentStorageBlock") if own
          else cls("GenericStorageBlock"))


def invested(flows):
    for f in flows.values():
        r = isinstance(f.investment, cls_investment)
    return r


def slope_offset_from_nonconvex_input(max_load, min_load, eta_at_max,
                                      eta_at_min):
    """output = slope * input + offset through both operating points"""
    slope = (max_load * eta_at_max - min_load * eta_at_min) / (
        max_load - min_load)
    return slope, max_load * eta_at_max - slope * max_load


def slope_offset_from_nonconvex_output(max_load, min_load, eta_at_max,
                                       eta_at_min):
    """input = slope * output + offset through both operating points"""
    slope = (max_load / eta_at_max - min_load / eta_at_min) / (
        max_load - min_load)
    return slope, max_load / eta_at_max - slope * max_load


def from_coefficients(self, coefficients):
    """output = c1 * input + c0 * nominal output, solved for the input"""
    if len(coefficients) != 2:
        raise ValueError
    c0, c1 = sequence(coefficients[0]), sequence(coefficients[1])
    bus = list(self.inputs.values())[0].input
    for flow in self.outputs.values():
        series = [s for s in (flow.maximum, flow.minimum, c0, c1)
                  if s.size is not None]
        n = min([s.size for s in series], default=1)
        offset = [-c0[t] / c1[t] for t in range(n)]
        slope = [1 / c1[t] for t in range(n)]
        if n == 1:
            offset, slope = offset[0], slope[0]
    return {bus: offset}, {bus: slope}
