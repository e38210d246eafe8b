"""The comparison units: name -> function(repo) -> units.Result."""
from . import interp as ip
from . import purity
from . import terms as tm
from . import units as un
from .arrays import slice_of
from .interp import DictObj, ObjRef, Seg

UNITS = {}


def unit(name):
    def deco(f):
        UNITS[name] = f
        return f
    return deco


def block(name, spec, elem=None):
    def f(repo):
        r, it, st = un.compare_block(repo, name, un.load_spec(repo, spec),
                                     elem)
        r.it = it
        return r
    UNITS[name] = f


for _b in ("BusBlock", "SimpleFlowBlock", "NonConvexFlowBlock",
           "InvestNonConvexFlowBlock", "InvestmentFlowBlock"):
    block(_b, "flows")
for _b in ("ConverterBlock", "LinkBlock", "OffsetConverterBlock",
           "ExtractionTurbineCHPBlock", "GenericCHPBlock"):
    block(_b, "components")
for _b in ("GenericCAESBlock", "PiecewiseLinearConverterBlock"):
    block(_b, "components")
for _b in ("GenericStorageBlock", "GenericInvestmentStorageBlock"):
    block(_b, "storage")


def function(name, spec="constraints", dist=()):
    def f(repo):
        return un.compare_function(repo, name, un.load_spec(repo, spec),
                                   distinguishing=dist)
    UNITS[name] = f


function("equate_flows", dist=["name"])
function("equate_flows_by_keyword", dist=["name"])
function("equate_variables", dist=["name", ("var1", "var2")])
function("limit_active_flow_count", dist=["constraint_name"])
function("limit_active_flow_count_by_keyword", dist=["keyword"])
function("shared_limit", dist=["limit_name"])
function("generic_integral_limit", dist=["limit_name", "keyword"])
function("generic_periodical_integral_limit", dist=["keyword"])
function("emission_limit")
function("emission_limit_per_period")
function("investment_limit")
function("investment_limit_per_period")
function("additional_investment_flow_limit", dist=["keyword"])
function("storage_level_constraint", dist=["name"])


# ------------------------------------------------------------ constructors
CURRENT, REQUIRED = "current arguments", "required arguments only"


def constructor(name, deprecated=None, spec="constructors"):
    """deprecated: {old name: current name}"""
    old = deprecated or {}

    def f(repo):
        sc = [(CURRENT, set(old), None), (REQUIRED, (), ())]
        if old:
            sc.append(("deprecated arguments", (), set(old)))
            sc.append(("deprecated among current arguments",
                       set(old.values()), None))
        for d, c in old.items():
            sc.append((f"{d} and {c}", (), {d, c}))
            if len(old) > 1:
                sc.append((f"{d} among current arguments",
                           set(old) - {d} | {c}, None))
        return un.compare_class(repo, name, un.load_spec(repo, spec), sc)
    UNITS["new " + name] = f


CUSTOM = {"custom_attributes": "custom_properties"}
constructor("Investment", CUSTOM)
constructor("NonConvex", CUSTOM)
constructor("Flow", {"nominal_value": "nominal_capacity", "min": "minimum",
                     "max": "maximum", **CUSTOM})
for _c in ("Bus", "Sink", "Source", "Converter", "Link",
           "ExtractionTurbineCHP", "OffsetConverter", "GenericCHP",
           "GenericCAES", "PiecewiseLinearConverter"):
    constructor(_c)
constructor("GenericStorage", {"nominal_storage_capacity":
                               "nominal_capacity"})


# ------------------------------------------------------------------ values
def value(name, spec, where=None, cls=None, label=None, **kw):
    def f(repo):
        return un.compare_value(repo, name, un.load_spec(repo, spec),
                                where, cls, **kw)
    UNITS[label or name] = f


for _f in ("input", "output"):
    value("slope_offset_from_nonconvex_" + _f, "constructors",
          "oemof.solph.components._offset_converter")

BUS = tm.sym("BUS")
OUTFLOW = tm.sym("OUTFLOW")


def one_output(it):
    """an offset converter with one flow each"""
    for n, f in (("inputs", tm.sym("INFLOW")), ("outputs", OUTFLOW)):
        it.heap[un.SELF, n] = DictObj([Seg((), tm.TRUE, f, k=BUS)])
    it.heap[tm.sym("INFLOW"), "input"] = BUS


for _i, _n in enumerate(("offsets", "factors")):
    value("normed_offset_and_conversion_factors_from_coefficients",
          "constructors", cls="OffsetConverter", sname="from_coefficients",
          label=f"OffsetConverter: {_n} from coefficients",
          setup=one_output, at=(tm.const(_i),), keys=(BUS,),
          values={"coefficients": tm.tup([tm.sym("C0"), tm.sym("C1")])})
value("normed_offset_and_conversion_factors_from_coefficients",
      "constructors", cls="OffsetConverter", sname="from_coefficients",
      label="OffsetConverter: number of coefficients", setup=one_output,
      at=(tm.ZERO, BUS), values={"coefficients": tm.tup(
          [tm.sym(f"C{_i}") for _i in range(3)])})

LENGTH = tm.mk("card", "TIMESTEPS")


def series(it):
    """parameters of a CHP are series of the same length"""
    def length(t):
        return LENGTH if t.op == "idx" and t.args[0].op == "attr" and \
            t.args[0].args[1] == "custom_properties" else None
    it.series = length


def within(it, atoms=()):
    """the series cover the time step"""
    return tm.b_and(tm.a_lt0(tm.neg(LENGTH)), it.contains(
        un.KEY, it.b_range([LENGTH], {}, None)))


for _n in (1, 2):
    for _k in (0, 1):
        value("alphas", "components", cls="GenericCHP", fresh=_n,
              label=f"GenericCHP: alpha {_k}" + ", read again" * (_n > 1),
              setup=series, at=(tm.const(_k), un.KEY), given_that=within)

for _f in ("sequence", "valid_sequence"):
    value(_f, "plumbing", "oemof.solph._plumbing", warns=True)


def use(what, spec, where, opened, label):
    def f(repo):
        return un.compare_use(repo, un.load_spec(repo, spec), "use_" + what,
                              "want_" + what, where, opened)
    UNITS[label] = f


for _w, _m in (("item", "__getitem__"), ("extremes", "max min value"),
               ("sum", "sum"), ("to_numpy", "to_numpy"),
               ("length", "size __len__"), ("iterate", "__iter__"),
               ("times", "__mul__ __rmul__"), ("divided", "__truediv__")):
    use(_w, "plumbing", ["_FakeSequence:" + x for x in _m.split()],
        ("_FakeSequence", "sequence"), "_FakeSequence: " + _w)


# ----------------------------------------------------------------- results
def made(it, atoms):
    """there are investments: look-ups of them succeed"""
    s = un.SELF
    k = tm.const("invest")
    return tm.b_and(*[tm.b_not(tm.lit(a)) for a in atoms
                      if a.op == "exc" and "KeyError" in str(a.args[0])],
                    *[it.contains(k, x) for x in (
                        s, tm.attr(s, "_variables"),
                        it.call_value(it.class_attr(
                            it.classmap[s], "keys", ObjRef(
                                s, it.classmap[s])), [], {}, None))])


STORAGE = tm.sym("OBJECT:storage")
MODEL = tm.attr(un.SELF, "_model")


def flow_columns(it):
    """columns named by a pair belong to flows, those of investments to
    flows with investment"""
    flow = tm.idx(tm.attr(MODEL, "flows"), PAIR.args)
    return tm.b_and(it.contains(PAIR, tm.attr(MODEL, "FLOWS")),
                    tm.lit(tm.mk("hasattr", flow, tm.const(
                        "investment"))))


def storage_columns(it):
    return tm.b_and(
        it.contains(STORAGE, tm.attr(MODEL, "nodes")),
        tm.lit(tm.mk("isinstance", STORAGE, tm.mk("cls", "GenericStorage"))))


PAIR = tm.tup([tm.sym("KEY0"), tm.sym("KEY1")])
value("get", "results", cls="Results", sname="variable_costs",
      label="Results: variable costs",
      warns=True, fixed={"key": tm.const("variable_costs")}, keys=((PAIR, flow_columns),))
value("get", "results", cls="Results", sname="investment_costs",
      label="Results: investment costs", assume=made,
      warns=True, fixed={"key": tm.const("investment_costs")}, keys=(
          (PAIR, flow_columns), (STORAGE, storage_columns)))


def quantity(it, atoms):
    """the key names a quantity of the model"""
    k = tm.sym("ARG:key")
    return tm.b_and(*[tm.b_not(tm.a_eq(k, tm.const(n)))
                      for n in ("variable_costs", "investment_costs")])


constructor("Results", spec="results")
value("get", "results", cls="Results", sname="by_name",
      label="Results.get", assume=quantity, warns=True)
for _m, _s in (("keys", "names"), ("__contains__", "has_name"),
               ("__getitem__", "item"), ("to_df", "to_df")):
    value(_m, "results", cls="Results", sname=_s, label="Results." + _m,
          member=_m == "keys")


# ------------------------------------------------------------------- views
value("filter_nodes", "views", where="oemof.solph.views", member=True)
for _f in ("node_input_by_type", "node_output_by_type",
           "node_weight_by_type"):
    value(_f, "views", where="oemof.solph.views")


def nodes_of(vars):
    """all nodes of the results"""
    return tm.sym("NODES") if vars["results"] is tm.sym("ARG:results") and \
        vars["option"] is tm.const("all") and vars["exclude_busses"] is \
        tm.PYFALSE else None


def hold_nodes(it):
    it.held["filter_nodes"] = nodes_of


for _n, _r in (("one", ["NAME0"]), ("some", ["NAME0", "NAME1"])):
    value("get_node_by_name", "views", where="oemof.solph.views",
          sname=_n + "_by_name", label="get_node_by_name: " + _n,
          args=["results"], rest=[tm.sym(x) for x in _r], setup=hold_nodes)


def fetched(it):
    """values of the solver can be read"""
    it.no_exc = True


value("create_time_index", "times", where="oemof.solph._helpers",
      setup=fetched)


def bounded(it):
    """the solver has found bounds"""
    found = tm.idx(tm.attr(tm.attr(tm.sym("ARG:om"), "es"), "results"),
                   (tm.const("problem"),))
    found = tm.idx(found, (tm.const(0),))
    return tm.b_and(*[
        tm.b_and(it.contains(tm.const(k), found), tm.b_not(tm.a_eq(
            tm.call(tm.sym("str"), [tm.idx(found, (tm.const(k),))]),
            tm.const("<undefined>"))))
        for k in ("Upper bound", "Lower bound")])


def report(label, **kw):
    value("meta_results", "views", where="oemof.solph.processing",
          setup=fetched, label="meta_results: " + label, **kw)


report("parts", at=[tm.const("objective")])
report("solver", at=[tm.const("solver")])
report("problem", at=[tm.const("problem")], assume=lambda it, a: tm.b_not(
    tm.a_eq(un.KEY, tm.const("MIPGap"))))
report("gap", at=[tm.const("problem"), tm.const("MIPGap")], given_that=bounded)


def none_inside(it):
    """the second of the pair of a node is None"""
    tm.NONE_ELEMENTS[0] = True


for _k in (False, True):
    value("convert_keys_to_strings", "views", where="oemof.solph.processing",
          member="items", setup=none_inside,
          label="convert_keys_to_strings" + ", keeping None" * _k,
          values={"keep_none_type": tm.PYTRUE if _k else tm.PYFALSE})


def table(name, columns, label=None, **kw):
    def f(repo):
        return un.compare_rows(repo, name, "oemof.solph.processing",
                               un.load_spec(repo, "tables"), columns, **kw)
    UNITS[label or name] = f


table("create_dataframe", ["oemof_tuple", "timestep", "variable_name",
                           "value"])


# ------------------------------------------------------------------- model
def model(label, sname, options=(), **given):
    def f(repo):
        return un.compare_model(repo, un.load_spec(repo, "model"), sname,
                                options, **given)
    UNITS[label] = f


model("new Model", "Model")
model("new Model with options", "ModelOptions",
      ("objective_weighting", "constraint_groups",
       "discount_rate", "debug", "auto_construct"))
model("new Model with timeincrement", "ModelTimeincrement",
      ("timeincrement",), auto_construct=False)
model("new Model with all options", "ModelAllOptions",
      ("timeincrement", "objective_weighting", "discount_rate", "debug",
       "name"), auto_construct=False)
for _f in ("get_cluster_index", "get_timestep_from_tsam_timestep"):
    value(_f, "model", cls="Model", owner=un.M)
value("solve", "model", cls="Model", owner=un.M, acts=("solve", "setitem"),
      warns=True)
value("receive_duals", "model", cls="Model", owner=un.M)
value("relax_problem", "model", cls="Model", owner=un.M, acts=("_apply_to",))


def _groupings(repo):
    return un.compare_groupings(repo, un.load_spec(repo, "groupings"))


UNITS["groupings"] = _groupings


# ----------------------------------------------------------- energy system
DT = "DatetimeIndex"
SCENARIOS = [
    ("time index", {"timeindex": DT}),
    ("time index of numbers", {"timeindex": "list"}),
    ("time increment", {"timeincrement": "list"}),
    ("time index and increment", {"timeindex": DT,
                                  "timeincrement": "list"}),
    ("inferred last interval", {"timeindex": DT,
                                "infer_last_interval": tm.PYTRUE}),
    ("neither", {}),
    ("groupings", {"timeindex": DT, "groupings": "list"}),
    ("periods", {"timeindex": DT, "periods": "list"}),
    ("periods and increment", {"timeindex": DT, "timeincrement": "list",
                               "periods": "list",
                               "use_remaining_value": "bool"}),
    ("aggregation", {"timeindex": DT, "tsa_parameters": "dict"}),
    ("aggregation and increment", {"timeindex": DT, "timeincrement": "list",
                                   "periods": "list",
                                   "tsa_parameters": "list"}),
    ("aggregation and periods", {"timeindex": DT, "periods": "list",
                                 "tsa_parameters": "list"}),
    ("increment only and aggregation", {"timeincrement": "list",
                                        "tsa_parameters": "dict"}),
    ("increment and inferring", {"timeincrement": "list",
                                 "infer_last_interval": tm.PYTRUE}),
    ("inferred and periods", {"timeindex": DT, "periods": "list",
                              "infer_last_interval": tm.PYTRUE,
                              "use_remaining_value": "bool"}),
    ("inferred and aggregation", {"timeindex": DT,
                                  "tsa_parameters": "dict",
                                  "infer_last_interval": tm.PYTRUE}),
    ("aggregation of some index", {"timeindex": "list",
                                   "tsa_parameters": "dict"}),
    ("remaining value without periods", {"timeindex": DT,
                                         "use_remaining_value": "bool"}),
    ("everything", {"timeindex": DT, "timeincrement": "list",
                    "periods": "list", "tsa_parameters": "list",
                    "infer_last_interval": tm.PYTRUE,
                    "groupings": "list", "use_remaining_value": "bool"}),
]


def _system(repo):
    return un.compare_system(repo, un.load_spec(repo, "system"), SCENARIOS)


UNITS["new EnergySystem"] = _system
value("get_period_duration", "system", cls="EnergySystem")


# ---------------------------------------------- values of original clusters
def content_tables(t):
    """results of storages: between and within clusters"""
    return t if t.op == "idx" and (
        t.args[0] is tm.sym("ARG:soc") and t.args[1][0] is tm.const("inter")
        or t.args[0] is tm.idx(tm.sym("ARG:soc"), (tm.const("intra"),))) \
        else None


def status_tables(t):
    return t if t.op == "idx" and t.args[0] is tm.sym("ARG:values") else None


def flow_tables(t):
    """results of a flow, as sorted by the model's timesteps"""
    if t is tm.sym("FRAME"):
        return t
    return tm.sym("FRAME") if t.op in ("idx", "call") and not (
        t.op == "idx" and (slice_of(t.args[1][0]) or t.args[0].op == "attr"
                           or t.args[1][0] is tm.const("value"))) \
        and not (t.op == "call" and t.args[0].op == "sym") and un.has(
            t, tm.sym("ARG:df_dict")) else None


def stretched(vars):
    """repeating values does not change them"""
    return next(iter(vars.values()))


def none_of_them(vars):
    """no storages and no multiplexers among the results"""
    return tm.tup([tm.mk("dict", ()), tm.tup([])])


HOLD = {"_disaggregate_segmentation": stretched,
        "_get_storage_soc_flows_and_keys": none_of_them,
        "_get_multiplexer_flows_and_keys": none_of_them}


def frames(name, sname, tables):
    def f(repo):
        return un.compare_frames(
            repo, name, "oemof.solph.processing",
            un.load_spec(repo, "disaggregation"), sname, tables,
            tm.sym("ARG:tsa_parameters"), HOLD)
    UNITS["clusters: " + sname] = f


frames("_calculate_soc_from_inter_and_intra_soc", "contents", content_tables)
frames("_calculate_multiplexer_actives", "multiplexers", status_tables)
frames("_disaggregate_tsa_result", "flows", flow_tables)
value("_disaggregate_segmentation", "disaggregation", sname="stretched",
      where="oemof.solph.processing", label="clusters: segments",
      setup=fetched)
value("_disaggregate_tsa_timeindex", "disaggregation", sname="original_times",
      where="oemof.solph.processing", label="clusters: times", setup=fetched)

for _k in ("storage", "multiplexer"):
    for _i, _w in enumerate(("tables", "keys")):
        value({"storage": "_get_storage_soc_flows_and_keys",
               "multiplexer": "_get_multiplexer_flows_and_keys"}[_k],
              "disaggregation", sname=_k + "_tables",
              where="oemof.solph.processing", member=_i == 1,
              at=[tm.const(_i)], label=f"clusters: {_k} {_w}")


def joined(label, name, want, **kw):
    UNITS["clusters: " + label] = lambda repo: un.compare_joined(
        repo, name, "oemof.solph.processing", HOLD, want, **kw)


joined("joined flows", "_disaggregate_tsa_result", ["ffill"],
       columns=[("timestep", "position")],
       kept=["invest", "total", "old", "old_end", "old_exo",
             "invest_status"])
joined("joined contents", "_calculate_soc_from_inter_and_intra_soc",
       ["interpolate", "all but the last row"],
       columns=[("timestep", "position"), ("variable_name", "soc")])
joined("joined multiplexers", "_calculate_multiplexer_actives", [],
       columns=[("timestep", "position")])


def handed(label, name, callee, want, hold=HOLD, **kw):
    UNITS[label] = lambda repo: un.compare_handed(
        repo, name, "oemof.solph.processing", callee, want, hold, **kw)


RES = tm.sym("ARG:model")
TSA = tm.attr(tm.attr(RES, "es"), "tsa_parameters")
handed("clusters: parameters", "results", "_disaggregate_tsa_result",
       {"tsa_parameters": TSA,
        "timeincrement": tm.attr(RES, "timeincrement")},
       {k: (lambda vars, k=k: tm.call(tm.sym(k), [])) for k in (
           "create_dataframe", "_extract_standard_model_result",
           "_extract_multi_period_model_result",
           "_disaggregate_tsa_timeindex")},
       given_that=lambda it: tm.a_truthy(TSA))
handed("clusters: storage parameters", "_disaggregate_tsa_result",
       "_calculate_soc_from_inter_and_intra_soc",
       {"tsa_parameters": tm.sym("ARG:tsa_parameters"),
        "timeincrement": tm.sym("ARG:timeincrement")},
       {"_disaggregate_segmentation": stretched,
        "_get_storage_soc_flows_and_keys": lambda vars: tm.tup(
            [tm.sym("STORAGES"), tm.tup([])]),
        "_get_multiplexer_flows_and_keys": none_of_them})


# ------------------------------------------------------------ side effects
def _changes(repo):
    units = {u: f for u, f in UNITS.items() if u != "changes in place"}
    r = un.Result("changes in place")
    return purity.compare_changes(repo, units, r)


UNITS["changes in place"] = _changes


def _kept_apart(f):
    """no bus is both input and output of the same offset converter"""
    def run(repo):
        ip.DISJOINT.update(ip.APART)
        try:
            return f(repo)
        finally:
            ip.DISJOINT.clear()
    return run


for _n in list(UNITS):
    if "OffsetConverter" in _n:
        UNITS[_n] = _kept_apart(UNITS[_n])
