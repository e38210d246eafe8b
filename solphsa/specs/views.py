"""What the views on results select."""
from oemof.solph.views import NodeOption
from oemof.solph.views import convert_to_multiindex


# the nodes of the results, by the ends of the flows they appear at
def filter_nodes(results, option, exclude_busses):
    starts = {k[0] for k in results if k[0] is not None}
    ends = {k[1] for k in results if k[1] is not None}
    reject(option != "all" and option != "has_outputs"
           and option != "has_inputs" and option != "has_only_outputs"
           and option != "has_only_inputs", "ValueError")
    if option == "has_outputs":
        nodes = starts
    elif option == "has_inputs":
        nodes = ends
    elif option == "has_only_outputs":
        nodes = {n for n in starts if n not in ends}
    elif option == "has_only_inputs":
        nodes = {n for n in ends if n not in starts}
    else:
        nodes = starts | ends
    if exclude_busses:
        return {n for n in nodes if n.__class__.__name__ != "Bus"}
    return nodes


# the flows into, out of, and the values of the nodes of a kind
def node_input_by_type(results, node_type, droplevel):
    chosen = {k: v["sequences"] for k, v in results.items()
              if isinstance(k[1], node_type)}
    if not chosen:
        return None
    return convert_to_multiindex(
        chosen, droplevel=[] if droplevel is None else droplevel)


def node_output_by_type(results, node_type, droplevel):
    chosen = {k: v["sequences"] for k, v in results.items()
              if isinstance(k[0], node_type) and k[1] is not None}
    if not chosen:
        return None
    return convert_to_multiindex(
        chosen, droplevel=[] if droplevel is None else droplevel)


def node_weight_by_type(results, node_type):
    chosen = {k: v["sequences"] for k, v in results.items()
              if isinstance(k[0], node_type) and k[1] is None}
    if not chosen:
        return None
    return convert_to_multiindex(
        chosen, index_names=["node", "to", "weight_type"], droplevel=[1])


def one_by_name(results, name):
    for n in filter_nodes(results, "all", False):
        if str(n) == name:
            return n
    return None


def some_by_name(results, first, second):
    return [one_by_name(results, first), one_by_name(results, second)]


# results under labels
def convert_keys_to_strings(result, keep_none_type):
    named = {}
    for k, v in result.items():
        if isinstance(k, tuple):
            named[tuple([None if keep_none_type and e is None else str(e)
                         for e in k])] = v
        else:
            named[None if keep_none_type and k is None else str(k)] = v
    return named


# what the solver reports, and the relative gap between its bounds
def meta_results(om, undefined):
    parts = {}
    for part in ("problem", "solver"):
        found = om.es.results[part][0]
        parts[part] = {k: str(found[k]) if str(found[k]) == "<undefined>"
                       else found[k] for k in found
                       if undefined or str(found[k]) != "<undefined>"}
    upper = parts["problem"]["Upper bound"]
    lower = parts["problem"]["Lower bound"]
    if abs(upper - lower) == 0:
        gap = 0
    elif abs(upper + lower) == 0:
        gap = float("inf")
    else:
        gap = abs(upper - lower) / (abs(upper + lower) / 2)
    parts["problem"]["MIPGap"] = gap
    return {"objective": om.objective(), "problem": parts["problem"],
            "solver": parts["solver"]}
