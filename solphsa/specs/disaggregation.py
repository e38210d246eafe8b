"""Values of aggregated models on the original time axis: for every original
cluster, in order, those of the typical period that stands for it."""
import math

import pandas as pd

from oemof.solph.components._generic_storage import GenericStorage


def part(table, start, stop):
    return table.iloc[start:stop]


def flows(tsa_parameters):
    out = []
    first = 0    # of the timesteps of the period in the model
    for period in tsa_parameters:
        for k in period["order"]:
            out.append(part(symbol("FRAME"),
                            first + k * period["timesteps"],
                            first + (k + 1) * period["timesteps"]))
        first += period["timesteps"] * len(period["occurrences"])
    return out


def contents(soc, storage, tsa_parameters, timeincrement):
    out = []
    clusters = 0    # original clusters of earlier periods
    first = 0
    for p, period in enumerate(tsa_parameters):
        for i, k in enumerate(period["order"]):
            start = first + k * period["timesteps"]
            last = p == len(tsa_parameters) - 1 and \
                i == len(period["order"]) - 1
            content = []
            for j in range(period["timesteps"] + (1 if last else 0)):
                kept = math.prod(
                    (1 - storage.loss_rate[start + s]) ** (
                        period["segments"][k, s] if "segments" in period
                        else 1 if timeincrement is None
                        else timeincrement[start + s])
                    for s in range(j))
                content.append(
                    soc["inter"].iloc[clusters + i]["value"] * kept
                    + soc["intra"][p, k].iloc[j]["value"])
            out.append(content)
        clusters += len(period["order"])
        first += len(period["occurrences"]) * period["timesteps"]
    return out


def multiplexers(values, tsa_parameters):
    return [part(values[p, k], 0, period["timesteps"])
            for p, period in enumerate(tsa_parameters)
            for i, k in enumerate(period["order"])]


def stretched(df, segments, current_period):
    """the value of a segment at its first timestep, none at the others"""
    lengths = [n for (k, s), n in segments.items() if k == current_period]
    df.index = range(len(lengths))
    steps = []
    for i, n in enumerate(lengths):
        steps.append(i)
        steps.extend([None] * (n - 1))
    return df.reindex(steps)


def original_times(period_index, tsa_parameters):
    return pd.date_range(
        start=period_index[0], freq=period_index.freq,
        periods=tsa_parameters["timesteps_per_period"]
        * len(tsa_parameters["order"]))


def of_a_node(key):
    return key[1] is None or isinstance(key[1], int)


# the tables with the content of storages: by period and typical period, and
# at the beginning of the original clusters
def storage_tables(flow_dict):
    keys = [k for k in flow_dict
            if isinstance(k[0], GenericStorage) and of_a_node(k)]
    found = {s: {"inter": 0,
                 "intra": {(k[1], k[2]): flow_dict[k] for k in keys
                           if k[0] == s and len(k) == 3}}
             for s in {k[0] for k in keys}}
    for k in keys:
        if len(k) == 2:
            found[k[0]]["inter"] = flow_dict[k][
                flow_dict[k]["variable_name"] == "inter_storage_content"]
    return found, keys


def multiplexer_tables(flow_dict):
    keys = [k for k in flow_dict if of_a_node(k) and "multiplexer_active"
            in flow_dict[k]["variable_name"].values[0]]
    return {m: {(k[1], k[2]): flow_dict[k] for k in keys if k[0] == m}
            for m in {k[0] for k in keys}}, keys
