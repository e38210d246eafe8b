"""What an energy system derives from the given horizon."""
from collections import Counter

import numpy as np
import pandas as pd

from oemof.solph import GROUPINGS

HOUR = np.timedelta64(1, "h")


def EnergySystem(self, timeindex, timeincrement, infer_last_interval,
                 periods, tsa_parameters, use_remaining_value, groupings):
    if groupings is None:
        groupings = []
    setattr(self, "super.groupings", GROUPINGS + groupings)
    if infer_last_interval is True and timeindex is not None:
        # one more time point, a step later than the last one
        freq = timeindex.freq
        if freq is None:
            freq = pd.infer_freq(timeindex)
        timeindex = timeindex.union(
            pd.date_range(timeindex[-1] + freq, periods=1, freq=freq))
    reject(timeincrement is not None and timeindex is not None
           and periods is None)
    # a time index that has to be made up, and what is not settled yet
    announce(timeincrement is not None and timeindex is None, "FutureWarning")
    announce(tsa_parameters is not None or periods is not None,
             "ExperimentalFeatureWarning")
    segmented = False
    if tsa_parameters is not None:
        tsa = tsa_parameters
        if isinstance(tsa, dict):
            tsa = [tsa]
        segmented = all("segments" in p for p in tsa)
        some = any("segments" in p for p in tsa)
        reject(timeincrement is not None and some)
        reject(some and not segmented)
        for p in range(len(tsa)):
            tsa[p]["occurrences"] = Counter(tsa[p]["order"])
            if "segments" in tsa[p]:
                tsa[p]["timesteps"] = int(
                    len(tsa[p]["segments"]) / len(Counter(tsa[p]["order"])))
            else:
                tsa[p]["timesteps"] = tsa[p]["timesteps_per_period"]
        self.tsa_parameters = tsa
    else:
        self.tsa_parameters = None
    # the length of the intervals
    given = timeincrement is not None
    if given and timeindex is None:
        timeindex = [sum(timeincrement[k] for k in range(i))
                     for i in range(len(timeincrement) + 1)]
    self.timeindex = timeindex
    if segmented:
        self.timeincrement = [d for p in tsa for d in p["segments"].values()]
    elif given:
        self.timeincrement = timeincrement
    elif timeindex is None:
        self.timeincrement = None
    else:
        steps = [timeindex[i + 1] - timeindex[i]
                 for i in range(len(timeindex) - 1)]
        if isinstance(timeindex, pd.DatetimeIndex) or \
                tsa_parameters is not None:
            steps = [step / HOUR for step in steps]
        self.timeincrement = steps
        if tsa_parameters is None:
            reject(any(step <= 0 for step in steps))
    if given:
        reject(any(step <= 0 for step in timeincrement))
    # periods and the years between them
    self.periods = periods
    if periods is None:
        self.end_year_of_optimization = 1
    else:
        self.use_remaining_value = use_remaining_value
        years = [p.min().year - periods[0].min().year for p in periods]
        self.periods_years = years
        self.periods_matrix = [[max(0, years[j] - years[i])
                                for j in range(len(periods))]
                               for i in range(len(periods))]
        last = periods[len(periods) - 1]
        self.end_year_of_optimization = (
            years[len(periods) - 1] + last.max().year - last.min().year + 1)


def get_period_duration(self, period):
    p = self.periods[period]
    return p.max().year - p.min().year + 1
