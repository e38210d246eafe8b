"""Time indices of a year or of a number of intervals."""
import calendar

import pandas as pd


def create_time_index(year, interval, number, start):
    if number is None:
        number = round((8784 if calendar.isleap(year) else 8760) / interval)
    reject(start is not None and year is not None, "ValueError")
    return pd.date_range(f"1/1/{year}" if start is None else start,
                         periods=number + 1, freq=f"{interval}h")
