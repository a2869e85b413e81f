"""Reference models shared by several checks, written from the definitions (and not from the code)."""
import datetime as _dt

import pytz

from harness import gen


def mode_gap(ts):
    """The most common spacing, None if there is not exactly one."""
    gaps = [b - a for a, b in zip(ts, ts[1:])]
    if not gaps:
        return None
    counts = {g: gaps.count(g) for g in gaps}
    best = max(counts.values())
    modes = [g for g in counts if counts[g] == best]
    return modes[0] if len(modes) == 1 else None


def validity(ts, s):
    """Each sample is valid for half the sampling interval at each side, up to half way to its neighbours."""
    out = []
    for i, t in enumerate(ts):
        lo, hi = t - s / 2, t + s / 2
        if i > 0:
            lo = max(lo, (ts[i - 1] + t) / 2)
        if i + 1 < len(ts):
            hi = min(hi, (t + ts[i + 1]) / 2)
        out.append((lo, hi))
    return out


def pieces(ts, s, a, b):
    """The pieces of [a, b) as (length, i, None) where the sample i is valid, or (length, i, mid) in a gap between the
    samples i and i+1, with mid the middle of the piece."""
    regions = validity(ts, s)
    out = []
    for i, (lo, hi) in enumerate(regions):
        lo2, hi2 = max(lo, a), min(hi, b)
        if hi2 > lo2:
            out.append((hi2 - lo2, i, None))
        if i + 1 < len(ts):
            lo2, hi2 = max(hi, a), min(regions[i + 1][0], b)
            if hi2 > lo2:
                out.append((hi2 - lo2, i, (lo2 + hi2) / 2))
    return out


def window(ts, column, s, a, b, how='linear'):
    """Average, over [a, b), of the samples where valid and of their interpolation elsewhere."""
    total = length = 0
    for size, i, mid in pieces(ts, s, a, b):
        if mid is None:
            value = column[i]
        elif how == 'linear':
            value = column[i] + (column[i + 1] - column[i]) * (mid - ts[i]) / (ts[i + 1] - ts[i])
        else:
            value = (column[i] + column[i + 1]) / 2
        total += value * size
        length += size
    return total / length


def coverage(ts, s, a, b):
    return sum(size for size, i, mid in pieces(ts, s, a, b) if mid is None) / (b - a)


def previous_losses(ts, losses, s, a, b):
    """The contribution of the data losses the samples already had."""
    total = 0
    for size, i, mid in pieces(ts, s, a, b):
        if mid is None and losses[i]:
            total += losses[i] * size
    return total / (b - a)


def window_index(ts, values, s, a, b):
    """The weighted average of an index over the samples that have it, None if there are none."""
    total = weight = 0
    for size, i, mid in pieces(ts, s, a, b):
        if mid is None and values[i] is not None:
            total += values[i] * size
            weight += size
    return total / weight if weight > 0 else None


def calendar_floor(t, unit, tz):
    """The start of the (one) calendar unit an epoch is in."""
    naive = gen.local_dt(t, tz).replace(tzinfo=None)
    start = naive.replace(hour=0, minute=0, second=0, microsecond=0)
    if unit == '1W':
        start -= _dt.timedelta(days=start.weekday())
    if unit in ('1M', '1Y'):
        start = start.replace(day=1)
    if unit == '1Y':
        start = start.replace(month=1)
    return localize(start, tz)


def calendar_next(t, unit, tz):
    """The end of the (one) calendar unit starting at an epoch."""
    naive = gen.local_dt(t, tz).replace(tzinfo=None)
    if unit == '1D':
        end = naive + _dt.timedelta(days=1)
    elif unit == '1W':
        end = naive + _dt.timedelta(days=7)
    elif unit == '1M':
        end = (naive.replace(day=28) + _dt.timedelta(days=5)).replace(day=1)
    else:
        end = naive.replace(year=naive.year + 1)
    return localize(end, tz)


def localize(naive, tz):
    return pytz.timezone(tz).localize(naive).timestamp()


def unit_floor(t, unit, tz):
    if unit in gen.PHYSICAL:
        return t - t % gen.PHYSICAL[unit]
    return calendar_floor(t, unit, tz)


def unit_next(t, unit, tz):
    """The end of the unit starting at t."""
    if unit in gen.PHYSICAL:
        return t + gen.PHYSICAL[unit]
    return calendar_next(t, unit, tz)


def ambiguous(t, tz):
    """Whether the wall clock time of t happens twice, or the midnight of its day does not happen exactly once."""
    zone = pytz.timezone(tz)
    naive = gen.local_dt(t, tz).replace(tzinfo=None)
    midnight = naive.replace(hour=0, minute=0, second=0, microsecond=0)
    return any(zone.localize(n, is_dst=True).utcoffset() != zone.localize(n, is_dst=False).utcoffset() for n in (naive, midnight))
