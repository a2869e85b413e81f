"""Shared generators: plain-data descriptions of points, slots and series, and how to build the real objects.

A series spec is a JSON-able dict:
  kind     'points' | 'slots'
  form     'dict' | 'list'                 how the data is carried
  labels   [str, ...]                      the data labels (dict) or just how many (list)
  tz       'UTC' | IANA name
  ts       [t, ...]                        epoch seconds of the points, or of the slot starts
  unit     '1h'                            only for slots
  numbers  'numpy' | absent                the kind of numbers the data are (by default, Python ones)
  tz_as    'pytz' | ... | absent           the kind of object the time zone is given as
  data     [[v, ...], ...]                 one row per item, in the order of labels
  indexes  [{name: value}, ...] | absent   data indexes
"""
import datetime as _dt
import zoneinfo

import numpy
import pytz
from hypothesis import strategies as st

TZS = ['UTC', 'Europe/Rome', 'America/New_York', 'Asia/Kolkata', 'Australia/Sydney', 'Europe/London', 'Australia/Lord_Howe', 'Asia/Kathmandu']
LABELS = ['a', 'b', 'temp', 'value', 'humidity', 'C1', 'T', 'x y', 'B', '10', '9', 'è']

# Seconds of some fixed-length units
PHYSICAL = {'1s': 1, '10s': 10, '30s': 30, '1m': 60, '5m': 300, '10m': 600, '15m': 900, '30m': 1800, '1h': 3600,
            '2h': 7200, '6h': 21600, '12h': 43200, '24h': 86400}
CALENDAR = ['1D', '1W', '1M', '1Y', '2D', '3D', '2W', '3M', '6M', '2Y']


def values(lo=-1000, hi=1000):
    """Ordinary data values: integers, quarters, and arbitrary floats, of a moderate magnitude."""
    return st.one_of(st.integers(lo, hi),
                     st.integers(lo * 4, hi * 4).map(lambda i: i / 4),
                     st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=32))


def int_values(lo=-50, hi=50):
    return st.integers(lo, hi)


def labels_lists(min_size=1, max_size=3, pool=LABELS):
    return st.lists(st.sampled_from(pool), min_size=min_size, max_size=max_size, unique=True)


T0S = st.one_of(st.integers(0, 100), st.sampled_from([0, 1, 3600, 86400, -86400, 1325376000, 1364688000 - 3600, 1446073200]),
                # (from the seventies to the eighties some zones changed their clocks at midnight)
                st.integers(-10 ** 6, 10 ** 6), st.integers(6 * 10 ** 8, 2 * 10 ** 9), st.integers(6 * 10 ** 8, 2 * 10 ** 9),
                # (the end of the 32 bits, of the century, and when there were no rules for the clocks yet)
                st.sampled_from([2 ** 31 - 1800, 4102444800 - 3600, -10 ** 9, -2208988800]))


@st.composite
def timestamps(draw, min_n=0, max_n=12, variable=None, subsecond=True, steps=None, t0s=T0S):
    """Strictly increasing epochs; regular, regular with holes, or irregular."""
    n = draw(st.integers(min_n, max_n))
    t0 = draw(t0s)
    shape = draw(st.sampled_from(['regular', 'holes', 'irregular'])) if variable is None else \
        ('regular' if variable is False else draw(st.sampled_from(['holes', 'irregular'])))
    step = draw(st.sampled_from(steps if steps else [1, 2, 10, 60, 300, 600, 900, 3600, 86400] + ([0.5, 0.25] if subsecond else [])))
    if shape == 'regular':
        gaps = [step] * max(0, n - 1)
    elif shape == 'holes':
        gaps = [step * k for k in draw(st.lists(st.sampled_from([1, 1, 1, 1, 2, 3, 7]), min_size=max(0, n - 1), max_size=max(0, n - 1)))]
    else:
        if isinstance(step, float):
            one = st.sampled_from([0.25, 0.5, 1.0, 1.25, 3.0])
        else:
            one = st.one_of(st.integers(1, 20), st.integers(1, 3 * step), st.just(step))
        gaps = draw(st.lists(one, min_size=max(0, n - 1), max_size=max(0, n - 1)))
    ts = []
    t = t0
    for i in range(n):
        ts.append(t)
        if i < len(gaps):
            t = t + gaps[i]
    return ts


@st.composite
def rows(draw, n, width, value=None):
    value = value if value is not None else values()
    return [draw(st.lists(value, min_size=width, max_size=width)) for _ in range(n)]


INDEX_NAMES = ['data_loss', 'data_reconstructed', 'forecast', 'anomaly', 'custom']


@st.composite
def indexes(draw, n, allow_none=True, names=INDEX_NAMES, uniform=False):
    use = draw(st.lists(st.sampled_from(names), unique=True, max_size=3))
    value = st.sampled_from([0, 0.25, 0.5, 1, 0.125] + ([None] if allow_none else []))
    out = []
    for _ in range(n):
        d = {}
        for name in use:
            if uniform or draw(st.integers(0, 5)) > 0:
                d[name] = draw(value)
        out.append(d)
    return out


@st.composite
def series_specs(draw, min_n=1, max_n=12, kinds=('points', 'slots'), forms=('dict', 'list'), variable=None, tzs=TZS,
                 value=None, with_indexes=None, max_labels=3, units=None, subsecond=True, steps=None, pool=LABELS,
                 none_indexes=True, t0s=T0S, long=0):
    """Plain data descriptions of time series. About one in thirty is stretched up to `long` items or so, if given."""
    kind = draw(st.sampled_from(list(kinds)))
    form = draw(st.sampled_from(list(forms) + ([forms[0]] * 2 if len(forms) > 1 else [])))
    labels = draw(labels_lists(1, max_labels, pool))
    tz = draw(st.sampled_from(tzs))
    spec = {'kind': kind, 'form': form, 'labels': labels, 'tz': tz}
    if kind == 'points':
        spec['ts'] = draw(timestamps(min_n, max_n, variable=variable, subsecond=subsecond, steps=steps, t0s=t0s))
        n = len(spec['ts'])
    else:
        unit = draw(st.sampled_from(units if units else ['1s', '1m', '10m', '15m', '1h', '24h', '5m', '6h', '1D', '1D', '1D', '1D', '1W', '1M', '1Y'] + CALENDAR[4:]))
        spec['unit'] = unit
        n = draw(st.integers(min_n, max_n))
        if unit in CALENDAR:
            year, month, day = draw(st.sampled_from([(2019, 3, 28), (2019, 10, 25), (2020, 2, 26), (2015, 12, 29), (2019, 3, 6), (2019, 10, 30)]))
            spec['ts'] = day_starts(tz, year, month, day, n, unit)
        else:
            t0 = draw(t0s)
            spec['ts'] = [t0 + i * PHYSICAL[unit] for i in range(n)]
    spec['data'] = draw(rows(n, len(labels), value))
    if form == 'list' and max_labels > 2 and draw(st.integers(0, 9)) == 7:
        # Wide lists, as their positions are not in the alphabetical order
        width = draw(st.sampled_from([10, 11, 13]))
        spec['labels'] = ['wide{}'.format(k) for k in range(width)]
        spec['data'] = [[spec['data'][(i + k) % n][k % len(labels)] for k in range(width)] for i in range(n)]
    if with_indexes or (with_indexes is None and draw(st.booleans())):
        spec['indexes'] = draw(indexes(n, allow_none=none_indexes))
    if draw(st.integers(0, 7)) == 5:
        spec['tz_as'] = draw(st.sampled_from(ZONE_FORMS))
    if long and n > 2 and draw(st.integers(0, 29)) == 23:
        stretch(spec, draw(st.sampled_from([long // 8, long // 2, long])))
    return spec


def stretch(spec, n):
    """Make a series longer, going on with its instants, values and indexes over and over (in another order each time)."""
    m = len(spec['ts'])
    if spec['kind'] == 'slots' and spec['unit'] in CALENDAR:
        if spec['unit'] != '1D' or spec['tz'] == 'Asia/Kathmandu':
            return
        first = local_dt(spec['ts'][0], spec['tz'])
        spec['ts'] = day_starts(spec['tz'], first.year, first.month, first.day, n, '1D')
    else:
        gaps = [b - a for a, b in zip(spec['ts'], spec['ts'][1:])]
        for i in range(n - m):
            spec['ts'].append(spec['ts'][-1] + gaps[(i * 5 + i // len(gaps)) % len(gaps)])
    for i in range(len(spec['data']), len(spec['ts'])):
        spec['data'].append(list(spec['data'][(i * 7 + i // m) % m]))
        if spec.get('indexes') is not None:
            spec['indexes'].append(dict(spec['indexes'][(i * 3 + i // m) % m]))


def day_starts(tz, year, month, day, n, unit='1D'):
    """Epochs of n consecutive local midnights (an independent computation, with pytz only), of
    consecutive days, weeks (from the given day on), months or years, or of as many of them."""
    zone = pytz.timezone(tz)
    out = []
    base = _dt.datetime(year, month, day)
    for k in range(n):
        i = k * int(unit[:-1])
        if unit[-1] == 'Y':
            naive = _dt.datetime(year + i, 1, 1)
        elif unit[-1] == 'M':
            naive = _dt.datetime(year + (month - 1 + i) // 12, (month - 1 + i) % 12 + 1, 1)
        else:
            naive = base + _dt.timedelta(days=i * (7 if unit[-1] == 'W' else 1))
        out.append(int(zone.localize(naive).timestamp()))
    return out


def local_dt(t, tz):
    """The aware datetime of an epoch (independent of the code under test)."""
    return _dt.datetime.fromtimestamp(0, pytz.utc).astimezone(pytz.timezone(tz)) if t == 0 else \
        (_dt.datetime(1970, 1, 1, tzinfo=pytz.utc) + _dt.timedelta(seconds=t)).astimezone(pytz.timezone(tz))


ZONE_FORMS = ['pytz', 'localized', 'zoneinfo', 'mixed']


def zone_as(tz, form=None, i=0):
    """The time zone as its name or as an object of some library (the one of a winter or summer datetime included)."""
    if form == 'mixed':
        form = (None, 'zoneinfo', 'localized', 'pytz')[i % 4]
    if form is None:
        return tz
    if form == 'pytz':
        return pytz.timezone(tz)
    if form == 'localized':
        return pytz.timezone(tz).localize(_dt.datetime(2019, 1 + 6 * (i % 2), 1)).tzinfo
    return _dt.timezone.utc if tz == 'UTC' and i % 2 else zoneinfo.ZoneInfo(tz)


def make_data(spec, row):
    if spec.get('numbers') == 'numpy':
        row = [numpy.int64(v) if isinstance(v, int) and abs(v) < 2 ** 31 else numpy.float64(v) for v in row]
    return dict(zip(spec['labels'], row)) if spec['form'] == 'dict' else list(row)


def build_item(spec, i):
    from timeseria.datastructures import DataTimePoint, DataTimeSlot, TimePoint
    from timeseria.units import TimeUnit
    kwargs = {}
    if spec.get('indexes') is not None:
        kwargs['data_indexes'] = dict(spec['indexes'][i])
    data = make_data(spec, spec['data'][i])
    tz = zone_as(spec['tz'], spec.get('tz_as'), i)
    if spec['kind'] == 'points':
        return DataTimePoint(t=spec['ts'][i], tz=tz, data=data, **kwargs)
    return DataTimeSlot(start=TimePoint(t=spec['ts'][i], tz=tz), unit=TimeUnit(spec['unit']), data=data, **kwargs)


def build(spec, cls=None):
    from timeseria.datastructures import TimeSeries
    series = (cls or TimeSeries)()
    for i in range(len(spec['ts'])):
        series.append(build_item(spec, i))
    return series


def label_names(spec):
    """The labels the series reports."""
    return sorted(spec['labels']) if spec['form'] == 'dict' else [str(i) for i in range(len(spec['labels']))]


def by_label(spec, i, label):
    """Model value of an item, by reported label."""
    if spec['form'] == 'dict':
        return spec['data'][i][spec['labels'].index(label)]
    return spec['data'][i][int(label)]


def snapshot_item(item):
    """Everything observable of an item, as plain data (deep)."""
    out = {'type': type(item).__name__, 't': item.t, 'tz': str(item.tz)}
    if hasattr(item, 'end'):
        out['end'] = item.end.t
        out['unit'] = str(item.unit)
    if hasattr(item, 'data'):
        out['data'] = dict(item.data) if isinstance(item.data, dict) else (list(item.data) if isinstance(item.data, list) else item.data)
        out['indexes'] = dict(item.data_indexes)
    return out


def snapshot(series):
    return [snapshot_item(item) for item in series]


@st.composite
def generic_specs(draw, min_n=1, max_n=10, value=None):
    """Series whose items are not in time: points on an axis, or slots between them."""
    n = draw(st.integers(min_n, max_n))
    kind = draw(st.sampled_from(['points', 'slots']))
    form = draw(st.sampled_from(['dict', 'dict', 'list']))
    labels = draw(labels_lists()) if form == 'dict' else [str(i) for i in range(draw(st.integers(1, 3)))]
    value = value if value is not None else st.integers(-400, 400).map(lambda i: i / 4)
    steps = draw(st.lists(st.sampled_from([1, 1, 2, 0.5, 7, 1000]), min_size=n, max_size=n))
    xs = [draw(st.sampled_from([0, 0, -3, 12.5, 10 ** 6]))]
    for s in steps:
        xs.append(xs[-1] + s)
    return {'kind': kind, 'form': form, 'labels': labels, 'xs': xs,
            'values': draw(st.lists(st.lists(value, min_size=len(labels), max_size=len(labels)), min_size=n, max_size=n)),
            'indexes': draw(st.one_of(st.none(), st.lists(st.sampled_from([{}, {'data_loss': 0}, {'data_loss': 0.25}, {'anomaly': 1, 'data_loss': 0.5}]), min_size=n, max_size=n)))}


def build_generic(spec):
    from timeseria.datastructures import Series, DataPoint, DataSlot, Point
    items = []
    for i, row in enumerate(spec['values']):
        data = dict(zip(spec['labels'], row)) if spec['form'] == 'dict' else list(row)
        kwargs = {'data': data}
        if spec['indexes'] is not None:
            kwargs['data_indexes'] = dict(spec['indexes'][i])
        if spec['kind'] == 'points':
            items.append(DataPoint(spec['xs'][i], **kwargs))
        else:
            items.append(DataSlot(start=Point(spec['xs'][i]), end=Point(spec['xs'][i + 1]), **kwargs))
    return Series(*items)


def generic_place(item):
    """Where an item of such a series is."""
    if hasattr(item, 'coordinates'):
        return tuple(item.coordinates)
    return (item.start.coordinates[0], item.end.coordinates[0])
