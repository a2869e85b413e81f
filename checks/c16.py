"""C16 - dictionaries, JSON and data frames."""
import datetime as _dt
import json

import pytz
from hypothesis import strategies as st

from harness import gen
from harness.core import sub, check, check_eq, raises

UNITS = ['1s', '1m', '10m', '1h', '24h', '1D', '1D']


def subclass():
    from timeseria.datastructures import TimeSeries

    class MySeries(TimeSeries):
        pass
    return MySeries


def compare(series, spec, message, tz=None, cls=None, indexes=False, **info):
    want = gen.build(spec)
    if cls:
        check(type(series) is cls, message + ': class of the series', got=type(series))
    check_eq([x.t for x in series], [x.t for x in want], message + ': instants', **info)
    check_eq([type(x).__name__ for x in series], [type(x).__name__ for x in want], message + ': items', **info)
    check_eq([x.data for x in series], [x.data for x in want], message + ': data', **info)
    if spec['kind'] == 'slots':
        check_eq([x.end.t for x in series], [x.end.t for x in want], message + ': ends', **info)
        check_eq([str(x.unit) for x in series], [str(x.unit) for x in want], message + ': unit', **info)
    if tz:
        check_eq([str(x.tz) for x in series], [tz] * len(want), message + ': time zone', **info)
    check_eq(sorted(series.data_labels()), sorted(gen.label_names(spec)), message + ': labels', **info)


@sub('C16', 'round_trips', lambda: st.fixed_dictionaries({
    'spec': gen.series_specs(pool=gen.LABELS + ['Timestamp'], min_n=1, max_n=10, units=UNITS, long=240, value=st.one_of(gen.values(), st.floats(allow_nan=False, allow_infinity=False))), 'fraction': st.sampled_from([0, 0, 0.5, 0.123456, 0.000001, 0.999999]),
    'subclass': st.booleans(), 'numpy': st.sampled_from([False, False, True])}),
     'series of points and slots in any time zone, over DST changes, with dictionary or list data, before and after the epoch, down to the microsecond, converted to a dictionary, to JSON and to a data frame '
     'and back: same instants, data, and (for dictionaries and data frames) time zone; non-trivial = a time zone other than UTC, slots, or fractions of seconds', quick=1200, shards=2)
def round_trips(case, ctx):
    from timeseria.datastructures import TimeSeries, DataTimeSlot
    spec = dict(case['spec'])
    if spec['kind'] == 'points':
        spec['ts'] = [round(t + case['fraction'], 6) for t in spec['ts']]
    if case.get('numpy'):
        spec['numbers'] = 'numpy'
    slots = spec['kind'] == 'slots'
    series = gen.build(spec)
    cls = subclass() if case['subclass'] else TimeSeries
    before = gen.snapshot(series)
    unit = spec.get('unit')
    n = len(spec['ts'])
    ctx.nontrivial(spec['tz'] != 'UTC' or slots or case['fraction'])
    ctx.label('slots', slots)
    ctx.label('list', spec['form'] == 'list')
    labels = gen.label_names(spec)
    # Dictionaries
    d = series.to_dict()
    check_eq(len(d), n, 'one key for each item')
    for i, key in enumerate(d):
        check(isinstance(key, _dt.datetime) and key == gen.local_dt(spec['ts'][i], spec['tz']) and key.utcoffset() == gen.local_dt(spec['ts'][i], spec['tz']).utcoffset(),
              'the keys are the date and times of the items, in order', got=key, t=spec['ts'][i])
        check_eq(d[key], gen.make_data(spec, spec['data'][i]), 'the values are the data of the items')
    compare(cls.from_dict(d, slot_unit=unit), spec, 'from the dictionary', tz=spec['tz'], cls=cls)
    # JSON
    text = series.to_json()
    j = json.loads(text)
    check_eq(list(j.values()), [gen.make_data(spec, row) for row in spec['data']], 'the JSON has the data of the items, in order')
    if unit != '1D' or spec['tz'] == 'UTC':
        compare(cls.from_json(text, slot_unit=unit), spec, 'from JSON', cls=cls)
    # Data frame
    df = series.to_df()
    check_eq(len(df), n, 'one row for each item')
    check_eq([ts.timestamp() for ts in df.index], [float(t) for t in spec['ts']], 'the index of the data frame has the instants of the items')
    losses = [i.data_loss for i in series]
    has_loss = any(l is not None for l in losses)
    check_eq(list(df.columns), labels + (['data_loss'] if has_loss else []), 'the columns of the data frame')
    for l in labels:
        check_eq([float(x) for x in df[l]], [float(gen.by_label(spec, i, l)) for i in range(n)], 'a column of the data frame', label=l)
    if has_loss:
        check_eq([None if l is None else float(l) for l in losses], [None if x is None or x != x else float(x) for x in df['data_loss']], 'the column with the data losses')
    plain = df[labels]
    as_dicts = dict(spec, form='dict', labels=spec['labels'] if spec['form'] == 'dict' else labels)
    if slots:
        if n >= 3 and unit != '24h':
            compare(cls.from_df(plain, item_type=DataTimeSlot), as_dicts, 'slots from the data frame', tz=spec['tz'], cls=cls)
    elif plain.index.inferred_freq is None or plain.index.inferred_freq[-1] in 'HTSLU':
        compare(cls.from_df(plain), as_dicts, 'points from the data frame', tz=spec['tz'], cls=cls)
        json.loads(cls.from_df(plain).to_json())
    check_eq(gen.snapshot(series), before, 'conversions do not change the series')


KEYS = ['int', 'float', 'str int', 'str float', 'iso Z', 'iso offset', 'datetime']


@sub('C16', 'from_dictionaries', lambda: st.fixed_dictionaries({
    'ts': gen.timestamps(1, 8, subsecond=False), 'key': st.sampled_from(KEYS), 'mixed': st.lists(st.sampled_from(KEYS), min_size=8, max_size=8), 'mix': st.booleans(), 'tz': st.sampled_from(gen.TZS),
    'what': st.sampled_from(['scalar', 'dict', 'list']), 'values': st.lists(gen.values(), min_size=16, max_size=16), 'swap': st.integers(0, 6), 'swapped': st.sampled_from([False, False, True]),
    'slots': st.sampled_from([None, None, '1h', '60s', '10m']), 'unit_object': st.booleans(), 'bad': st.sampled_from([None, None, None, 'not a time', [1], None])}),
     'dictionaries (and JSON) whose keys are epochs, strings with epochs or ISO 8601 times, or datetimes, with single values, lists or dictionaries, to points and slots: the items they describe, in order, and '
     'a refusal if the keys are not times or are out of order, or the slots not contiguous; non-trivial = at least two items', quick=1000)
def from_dictionaries(case, ctx):
    from timeseria.datastructures import TimeSeries, DataTimePoint, DataTimeSlot
    from timeseria.units import TimeUnit
    ts = list(case['ts'])
    step = None
    if case['slots']:
        step = {'1h': 3600, '60s': 60, '10m': 600}[case['slots']]
        ts = [ts[0] + i * step for i in range(len(ts))]
    n = len(ts)
    swapped = case['swapped'] and n > 1
    if swapped:
        k = case['swap'] % (n - 1)
        ts[k], ts[k + 1] = ts[k + 1], ts[k]

    def key(t, kind):
        if kind == 'int':
            return t
        if kind == 'float':
            return float(t)
        if kind == 'str int':
            return str(t)
        if kind == 'str float':
            return str(float(t))
        if kind == 'iso Z':
            return gen.local_dt(t, 'UTC').strftime('%Y-%m-%dT%H:%M:%SZ')
        local = gen.local_dt(t, case['tz'])
        if kind == 'iso offset':
            return local.strftime('%Y-%m-%dT%H:%M:%S') + local.strftime('%z')[:3] + ':' + local.strftime('%z')[3:]
        return local

    def data(i):
        a, b = case['values'][2 * i], case['values'][2 * i + 1]
        return {'scalar': a, 'dict': {'x': a, 'y': b}, 'list': [a, b]}[case['what']]
    kinds = [case['mixed'][i] if case['mix'] else case['key'] for i in range(n)]
    if case['slots']:
        # (their time zones have to be the same)
        kinds = ['int' if k == 'datetime' else k for k in kinds] if case['key'] != 'datetime' else ['datetime'] * n
    d = {key(t, kinds[i]): data(i) for i, t in enumerate(ts)}
    if len(d) != n:
        return
    unit = TimeUnit(case['slots']) if case['slots'] and case['unit_object'] else case['slots']
    ctx.nontrivial(n >= 2)
    jsonable = 'datetime' not in kinds
    builds = [lambda: TimeSeries.from_dict(d, slot_unit=unit)] + ([lambda: TimeSeries.from_json(json.dumps(d), slot_unit=unit)] if jsonable else [])
    for make in builds:
        if swapped:
            check(raises(make, ValueError) is not None, 'keys out of order are refused', keys=list(d))
            continue
        series = make()
        check_eq([x.t for x in series], ts, 'instants')
        check_eq([x.data for x in series], [{'value': data(i)} if case['what'] == 'scalar' else data(i) for i in range(n)], 'data')
        check_eq([type(x) for x in series], [DataTimeSlot if case['slots'] else DataTimePoint] * n, 'type of the items')
        check_eq([str(x.tz) for x in series], [case['tz'] if k == 'datetime' else 'UTC' for k in kinds], 'time zone: the one of the datetimes, or UTC')
        if case['slots']:
            check_eq([x.end.t for x in series], [t + step for t in ts], 'end of the slots')
    if case['bad'] is not None:
        worse = dict(d)
        worse[tuple(case['bad']) if isinstance(case['bad'], list) else case['bad']] = 1
        check(raises(lambda: TimeSeries.from_dict(worse)) is not None, 'keys which are not times are refused', bad=case['bad'])


FREQS = ['1s', '10s', '1m', '15m', '1h', '6h', '1D', '1D', '1M', '1M', '1Y', 'irregular']
SECONDS = {'1s': 1, '10s': 10, '1m': 60, '15m': 900, '1h': 3600, '6h': 21600}


@sub('C16', 'data_frames', lambda: st.fixed_dictionaries({
    'unit': st.sampled_from(FREQS), 'tz': st.sampled_from([None] + gen.TZS), 'n': st.integers(3, 10), 'start': st.sampled_from([[2019, 1, 1], [2019, 3, 30], [2019, 10, 26], [2020, 2, 28], [2016, 12, 31]]),
    'labels': st.sampled_from([['a'], ['a', 'b'], ['b', 'a'], [1, 0], [2, 0, 1], ['x', 1]]), 'values': st.lists(st.one_of(st.integers(-50, 50), gen.values()), min_size=30, max_size=30), 'ints': st.booleans(),
    'type': st.sampled_from(['auto', 'auto', 'slots', 'points']), 'gaps': st.lists(st.integers(1, 5000), min_size=11, max_size=11)}),
     'data frames with naive or aware indexes in any time zone, with a regular (physical or calendar, over DST changes) or irregular frequency, and any columns: slots if daily, monthly or yearly (or if '
     'asked for) and points otherwise, with the instants and values of the rows; non-trivial = calendar frequencies, or time zones', quick=800)
def data_frames(case, ctx):
    import pandas as pd
    from timeseria.datastructures import TimeSeries, DataTimePoint, DataTimeSlot
    n, labels, tz, unit = case['n'], case['labels'], case['tz'], case['unit']
    zone = pytz.timezone(tz or 'UTC')
    start = _dt.datetime(*case['start'])
    calendar = unit in ('1D', '1M', '1Y')
    if unit == '1D':
        stamps = [zone.localize(start + _dt.timedelta(days=i)) for i in range(n + 1)]
    elif unit == '1M':
        stamps = [zone.localize(_dt.datetime(start.year + (start.month - 1 + i) // 12, (start.month - 1 + i) % 12 + 1, 1)) for i in range(n + 1)]
    elif unit == '1Y':
        stamps = [zone.localize(_dt.datetime(start.year + i, 1, 1)) for i in range(n + 1)]
    else:
        t = int(zone.localize(start).timestamp())
        stamps = []
        for i in range(n + 1):
            stamps.append(gen.local_dt(t, tz or 'UTC'))
            t += SECONDS[unit] if unit in SECONDS else case['gaps'][i]
    ts = [int(s.timestamp()) for s in stamps]
    irregular = unit == 'irregular'
    if irregular and len({b - a for a, b in zip(ts[:-2], ts[1:-1])}) < 2:
        return
    rows = [[int(v) if case['ints'] else v for v in case['values'][i * 3:i * 3 + len(labels)]] for i in range(n)]
    index = pd.DatetimeIndex([s.replace(tzinfo=None) if tz is None else pd.Timestamp(s.timestamp(), unit='s', tz='UTC').tz_convert(tz) for s in stamps[:n]])
    df = pd.DataFrame(rows, columns=labels, index=index)
    before = df.copy()
    kwargs = {'auto': {}, 'slots': {'item_type': DataTimeSlot}, 'points': {'item_type': DataTimePoint}}[case['type']]
    ctx.nontrivial(calendar or tz not in (None, 'UTC'))
    ctx.label('calendar', calendar)
    if (case['type'] == 'points' and calendar) or (case['type'] == 'slots' and irregular):
        check(raises(lambda: TimeSeries.from_df(df, **kwargs)) is not None, 'points with a calendar frequency, and slots without one, are refused')
        return
    if irregular and df.index.inferred_freq is not None:
        return
    series = TimeSeries.from_df(df, **kwargs)
    slots = case['type'] == 'slots' or (case['type'] == 'auto' and calendar)
    check_eq([type(x) for x in series], [DataTimeSlot if slots else DataTimePoint] * n, 'type of the items')
    check_eq([x.t for x in series], ts[:n], 'instants')
    check_eq([str(x.tz) for x in series], [tz or 'UTC'] * n, 'time zone')
    check_eq([x.data for x in series], [dict(zip(labels, row)) for row in rows], 'data')
    if slots:
        check_eq([x.end.t for x in series], ts[1:], 'ends of the slots')
        check_eq(str(series.resolution), str(series[0].unit), 'resolution')
    check(df.equals(before), 'the data frame is not changed')
