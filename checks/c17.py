"""C17 - changing the time zone only changes the wall clock."""
import copy
import os
import tempfile

from hypothesis import strategies as st

from harness import gen
from harness.core import sub, check, check_eq, raises
from checks.c08 import run, plain

ZONES = gen.TZS + ['America/Sao_Paulo', 'Australia/Lord_Howe', 'Asia/Kathmandu', 'Pacific/Apia']


def specs(**kwargs):
    kwargs.setdefault('units', ['1s', '1m', '10m', '1h', '24h', '1D'])
    return gen.series_specs(min_n=1, max_n=8, long=240, **kwargs)


def verify(series, spec, tz, message):
    """The series has the items of the spec, on another time zone."""
    want = gen.build(spec)
    check_eq(len(series), len(want), message + ': length')
    check_eq(str(series.tz), tz, message + ': time zone of the series')
    for i, (got, w) in enumerate(zip(series, want)):
        check_eq(got.t, w.t, message + ': instants do not move', i=i)
        check_eq(str(got.tz), tz, message + ': time zone of the items', i=i)
        check_eq(got.data, w.data, message + ': data', i=i)
        check_eq(got.data_indexes, w.data_indexes, message + ': data indexes', i=i)
        local = gen.local_dt(w.t, tz)
        check(got.dt == local and got.dt.replace(tzinfo=None) == local.replace(tzinfo=None), message + ': wall clock', i=i, got=got.dt, want=local)
        if spec['kind'] == 'slots':
            check(got.start.t == w.start.t and got.end.t == w.end.t and got.unit == w.unit and got.length == w.length, message + ': extent of the slots', i=i, got=got, want=w)
            check_eq((str(got.start.tz), str(got.end.tz)), (tz, tz), message + ': time zone of the borders', i=i)
            end = gen.local_dt(w.end.t, tz)
            check(got.end.dt.replace(tzinfo=None) == end.replace(tzinfo=None), message + ': wall clock of the ends', i=i)
    check_eq(str(series.resolution), str(want.resolution), message + ': resolution')


@sub('C17', 'histories', lambda: st.fixed_dictionaries({
    'spec': specs(), 'read_first': st.booleans(),
    'steps': st.lists(st.tuples(st.sampled_from(['change', 'change', 'as_tz', 'as_tz', 'duplicate', 'look', 'pop', 'slice', 'view', 'copy']), st.sampled_from(ZONES), st.sampled_from([None, None] + gen.ZONE_FORMS)).map(list), min_size=3, max_size=9)}),
     'series of points and slots going through any sequence of time zone changes (in place, or as copies) and of other operations: the instants, the extents, the data and the resolution are those of the '
     'start, the wall clocks those of the last time zone, and the copied ones are as they were; non-trivial = at least two changes', quick=1200, shards=2)
def histories(case, ctx):
    spec = copy.deepcopy(case['spec'])
    series = gen.build(spec)
    tz = spec['tz']
    if case['read_first']:
        series.tz, series.resolution, str(series)
    left = []
    changes = 0
    for k, (op, zone, form) in enumerate(case['steps']):
        target = gen.zone_as(zone, form, k)
        if op == 'change':
            series.change_tz(target)
            tz = zone
            changes += 1
        elif op == 'as_tz':
            left.append((series, copy.deepcopy(spec), tz))
            series = series.as_tz(target)
            tz = zone
            changes += 1
        elif op == 'duplicate':
            left.append((series, copy.deepcopy(spec), tz))
            series = series.duplicate()
        elif op == 'copy':
            left.append((series, copy.deepcopy(spec), tz))
            series = copy.deepcopy(series)
        elif op == 'look':
            str(series), series.tz, series.resolution, series.summary(), series.to_dict()
        elif op == 'pop' and len(series) > 1:
            series.pop()
            for key in ('ts', 'data') + (('indexes',) if spec.get('indexes') is not None else ()):
                spec[key] = spec[key][:-1]
        elif op == 'slice' and len(series) > 1:
            series = series.slice(0, len(series)).duplicate()
        elif op == 'view':
            verify(series.view(0, len(series)).materialize(), spec, tz, 'materialised view')
        verify(series, spec, tz, op)
    for series, spec, tz in left:
        verify(series, spec, tz, 'the series copied on another time zone')
    ctx.nontrivial(changes >= 2)


@sub('C17', 'empty_and_mixed', lambda: st.fixed_dictionaries({
    'zones': st.lists(st.sampled_from(ZONES), min_size=0, max_size=5), 'to': st.sampled_from(ZONES), 'copy': st.booleans(), 'bad': st.sampled_from(['Europe/Nowhere', 'X', 5])}),
     'series of points on different time zones (and empty ones): the time zone is the common one, or UTC, and a change brings all of the items to the same; unknown time zones are refused without '
     'changing anything; non-trivial = at least two zones', quick=300)
def empty_and_mixed(case, ctx):
    from timeseria.datastructures import TimeSeries, DataTimePoint
    zones = case['zones']
    series = TimeSeries(*[DataTimePoint(t=1553990400 + 1800 * i, tz=z, data={'a': i}) for i, z in enumerate(zones)])
    want = None if not zones else zones[0] if len(set(zones)) == 1 else 'UTC'
    ctx.nontrivial(len(set(zones)) > 1)
    check_eq(str(series.tz), str(want), 'time zone of the series')
    before = gen.snapshot(series)
    check(raises(lambda: series.as_tz(case['bad'])) is not None, 'unknown time zones are refused')
    check(raises(lambda: series.change_tz(case['bad'])) is not None, 'unknown time zones are refused')
    check_eq((gen.snapshot(series), str(series.tz)), (before, str(want)), 'what is refused changes nothing')
    if case['copy']:
        new = series.as_tz(case['to'])
        check_eq((gen.snapshot(series), str(series.tz)), (before, str(want)), 'the series copied on another time zone')
        series = new
    else:
        series.change_tz(case['to'])
    check_eq(str(series.tz), case['to'], 'time zone after the change')
    check_eq([(x.t, str(x.tz), x.data) for x in series], [(b['t'], case['to'], b['data']) for b in before], 'items after the change')


OPS = ['derivative', 'integral', 'diff', 'csum', 'csum offset', 'normalize', 'rescale', 'offset', 'mavg', 'filter', 'merge', 'resample', 'resample uniform', 'aggregate', 'aggregate ops', 'aggregate day',
       'duplicate', 'to_dict', 'materialize', 'to_df', 'to_json', 'repr', 'tz', 'slice', 'slice_t', 'save', 'head', 'contents', 'summary', 'avg', 'resolution', 'get', 'view']


@sub('C17', 'same_as_native', lambda: st.fixed_dictionaries({
    'spec': gen.series_specs(min_n=3, max_n=12, steps=[600, 3600, 7200], units=['10m', '1h'], subsecond=False, value=st.integers(-400, 400).map(lambda i: i / 4),
                             t0s=st.sampled_from([0, 600, 1325376000, 1364688000 - 3600 * 8, 1572130800 - 3600 * 5])),
    'to': st.sampled_from(ZONES), 'in_place': st.booleans(), 'ops': st.lists(st.sampled_from(OPS + ['aggregate day'] * 4), min_size=1, max_size=5, unique=True), 'read_first': st.booleans()}),
     'series moved to another time zone, against the same series created there in the first place: every operation, (calendar) aggregation, resampling, conversion and saving gives exactly the same '
     'result; non-trivial = the time zone does change', quick=700, shards=2)
def same_as_native(case, ctx):
    spec = case['spec']
    native = dict(spec, tz=case['to'])
    moved = gen.build(spec)
    if case['read_first']:
        moved.tz, moved.resolution, str(moved)
    if case['in_place']:
        moved.change_tz(case['to'])
    else:
        moved = moved.as_tz(case['to'])
    want = gen.build(native)
    ctx.nontrivial(case['to'] != spec['tz'])
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'series.csv')
        for op in case['ops']:
            out = []
            for series in (moved, want):
                try:
                    out.append(plain(run(series, series.duplicate(), op, spec, path)))
                except Exception as e:
                    out.append('refused: {}'.format(type(e).__name__))
            ctx.label('refused', isinstance(out[1], str) and out[1].startswith('refused'))
            check_eq(out[0], out[1], 'result of an operation', op=op)
