"""C14 - what is saved is what is loaded back."""
import os
import tempfile

from hypothesis import strategies as st

from harness import gen
from harness.core import sub, check, check_eq, check_close, raises, fail

POOL = ['a', 'b', 'temp', 'value', 'Na', 'ND', 'nan', 'timestamp', 'epoch', 'date', 'x y', 'T (C)', 'température', 'é', '湿度', '#1', ';', '12', 'a-b', '1/2', '_a', 'y_', 'null', 'T']
AWKWARD = ['x,y', '"q"', "it's", 'a\nb', ' a', 'a ', '', 'x;y', '__loss', 'a  b', '"x']


def spec_strategy(min_n=1, max_n=8, awkward=True):
    value = st.one_of(gen.values(), st.sampled_from([0, -0.0, 1e-7, 1e22, -1.5e300, 0.1, 1 / 3, 123456789.123456789]), st.floats(allow_nan=False, allow_infinity=False))
    pool = st.sampled_from([POOL] * 5 + ([POOL[:3] + AWKWARD] if awkward else [['a', 'b', 'température', 'Na']]))
    specs = pool.flatmap(lambda p: gen.series_specs(min_n=min_n, max_n=max_n, value=value, long=240, pool=p, units=['1s', '1m', '10m', '1h', '24h', '1D', '1D']))
    return st.tuples(specs, st.sampled_from([0, 0, 0, 0.123456, 0.000001, 1 / 3]), st.sampled_from([1, 1, 1 / 3, 1e-7]),
                     st.sampled_from([None, None, '_custom', 'custom_', 'my index', 'epoch', 'loss', 'None', '1', 'x__y', 'Data_Loss'])).map(lambda x: precise(*x))


def precise(spec, fraction, scale, name=None):
    """The same, with instants down to the microseconds and data indexes of many digits."""
    if spec['kind'] == 'points':
        spec['ts'] = [t + fraction for t in spec['ts']]
    if spec.get('indexes'):
        spec['indexes'] = [{(name or k) if k in ('custom', 'anomaly') else k: v * scale if v is not None else None for k, v in i.items()} for i in spec['indexes']]
    return spec


def same(series, spec, message, tz=True, **info):
    """Whether a series is the one of the spec, up to data being given by label and to indexes being None rather than missing."""
    check_eq(len(series), len(spec['ts']), message + ': length', **info)
    check_eq(sorted(series.data_labels()), sorted(gen.label_names(spec)), message + ': labels', **info)
    want = gen.build(spec)
    for i, item in enumerate(series):
        check_eq(type(item).__name__, type(want[i]).__name__, message + ': type of the items', i=i, **info)
        check_eq(item.t, want[i].t, message + ': instants', i=i, **info)
        if tz:
            check_eq(str(item.tz), spec['tz'], message + ': time zone', i=i, **info)
        if spec['kind'] == 'slots':
            check(item.end.t == want[i].end.t and item.unit == want[i].unit, message + ': extent of the slots', i=i, got=str(item), **info)
        for l in gen.label_names(spec):
            got = item.data[l] if isinstance(item.data, dict) else item.data[int(l)]
            check_eq(got, gen.by_label(spec, i, l), message + ': value', i=i, label=l, **info)
        check_eq({k: v for k, v in item.data_indexes.items() if v is not None}, {k: v for k, v in (spec['indexes'][i] if spec.get('indexes') else {}).items() if v is not None},
                 message + ': data indexes', i=i, **info)


def storable(spec):
    return spec['form'] == 'list' or not set(spec['labels']) & set(AWKWARD)


def cases():
    return st.fixed_dictionaries({'spec': spec_strategy(), 'how': st.sampled_from(['save', 'save', 'to_csv', 'storage']), 'subclass': st.booleans(), 'read_first': st.booleans()})


@sub('C14', 'round_trip', cases,
     'series of points and slots, in all time zones (over DST changes), of a single item too, with any finite values, labels (also non-ASCII, or looking like missing data or timestamps) and data '
     'indexes (also missing for some items), saved and loaded back: the same series, or (for labels which cannot be stored) a refusal; non-trivial = at least two items and two '
     'labels, indexes, or a time zone', quick=1500, shards=2)
def round_trip(case, ctx):
    from timeseria.datastructures import TimeSeries
    from timeseria.storages import CSVFileStorage

    class MySeries(TimeSeries):
        pass

    spec = case['spec']
    cls = MySeries if case['subclass'] else TimeSeries
    series = gen.build(spec, cls)
    if case['read_first']:
        series.resolution, series.tz, str(series)
    before = gen.snapshot(series)
    ctx.nontrivial(len(spec['ts']) >= 2 and (len(spec['labels']) >= 2 or spec.get('indexes') or spec['tz'] != 'UTC'))
    ctx.label('slots', spec['kind'] == 'slots')
    ctx.label('one_item', len(spec['ts']) == 1)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'series.csv')
        with open(path, 'w') as f:
            f.write('something else')
        check(raises(lambda: series.save(path)) is not None, 'saving over an existing file is refused')
        with open(path) as f:
            check_eq(f.read(), 'something else', 'a refused saving does not change the file')

        def save():
            if case['how'] == 'save':
                series.save(path, overwrite=True)
            elif case['how'] == 'to_csv':
                series.to_csv(path, overwrite=True)
            else:
                CSVFileStorage(path).put(series, overwrite=True)

        if not storable(spec):
            ctx.label('awkward')
            if raises(save, ValueError) is not None:
                with open(path) as f:
                    check_eq(f.read(), 'something else', 'a refused saving does not change the file')
                return
        else:
            save()
        check_eq(gen.snapshot(series), before, 'saving does not change the series')
        loaded = cls.load(path)
        check(isinstance(loaded, cls), 'loading with a class gives that class', got=type(loaded))
        same(loaded, spec, 'saved and loaded back')
        if len(spec['ts']) >= 2 or spec['kind'] == 'slots':
            check_eq(str(loaded.resolution), str(series.resolution), 'resolution of the series loaded back')
        # Once more
        again = os.path.join(tmp, 'again.csv')
        loaded.save(again)
        same(cls.load(again), spec, 'saved and loaded back twice')


def fits(spec, separator, encoding):
    if spec['form'] == 'list':
        return True
    text = ''.join(spec['labels'])
    return separator not in text and (encoding != 'latin-1' or all(ord(c) < 256 for c in text))


@st.composite
def history_cases(draw):
    specs = draw(st.lists(spec_strategy(awkward=False), min_size=2, max_size=3))
    put = st.tuples(st.just('put'), st.integers(0, 1), st.integers(0, 2), st.just(True))
    step = st.one_of(put, st.tuples(st.just('put'), st.integers(0, 1), st.integers(0, 2), st.sampled_from([True, True, True, False])), st.tuples(st.just('get'), st.integers(0, 1)), st.tuples(st.just('get'), st.integers(0, 1)),
                     st.tuples(st.just('load'), st.integers(0, 1)), st.tuples(st.just('foreign'), st.integers(0, 1), st.booleans()), st.tuples(st.just('bad'), st.integers(0, 1), st.sampled_from(['empty', 'no data', 'number'])))
    return {'specs': specs, 'storages': draw(st.lists(st.tuples(st.sampled_from([',', ',', ';', '\t', '|']), st.sampled_from(['auto', 'utf-8', 'latin-1', 'utf-16']), st.sampled_from([['#'], ['#'], ['#', ';'], ['%'], ['%', '#'], []])).map(list), min_size=2, max_size=2)),
            'steps': [list(s) for s in draw(st.lists(step, min_size=4, max_size=12))]}


@sub('C14', 'storage_histories', history_cases,
     'histories of storing, getting, loading, refused storing and replacing on two files through two storage objects with any separator and encoding: a storage always gives what was last stored '
     'in its file, and what is refused leaves it as it was; non-trivial = at least two successful storings and two readings', quick=700, shards=2)
def storage_histories(case, ctx):
    from timeseria.datastructures import TimeSeries, TimePoint, DataTimePoint
    from timeseria.storages import CSVFileStorage
    stored = got = 0
    with tempfile.TemporaryDirectory() as tmp:
        paths = [os.path.join(tmp, name) for name in ('first.csv', 'second.csv')]
        # (with no comments, which is the timestamp cannot always be told)
        storages = [CSVFileStorage(path, separator=separator, encoding=encoding, comment_chars=comments, **({} if comments else {'timestamp_column': 'epoch'}))
                    for path, (separator, encoding, comments) in zip(paths, case['storages'])]
        content = [None, None]
        for step in case['steps']:
            op, i = step[0], step[1]
            separator, encoding, comments = case['storages'][i]
            if op == 'put':
                spec = case['specs'][step[2] % len(case['specs'])]
                series = gen.build(spec)
                if content[i] is not None and not step[3]:
                    check(raises(lambda: storages[i].put(series)) is not None, 'storing over an existing file is refused')
                elif not fits(spec, separator, encoding):
                    before = open(paths[i], 'rb').read() if os.path.exists(paths[i]) else None
                    check(raises(lambda: storages[i].put(series, overwrite=True), ValueError) is not None, 'storing labels which do not fit the separator or the encoding is refused')
                    check_eq(open(paths[i], 'rb').read() if os.path.exists(paths[i]) else None, before, 'a refused storing leaves the file as it was')
                else:
                    storages[i].put(series, overwrite=step[3])
                    content[i] = spec
                    stored += 1
            elif op == 'bad':
                series = {'empty': TimeSeries(), 'no data': TimeSeries(TimePoint(0), TimePoint(60)), 'number': 5}[step[2]]
                before = open(paths[i], 'rb').read() if os.path.exists(paths[i]) else None
                check(raises(lambda: storages[i].put(series, overwrite=True)) is not None, 'storing something which is not a series with data is refused', what=step[2])
                after = open(paths[i], 'rb').read() if os.path.exists(paths[i]) else None
                if before is not None:
                    check_eq(after, before, 'a refused storing leaves the file as it was', what=step[2])
                elif after is not None:
                    os.remove(paths[i])
            elif op == 'foreign':
                # Someone else replaces the file
                spec = {'kind': 'points', 'form': 'dict', 'labels': ['f'], 'tz': 'UTC', 'ts': [1577836800, 1577837400, 1577838000], 'data': [[1.0], [2.0], [3.5]]}
                with open(paths[i], 'w', encoding='utf-8' if encoding == 'auto' else encoding) as f:
                    if step[2] and comments:
                        f.write('timestamp{0}f\n2020-01-01T00:00:00Z{0}1\n2020-01-01T00:10:00Z{0}2\n2020-01-01T00:20:00Z{0}3.5\n'.format(separator))
                    else:
                        f.write('f{0}time\n1{0}1577836800\n'.format(separator).replace('f{0}time\n1{0}1577836800\n'.format(separator), 'epoch{0}f\n1577836800{0}1\n1577837400{0}2\n1577838000{0}3.5\n'.format(separator)))
                content[i] = spec
            elif op == 'get':
                if content[i] is None:
                    check(raises(lambda: storages[i].get()) is not None, 'reading a file which does not exist is refused')
                    continue
                spec = content[i]
                kwargs = {'force_tz': spec['tz']}
                kwargs.update({'force_points': True} if spec['kind'] == 'points' else {'force_slots': True, 'force_slot_unit': spec['unit']})
                same(storages[i].get(**kwargs), spec, 'what is read is what was last stored', step=step)
                got += 1
            else:
                spec = content[i]
                if spec is None or separator != ',' or '#' not in comments or spec['labels'] == ['f'] or (encoding == 'latin-1' and not ''.join(spec['labels']).isascii()):
                    # (what is not in the Timeseria format, or whose encoding can only be guessed)
                    continue
                same(TimeSeries.load(paths[i]), spec, 'what is loaded is what was last stored', step=step)
                got += 1
    ctx.nontrivial(stored >= 2 and got >= 2)


@sub('C14', 'fixed_offsets', lambda: st.fixed_dictionaries({
    'minutes': st.integers(-14 * 60, 14 * 60), 'seconds': st.sampled_from([0, 0, 0, 30]), 'pytz': st.booleans(), 'kind': st.sampled_from(['points', 'slots']), 'n': st.integers(1, 6),
    't0': st.sampled_from([0, 1553990400, -86400 * 400, 1571529600.25])}),
     'series on time zones being just an offset, as those of datetimes read from strings, saved and loaded back: the same instants, slots, wall clock times and values; non-trivial = the offset is '
     'not zero', quick=200)
def fixed_offsets(case, ctx):
    import datetime
    import pytz
    from timeseria.datastructures import TimeSeries, DataTimePoint, DataTimeSlot
    from timeseria.units import TimeUnit
    ctx.nontrivial(case['minutes'] or case['seconds'])
    zone = pytz.FixedOffset(case['minutes']) if case['pytz'] else datetime.timezone(datetime.timedelta(minutes=case['minutes'], seconds=case['seconds']))
    if case['kind'] == 'points':
        series = TimeSeries(*[DataTimePoint(t=case['t0'] + 600 * i, tz=zone, data={'a': i}) for i in range(case['n'])])
    else:
        series = TimeSeries(*[DataTimeSlot(t=case['t0'] + 3600 * i, tz=zone, unit=TimeUnit('1h'), data={'a': i}) for i in range(case['n'])])
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'series.csv')
        series.save(path)
        loaded = TimeSeries.load(path)
        for again in (loaded, TimeSeries.load(path)):
            check_eq([(type(x), x.t, x.dt, x.dt.utcoffset(), x.data) for x in again], [(type(x), x.t, x.dt, x.dt.utcoffset(), x.data) for x in series], 'series on a fixed offset, loaded back')
        check_eq(str(loaded.resolution), str(series.resolution), 'resolution of the series loaded back')
        # And once again
        loaded.save(path, overwrite=True)
        check_eq([(x.t, x.dt.utcoffset()) for x in TimeSeries.load(path)], [(x.t, x.dt.utcoffset()) for x in series], 'series on a fixed offset, loaded back twice')
