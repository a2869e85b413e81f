"""C30 - results depend on what is given only."""
import calendar
import logging
import os
import random
import re
import tempfile

import pytz
from hypothesis import strategies as st

from harness import gen, zoo, elsewhere
from harness.core import sub, check, check_eq, fail, raises, close, HarnessError
from checks import c08, c15, c19

NAMES = ['a', 'b', 'temp', 'è', 'Größe', 'x y', 'Ł', '温度', 'value']
TEXTS = ['2019-10-27T01:30:00Z', '2019-10-27T02:30:00+01:00', '2019-10-27 02:30:00', '2019-03-31T02:30:00', '2020-02-29', '1572139800', '1572139800.25', '2019-03-10T02:30:00', '2019-07-01T12:00:00.5+0200', '2019-07-01T12:00:00.000500-03:00',
         'tomorrow', '', '12:30']
UNITS = ['10m', '1h', '1D', '1W', '1M', '1Y', '1D_3h_5m', '2h']
PLACES = sorted(set(elsewhere.PLACES) - {'home'})
FORMATS = [None, None, 'epoch', 'iso8601', '%d/%m/%Y %H:%M:%S']


def outcome(call):
    """What a call gives, or the type of what it raises."""
    try:
        return plain(call())
    except Exception as e:
        return 'raised ' + type(e).__name__


def plain(value):
    """As what comes back from JSON."""
    value = c19.plain(c08.plain(value))
    if isinstance(value, dict):
        return {str(k): plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if value is None or isinstance(value, (bool, int, str)):
        return value
    if isinstance(value, float):
        return value if abs(value) != float('inf') else str(value)
    return str(value)


def page(html):
    """The page of a plot, without the identifiers, which are random."""
    return re.sub(r'[0-9a-f]{32}|[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}', 'ID', html)


def do_series(p):
    spec = p['spec']
    out = []
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'series.csv')
        for op in p['ops']:
            out.append(outcome(lambda: c08.run(gen.build(spec), gen.build(dict(spec, data=[[v + 1 for v in row] for row in spec['data']])), op, spec, path)))
    return out


def do_files(p):
    from timeseria.datastructures import TimeSeries
    from timeseria.storages import CSVFileStorage
    out = []
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'series.csv')
        series = gen.build(p['spec'])
        out.append(outcome(lambda: series.save(path)))
        out.append(outcome(lambda: TimeSeries.load(path)))
        out.append(outcome(lambda: CSVFileStorage(path).get()))
        out.append(outcome(lambda: CSVFileStorage(path, encoding=p['encoding']).put(series, overwrite=True)))
        out.append(outcome(lambda: CSVFileStorage(path, encoding=p['encoding']).get()))
        html = os.path.join(tmp, 'series.html')
        out.append(outcome(lambda: series.plot(save_to=html)))
        out.append(outcome(lambda: page(open(html, 'rb').read().decode('utf-8', 'backslashreplace'))[-60000:]))
        out.append(outcome(lambda: page(series.plot(html=True))))
    return out


def do_texts(p):
    import datetime
    from timeseria.datastructures import TimeSeries, TimePoint, DataTimePoint, DataTimeSlot
    from timeseria.units import TimeUnit
    from timeseria.transformations import Aggregator, Resampler
    import json
    import pandas
    naive = datetime.datetime(*p['naive'])
    keys = p['keys']
    out = [outcome(lambda: TimeSeries.from_dict({k: i for i, k in enumerate(keys)})), outcome(lambda: TimeSeries.from_json(json.dumps({k: {'a': i} for i, k in enumerate(keys)}))),
           outcome(lambda: TimeSeries.from_dict({k: i for i, k in enumerate(keys)}, slot_unit=p['unit'])), outcome(lambda: TimeSeries.from_dict({naive: 1})), outcome(lambda: TimePoint(dt=naive).t), outcome(lambda: TimePoint(dt=naive, tz=p['tz']).t),
           outcome(lambda: str(TimePoint(dt=naive, tz=p['tz']))), outcome(lambda: DataTimePoint(dt=naive, data=[1], tz=p['tz'])), outcome(lambda: DataTimeSlot(dt=naive, unit=TimeUnit(p['unit']), data=[1], tz=p['tz'])), outcome(lambda: naive + TimeUnit(p['unit'])),
           outcome(lambda: TimeUnit(p['unit']) + naive), outcome(lambda: TimeUnit(p['unit']).floor(naive)), outcome(lambda: TimePoint(t=p['t'], tz=p['tz']) + TimeUnit(p['unit'])), outcome(lambda: TimeUnit(p['unit']).floor(p['t'])),
           outcome(lambda: TimeUnit(p['unit']).ceil(TimePoint(t=p['t'], tz=p['tz']).dt))]
    for freq in ('D', 'H', 'MS', '15T'):
        index = pandas.date_range(naive.replace(hour=0, minute=0), periods=4, freq=freq)
        out.append(outcome(lambda: TimeSeries.from_df(pandas.DataFrame({'a': [1, 2, 3, 4]}, index=index))))
    points = TimeSeries(*[DataTimePoint(t=p['t'] + i * 3600, data={'a': i}, tz=p['tz']) for i in range(5)])
    out += [outcome(lambda: points[naive]), outcome(lambda: points.get(at_dt=naive)), outcome(lambda: list(points.slice(from_dt=naive))), outcome(lambda: points.aggregate(p['unit'])), outcome(lambda: [str(item.dt) for item in points])]
    end = naive + datetime.timedelta(hours=3)
    for zone in (None, p['tz']):
        start, stop = [x if zone is None else pytz.timezone(zone).localize(x) for x in (naive, end)]
        out += [outcome(lambda: list(points.slice(from_dt=start, to_dt=stop))), outcome(lambda: points[start:stop]), outcome(lambda: Aggregator('1h').process(points, from_dt=start, to_dt=stop)), outcome(lambda: Resampler('30m').process(points, from_dt=start)),
                outcome(lambda: TimeUnit('1D').floor(start)), outcome(lambda: TimeUnit('1h').round(stop)), outcome(lambda: start - TimeUnit('1M')), outcome(lambda: points.plot(html=True, mark=[start, stop]) and None)]
    return out


def do_csv(p):
    from timeseria.storages import CSVFileStorage
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'some.csv')
        lines = [','.join(['timestamp'] + p['labels'])]
        for t, row in zip(p['ts'], p['data']):
            text = c15.stamp(t, p['layout'], p['tz'])
            lines.append(','.join([' '.join(text) if isinstance(text, list) else text] + [repr(v) for v in row]))
        with open(path, 'wb') as f:
            f.write(('\n'.join(lines) + '\n').encode(p['encoding'], 'replace'))
        kwargs = dict(p['kwargs'])
        return [outcome(lambda: CSVFileStorage(path, **kwargs).get()), outcome(lambda: CSVFileStorage(path, tz=p['tz'], skip_errors=True, silence_errors=True, **kwargs).get())]


def do_model(p):
    out = []

    def work():
        model = c19.make(p['kind'], p['parameters'])
        spec = c19.usable(p['kind'], p['spec'])
        c19.fit(model, p['kind'], gen.build(spec), p['parameters'])
        got = c19.everything(p['kind'], model, spec, p['parameters'])
        got.pop('id', None)
        return {k: v.split(':')[0] if isinstance(v, str) and v.startswith('raised ') else v for k, v in got.items()}
    out.append(outcome(work))
    if 'Forecaster' in p['kind'] or 'Reconstructor' in p['kind'] and 'Detector' not in p['kind']:
        spec = c19.usable(p['kind'], p['spec'])
        out.append(outcome(lambda: c19.make(p['kind'], p['parameters']).cross_validate(gen.build(spec), rounds=3, **({'fit_periodicity': 2} if p['kind'].startswith('Periodic') else {}))))
    return out


DO = {'series': do_series, 'files': do_files, 'texts': do_texts, 'csv': do_csv, 'model': do_model}


def work(programs):
    """What each of the programs gives."""
    return [DO[p['do']](p) for p in programs]


@st.composite
def programs(draw, kinds=('series', 'files', 'texts', 'csv', 'model')):
    do = draw(st.sampled_from(list(kinds)))
    tz = draw(st.sampled_from(gen.TZS))
    if do in ('series', 'files'):
        spec = draw(gen.series_specs(1, 7, pool=NAMES, subsecond=do == 'files', steps=None if do == 'files' else [60, 300, 600, 3600], value=st.integers(-400, 400).map(lambda i: i / 4)))
        if draw(st.booleans()):
            names = draw(st.lists(st.sampled_from(['data_loss', 'quality', 'anomaly', 'cloudy', 'b', 'forecast', 'è']), min_size=2, max_size=5, unique=True))
            spec['indexes'] = [{name: draw(st.sampled_from([0, 0.25, 1, None])) for name in names} for _ in spec['ts']]
        return {'do': do, 'spec': spec, 'ops': draw(st.lists(st.sampled_from(c08.NEW * 2 + [x for x in c08.PLAIN if x != 'plot']), min_size=1, max_size=6)), 'encoding': draw(st.sampled_from(['utf-8', 'utf-16', 'latin-1']))}
    if do == 'texts':
        year, month, day, hour = draw(st.sampled_from([[2019, 10, 27, 2], [2019, 3, 31, 2], [2019, 11, 3, 1], [2019, 3, 10, 2], [2020, 2, 29, 0], [2019, 7, 1, 12], [1970, 1, 1, 0], [2019, 4, 7, 1]]))
        return {'do': do, 'keys': draw(st.lists(st.sampled_from(TEXTS[:10] * 2 + TEXTS), min_size=1, max_size=2)), 'naive': [year, month, day, hour, draw(st.sampled_from([0, 30]))], 'tz': tz, 'unit': draw(st.sampled_from(UNITS)), 't': draw(st.one_of(gen.T0S, st.integers(0, 1700000000), st.just(calendar.timegm((year, month, day, hour, 0, 0)) - 5400)))}
    if do == 'csv':
        n = draw(st.integers(1, 6))
        t, step = draw(st.sampled_from([1572134400, 1553990400 - 7200, 1577836800 - 1800, 1552201200, 0])), draw(st.sampled_from([600, 3600, 86400]))
        labels = draw(gen.labels_lists(1, 2, pool=NAMES))
        layout = draw(st.sampled_from(['epoch', 'iso Z', 'iso offset', 'iso naive', 'iso space', 'custom', 'split']))
        return {'do': do, 'ts': [t + i * step for i in range(n)], 'labels': labels, 'data': [[draw(st.sampled_from([0, 1, -2.5, 10.125])) for _ in labels] for _ in range(n)], 'layout': layout, 'tz': tz, 'encoding': draw(st.sampled_from(['utf-8', 'latin-1'])),
                'kwargs': {'timestamp_format': {'custom': '%d/%m/%Y %H:%M:%S', 'split': '%d/%m/%y %H.%M.%S'}[layout]} if layout in ('custom', 'split') else {}}
    return {'do': do, 'kind': draw(st.sampled_from(c19.KINDS * 2 + ['ProphetForecaster', 'ProphetReconstructor'])), 'parameters': draw(c19.PARAMETERS), 'spec': draw(zoo.series(8, 16, units=['10m', '1h', '1D'], max_labels=2, value=zoo.quarters(1, 40)))}


def different(a, b, path=''):
    """Where two outcomes are different, if they are."""
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return path + ': ' + str(sorted(a)) + ' or ' + str(sorted(b))
        return next((d for d in (different(a[k], b[k], path + '/' + k) for k in sorted(a)) if d), None)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return path + ': {} or {} of them'.format(len(a), len(b))
        return next((d for d in (different(x, y, path + '/' + str(i)) for i, (x, y) in enumerate(zip(a, b))) if d), None)
    if isinstance(a, float) or isinstance(b, float):
        return None if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and close(a, b, 1e-7, 1e-9) else path + ': {!r} or {!r}'.format(a, b)
    if a == b and type(a) is type(b):
        return None
    if isinstance(a, str) and isinstance(b, str):
        at = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return path + ': ...{!r} or ...{!r}'.format(a[max(0, at - 40):at + 60], b[max(0, at - 40):at + 60])
    return path + ': {!r} or {!r}'.format(a, b)


@sub('C30', 'places', lambda: st.fixed_dictionaries({'programs': st.lists(programs(), min_size=1, max_size=4), 'place': st.sampled_from(PLACES), 'order': st.integers(0, 99)}),
     'operations, transformations, conversions, storages (with any labels and encodings), readings, time arithmetic (also on naive datetimes and texts), plots and models, run in a process and, in another order and twice, in one on another system time zone, locale, hash seed, directory, '
     'optimization and logging level: they give the same, and the second time as the first one; non-trivial = at least two programs', quick=320, thorough=4000, shards=8)
def places(case, ctx):
    given = case['programs']
    ctx.nontrivial(len(given) > 1)
    for p in given:
        ctx.label(p['do'])
    ctx.label(case['place'])
    wanted = elsewhere.ask('home', 'checks.c30', 'work', given)
    order = list(range(len(given)))
    random.Random(case['order']).shuffle(order)
    got = elsewhere.ask(case['place'], 'checks.c30', 'work', [given[i] for i in order + order])
    for which, i in enumerate(order + order):
        where = different(wanted[i], got[which])
        check(where is None, 'the same in another place', program={k: v for k, v in given[i].items() if k in ('do', 'kind', 'ops')}, place=case['place'], where=where, time=1 + which // len(order))


@sub('C30', 'reproducible', lambda: st.fixed_dictionaries({'before': st.lists(st.integers(0, 9), max_size=3), 'n': st.integers(1, 5)}),
     'after ensure_reproducibility() the random draws (of Python and Numpy) are always the same, whatever was drawn before; non-trivial = every case', quick=60)
def reproducible(case, ctx):
    import numpy
    from timeseria.utilities import ensure_reproducibility
    ctx.nontrivial()

    def draws():
        ensure_reproducibility()
        return [random.random() for _ in range(case['n'])] + [float(x) for x in numpy.random.rand(case['n'])]
    python, numbers = random.getstate(), numpy.random.get_state()
    try:
        first = draws()
        for k in case['before']:
            random.seed(k)
            numpy.random.seed(k + 1)
            random.random()
        check_eq(draws(), first, 'the same draws')
    finally:
        random.setstate(python)
        numpy.random.set_state(numbers)


LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']


@sub('C30', 'logging', lambda: st.lists(st.tuples(st.sampled_from(LEVELS), st.booleans()).map(list), min_size=1, max_size=5),
     'histories of setups of the logger: one handler only, at the level of the first setup or of the last one which forced it; non-trivial = at least two setups', quick=80)
def logs(case, ctx):
    from timeseria import logger
    ctx.nontrivial(len(case) > 1)
    ours = logging.getLogger('timeseria')
    handlers, level = list(ours.handlers), ours.level
    try:
        for handler in list(ours.handlers):
            ours.removeHandler(handler)
        want = None
        for name, force in case:
            logger.setup(name, force=force)
            if want is None or force:
                want = name
            check_eq([logging.getLevelName(h.level) for h in ours.handlers], [want], 'one handler, at the level asked')
            check_eq(logging.getLevelName(ours.level), want, 'level of the logger')
    finally:
        for handler in list(ours.handlers):
            ours.removeHandler(handler)
        for handler in handlers:
            ours.addHandler(handler)
        ours.setLevel(level)
