"""C11 - resampling."""
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import sub, check, check_eq, check_close, raises, fail

# Sampling steps (seconds) and the units to resample them to
RATIOS = [(60, '1m'), (60, '5m'), (60, '10m'), (600, '10m'), (600, '1h'), (600, '5m'), (600, '1m'), (900, '1h'), (900, '15m'), (3600, '1h'), (3600, '15m'),
          (1, '1s'), (1, '10s'), (10, '1m'), (10, '1s'), (0.5, '1s'), (0.25, '1s')]
T0S = st.sampled_from([0, 0, 1, -1800, -300, 30, 300, -3600, -7000, 1325376000, 1364688000 - 3600, 1446073200 - 1800, 1553994000 - 7200, 1577836800 - 5, 1561000123, 1580428800 + 43200, 1582970400, 2 ** 31 - 1800, 4102444800 - 3600, -10 ** 9])


@st.composite
def sampled(draw, ratios=RATIOS, min_n=2, max_n=14, forms=('dict',), tzs=gen.TZS, with_losses=None):
    step, unit = draw(st.sampled_from(ratios))
    shape = draw(st.sampled_from(['regular', 'holes', 'jitter']))
    n = draw(st.integers(min_n, max_n * draw(st.sampled_from([1, 1, 1, 3]))))
    t0 = draw(T0S) + draw(st.sampled_from([0, 0, 0, step / 2, step / 4]))
    ts = [t0]
    for _ in range(n - 1):
        if shape == 'regular':
            ts.append(ts[-1] + step)
        elif shape == 'holes':
            ts.append(ts[-1] + step * draw(st.sampled_from([1, 1, 1, 2, 3, 8, 13])))
        else:
            ts.append(ts[-1] + step * draw(st.sampled_from([1, 1, 1, 0.5, 0.25, 0.75, 1.25, 1.5, 3.25, 7.5])))
    labels = draw(gen.labels_lists(1, 2))
    spec = {'kind': 'points', 'form': draw(st.sampled_from(list(forms))), 'labels': labels, 'tz': draw(st.sampled_from(tzs)), 'ts': ts,
            'data': draw(gen.rows(n, len(labels), st.integers(-400, 400).map(lambda i: i / 4)))}
    if draw(st.booleans()) if with_losses is None else with_losses:
        spec['indexes'] = draw(gen.indexes(n))
    if draw(st.integers(0, 39)) == 23:
        gen.stretch(spec, draw(st.sampled_from([100, 250])))
    return {'spec': spec, 'step': step, 'unit': unit, 'shape': shape, 'used': draw(st.sampled_from([None, None, None, 'other', 'same', 'failing'])),
            'zones': draw(st.sampled_from([None] * 7 + ['America/New_York', 'Asia/Kolkata', 'Europe/London']))}


def build(case):
    """The series, and its time zone: UTC if its items are not all on the same one."""
    series, tz, other = gen.build(case['spec']), case['spec']['tz'], case.get('zones')
    if other is None or other == tz:
        return series, tz
    series[-1].change_tz(other)
    return series, 'UTC'


def failing(items):
    """An operation which cannot be computed, but for the first items."""
    list(items)
    raise KeyError('cannot be computed')


def use(used, case, transformation, cls, series, kwargs):
    """Use the transformation on another series, or another transformation on the series, before what is checked."""
    spec = case['spec']
    if used == 'other':
        ts = [40000000.25 + t * 7 for t in spec['ts']]
        raises(lambda: transformation.process(gen.build(dict(spec, ts=ts, tz='Australia/Lord_Howe', labels=['other' + l for l in spec['labels']], indexes=None))), Exception)
    elif used == 'same':
        raises(lambda: transformation.process(series, **dict(kwargs, validity=case['step'] * 3)), Exception)
    elif used == 'failing':
        from timeseria.transformations import Aggregator
        raises(lambda: Aggregator(case['unit'], operations=['avg', failing]).process(series, validity=case['step']), Exception)
        got = series.avg()
        for l in spec['labels']:
            column = [gen.by_label(spec, i, l) for i in range(len(spec['ts']))]
            check_close(got[l], sum(column) / len(column), 'average after an aggregation which failed', abs_=1e-9)


@st.composite
def cases(draw):
    case = draw(sampled())
    case['how'] = draw(st.sampled_from(['linear', 'linear', 'uniform']))
    case['validity'] = draw(st.booleans())
    case['unit_object'] = draw(st.booleans())
    return case


def sampling_interval(case):
    """The sampling interval the series is transformed with, and whether it has to be given."""
    gap = refs.mode_gap(case['spec']['ts'])
    if case['validity'] or gap is None:
        return case['step'], True
    return gap, False


def process(cls, case, series, **kwargs):
    from timeseria.interpolators import LinearInterpolator, UniformInterpolator
    from timeseria.units import TimeUnit
    s, explicit = sampling_interval(case)
    unit = TimeUnit(case['unit']) if case['unit_object'] else case['unit']
    interpolator = LinearInterpolator if case['how'] == 'linear' else UniformInterpolator
    init = {k: kwargs.pop(k) for k in ('operations',) if k in kwargs}
    if explicit:
        kwargs['validity'] = s
    transformation = cls(unit, interpolator_class=interpolator, **init)
    if case['spec']['form'] == 'dict':
        use(case.get('used'), case, transformation, cls, series, kwargs)
    return transformation.process(series, **kwargs)


@sub('C11', 'resample', cases,
     'regular series, series with holes and jittered ones, at every phase with respect to the grid, resampled (up and down) with linear and uniform '
     'interpolation: instants on the whole grid within the series, and each value compared with the average, over its unit, of samples and interpolation; '
     'non-trivial = at least two resulting points, one of which partly or fully interpolated', quick=1200, shards=4)
def resample(case, ctx):
    from timeseria.transformations import Resampler
    spec, unit = case['spec'], gen.PHYSICAL[case['unit']]
    ts, labels = spec['ts'], spec['labels']
    series, tz = build(case)
    s, explicit = sampling_interval(case)
    result = process(Resampler, case, series)
    check_eq(type(result).__name__, 'TimeSeries', 'resampling gives a time series')
    got = [item.t for item in result]
    # The units centred on the grid entirely within the series; the extremes are not included
    first = unit * (int((ts[0] + unit / 2) // unit) - 1)
    grid = []
    t = first
    while t + unit / 2 <= ts[-1]:
        if t - unit / 2 >= ts[0]:
            grid.append(t)
        t += unit
    if grid and grid[0] - unit / 2 == ts[0] and (not got or got[0] != grid[0]):
        # A unit starting exactly with the first point counts as an extreme
        grid = grid[1:]
    check_eq(got, grid, 'the resampled points are those of the grid within the series', ts=ts)
    columns = {l: [gen.by_label(spec, i, l) for i in range(len(ts))] for l in labels}
    interpolated = 0
    for item in result:
        check_eq(type(item).__name__, 'DataTimePoint', 'type of the resampled items')
        check_eq(str(item.tz), tz, 'resampling keeps the time zone')
        check_eq(sorted(item.data), sorted(labels), 'resampling keeps the data labels')
        a, b = item.t - unit / 2, item.t + unit / 2
        if refs.coverage(ts, s, a, b) < 1:
            interpolated += 1
        for l in labels:
            check_close(item.data[l], refs.window(ts, columns[l], s, a, b, case['how']), 'resampled value', abs_=1e-6, t=item.t, label=l)
    ctx.nontrivial(len(result) >= 2 and interpolated)
    ctx.label(case['shape'])
    ctx.label('upsampling', unit < s)
    ctx.label('fully_missing', any(refs.coverage(ts, s, t - unit / 2, t + unit / 2) == 0 for t in grid))
    if len(result) >= 2:
        check_close(result.resolution if not hasattr(result.resolution, 'as_seconds') else result.resolution.as_seconds(), unit, 'the resolution of the resampled series is the unit')
    if case['how'] == 'linear' and not explicit and not case['unit_object'] and result:
        check_eq([(x.t, x.data, x.data_loss) for x in series.resample(case['unit'])], [(x.t, x.data, x.data_loss) for x in result], 'the method and the Resampler agree')


@sub('C11', 'already_resampled', lambda: st.fixed_dictionaries({
        'case': sampled(ratios=[(60, '1m'), (600, '10m'), (900, '15m'), (3600, '1h'), (1, '1s'), (10, '10s')], min_n=3, with_losses=False), 'k': st.integers(-100, 10 ** 6)}),
     'a regular series already on the grid, resampled at its own resolution, is itself but for the extremes and with no data loss; and resampling twice at the same unit '
     'is resampling once; non-trivial = at least four points', quick=600)
def already_resampled(outer, ctx):
    case = outer['case']
    spec = dict(case['spec'])
    n, step = len(spec['ts']), case['step']
    spec['ts'] = [(outer['k'] + i) * step for i in range(n)]
    spec.pop('indexes', None)
    ctx.nontrivial(n >= 4)
    series = gen.build(spec)
    result = series.resample(case['unit'])
    check_eq([x.t for x in result], spec['ts'][1:-1], 'instants of a series already on the grid')
    for k, item in enumerate(result):
        for l in spec['labels']:
            check_close(item.data[l], gen.by_label(spec, k + 1, l), 'values of a series already on the grid', abs_=1e-9)
        check_close(item.data_loss, 0, 'no data is lost', abs_=1e-9)
    if len(result) >= 3:
        again = result.resample(case['unit'])
        check_eq([x.t for x in again], spec['ts'][2:-2], 'instants of a series resampled twice')
        for k, item in enumerate(again):
            for l in spec['labels']:
                check_close(item.data[l], gen.by_label(spec, k + 2, l), 'values of a series resampled twice', abs_=1e-9)


@sub('C11', 'refusals', lambda: st.fixed_dictionaries({'what': st.sampled_from(['1D', '1M', '1Y', '1W', 'slots', 'empty', 'points without data', 'list']), 'n': st.integers(2, 5)}),
     'resampling to calendar units, and series that cannot be resampled, is refused; non-trivial = every case', quick=80)
def refusals(case, ctx):
    from timeseria.datastructures import TimeSeries, DataTimePoint, DataTimeSlot, TimePoint
    from timeseria.transformations import Resampler
    ctx.nontrivial()
    what, n = case['what'], case['n']
    points = [DataTimePoint(t=3600 * i, data={'a': i}) for i in range(n)]
    unit = what if what[0] == '1' else '1h'
    if what == 'slots':
        series = TimeSeries(*[DataTimeSlot(start=TimePoint(3600 * i), end=TimePoint(3600 * i + 3600), data={'a': i}) for i in range(n)])
    elif what == 'empty':
        series = TimeSeries()
    elif what == 'points without data':
        series = TimeSeries(*[TimePoint(3600 * i) for i in range(n)])
    elif what == 'list':
        series = points
    else:
        series = TimeSeries(*points)
    check(raises(lambda: Resampler(unit).process(series), ValueError, TypeError, NotImplementedError) is not None, 'resampling "{}" is refused'.format(what))


def as_lists(case):
    """The same case with list data, and with the dictionaries which are equivalent."""
    labels = [str(j) for j in range(len(case['spec']['labels']))]
    return dict(case, spec=dict(case['spec'], form='list', labels=labels)), dict(case, spec=dict(case['spec'], form='dict', labels=labels))


@sub('C11', 'lists', cases, 'series with list data are resampled as those with the positions as labels; non-trivial = at least two resulting points', quick=200)
def lists(case, ctx):
    from timeseria.transformations import Resampler
    results = [process(Resampler, c, gen.build(c['spec'])) for c in as_lists(case)]
    one, other = [[(x.t, {str(k): v for k, v in (x.data.items() if isinstance(x.data, dict) else enumerate(x.data))}, x.data_indexes) for x in result] for result in results]
    check_eq(one, other, 'resampling of list data')
    ctx.nontrivial(len(one) >= 2)
