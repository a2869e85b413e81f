"""C31 - what becomes of a label depends on its values only, and not on names, order, scale and cycle of the calendar."""
import os
import tempfile

from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import sub, check, check_eq, close, Reject

ASSUMPTIONS = ['Anomaly detectors are the only ones which may mix labels (as their index is of the item), thus they are only asked to ignore names, orders and places in time.',
               'The cycle of the calendar is of 28 years (in UTC, between 1901 and 2099).',
               'Refusals are compared by the type of what is raised.']

NAMES = ['a', 'b', 'B', 'A', 'temp', 'value', '10', '9', '0', 'x y', 'C1', 'è', '温度', '_', 'data', 'start', 'zz', 'T', 'Timestamp', 'item', 'label']
CYCLE = 28 * 1461 * 86400 // 4
VARIATIONS = ['alone', 'alone', 'renamed', 'reordered', 'positions', 'scaled', 'scaled', 'moved', 'longer', 'longer']


# -- What is done with the series. Each gives a series, or a value for each label; what it gives grows with the values,
#    unless noted otherwise, and how many of its last items may change if the series goes on (None if all of them may).

def _interpolated(name):
    def f(series, other, named, factor):
        from timeseria import interpolators
        interpolator = getattr(interpolators, name)(series)
        out = []
        for i in range(len(series) - 1):
            t = series[i].t + (series[i + 1].t - series[i].t) * 0.25
            out.append([t, interpolator.evaluate(t, i, i + 1)])
            out.append([t, interpolator.evaluate(t)])
        return out
    return f


def _stored(series, other, named, factor):
    from timeseria.datastructures import TimeSeries
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'series.csv')
        series.save(path)
        return TimeSeries.load(path)


def _aggregated(unit, *ops, **kwargs):
    def f(series, other, named, factor):
        from timeseria import operations
        from timeseria.transformations import Aggregator
        return Aggregator(unit, **({'operations': [getattr(operations, op) for op in ops]} if ops else {})).process(series, **kwargs)
    return f


def _resampled(unit, interpolator=None, **kwargs):
    def f(series, other, named, factor):
        from timeseria import interpolators
        from timeseria.transformations import Resampler
        return Resampler(unit, **({'interpolator_class': getattr(interpolators, interpolator)} if interpolator else {})).process(series, **kwargs)
    return f


def _merged(series, other, named, factor):
    from timeseria.operations import merge
    return merge(other, series, other)


def _df(series, other, named, factor):
    from timeseria.datastructures import TimeSeries
    series = series.duplicate()
    series.remove_data_loss()
    return TimeSeries.from_df(series.to_df())


def _ranges(series, named, factor):
    return {label: [-1000 * factor, 3000 * factor] for label in series.data_labels()}


OPS = {
    'min': (lambda s, o, named, f: s.min(), 1, None), 'max': (lambda s, o, named, f: s.max(), 1, None), 'avg': (lambda s, o, named, f: s.avg(), 1, None), 'sum': (lambda s, o, named, f: s.sum(), 1, None),
    'min of': (lambda s, o, named, f: {named: s.min(named)}, 1, None), 'avg of': (lambda s, o, named, f: {named: s.avg(data_label=named)}, 1, None),
    'derivative': (lambda s, o, named, f: s.derivative(), 1, 1), 'derivative raw': (lambda s, o, named, f: s.derivative(normalize=False), 1, 1), 'differences': (lambda s, o, named, f: s.derivative(diffs=True), 1, 1),
    'derivative in place': (lambda s, o, named, f: s.derivative(inplace=True) or s, 1, 1),
    'integral': (lambda s, o, named, f: s.integral(), 1, 0), 'integral from': (lambda s, o, named, f: s.integral(c=3 * f), 1, 0), 'integral offset': (lambda s, o, named, f: s.integral(offset={label: 2 * f for label in s.data_labels()}), 1, 0),
    'diff': (lambda s, o, named, f: s.diff(), 1, 0), 'csum': (lambda s, o, named, f: s.csum(), 1, 0), 'csum offset': (lambda s, o, named, f: s.csum(offset={label: f for label in s.data_labels()}), 1, 0),
    'csum in place': (lambda s, o, named, f: s.csum(inplace=True) or s, 1, 0),
    'normalize': (lambda s, o, named, f: s.normalize(), 0, None), 'normalize range': (lambda s, o, named, f: s.normalize(range=[-1, 1], source_range=_ranges(s, named, f)), 0, 0),
    'rescale': (lambda s, o, named, f: s.rescale(2.5), 1, 0), 'rescale one': (lambda s, o, named, f: s.rescale({named: -3}), 1, 0), 'offset': (lambda s, o, named, f: s.offset(2.5 * f), 1, 0), 'offset one': (lambda s, o, named, f: s.offset({named: -3 * f}), 1, 0),
    'offset in place': (lambda s, o, named, f: s.offset(2.5 * f, inplace=True) or s, 1, 0), 'mavg': (lambda s, o, named, f: s.mavg(2), 1, 0), 'mavg 3': (lambda s, o, named, f: s.mavg(3), 1, 0),
    'filter': (lambda s, o, named, f: s.filter(named), 1, 0), 'merge': (lambda s, o, named, f: s.merge(o), 1, None), 'merge three': (_merged, 1, None), 'as_tz': (lambda s, o, named, f: s.as_tz('UTC'), 1, 0), 'duplicate': (lambda s, o, named, f: s.duplicate(), 1, 0),
    'slice': (lambda s, o, named, f: s.slice(1, len(s)), 1, 0), 'materialize': (lambda s, o, named, f: s.view(0, len(s)).materialize(), 1, 0),
    'resample': (_resampled('10m'), 1, 2), 'resample hour': (_resampled('1h'), 1, 2), 'resample uniform': (_resampled('7m', 'UniformInterpolator'), 1, 2),
    'aggregate': (_aggregated('10m'), 1, 2), 'aggregate ops': (_aggregated('1h', 'avg', 'min', 'max', 'sum'), 1, 2), 'aggregate day': (_aggregated('1D'), 1, 2), 'aggregate month': (_aggregated('1M', 'avg', 'max'), 1, 2),
    'aggregate fill': (lambda s, o, named, f: _aggregated('1h', fill_with=-2 * f)(s, o, named, f), 1, 2),
    'stored': (_stored, 1, 0), 'to_dict': (lambda s, o, named, f: type(s).from_dict(s.to_dict(), slot_unit=s.resolution if hasattr(s[0], 'end') else None), 1, 0), 'to_df': (_df, 1, None),
    'linear': (_interpolated('LinearInterpolator'), 1, 0), 'uniform': (_interpolated('UniformInterpolator'), 1, 0), 'prev': (_interpolated('PrevInterpolator'), 1, 0)}


# -- Outcomes and how they vary

def plain(value):
    from timeseria.datastructures import Series
    if isinstance(value, Series):
        return [[item.t, item.end.t if hasattr(item, 'end') else None, str(item.tz), str(item.unit) if hasattr(item, 'end') else None,
                 dict(item.data) if isinstance(item.data, dict) else {LIST: list(item.data)}, dict(item.data_indexes)] for item in value]
    if isinstance(value, list):
        # Instants and data
        return [[t, None, None, None, dict(data) if isinstance(data, dict) else {LIST: list(data)}, {}] for t, data in value]
    return [[None, None, None, None, dict(value), {}]]


LIST = 'the list'


def as_lists(want, got, count):
    """Expected rows, with lists in place of positions where lists are found."""
    if isinstance(got, str):
        return want
    out = []
    for row, found in zip(want, got):
        if LIST in found[4] and LIST not in row[4]:
            byposition = {next(k for k in [key] + [key[:-len(suffix)] for suffix in SUFFIXES if key.endswith(suffix)] if k.isdigit()): value for key, value in row[4].items()}
            row = row[:4] + [{LIST: [byposition[str(i)] for i in range(count)]}] + row[5:]
        out.append(row)
    return out + want[len(out):]


def outcome(f):
    try:
        return plain(f())
    except Exception as e:
        return type(e).__name__


def varied(rows, label=None, names=None, factor=1, shift=0):
    """How an outcome is expected to vary. Labels made out of others (by aggregations) start with them, and tell the operation after."""
    out = []
    for t, end, tz, unit, data, indexes in rows:
        if label is not None:
            data = {k: v for k, v in data.items() if k == label or k in [label + suffix for suffix in SUFFIXES]}
        if names is not None:
            data = {renamed(k, names): v for k, v in data.items()}
        if factor != 1:
            data = {k: v * factor if v is not None else v for k, v in data.items()}
        out.append([t + shift if t is not None else None, end + shift if end is not None else None, tz, unit, data, indexes])
    return out


SUFFIXES = ['_avg', '_min', '_max', '_sum', '_csum', '_diff', '_derivative', '_integral', '_mavg_2', '_mavg_3']


def renamed(key, names):
    if key in names:
        return names[key]
    for suffix in SUFFIXES:
        if key.endswith(suffix) and key[:-len(suffix)] in names:
            return names[key[:-len(suffix)]] + suffix
    return key


def compare(got, want, exact, **info):
    if isinstance(got, str) or isinstance(want, str):
        check_eq(got if isinstance(got, str) else 'done', want if isinstance(want, str) else 'done', 'refused or done as well', **info)
        return
    check_eq(len(got), len(want), 'as many items', **info)
    for i, (a, b) in enumerate(zip(got, want)):
        if exact:
            check(a == b, 'the same item', position=i, found=a, expected=b, **info)
        else:
            check(a[2:4] == b[2:4] and alike(a[0], b[0], 1e-5) and alike(a[1], b[1], 1e-5), 'the same instant', position=i, found=a, expected=b, **info)
            for which in (4, 5):
                check(sorted(a[which]) == sorted(b[which]), 'the same labels', position=i, found=a, expected=b, **info)
                scale = max([abs(x) for x in b[4].values() if isinstance(x, (int, float))] + [1e-6])
                for key in a[which]:
                    check(alike(a[which][key], b[which][key], 1e-6 * scale if which == 4 else 1e-6), 'the same value', position=i, label=key, found=a, expected=b, **info)


def alike(a, b, by):
    if a is None or b is None or a != a or b != b:
        return (a is None and b is None) or (a is not None and b is not None and a != a and b != b)
    return abs(a - b) <= by + 1e-9 * max(abs(a), abs(b))


def build(spec, orders=None):
    """The series, its labels in any order in each of the items."""
    from timeseria.datastructures import TimeSeries
    if orders is None:
        return gen.build(spec)
    series = TimeSeries()
    for i in range(len(spec['ts'])):
        item = gen.build_item(spec, i)
        k = orders[i % len(orders)] % len(spec['labels'])
        order = spec['labels'][k:] + spec['labels'][:k]
        if orders[i % len(orders)] % 2:
            order = order[::-1]
        data = {label: item.data[label] for label in order}
        item.data.clear()
        item.data.update(data)
        series.append(item)
    return series


def vary(spec, variation, k, names):
    """Another series, and what is expected to be different about it."""
    labels = spec['labels']
    named = labels[k % len(labels)]
    if variation == 'alone':
        j = labels.index(named)
        return dict(spec, labels=[named], data=[[row[j]] for row in spec['data']]), named, {'label': named}
    if variation == 'renamed':
        mapping = dict(zip(labels, names))
        return dict(spec, labels=[mapping[label] for label in labels]), mapping[named], {'names': mapping}
    if variation == 'positions':
        mapping = {label: str(i) for i, label in enumerate(labels)}
        return dict(spec, form='list'), mapping[named], {'names': mapping}
    if variation == 'scaled':
        factor = 2.0 ** (k - 40)
        return dict(spec, data=[[v * factor for v in row] for row in spec['data']]), named, {'factor': factor}
    if variation == 'moved':
        shift = CYCLE * (1 if k % 2 else -1)
        return dict(spec, ts=[t + shift for t in spec['ts']]), named, {'shift': shift}
    return spec, named, {}


def widen(spec, width):
    """More labels, with the values of the others in other orders."""
    n, m = len(spec['ts']), len(spec['labels'])
    more = [name for name in NAMES if name not in spec['labels']][:max(0, width - m)]
    return dict(spec, labels=spec['labels'] + more, data=[row + [spec['data'][(i + k + 1) % n][k % m] for k in range(len(more))] for i, row in enumerate(spec['data'])])


@st.composite
def cases(draw):
    variation = draw(st.sampled_from(VARIATIONS))
    spec = draw(gen.series_specs(min_n=2, max_n=12, forms=('dict',), pool=NAMES, max_labels=4, steps=[60, 300, 600, 900, 3600, 86400, 0.5], units=['1m', '10m', '1h', '1D', '1D', '1W', '1M'], tzs=['UTC'] if variation == 'moved' else gen.TZS, long=160))
    if draw(st.integers(0, 5)) == 4:
        spec = widen(spec, draw(st.sampled_from([7, 11, 14])))
    names = draw(st.permutations([name + draw(st.sampled_from(['', '2', 'é', ' b'])) if draw(st.booleans()) else name for name in NAMES]))
    return {'variation': variation, 'spec': spec, 'k': draw(st.integers(0, 80)), 'names': names[:len(spec['labels'])] if len(set(names)) == len(names) else sorted(set(names))[:len(spec['labels'])],
            'orders': draw(st.lists(st.integers(0, 9), min_size=1, max_size=6)) if variation == 'reordered' else None, 'at': draw(st.integers(2, 12)),
            'ops': draw(st.lists(st.sampled_from(sorted(OPS)), min_size=2, max_size=8, unique=True))}


def another(spec):
    """Another series with the same labels, to merge with."""
    return dict(spec, data=[[v + 1 if v > 0 else v * 2 for v in row] for row in spec['data']])


@sub('C31', 'operations', cases,
     'operations, transformations, conversions, storages and interpolators on series with one to fourteen labels, of up to some hundreds of items: nothing changes for a label if it is alone, renamed, in another order, if the data are lists, scaled by a power of two (exactly), moved by 28 years, '
     'and (for the operations which look around only) if the series goes on; non-trivial = at least two labels, or a scaled, moved or longer series, and at least two operations not refused', quick=1500, shards=4)
def operations(case, ctx):
    spec, variation = case['spec'], case['variation']
    if variation == 'longer':
        return longer(case, ctx)
    named = spec['labels'][case['k'] % len(spec['labels'])]
    new, new_named, expected = vary(spec, variation, case['k'], case['names'])
    factor = expected.get('factor', 1)
    done = 0
    for op in case['ops']:
        f, grows, _ = OPS[op]
        if variation == 'positions' and op in ('derivative in place', 'csum in place', 'filter'):
            # (lists have no labels to filter by, or to put the results in)
            continue
        base = outcome(lambda: f(gen.build(spec), gen.build(another(spec)), named, 1))
        got = outcome(lambda: f(build(new, case['orders']), build(scaled(another(spec), new, variation, expected), case['orders']), new_named, factor))
        if isinstance(base, str):
            if variation != 'alone':
                compare(got, base, True, op=op, variation=variation)
            elif len(spec['labels']) < 5 and op not in ('min of', 'avg of', 'rescale one', 'offset one', 'filter'):
                alone = [vary(spec, 'alone', j, None) for j in range(len(spec['labels']))]
                check(any(isinstance(outcome(lambda: f(gen.build(one), gen.build(scaled(another(spec), one, 'alone', e)), label, 1)), str) for one, label, e in alone),
                      'what is refused for all labels is refused for one of them', op=op, refused=base)
            continue
        done += 1
        changes = dict(expected)
        if not grows:
            changes.pop('factor', None)
        want = varied(base, **changes)
        if variation == 'positions':
            want = as_lists(want, got, len(spec['labels']))
        compare(got, want, variation not in ('moved',), op=op, variation=variation)
    ctx.nontrivial(done > 1 and (len(spec['labels']) > 1 or variation in ('scaled', 'moved')))
    ctx.label(variation)
    ctx.label('wide', len(spec['labels']) > 5)
    ctx.label('long', len(spec['ts']) > 15)


def scaled(other, new, variation, expected):
    """The other series, varied in the same way."""
    if variation == 'alone':
        j = other['labels'].index(expected['label'])
        return dict(new, data=[[row[j]] for row in other['data']])
    if variation == 'scaled':
        return dict(new, data=[[v * expected['factor'] for v in row] for row in other['data']])
    return dict(new, data=other['data'])


def longer(case, ctx):
    spec = case['spec']
    n = len(spec['ts'])
    at = min(case['at'] if n < 15 else n * case['at'] // 13, n - 1)
    if at < 2:
        raise Reject()
    part = zoo.cut(spec, 0, at)
    done = 0
    named = spec['labels'][case['k'] % len(spec['labels'])]

    def sampling(one):
        series = gen.build(one)
        return str(series.guess_resolution() if series.resolution == 'variable' else series.resolution)
    same = sampling(spec) == sampling(part)
    alike_resolution = str(gen.build(spec).resolution) == str(gen.build(part).resolution)
    for op in case['ops']:
        f, _, last = OPS[op]
        if last is None or (not same and op.split()[0] in ('derivative', 'resample', 'aggregate', 'integral', 'differences')):
            continue
        less = outcome(lambda: f(gen.build(part), None, named, 1))
        more = outcome(lambda: f(gen.build(spec), None, named, 1))
        if alike_resolution and isinstance(more, str):
            compare(less, more, False, op=op, variation='longer')
        if isinstance(less, str) or isinstance(more, str):
            continue
        done += 1
        keep = max(0, len(less) - last)
        check(len(more) >= keep, 'not shorter', op=op)
        compare(more[:keep], less[:keep], False, op=op, variation='longer')
    ctx.nontrivial(done > 1)
    ctx.label('longer')
    ctx.label('long', n > 15)


# -- Models

def _fitted(name, **kwargs):
    from timeseria.models import forecasters, reconstructors, anomaly_detectors
    return getattr(next(m for m in (forecasters, reconstructors, anomaly_detectors) if hasattr(m, name)), name)(**kwargs)


def _forecast(series, more, p):
    model = _fitted('PeriodicAverageForecaster', window=p['window'])
    model.fit(series, periodicity=p['periodicity'], dst_affected=p['dst'])
    return model.apply(more, steps=p['steps'])


def _forecasts(series, more, p):
    model = _fitted('PeriodicAverageForecaster', window=p['window'])
    model.fit(series, periodicity=p['periodicity'])
    predictions = model.predict(more, steps=p['steps'])
    return [[None, prediction] for prediction in (predictions if isinstance(predictions, list) else [predictions])]


def _reconstruct(series, more, p):
    model = _fitted('PeriodicAverageReconstructor')
    model.fit(series, periodicity=p['periodicity'], dst_affected=p['dst'])
    return model.apply(more)


def _linear(series, more, p):
    return _fitted('LinearInterpolationReconstructor').apply(more)


def _detect(name):
    def f(series, more, p):
        model = _fitted(name)
        model.fit(series, periodicity=p['periodicity'], dst_affected=p['dst'], error_metric=p['metric'], error_distribution=p['distribution'])
        return model.apply(more)
    return f


MODELS = {'forecast': (_forecast, 'each'), 'forecasts': (_forecasts, 'each'), 'reconstruct': (_reconstruct, 'each'), 'linear': (_linear, 'each'),
          'detect': (_detect('PeriodicAverageAnomalyDetector'), 'all'), 'detect by reconstructing': (_detect('PeriodicAverageReconstructorAnomalyDetector'), 'all')}


@st.composite
def modelled(draw):
    variation = draw(st.sampled_from(['alone', 'alone', 'renamed', 'reordered', 'scaled', 'moved']))
    model, start = draw(st.sampled_from(sorted(MODELS))), draw(st.integers(0, 4))
    single = model in ('reconstruct', 'detect by reconstructing')
    spec = draw(zoo.series(10, 24, labels=draw(gen.labels_lists(1, 1 if single else 4, pool=NAMES)), tzs=['UTC'] if variation == 'moved' else gen.TZS, units=['10m', '1h', '1D'] + (['24h', '1M'] if variation != 'moved' else ['1W']), value='mixed', losses=draw(st.sampled_from(['none', 'some']))))
    if not single and draw(st.integers(0, 5)) == 4:
        spec = widen(spec, draw(st.sampled_from([7, 11])))
    names = draw(st.permutations(NAMES))
    if spec.get('indexes') and model in ('reconstruct', 'linear', 'detect by reconstructing'):
        # There has to be something at the ends
        for i in list(range(start + 2)) + [-1]:
            spec['indexes'][i] = {'data_loss': 0}
    return {'variation': variation, 'spec': spec, 'k': draw(st.integers(0, 80)), 'names': names[:len(spec['labels'])], 'orders': draw(st.lists(st.integers(0, 9), min_size=1, max_size=6)) if variation == 'reordered' else None,
            'model': model, 'from': start,
            'p': {'periodicity': draw(st.sampled_from([2, 3, 4, 'auto'])), 'dst': draw(st.booleans()), 'window': draw(st.sampled_from(['auto', 2, 3])), 'steps': draw(st.integers(1, 4)), 'metric': draw(st.sampled_from(['E', 'AE'])), 'distribution': draw(st.sampled_from(['norm', 'laplace']))}}


@sub('C31', 'models', modelled,
     'models fitted on series with one to eleven labels, and applied to them or to their last part: what they give for a label is the same if it is alone (but for detectors), renamed, in another order, scaled by a power of two, or moved by 28 years; non-trivial = at least two labels, or scaled or moved, and not refused',
     quick=500, shards=4)
def models(case, ctx):
    spec, variation, p = case['spec'], case['variation'], case['p']
    f, which = MODELS[case['model']]
    if variation == 'moved' and min(spec['ts']) - CYCLE < -2 * 10 ** 9:
        raise Reject()
    if which == 'all' and variation == 'alone':
        variation = 'renamed'
    new, _, expected = vary(spec, variation, case['k'], case['names'])
    n = len(spec['ts'])

    def parts(one, orders=None):
        return build(one, orders), build(zoo.cut(one, case['from'], n), orders)
    base = outcome(lambda: f(*parts(spec), p))
    got = outcome(lambda: f(*parts(new, case['orders']), p))
    if isinstance(base, str):
        if variation != 'alone':
            compare(got, base, True, model=case['model'], variation=variation)
        return
    compare(got, varied(base, **expected), False, model=case['model'], variation=variation)
    ctx.nontrivial(len(spec['labels']) > 1 or variation in ('scaled', 'moved'))
    ctx.label(variation)
    ctx.label(case['model'])
