"""C08 - operations never change their inputs, and their results are independent."""
import copy

from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import sub, check, check_eq, raises, fail, Violation, Reject
from checks import c19

# Each operation on a series: what it gives (a value which can be compared, or a series)
NEW = ['derivative', 'derivative raw', 'integral', 'integral c', 'diff', 'csum', 'csum offset', 'normalize', 'normalize range', 'rescale', 'rescale dict', 'offset', 'offset dict', 'mavg', 'filter', 'merge', 'merge three',
       'resample', 'resample uniform', 'aggregate', 'aggregate ops', 'aggregate day', 'as_tz', 'duplicate', 'to_dict', 'materialize', 'to_df']
PLAIN = ['min', 'max', 'avg', 'sum', 'to_json', 'summary', 'repr', 'labels', 'resolution', 'guess', 'tz', 'contents', 'head', 'slice', 'slice_t', 'select', 'view', 'get', 'iterate', 'plot', 'save']


def run(series, other, op, spec, tmp=None):
    from timeseria import operations as ops
    from timeseria.interpolators import UniformInterpolator
    from timeseria.transformations import Resampler, Aggregator
    labels = gen.label_names(spec)
    unit = '10m'
    if op == 'derivative raw':
        return series.derivative(normalize=False)
    if op == 'integral c':
        return series.integral(c=3)
    if op == 'csum offset':
        return series.csum(offset={l: 1 for l in labels} if spec['form'] == 'dict' else 1)
    if op == 'normalize range':
        return series.normalize(range=[-1, 1], source_range={l: [-1000, 1000] for l in labels})
    if op in ('rescale', 'offset'):
        return getattr(series, op)(2.5)
    if op in ('rescale dict', 'offset dict'):
        return getattr(series, op.split()[0])({labels[0]: -2})
    if op == 'mavg':
        return series.mavg(2)
    if op == 'filter':
        return series.filter(labels[0])
    if op == 'merge':
        return series.merge(other)
    if op == 'merge three':
        return ops.merge(other, series, other)
    if op == 'resample':
        return series.resample(unit)
    if op == 'resample uniform':
        return Resampler(unit, interpolator_class=UniformInterpolator).process(series)
    if op == 'aggregate':
        return series.aggregate(unit)
    if op == 'aggregate ops':
        return Aggregator(unit, operations=[ops.avg, 'min', 'max', ops.sum]).process(series)
    if op == 'aggregate day':
        return series.aggregate('1D')
    if op == 'as_tz':
        return series.as_tz('Asia/Kolkata')
    if op == 'materialize':
        return series.view(0, len(series)).materialize()
    if op == 'labels':
        return series.data_labels()
    if op == 'resolution':
        return str(series.resolution)
    if op == 'guess':
        return str(series.guess_resolution(confidence=True))
    if op == 'tz':
        return str(series.tz)
    if op == 'repr':
        return str(series) + repr(series) + str([str(item) for item in series])
    if op == 'slice':
        return series.slice(1, len(series))
    if op == 'slice_t':
        return series.slice(from_t=spec['ts'][0], to_t=spec['ts'][-1])
    if op == 'select':
        return list(series.select('"{}"={}'.format(labels[0], gen.by_label(spec, 0, labels[0]))) or [])
    if op == 'view':
        return list(series.view(1, len(series)))
    if op == 'get':
        return [series.get(at_i=0), series.get(at_t=spec['ts'][-1])]
    if op == 'iterate':
        return [item for item in series]
    if op == 'plot':
        html = series.plot(html=True)
        check(isinstance(html, str) and len(html) > 0, 'the plot is given as HTML')
        return None
    if op == 'save':
        series.save(tmp, overwrite=True)
        with open(tmp) as f:
            return [line for line in f if not line.startswith('# Generated')]
    if op == 'to_df':
        df = series.to_df()
        return [[str(c) for c in df.columns], [str(i) for i in df.index], [[float(v) if v is not None and v == v else None for v in row] for row in df.values.tolist()]]
    return getattr(series, op)()


def plain(value):
    """What an operation gave, as comparable plain data."""
    from timeseria.datastructures import Series, Point, Slot
    if isinstance(value, Series):
        return [type(value).__name__, gen.snapshot(value)]
    if isinstance(value, (Point, Slot)):
        return gen.snapshot_item(value)
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if isinstance(value, dict):
        return {str(k): plain(v) for k, v in value.items()}
    return value


def state(series):
    """Everything observable of a series."""
    return [gen.snapshot(series), str(series.tz), str(series.resolution), series.data_labels(), len(series), str(series.item_type), series.avg(), series.max(), [dict(item.data_indexes) for item in series]]


def scramble(value):
    """Change a result as deeply as one can."""
    from timeseria.datastructures import Series
    if isinstance(value, Series):
        for item in value:
            if isinstance(item.data, dict):
                for key in list(item.data):
                    item.data[key] = 99999
                item.data['scrambled'] = 1
            else:
                item.data[0] = 99999
                item.data.append(1)
            item.data_indexes['scrambled'] = 1
            for key in item.data_indexes:
                item.data_indexes[key] = 77
        if len(value):
            value.change_tz('Asia/Tokyo')
            value.pop()
        if len(value):
            value.clear()
    elif isinstance(value, dict):
        for key in list(value):
            if isinstance(value[key], dict):
                value[key]['scrambled'] = 99999
                for k in list(value[key]):
                    value[key][k] = 99999
            elif isinstance(value[key], list):
                value[key][0] = 99999
            del value[key]


@st.composite
def cases(draw):
    spec = draw(gen.series_specs(min_n=3, max_n=9, long=100, steps=[60, 300, 600], units=['1m', '10m', '1h', '1D'], value=st.integers(-400, 400).map(lambda i: i / 4), subsecond=False,
                                 t0s=st.sampled_from([0, 600, 1325376000, 1364688000 - 3600])))
    return {'spec': spec, 'ops': draw(st.lists(st.sampled_from(NEW * 2 + PLAIN), min_size=2, max_size=8)), 'view': draw(st.integers(0, 4)) == 0}


def attempt(series, other, op, spec, tmp):
    """The result, or the fact that the operation is not applicable to such a series (which must not change either)."""
    try:
        return run(series, other, op, spec, tmp)
    except Violation:
        raise
    except Exception as e:
        return 'refused: {}'.format(type(e).__name__)


@sub('C08', 'operations', cases,
     'sequences of (non in-place) operations, conversions, plots and savings on the same series, of points or slots: after each, the series and the other operands are exactly as before, the '
     'result is the same as on a freshly built series, and whatever is done to a result which is a new series (or dictionary) does not affect the series; non-trivial = at least two '
     'operations gave a new series', quick=900, thorough=16000, shards=4)
def operations(case, ctx):
    import os
    import tempfile
    spec = case['spec']
    other_spec = dict(spec, data=[[v + 1 for v in row] for row in spec['data']])
    series, other = gen.build(spec), gen.build(other_spec)
    if case['view']:
        series = series.view(0, len(series))
    before, other_before = state(series), state(other)
    given = {'spec': copy.deepcopy(spec)}
    done = 0
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'series.csv')
        for op in case['ops']:
            result = attempt(series, other, op, spec, path)
            check_eq(state(series), before, 'the series is unchanged by {}'.format(op))
            check_eq(state(other), other_before, 'the other series is unchanged by {}'.format(op))
            fresh = gen.build(spec)
            if case['view']:
                fresh = fresh.view(0, len(fresh))
            check_eq(plain(result), plain(attempt(fresh, gen.build(other_spec), op, spec, path)), '{} gives the same on a series which was already worked on as on a new one'.format(op))
            if op in NEW and not isinstance(result, str):
                done += 1
                scramble(result)
                check_eq(state(series), before, 'the series is not affected by what is done on the result of {}'.format(op))
                check_eq(state(other), other_before, 'the other series is not affected by what is done on the result of {}'.format(op))
            ctx.label('refused', isinstance(result, str) and result.startswith('refused'))
    check_eq(spec, given['spec'], 'harness: spec')
    ctx.nontrivial(done >= 2)


@st.composite
def building_cases(draw):
    spec = draw(gen.series_specs(min_n=1, max_n=5, value=gen.int_values(), with_indexes=True))
    return {'spec': spec, 'how': draw(st.sampled_from(['items', 'from_dict', 'operation parameters']))}


@sub('C08', 'parameters', building_cases,
     'the dictionaries, lists and objects given as parameters (data and indexes of items, ranges, factors, offsets, series as dictionary) are not changed by building '
     'and operating on a series with them; non-trivial = at least two items', quick=500)
def parameters(case, ctx):
    from timeseria.datastructures import TimeSeries, DataTimePoint, DataTimeSlot, TimePoint
    from timeseria.units import TimeUnit
    spec = case['spec']
    n = len(spec['ts'])
    labels = gen.label_names(spec)
    ctx.nontrivial(n >= 2)
    if case['how'] == 'items':
        data = [gen.make_data(spec, row) for row in spec['data']]
        indexes = [dict(d) for d in spec['indexes']]
        given = copy.deepcopy([data, indexes])
        items = []
        for i in range(n):
            if spec['kind'] == 'points':
                items.append(DataTimePoint(t=spec['ts'][i], tz=spec['tz'], data=data[i], data_indexes=indexes[i]))
            else:
                items.append(DataTimeSlot(start=TimePoint(spec['ts'][i], tz=spec['tz']), unit=TimeUnit(spec['unit']), data=data[i], data_indexes=indexes[i]))
        series = TimeSeries(*items)
        for op in ('offset', 'duplicate', 'min', 'normalize', 'derivative'):
            attempt(series, series, op, spec, None)
        check_eq([data, indexes], given, 'the data and the indexes given are unchanged')
        # Adding an index to an item does not affect what was given, and thus other items built from it
        for item in series:
            item.data_indexes['added'] = 1
        check_eq(indexes, given[1], 'the indexes given are not affected by those of the items')
    elif case['how'] == 'from_dict':
        if spec['kind'] == 'slots':
            return
        dictionary = {t: gen.make_data(spec, row) for t, row in zip(spec['ts'], spec['data'])}
        given = copy.deepcopy(dictionary)
        series = TimeSeries.from_dict(dictionary)
        for op in ('offset', 'csum', 'normalize', 'filter', 'to_json'):
            attempt(series, series, op, spec, None)
        check_eq(dictionary, given, 'the dictionary given is unchanged')
    else:
        series = gen.build(spec)
        factors = {l: 2 for l in labels}
        ranges = {l: [-1000, 1000] for l in labels}
        target = [-1, 1]
        offsets = {l: 5 for l in labels}
        given = copy.deepcopy([factors, ranges, target, offsets])
        results = []
        for call in (lambda: series.rescale(factors), lambda: series.offset(offsets), lambda: series.normalize(range=target, source_range=ranges), lambda: series.csum(offset=offsets),
                     lambda: series.integral(c=offsets), lambda: series.duplicate().rescale(factors, inplace=True), lambda: series.duplicate().normalize(range=target, source_range=ranges, inplace=True)):
            try:
                results.append(call())
            except (ValueError, TypeError, NotImplementedError):
                pass
        check_eq([factors, ranges, target, offsets], given, 'the parameters given are unchanged')
        # And defaults are not changed either
        again = gen.build(spec)
        if all(len(set(gen.by_label(spec, i, l) for i in range(n))) > 1 for l in labels):
            first = plain(again.normalize())
            check_eq(plain(again.normalize()), first, 'defaults are the same at every call')


MODELS = ['PeriodicAverageForecaster', 'PeriodicAverageReconstructor', 'LinearInterpolationReconstructor', 'PeriodicAverageAnomalyDetector', 'PeriodicAverageReconstructorAnomalyDetector', 'Persistence', 'ContextualDetector', 'Fittable']
METHODS = {'Forecaster': ['predict', 'apply', 'apply details', 'evaluate', 'evaluate series', 'forecast', 'cross validate', 'fit again'], 'Reconstructor': ['predict', 'apply', 'apply details', 'evaluate', 'evaluate series', 'cross validate', 'fit again'],
           'Detector': ['apply', 'apply details', 'mark', 'preprocess', 'fit again'], 'Fittable': ['predict', 'apply', 'evaluate', 'fit again']}
METHODS['Persistence'] = METHODS['Forecaster']


@sub('C08', 'models', lambda: st.fixed_dictionaries({'kind': st.sampled_from(MODELS), 'spec': zoo.series(14, 22), 'use': st.lists(st.integers(0, 55), min_size=2, max_size=5), 'view': st.sampled_from([False, False, True]), 'where': st.integers(3, 8), 'p': c19.PARAMETERS}),
     'sequences of uses of a fitted model (predictions, applications, evaluations, cross validations, further fits, pre-processings) on the same series or view: after each, also when it fails, the series it was fitted on and that it is used on are exactly as before, '
     'changing what it gave changes neither of them, nor what the model gives next, nor does changing the series later on change what was given; non-trivial = at least two uses gave something', quick=300, thorough=4000, shards=3)
def models(case, ctx):
    from timeseria.models import reconstructors
    kind, p = case['kind'], dict(case['p'], periodicity=3 if case['p']['periodicity'] == 'auto' else case['p']['periodicity'])
    spec = c19.usable(kind, case['spec'])
    n = len(spec['ts'])
    # A gap to be reconstructed, with something around
    gap = range(case['where'], case['where'] + 3)
    used_spec = dict(spec, indexes=[dict((spec.get('indexes') or [{}] * n)[i], data_loss=1 if i in gap else 0, other=i / 32) for i in range(n)])
    learnt = gen.build(spec)
    if kind == 'LinearInterpolationReconstructor':
        model = reconstructors.LinearInterpolationReconstructor()
    else:
        model = c19.make(kind, p)
        before = state(learnt)
        try:
            c19.fit(model, kind, learnt, p)
        except Exception:
            raise Reject()
        finally:
            check_eq(state(learnt), before, 'the series is unchanged by fitting')

    def new():
        series = gen.build(used_spec)
        return series, (series.view(0, n - 1) if case['view'] else series)

    def use(what, series):
        if what == 'apply details':
            what, more = 'apply', ({'details': True} if kind.endswith('Detector') else {'steps': 2} if kind in ('PeriodicAverageForecaster', 'Persistence') else {'data_loss_threshold': 0.5})
        elif what == 'evaluate series':
            what, more = 'evaluate', {'return_results_series': True} if not kind.endswith('Reconstructor') else {'details': True}
        elif what == 'cross validate':
            return c19.make(kind, p).cross_validate(series, rounds=2)
        elif what == 'fit again':
            second = c19.make(kind, p)
            return c19.fit(second, kind, series, p)
        elif what == 'mark':
            return model.mark_events(model.apply(series))
        elif what == 'predict' and kind.endswith('Reconstructor'):
            more = {'from_i': gap[0], 'to_i': gap[-1]}
        else:
            more = {}
        return getattr(model, what)(series, **more)

    def tried(what, series):
        try:
            return use(what, series)
        except Exception as e:
            return 'refused: {}'.format(type(e).__name__)
    whole, series = new()
    before, whole_before, learnt_before = state(series), state(whole), state(learnt)
    given = 0
    methods = [v for k, v in METHODS.items() if kind.endswith(k)][0]
    for k in case['use']:
        what = methods[k % len(methods)]
        result = tried(what, series)
        check_eq(state(series), before, 'the series is unchanged by: {}'.format(what))
        check_eq(state(whole), whole_before, 'the series viewed is unchanged by: {}'.format(what))
        check_eq(state(learnt), learnt_before, 'the series of the fit is unchanged by: {}'.format(what))
        if isinstance(result, str) or result is None:
            continue
        given += 1
        told = c19.plain(result)
        # Changing the source does not change what was given
        other_whole, other = new()
        second = tried(what, other)
        check_eq(c19.plain(second), told, 'what is given on the same series: {}'.format(what))
        scramble(other_whole)
        check_eq(c19.plain(second), told, 'what was given by {} is not affected by what is done on the series'.format(what))
        # Changing what was given does not change the source
        scramble(result)
        if isinstance(result, (list, tuple)):
            for x in result:
                scramble(x) if isinstance(x, dict) else None
        check_eq(state(whole), whole_before, 'the series is not affected by what is done on what was given by {}'.format(what))
        check_eq(c19.plain(tried(what, new()[1])), told, 'what is given next is not affected: {}'.format(what))
    ctx.nontrivial(given >= 2)
    ctx.label('view', case['view'])
