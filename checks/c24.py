"""C24 - anomaly detection."""
import contextlib
import io
import math

from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import sub, check, check_eq, check_close, close, fail, raises, Reject
from checks.c20 import model_of

FORECASTERS = ['PeriodicAverage', 'Persistence list', 'Persistence dict', 'Persistence dict of lists', 'Contextual']
RECONSTRUCTORS = ['PeriodicAverageReconstructor', 'Mean list', 'Mean dict']
_CLASSES = {}


def classes():
    """Detectors based on the custom models, too."""
    if not _CLASSES:
        from timeseria.models import anomaly_detectors as ad
        for name in ('Persistence', 'Contextual', 'MeanReconstructor'):
            _CLASSES[name] = type(name + 'AnomalyDetector', (ad.ModelBasedAnomalyDetector,), {'model_class': zoo.custom()[name]})
        _CLASSES['PeriodicAverage'] = ad.PeriodicAverageAnomalyDetector
        _CLASSES['PeriodicAverageReconstructor'] = ad.PeriodicAverageReconstructorAnomalyDetector
    return _CLASSES


def detector(case):
    """A fitted detector, and the models to predict with for each label (fitted by themselves)."""
    from timeseria.models.base import Model
    kind, spec = case['kind'], case['spec']
    fit = {'error_metric': case['metric'], 'error_distribution': case['distribution']}
    if case.get('forget'):
        fit['store_errors'] = False
    if case.get('verbose'):
        fit['verbose'] = True
    own, args = {}, {}
    if kind.startswith('PeriodicAverage'):
        own = {'periodicity': case['period'], 'data_loss_limit': None}
        name = kind
        make = (lambda: model_of('reconstructors', 'PeriodicAverageReconstructor')) if kind.endswith('Reconstructor') else (lambda: model_of('forecasters', 'PeriodicAverageForecaster', **args))
        if not kind.endswith('Reconstructor'):
            args = {'window': case['window']}
    else:
        name = {'Mean': 'MeanReconstructor'}.get(kind.split()[0], kind.split()[0])
        make = lambda: zoo.custom()[name](**args)
        if name != 'Contextual':
            args['how'] = kind.split(' ', 1)[1]
        if name == 'Persistence':
            own['drift'] = case['drift']
        if name != 'MeanReconstructor':
            args['window'] = case['window']
    if kind.startswith('Mean'):
        # Nothing to fit
        class Fitted(zoo.custom()[name]):
            @Model.fit_function
            def fit(self, series, verbose=False):
                pass
        cls = type('MeanAnomalyDetector', (classes()['MeanReconstructor'],), {'model_class': Fitted})
        make = lambda: Fitted(**args)
    else:
        cls = classes()[name]
    model = cls(**args)
    models = {}
    if name == 'Contextual':
        model.fit(gen.build(spec), with_context=True, **fit)
        for label in spec['labels']:
            models[label] = make()
            models[label].fit(gen.build(spec), target=label, with_context=True)
    else:
        model.fit(gen.build(spec), **dict(own, **fit))
        one = make()
        one.fit(gen.build(spec), **own)
        models = {label: one for label in spec['labels']}
    return model, models


def predictions(case, models, spec):
    """What the models predict for each item for which they can, and for each label."""
    n = len(spec['ts'])
    window = 1 if case['kind'] in RECONSTRUCTORS else case['window']
    out = {}
    for i in range(window + 1, n - window if case['kind'] in RECONSTRUCTORS else n):
        out[i] = {}
        for label in spec['labels']:
            if case['kind'] in RECONSTRUCTORS:
                got = models[label].predict(gen.build(spec), from_i=i, to_i=i)
            elif case['kind'] == 'Contextual':
                context = {other: v for other, v in zip(spec['labels'], spec['data'][i]) if other != label}
                got = models[label].predict(gen.build(zoo.cut(spec, 0, i)), context_data=context)
            else:
                got = models[label].predict(gen.build(zoo.cut(spec, 0, i)))
            got = got[0] if isinstance(got, list) else got
            out[i][label] = got[label][0] if isinstance(got[label], list) else got[label]
    return window, out


def error_of(metric, actual, predicted):
    error = actual - predicted
    if metric in ('PE', 'APE'):
        error = error / actual
    return abs(error) if metric[0] == 'A' else error


BOUNDS = st.one_of(st.just(['avg_err', 'max_err']), st.tuples(st.sampled_from(['avg_err', '1_sigma', '0.5_sigma', '2sig', 'adherence/2', 'adherence/1.5', 0.05, 1, 'zero']), st.sampled_from(['max_err', '3_sigma', '5_sigma', '2.5sig', 'adherence/10', 'adherence/100', 2.5, 8])).map(list))


@st.composite
def cases(draw, kinds=tuple(FORECASTERS + RECONSTRUCTORS)):
    kind = draw(st.sampled_from(list(kinds)))
    labels = 1 if kind == 'PeriodicAverageReconstructor' else 3
    spec = draw(zoo.series(12, 20, max_labels=labels, losses='none', value=zoo.quarters(20, 60)))
    if kind == 'Contextual' and len(spec['labels']) < 2:
        spec = dict(spec, labels=spec['labels'] + ['other'], data=[row + [20 + (i * i) % 7] for i, row in enumerate(spec['data'])])
    # Errors always vary
    noise = draw(st.integers(1, 9))
    spec['data'] = [[v + (noise * (i * i * 7 + i * (3 + j)) % 11) / 4 for j, v in enumerate(row)] for i, row in enumerate(spec['data'])]
    n = draw(st.integers(8, 14))
    other = dict(spec, ts=zoo.instants(draw(st.sampled_from(zoo.starts(spec['res'], spec['tz']))), spec['res'], spec['tz'], n, draw(st.integers(0, 3))), data=draw(gen.rows(n, len(spec['labels']), zoo.quarters(10, 80))))
    if draw(st.booleans()):
        other['indexes'] = [{'data_loss': x} for x in draw(st.lists(st.sampled_from([0, 0, 0, 0, 0.5, 1, None]), min_size=n, max_size=n))]
    if spec['kind'] == 'slots' and spec['res'] in zoo.CALENDAR or kind == 'PeriodicAverage':
        # The phases are those of the fit
        other['ts'] = (spec['ts'] + zoo.following(spec, n))[draw(st.integers(0, 4)):][:n]
    return {'kind': kind, 'spec': spec, 'other': other, 'window': draw(st.integers(2, 4)), 'period': draw(st.integers(2, 3)), 'drift': draw(st.integers(0, 2)), 'metric': draw(st.sampled_from(['E', 'AE', 'PE', 'APE'])),
            'distribution': draw(st.sampled_from(['norm', 'norm', 'laplace', 'logistic', 'gennorm'])), 'bounds': draw(BOUNDS), 'tuple': draw(st.booleans()), 'type': draw(st.sampled_from(['log', 'log', 'lin', 'callable'])),
            'threshold': draw(st.sampled_from([None, None, 0.3, 0.75, 1.0])), 'strategy': draw(st.sampled_from(['max', 'max', 'min', 'avg', 'callable'])), 'loss': draw(st.sampled_from([1.0, 0.5])),
            'details': draw(st.sampled_from([False, False, True, ['pred'], ['err', 'adh'], ['adh']])), 'self': draw(st.booleans())}


class Reference(object):
    """The error distribution of a label."""
    def __init__(self, case, errors):
        import scipy.stats
        self.dist = getattr(scipy.stats, case['distribution'])
        self.errors = errors
        mean = sum(errors) / len(errors)
        self.stdev = math.sqrt(sum((x - mean) ** 2 for x in errors) / (len(errors) - 1))
        if self.stdev < 1e-6:
            raise Reject()
        self.params = self.dist.fit(errors)
        self.loc, self.scale = self.params[-2], self.params[-1]
        if case['distribution'] == 'norm':
            check_close(self.loc, mean, 'mean', 1e-6, 1e-9)

    def y(self, x):
        return float(self.dist.pdf(x, *self.params))

    def bound(self, what):
        if what == 'max_err':
            return max(abs(x) for x in self.errors)
        if what == 'avg_err':
            return sum(abs(x) for x in self.errors) / len(self.errors)
        if what == 'zero':
            return 0
        if isinstance(what, str) and what.endswith('sig'):
            return float(what[:-3]) * self.stdev
        if isinstance(what, str) and what.endswith('_sigma'):
            return float(what[:-6]) * self.stdev
        if isinstance(what, str):
            # Where the density is the given fraction of its maximum, on the right
            target = self.y(self.loc) / float(what.split('/')[1])
            a, b = self.loc, self.loc + 1000 * self.scale
            if not self.y(b) < target:
                # Tails heavier than what is looked for
                raise Reject()
            for _ in range(200):
                m = (a + b) / 2
                a, b = (m, b) if self.y(m) > target else (a, m)
            return (a + b) / 2
        return what

    def index(self, error, bounds, how):
        """The index, and whether it is on a boundary (where rounding decides)."""
        x = error if error >= self.loc else 2 * self.loc - error
        start, end = (self.bound(b) for b in bounds)
        y, ys, ye = self.y(x), self.y(start), self.y(end)
        near = 1e-7 * max(1, abs(start), abs(end))
        edge = abs(x - start) < near or abs(x - end) < near
        if x <= start:
            return 0, edge
        if x >= end:
            return 1, edge
        if how == 'callable':
            return (x - start) / (end - start) + 0.01 * (y > 0) * (ys > 0) * (ye > 0), edge
        if how == 'lin':
            if ys == ye:
                raise Reject()
            value = 1 - (y - ye) / (ys - ye)
        else:
            if y <= 0 or ys <= 0 or ye <= 0 or ys == ye:
                raise Reject()
            value = (math.log10(y) - math.log10(ys)) / (math.log10(ye) - math.log10(ys))
        return min(max(value, 0), 1), edge


def own_index(x, y, x_start, x_end, y_start, y_end):
    return (x - x_start) / (x_end - x_start) + 0.01 * (y > 0) * (y_start > 0) * (y_end > 0)


def own_strategy(values):
    return sorted(values)[len(values) // 2] + 3


def options(case):
    bounds = [0 if b == 'zero' else b for b in case['bounds']]
    return {'index_bounds': tuple(bounds) if case['tuple'] else bounds, 'index_type': own_index if case['type'] == 'callable' else case['type'], 'threshold': case['threshold'],
            'multivariate_index_strategy': own_strategy if case['strategy'] == 'callable' else case['strategy'], 'data_loss_threshold': case['loss'], 'details': case['details']}


@sub('C24', 'indexes', lambda: cases(),
     'detectors based on built-in and custom forecasters and reconstructors (giving predictions in all of the supported ways, and with context), error metrics, distributions, bounds, index types, thresholds, strategies, data losses and details, on the series of '
     'the fit or another: the anomaly index of each item (as well as prediction, error and adherence) is that of its definition, from separately computed predictions and distributions; non-trivial = at least an index between 0 and 1 (excluded)', quick=400, shards=4)
def indexes(case, ctx):
    spec = case['spec']
    window, learnt = None, None
    try:
        model, models = detector(case)
    except (KeyError, ZeroDivisionError):
        raise Reject()
    window, learnt = predictions(case, models, spec)
    refs = {}
    for j, label in enumerate(spec['labels']):
        errors = [error_of(case['metric'], spec['data'][i][j], learnt[i][label]) for i in sorted(learnt)]
        refs[label] = Reference(case, errors)
    other = spec if case['self'] else case['other']
    try:
        _, got = predictions(case, models, other)
    except KeyError:
        raise Reject()
    series = gen.build(other)
    before = gen.snapshot(series)
    try:
        starts_ends = [(refs[label].bound(case['bounds'][0]), refs[label].bound(case['bounds'][1])) for label in refs]
    except ValueError:
        raise Reject()
    if any(not a < b for a, b in starts_ends):
        # Bounds which make no sense
        return
    ys = [refs[label].y(x) for label, pair in zip(refs, starts_ends) for x in pair]
    if case['type'] == 'log' and min(ys) <= 0:
        check(raises(lambda: model.apply(series, **options(case)), ValueError) is not None, 'bounds where the distribution vanishes')
        return
    result = model.apply(series, **options(case))
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')
    slots = other['kind'] == 'slots'
    check_eq([x.start.t if slots else x.t for x in result], [other['ts'][i] for i in sorted(got)], 'the items which are not too close to the start (or the end)')
    lost = [x is not None and x >= case['loss'] for x in zoo.losses(other)]
    around = window if case['kind'] in RECONSTRUCTORS else 0
    middle = False
    for i, item in zip(sorted(got), result):
        source = series[i]
        check_eq(str(item.start.tz if slots else item.tz), other['tz'], 'time zone')
        check_eq(item.data_loss, source.data_loss, 'data loss')
        check_eq({k: v for k, v in item.data.items() if k in spec['labels']}, source.data, 'data of the item')
        extra = ['pred', 'err', 'adh'] if case['details'] is True else case['details'] or []
        check_eq(set(item.data), set(spec['labels']) | {'{}_{}'.format(label, x) for label in spec['labels'] for x in extra}, 'labels')
        if any(lost[i - window:i + around + 1]):
            check_eq(item.data_indexes, dict(source.data_indexes, anomaly=None), 'index of items with lost ones around', i=i)
            check_eq([item.data['{}_{}'.format(label, x)] for label in spec['labels'] for x in extra], [None] * len(spec['labels']) * len(extra), 'details of items with lost ones around')
            continue
        values, edge = [], False
        for j, label in enumerate(spec['labels']):
            ref = refs[label]
            error = error_of(case['metric'], other['data'][i][j], got[i][label])
            value, near = ref.index(error, case['bounds'], case['type'])
            middle = middle or 0 < value < 1
            if case['threshold'] is not None:
                near = near or abs(value - case['threshold']) < 1e-6
                value = 1 if value >= case['threshold'] else 0
                edge = edge or near
            elif case['type'] == 'callable':
                edge = edge or near
            values.append(value)
            want = {'pred': got[i][label], 'err': error, 'adh': ref.y(error) / ref.y(ref.loc)}
            for x in extra:
                check_close(item.data['{}_{}'.format(label, x)], want[x], 'detail', 1e-5, 1e-7, detail=x, i=i, label=label)
        check_eq(set(item.data_indexes), set(source.data_indexes) | {'anomaly'}, 'data indexes')
        if edge:
            continue
        if len(values) == 1:
            want = values[0]
        else:
            want = {'max': max, 'min': min, 'avg': lambda v: sum(v) / len(v), 'callable': own_strategy}[case['strategy']](values)
        check_close(item.data_indexes['anomaly'], want, 'anomaly index', 1e-5, 1e-5, i=i, values=values)
    ctx.nontrivial(middle)
    ctx.label('lost', any(lost))
    ctx.label('several labels', len(spec['labels']) > 1)


@sub('C24', 'relations', lambda: cases(),
     'detectors as above: pre-processing before (in place or not) changes nothing, but that models are not used again; nor do views, asking for more details, or the same in another order of labels; what happens after an item never matters to the detectors based on forecasters; '
     'thresholds give 0 or 1; bounds needing errors not stored are refused; non-trivial = not all of the indexes are the same', quick=120, thorough=1500, shards=3)
def relations(case, ctx):
    spec = case['spec']
    try:
        model, models = detector(case)
    except (KeyError, ZeroDivisionError):
        raise Reject()
    other = case['other']
    kwargs = options(case)
    series = gen.build(other)
    _, learnt = predictions(case, models, spec)
    for j, label in enumerate(spec['labels']):
        Reference(case, [error_of(case['metric'], spec['data'][i][j], learnt[i][label]) for i in sorted(learnt)])
    try:
        result = model.apply(series, **kwargs)
    except (ValueError, KeyError, ZeroDivisionError):
        raise Reject()
    want = gen.snapshot(result)
    index = [x.data_indexes['anomaly'] for x in result]
    ctx.nontrivial(len(set(index)) > 1)
    before = gen.snapshot(series)
    ready = model.preprocess(series)
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')
    check_eq(gen.snapshot(ready), before, 'pre-processing does not change what is in the series')
    check_eq(gen.snapshot(model.apply(ready, **kwargs)), want, 'on the pre-processed series')
    more = dict(kwargs, details=True, threshold=None)
    check_eq(gen.snapshot(model.apply(ready, **more)), gen.snapshot(model.apply(gen.build(other), **more)), 'on the pre-processed series, with other options')
    again = gen.build(other)
    model.preprocess(again, inplace=True)
    check_eq(gen.snapshot(model.apply(again, **kwargs)), want, 'on the series pre-processed in place')
    # One fitted elsewhere does not use what was pre-processed with another
    second, _ = detector(dict(case, metric='E', distribution='norm', spec=dict(spec, data=[list(reversed(row)) if i % 2 else row for i, row in enumerate(spec['data'])])))
    try:
        direct = gen.snapshot(second.apply(gen.build(other), **dict(kwargs, index_type='lin')))
    except (ValueError, KeyError):
        direct = None
    if direct is not None:
        check_eq(gen.snapshot(second.apply(ready, **dict(kwargs, index_type='lin'))), direct, 'on a series pre-processed by another detector')
    check_eq([x.data_indexes['anomaly'] for x in model.apply(series, **dict(kwargs, details=True))], index, 'with all of the details')
    # Also when told to print what they are doing
    with contextlib.redirect_stdout(io.StringIO()):
        check_eq(gen.snapshot(model.apply(series, **dict(kwargs, verbose=True))), want, 'verbose')
        told, _ = detector(dict(case, verbose=True))
        check_eq(gen.snapshot(told.apply(told.preprocess(series, verbose=True), **kwargs)), want, 'by a model fitted verbosely, on a series pre-processed verbosely')
    if case['threshold'] is not None:
        if case['strategy'] in ('max', 'min') or len(spec['labels']) == 1:
            check(set(index) <= {0, 1, None}, 'with a threshold')
    # As a view of a longer one
    try:
        following = zoo.following(other, 3)
    except Exception:
        following = None
    if following:
        longer = dict(other, ts=other['ts'] + following, data=other['data'] + [[500 + 3 * k] * len(spec['labels']) for k in range(3)])
        if other.get('indexes'):
            longer['indexes'] = other['indexes'] + [{'data_loss': 0}] * 3
        whole = gen.build(longer)
        check_eq(gen.snapshot(model.apply(whole.view(0, len(other['ts'])), **kwargs)), want, 'on a view')
        if case['kind'] in FORECASTERS:
            extended = model.apply(whole, **kwargs)
            check_eq([x.data_indexes['anomaly'] for x in extended][:len(index)], index, 'what comes after does not matter')
    turned = dict(other, labels=list(reversed(other['labels'])), data=[list(reversed(row)) for row in other['data']])
    if case['strategy'] != 'avg':
        check_eq([x.data_indexes['anomaly'] for x in model.apply(gen.build(turned), **kwargs)], index, 'with labels in another order')
    forgetful, _ = detector(dict(case, forget=True))
    if set(case['bounds']) & {'avg_err', 'max_err'}:
        check(raises(lambda: forgetful.apply(gen.build(other), **kwargs), ValueError) is not None, 'bounds needing the errors, which were not stored')
    else:
        check_eq(gen.snapshot(forgetful.apply(gen.build(other), **kwargs)), want, 'with errors not stored')


@sub('C24', 'refusals', lambda: cases(),
     'unknown error metrics, bounds, index types and details are refused, and detectors cannot predict, evaluate or cross validate; non-trivial = every case', quick=60)
def refusals(case, ctx):
    ctx.nontrivial()
    try:
        model, _ = detector(case)
    except (KeyError, ZeroDivisionError):
        raise Reject()
    series = gen.build(case['spec'])
    before = gen.snapshot(series)
    for call in ('predict', 'evaluate', 'cross_validate'):
        check(raises(lambda: getattr(model, call)(series), NotImplementedError) is not None, 'not available', call=call)
    for wrong in ('max', 'err', 'x_sigma', 'adherence/x', 'avg_error'):
        check(raises(lambda: model.apply(series, index_bounds=[0, wrong]), ValueError) is not None, 'unknown bounds', bound=wrong)
    check(raises(lambda: detector(dict(case, metric='XE')), ValueError) is not None, 'unknown error metrics')
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')


CHANGES = ['data', 'index', 'pop first', 'pop', 'append', 'rescale', 'offset', 'tz', 'refit', 'refit other', 'slice', 'view', 'duplicate', 'again']


@sub('C24', 'preprocessed_histories', lambda: st.tuples(cases(), st.lists(st.tuples(st.sampled_from(CHANGES), st.integers(0, 30)).map(list), min_size=1, max_size=3), st.booleans()).map(
        lambda x: dict(x[0], changes=x[1], inplace=x[2])),
     'series pre-processed for a detector, and then changed in any way, or the detector fitted again on the same or other data: applying it gives what it gives on the same series never pre-processed; non-trivial = '
     'some index is not zero', quick=160, thorough=1500, shards=3)
def preprocessed_histories(case, ctx):
    from timeseria.datastructures import DataTimePoint, DataTimeSlot
    spec = case['spec']
    try:
        model, _ = detector(case)
    except (KeyError, ZeroDivisionError):
        raise Reject()
    kwargs = options(case)
    plain = gen.build(case['other'])
    if case['inplace']:
        ready = gen.build(case['other'])
        model.preprocess(ready, inplace=True)
    else:
        ready = model.preprocess(plain)
    for what, k in case['changes']:
        both = [plain, ready]
        n = len(plain)
        if n < 6 or type(plain).__name__ == 'TimeSeriesView' or type(ready).__name__ == 'TimeSeriesView':
            break
        i = k % n
        for j, series in enumerate(both):
            item = series[i]
            if what == 'data':
                label = spec['labels'][k % len(spec['labels'])]
                item.data[label] = item.data[label] * 2 + 1
            elif what == 'index':
                item.data_indexes['data_loss'] = 1
            elif what == 'pop first':
                series.pop(0)
            elif what == 'pop':
                series.pop()
            elif what == 'append':
                data = {l: v + 1 for l, v in item.data.items()}
                last = series[-1]
                series.append(DataTimeSlot(start=last.end, unit=last.unit, data=data) if isinstance(last, DataTimeSlot) else DataTimePoint(t=2 * last.t - series[-2].t, tz=last.tz, data=data))
            elif what == 'rescale':
                series.rescale(2, inplace=True)
            elif what == 'offset':
                series.offset(3, inplace=True)
            elif what == 'tz':
                series.change_tz('America/New_York' if k % 2 else 'UTC')
            elif what == 'slice':
                both[j] = series.slice(min(i, n - 5), n)
            elif what == 'view':
                both[j] = series.view(min(i, n - 5), n)
            elif what == 'duplicate':
                both[j] = series.duplicate()
        plain, ready = both
        if what == 'again':
            if k % 2:
                ready = model.preprocess(ready)
            else:
                model.preprocess(ready, inplace=True)
        elif what.startswith('refit'):
            fit = {'error_metric': case['metric'], 'error_distribution': case['distribution']}
            own = {}
            if case['kind'] == 'Contextual':
                own = {'with_context': True}
            elif case['kind'].startswith('PeriodicAverage'):
                own = {'periodicity': case['period'] + (what == 'refit other'), 'data_loss_limit': None}
            elif case['kind'].startswith('Persistence'):
                own = {'drift': case['drift'] + (what == 'refit other')}
            data = [[v + (i % 3) * (what == 'refit other') for v in row] for i, row in enumerate(spec['data'])]
            try:
                model.fit(gen.build(dict(spec, data=data)), **own, **fit)
            except (KeyError, ValueError, ZeroDivisionError):
                raise Reject()
    # Numbered from the first window on, thus at least some must be left
    want = got = None
    try:
        want = gen.snapshot(model.apply(plain, **kwargs))
    except (ValueError, KeyError, ZeroDivisionError, IndexError) as e:
        want = type(e).__name__
    try:
        got = gen.snapshot(model.apply(ready, **kwargs))
    except (ValueError, KeyError, ZeroDivisionError, IndexError) as e:
        got = type(e).__name__
    check_eq(got, want, 'on the series pre-processed before the changes')
    ctx.nontrivial(isinstance(want, list) and any(x['indexes'].get('anomaly') for x in want))
    ctx.label('refused', isinstance(want, str))
