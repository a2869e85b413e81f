"""C22 - evaluations."""
import contextlib
import io
import math
from fractions import Fraction

from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import sub, check, check_eq, check_close, close, fail, raises, Reject
from checks.c20 import model_of
from checks.c21 import gappy

AGGREGATE = ['MSE', 'RMSE', 'MAE', 'HAE', 'MAPE', 'HAPE', 'MALE', 'HALE']
PUNCTUAL = ['E', 'PE', 'LE']


def metric(name, actual, predicted):
    """The metrics, by their name."""
    errors = [abs(a - p) for a, p in zip(actual, predicted)]
    if name == 'MSE':
        return sum(x * x for x in errors) / len(errors)
    if name == 'RMSE':
        return math.sqrt(sum(x * x for x in errors) / len(errors))
    if name[2 if name[0] == 'M' else 1:] and name.endswith('PE'):
        errors = [x / abs(a) for x, a in zip(errors, actual)]
    elif name.endswith('LE'):
        errors = [abs(math.log(a / p)) for a, p in zip(actual, predicted)]
    return max(errors) if name[0] == 'H' else sum(errors) / len(errors)


def punctual(name, a, p):
    """The errors, by their name."""
    error = math.log(a / p) if name.endswith('LE') else (a - p) / a if name.endswith('PE') else a - p
    return abs(error) if name[0] == 'A' else error


@st.composite
def evaluations(draw):
    spec = draw(zoo.series(6, 16, max_labels=4, losses='none', value=zoo.quarters(20, 60)))
    sign = draw(st.sampled_from(['positive', 'positive', 'negative', 'mixed']))
    if sign != 'positive':
        # Still never zero
        spec['data'] = [[-v if sign == 'negative' or (i * 7 + j * 3) % 5 < 2 else v for j, v in enumerate(row)] for i, row in enumerate(spec['data'])]
    return {'spec': spec, 'kind': draw(st.sampled_from(['PeriodicAverageForecaster', 'Persistence list', 'Persistence dict', 'Persistence dict of lists'])), 'window': draw(st.integers(2, 4)), 'drift': draw(st.integers(0, 3)),
            'metrics': draw(st.one_of(st.just('auto'), st.lists(st.sampled_from(AGGREGATE), min_size=1, max_size=8, unique=True))), 'punctual': draw(st.lists(st.sampled_from(PUNCTUAL), max_size=3, unique=True)),
            'series': draw(st.booleans()), 'view': draw(st.booleans()), 'learnt': draw(st.booleans()), 'verbose': draw(st.booleans())}


def forecaster(case, spec):
    if case['kind'] == 'PeriodicAverageForecaster':
        model = model_of('forecasters', 'PeriodicAverageForecaster', window=case['window'])
        model.fit(gen.build(spec), periodicity=2)
    else:
        model = zoo.custom()['Persistence'](window=case['window'], how=case['kind'].split(' ', 1)[1])
        model.fit(gen.build(spec), drift=case['drift'])
    return model


def one_step(model, spec, i):
    """What a model predicts for the i-th item, being given only what is before."""
    got = model.predict(gen.build(zoo.cut(spec, 0, i)))
    if isinstance(got, list):
        return got[0]
    return {label: value[0] if isinstance(value, list) else value for label, value in got.items()}


@sub('C22', 'forecasters', lambda: evaluations(),
     'forecasters (built-in, and custom ones predicting in all of the supported ways) evaluated with any set of metrics: each metric, for each label, is that of its definition over the actual values after the window and what the model predicts when '
     'given only the items before each of them; the results series carries exactly the items evaluated, with actual and predicted values and errors, and what is evaluated is left as it was; non-trivial = not all errors are equal', quick=600, shards=3)
def forecasters(case, ctx):
    spec = case['spec']
    n, window = len(spec['ts']), case['window']
    learnt = dict(spec, data=[[v + (i % 3) for v in row] for i, row in enumerate(spec['data'])]) if case['learnt'] else spec
    model = forecaster(case, learnt)
    if case['view']:
        longer = zoo.cut(spec, 0, n)
        series = gen.build(longer).view(1, n)
        spec = zoo.cut(spec, 1, n)
        n -= 1
    else:
        series = gen.build(spec)
    before = gen.snapshot(series)
    predicted = [one_step(model, spec, i) for i in range(window, n)]
    if case['kind'] != 'PeriodicAverageForecaster':
        model.seen[:] = []
    kwargs = {}
    if case['series'] and not case['view']:
        kwargs = {'return_results_series': True, 'punctual_error_metrics': case['punctual']}
    positive = all(x > 0 for p in predicted for x in p.values()) and all(x > 0 for row in spec['data'] for x in row)
    ctx.label('negative values', any(x < 0 for row in spec['data'] for x in row))
    metrics = case['metrics']
    if not positive:
        metrics = [m for m in metrics if not m.endswith('LE')] if metrics != 'auto' else metrics
        if 'punctual_error_metrics' in kwargs:
            kwargs['punctual_error_metrics'] = [m for m in kwargs['punctual_error_metrics'] if m != 'LE']
        if not metrics:
            return
    with contextlib.redirect_stdout(io.StringIO()):
        results = model.evaluate(series, error_metrics=metrics, **dict(kwargs, **({'verbose': True} if case.get('verbose') else {})))
    check_eq(gen.snapshot(series), before, 'what is evaluated is left as it was')
    used = ['RMSE', 'MAE'] if metrics == 'auto' else metrics
    check_eq(set(results), {'{}_{}'.format(label, m) for label in spec['labels'] for m in used} | ({'series'} if kwargs else set()), 'metrics')
    for label in spec['labels']:
        actual = zoo.column(spec, label)[window:]
        p = [x[label] for x in predicted]
        for m in used:
            check_close(results['{}_{}'.format(label, m)], metric(m, actual, p), 'metric', 1e-9, 1e-9, metric=m, label=label)
        ctx.nontrivial(len({abs(a - b) for a, b in zip(actual, p)}) > 1)
    if case['kind'] != 'PeriodicAverageForecaster':
        check_eq(model.seen, [spec['ts'][:i] for _ in spec['labels'] for i in range(window, n)], 'what the model is given for predicting')
    if kwargs:
        out = results['series']
        check_eq([x.start.t if spec['kind'] == 'slots' else x.t for x in out], spec['ts'][window:], 'items of the results series')
        errors = [m[1:] for m in used if m in ('MAE', 'MAPE', 'MALE')] + kwargs['punctual_error_metrics']
        for k, item in enumerate(out):
            want = {}
            for label in spec['labels']:
                a, p = zoo.column(spec, label)[window + k], predicted[k][label]
                want[label], want[label + '_pred'] = a, p
                for e in errors:
                    want['{}_{}'.format(label, e)] = punctual(e, a, p)
            check_eq(set(item.data), set(want), 'data of the results series')
            for key in want:
                check_close(item.data[key], want[key], 'value in the results series', 1e-9, 1e-9, key=key)


@sub('C22', 'perfect', lambda: st.fixed_dictionaries({'spec': zoo.series(10, 20, losses='none'), 'values': st.lists(zoo.quarters(1, 9), min_size=5, max_size=5), 'period': st.integers(2, 5), 'bad': st.lists(st.sampled_from(AGGREGATE + ['ME', 'R2', 'RMSEE']), min_size=1, max_size=3)}),
     'evaluating on exactly periodic series the periodic average models gives no error at all with any metric; unknown metrics, more than one step ahead and empty series are refused; non-trivial = every case', quick=200)
def perfect(case, ctx):
    from timeseria.datastructures import TimeSeries
    ctx.nontrivial()
    spec, period = case['spec'], case['period']
    spec = dict(spec, data=[[case['values'][zoo.count(t, spec['res'], spec['tz'], spec['ts'][0], False) % period] + j for j in range(len(spec['labels']))] for t in spec['ts']])
    model = model_of('forecasters', 'PeriodicAverageForecaster')
    model.fit(gen.build(spec), periodicity=period)
    for key, value in model.evaluate(gen.build(spec), error_metrics=AGGREGATE).items():
        check_close(value, 0, 'error on a periodic series', 1e-9, 1e-7, metric=key)
    wrong = [m for m in case['bad'] if m not in AGGREGATE]
    e = raises(lambda: model.evaluate(gen.build(spec), error_metrics=case['bad']), ValueError)
    check((e is not None) == bool(wrong), 'unknown metrics are refused, and no others', e=repr(e))
    check(raises(lambda: model.evaluate(gen.build(spec), steps=2), NotImplementedError) is not None, 'more steps are refused')
    check(raises(lambda: model.evaluate(TimeSeries()), ValueError) is not None, 'empty series are refused')
    one = dict(spec, labels=spec['labels'][:1], data=[row[:1] for row in spec['data']])
    model = model_of('reconstructors', 'PeriodicAverageReconstructor')
    model.fit(gen.build(one), periodicity=period)
    for key, value in model.evaluate(gen.build(one), steps=3, metrics=['RMSE', 'MAE', 'MAPE']).items():
        check_close(value, 0, 'error on a periodic series', 1e-9, 1e-7, metric=key)


@sub('C22', 'reconstructors', lambda: st.fixed_dictionaries({
    'case': gappy(8, 18, max_labels=1), 'kind': st.sampled_from(['LinearInterpolationReconstructor', 'PeriodicAverageReconstructor', 'Mean list', 'Mean dict']), 'period': st.integers(1, 3),
    'steps': st.one_of(st.just('auto'), st.integers(1, 3), st.lists(st.integers(1, 4), min_size=1, max_size=3, unique=True)), 'metrics': st.lists(st.sampled_from(['RMSE', 'MAE', 'MAPE']), min_size=1, max_size=3, unique=True),
    'limit': st.sampled_from([None, None, 1, 3]), 'details': st.booleans()}),
     'reconstructors evaluated on series with or without losses, for any steps, metrics and limit: for each number of steps the metric is that of its definition over all of the places where as many items, and those around them, are good (at most the '
     'limit), and the overall ones are their averages; non-trivial = more than one place, and a non zero error', quick=600, shards=2)
def reconstructors(case, ctx):
    spec, threshold = case['case']
    label = spec['labels'][0]
    if case['kind'].startswith('Mean'):
        model = zoo.custom()['MeanReconstructor'](how=case['kind'].split()[1])
    else:
        model = model_of('reconstructors', case['kind'])
    automatic = [1, 2, 3]
    if case['kind'].startswith('Periodic'):
        model.fit(gen.build(dict(spec, indexes=None)), periodicity=case['period'])
        automatic = [1, case['period']]
    steps = automatic if case['steps'] == 'auto' else list(range(1, case['steps'] + 1)) if isinstance(case['steps'], int) else case['steps']
    n = len(spec['ts'])
    good = [x is None or x < threshold for x in zoo.losses(spec)]
    column = zoo.column(spec, label)
    variants = []
    for last in (0, 1):
        # Whether the last possible place is used or not is not specified
        out = {}
        for k in steps:
            actual, predicted = [], []
            places = [i for i in range(1, n - k - last) if all(good[i - 1:i + k + 1]) and i + k < n]
            for i in places[:case['limit']]:
                got = model.predict(gen.build(spec), from_i=i, to_i=i + k - 1)
                got = [x[label] for x in got] if isinstance(got, list) else got[label]
                actual += column[i:i + k]
                predicted += got
            out[k] = (actual, predicted)
        variants.append(out)
    metrics = case['metrics']
    if any(value == 0 for v in variants for actual, _ in v.values() for value in actual):
        # No percentages of zero
        metrics = [m for m in metrics if m != 'MAPE'] or ['MAE']
    series = gen.build(spec)
    before = gen.snapshot(series)
    kwargs = dict(steps=case['steps'], metrics=metrics, limit=case['limit'], data_loss_threshold=threshold, details=case['details'])
    if any(not v[1] for v in variants[1].values()):
        if any(not v[1] for v in variants[0].values()):
            check(raises(lambda: model.evaluate(series, **kwargs)) is not None, 'evaluating where there is nothing to evaluate on is refused')
        return
    results = model.evaluate(series, **kwargs)
    check_eq(gen.snapshot(series), before, 'what is evaluated is left as it was')
    problems = []
    for variant in variants:
        want = {}
        for m in metrics:
            single = {'{}_{}_steps'.format(m, k): metric(m, *variant[k]) for k in steps}
            want[m] = sum(single.values()) / len(single)
            if case['details']:
                want.update(single)
        problems.append([key for key in set(want) | set(results) if key not in want or key not in results or not close(results[key], want[key], 1e-9, 1e-9)])
    check(not all(problems), 'metrics of a reconstructor', wrong=problems[1], results=results, want=want)
    ctx.nontrivial(len(variants[1][steps[0]][1]) > 1 and any(v > 1e-6 for v in results.values()))


@sub('C22', 'contexts', lambda: st.fixed_dictionaries({'spec': zoo.series(8, 12, max_labels=3, losses='none'), 'window': st.integers(1, 4)}),
     'forecasters of a label with the others as context: evaluated on the predictions made with the items before, and the context of the item to predict; non-trivial = every case', quick=150)
def contexts(case, ctx):
    ctx.nontrivial()
    spec, window = case['spec'], case['window']
    if len(spec['labels']) < 2:
        spec = dict(spec, labels=spec['labels'] + ['other'], data=[row + [i % 4 + 1] for i, row in enumerate(spec['data'])])
    target = sorted(spec['labels'])[0]
    others = [label for label in spec['labels'] if label != target]
    model = zoo.custom()['Contextual'](window=window)
    model.fit(gen.build(spec), target=target, with_context=True)
    results = model.evaluate(gen.build(spec), error_metrics=['MAE', 'HAE'])
    n = len(spec['ts'])
    columns = {label: zoo.column(spec, label) for label in spec['labels']}
    predicted = [columns[target][i - 1] + sum(columns[label][i] for label in others) for i in range(window, n)]
    for m in ('MAE', 'HAE'):
        check_close(results['{}_{}'.format(target, m)], metric(m, columns[target][window:], predicted), 'metric', metric=m)
    check_eq(set(results), {target + '_MAE', target + '_HAE'}, 'metrics')
    for k, (seen, context) in enumerate(model.seen):
        i = window + k
        check_eq(seen, spec['ts'][:i], 'what the model is given for predicting')
        # The known finding: the context includes what is to be predicted
        check(context in ({label: columns[label][i] for label in others}, {label: columns[label][i] for label in columns}), 'context given for predicting', context=context)


@sub('C22', 'leak', lambda: st.just(None), 'where the known finding on the context of evaluations is replayed; nothing is generated', quick=1, thorough=1)
def leak(case, ctx):
    if case is None:
        return
    ctx.nontrivial()
    spec = {'kind': 'points', 'form': 'dict', 'labels': ['a', 'b'], 'tz': 'UTC', 'ts': [60 * i for i in range(6)], 'data': [[i, 10 * i] for i in range(6)]}
    model = zoo.custom()['Contextual'](window=2)
    model.fit(gen.build(spec), target='a', with_context=True)
    model.evaluate(gen.build(spec))
    for k, (seen, context) in enumerate(model.seen):
        check_eq(context, {'b': 10 * (k + 2)}, 'context given for predicting')
