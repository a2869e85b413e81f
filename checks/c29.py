"""C29 - neural network models."""
import os
import shutil
import uuid

from hypothesis import strategies as st

from harness import gen, zoo, keras_stub
from harness.core import sub, check, check_eq, check_close, close, fail, raises, Reject
from checks.c20 import model_of

METRICS = {'MSE': 'mean_squared_error', 'MAE': 'mean_absolute_error', 'MAPE': 'mean_absolute_percentage_error', 'MSLE': 'mean_squared_logarithmic_error'}


@st.composite
def cases(draw):
    window = draw(st.integers(2, 5))
    spec = draw(zoo.series(window + 3, 24, max_labels=3, calendar=False, value=zoo.quarters(1, 60)))
    n = len(spec['ts'])
    # Labels are never constant
    spec['data'] = [[v + (i % 3) * 64 for v in row] for i, row in enumerate(spec['data'])]
    labels = sorted(spec['labels'])
    target = draw(st.sampled_from(['all', 'all', 'one', 'some']))
    context = draw(st.booleans()) and target != 'all' and len(labels) > 1
    if target == 'one':
        target = draw(st.sampled_from(labels))
    elif target == 'some':
        target = draw(st.lists(st.sampled_from(labels), min_size=1, max_size=len(labels) - 1 if context else len(labels), unique=True))
    m = draw(st.integers(window, 10))
    use = dict(spec, ts=zoo.instants(draw(st.sampled_from(zoo.starts(spec['res'], spec['tz']))), spec['res'], spec['tz'], m, draw(st.integers(0, 3))), data=draw(gen.rows(m, len(labels), zoo.quarters(1, 90))), indexes=None)
    return {'spec': spec, 'window': window, 'features': draw(st.sampled_from([['values'], ['values'], ['diffs'], ['hours', 'values'], ['values', 'diffs', 'hours'], ['hours'], ['diffs', 'values']])), 'target': target, 'context': context, 'use': use,
            'normalize': draw(st.booleans()), 'limit': draw(st.sampled_from(['default', 1.0, 0.5, None])), 'external': draw(st.booleans()), 'neurons': draw(st.sampled_from([1, 8, 128])), 'epochs': draw(st.sampled_from([None, 1, 5])),
            'metric': draw(st.sampled_from([None] + list(METRICS))), 'again': draw(st.sampled_from([None, None, 'same', 'not normalized', 'other data'])), 'order': draw(st.booleans()), 'how': draw(st.sampled_from(['predict', 'forecast', 'apply', 'apply', 'inplace']))}


def targets_of(case):
    labels = sorted(case['spec']['labels'])
    return labels if case['target'] == 'all' else [case['target']] if isinstance(case['target'], str) else case['target']


def scales(spec):
    return {label: (min(zoo.column(spec, label)), max(zoo.column(spec, label))) for label in spec['labels']}


def features_of(case, scale, ts, rows, tz):
    """The features of some items (with their data by label, not necessarily all of them)."""
    labels = sorted(case['spec']['labels'])
    norm = lambda label, v: (v - scale[label][0]) / (scale[label][1] - scale[label][0]) if scale else v
    values = [{label: norm(label, v) for label, v in row.items()} for row in rows]
    out = []
    for i in range(len(ts)):
        cell = []
        if 'values' in case['features']:
            cell += [values[i].get(label, 0.0) for label in labels]
        if 'diffs' in case['features']:
            for label in labels:
                a, b = max(i - 1, 0), min(i + 1, len(ts) - 1)
                if label not in values[a] or label not in values[b]:
                    cell.append(0.0)
                else:
                    diff = (values[b][label] - values[a][label]) / (b - a)
                    # Which of them is null is not decided by rounding, as values are multiples of a quarter
                    cell.append(1 if rows[a][label] == rows[b][label] else diff)
        if 'hours' in case['features']:
            cell.append(gen.local_dt(ts[i], tz).hour / 24)
        out.append(cell)
    return out


def row_of(spec, i, only=None):
    return {label: v for label, v in zip(spec['labels'], spec['data'][i]) if only is None or label in only}


def samples(case, spec, scale):
    """What there is to be learnt."""
    window = case['window']
    limit = 1.0 if case['limit'] == 'default' else case['limit']
    lost = [limit is not None and x is not None and x >= limit for x in zoo.losses(spec)]
    context = [label for label in spec['labels'] if label not in targets_of(case)]
    x, y = [], []
    for i in range(window, len(spec['ts'])):
        if any(lost[i - window:i + 1]):
            continue
        where = list(range(i - window, i))
        rows = [row_of(spec, j) for j in where]
        if case['context']:
            where.append(i)
            rows.append(row_of(spec, i, context))
        x.append(features_of(case, scale, [spec['ts'][j] for j in where], rows, spec['tz']))
        norm = lambda label, v: (v - scale[label][0]) / (scale[label][1] - scale[label][0]) if scale else v
        y.append([norm(label, row_of(spec, i)[label]) for label in targets_of(case)])
    return x, y


def same(got, want, what):
    if isinstance(want, list):
        check(isinstance(got, list) and len(got) == len(want), what + ': size', got=got, want=want)
        for a, b in zip(got, want):
            same(a, b, what)
    else:
        check_close(got, want, what, 1e-9, 1e-9)


def options(case, **more):
    out = {'normalize': case['normalize'], 'target': case['target'], 'with_context': case['context']}
    if case['limit'] != 'default':
        out['data_loss_limit'] = case['limit']
    if case['epochs'] is not None:
        out['epochs'] = case['epochs']
    if case['metric'] is not None:
        out['minimize_error_metric'] = case['metric']
    out.update(more)
    return out


def create(case):
    keras_stub.install()
    network = keras_stub.external(len(targets_of(case))) if case['external'] else None
    return model_of('forecasters', 'LSTMForecaster', window=case['window'], features=list(case['features']), neurons=case['neurons'], keras_model=network), network


def fitted(case):
    """A model, what it is expected to have learnt at last, the scale it uses and its network."""
    model, network = create(case)
    del keras_stub.Network.created[:]
    spec = case['spec']
    series = gen.build(spec)
    before = gen.snapshot(series)
    model.fit(series, **options(case))
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')
    scale = scales(spec) if case['normalize'] else None
    if case['again'] == 'same':
        model.fit(gen.build(spec), **options(case))
    elif case['again'] == 'not normalized':
        model.fit(gen.build(spec), **options(case, normalize=False))
        scale = None
    elif case['again'] == 'other data':
        spec = dict(spec, data=[[v * 2 + 8 * j for j, v in enumerate(row)] for row in spec['data']])
        model.fit(gen.build(spec), **options(case))
        scale = scales(spec) if case['normalize'] else None
    networks = [network] if network else list(keras_stub.Network.created)
    check(len(networks) >= 1, 'a network is created')
    return model, spec, scale, networks


@sub('C29', 'training', lambda: cases(),
     'LSTM forecasters with any window, features, targets, context, normalization, data loss limit and network (on a stand-in for Keras): what the network is given to learn are the features of each window without lost items, and the targets of the next item, normalized between 0 and 1 or not, '
     'also when fitted more than once; the source series is left as it was; non-trivial = at least two windows', quick=500, thorough=8000, shards=2)
def training(case, ctx):
    spec = case['spec']
    x, y = samples(case, spec, scales(spec) if case['normalize'] else None)
    if not x:
        model, _ = create(case)
        check(raises(lambda: model.fit(gen.build(spec), **options(case)), ValueError) is not None, 'fitting on lost items only')
        check(not model.fitted, 'not fitted')
        return
    model, spec, scale, networks = fitted(case)
    x, y = samples(case, spec, scale)
    ctx.nontrivial(len(x) > 1)
    ctx.label('context', case['context'])
    ctx.label('skipped', len(x) < len(spec['ts']) - case['window'])
    network = networks[-1]
    last = network.fits[-1]
    check_eq(len(last['x']), len(x), 'number of windows')
    same(last['x'], x, 'features')
    same(last['y'], y, 'targets')
    check_eq(last['epochs'], case['epochs'] or 30, 'epochs')
    check_eq(sum(len(n.fits) for n in networks), 2 if case['again'] else 1, 'number of fits')
    if not case['external']:
        check_eq(len(networks[0].fits) >= 1, True, 'the network created is the one which is fitted')
        check_eq([layer.units for layer in network.layers], [case['neurons'], len(targets_of(case))], 'neurons')
        check_eq(network.compiled[-1][0], METRICS[case['metric'] or 'MSE'], 'what is minimized')


@sub('C29', 'predictions', lambda: cases(),
     'LSTM forecasters as above, fitted on a series and used on another (predictions, forecasts and applications, in place or not, with context, also after having been saved and loaded): what is forecast are the outputs of the network for the features of the last window, back on the original scale, with the context if '
     'any; non-trivial = the series is longer than the window', quick=500, thorough=8000, shards=2)
def forecasts(case, ctx):
    if not samples(case, case['spec'], None)[0]:
        raise Reject()
    model, spec, scale, networks = fitted(case)
    use, window, targets = case['use'], case['window'], targets_of(case)
    labels = sorted(spec['labels'])
    m = len(use['ts'])
    ctx.nontrivial(m > window)
    ctx.label('context', case['context'])
    order = list(reversed(range(len(labels)))) if case['order'] else list(range(len(labels)))
    used = dict(use, labels=[use['labels'][j] for j in order], data=[[row[j] for j in order] for row in use['data']])
    series = gen.build(used)
    before = gen.snapshot(series)
    t = zoo.following(use, 1)[0]
    context = {label: use['data'][0][labels.index(label)] + 1 for label in labels if label not in targets} if case['context'] else None
    ts, rows = use['ts'][-window:], [row_of(use, i) for i in range(m - window, m)]
    if context:
        ts, rows = ts + [t], rows + [dict(context)]
    outputs = keras_stub.output(features_of(case, scale, ts, rows, use['tz']), len(targets))
    back = lambda label, v: v * (scale[label][1] - scale[label][0]) + scale[label][0] if scale else v
    want = {label: back(label, v) for label, v in zip(targets, outputs)}
    more = {'context_data': dict(context)} if context else {}
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'lstm-' + uuid.uuid4().hex)
    try:
        model.save(path)
        loaded = type(model).load(path)
    finally:
        if os.path.isdir(path):
            shutil.rmtree(path)
    check_eq(loaded.window, window, 'window of the loaded model')

    def matches(data, expected, what):
        check_eq(set(data), set(expected), what + ': labels')
        for label in expected:
            check_close(float(data[label]), expected[label], what, 1e-7, 1e-7, label=label)

    for what, one in (('model', model), ('loaded model', loaded)):
        matches(one.predict(series, **more), want, 'prediction of the ' + what)
        check_eq(gen.snapshot(series), before, 'the source series is left as it was')
        if context:
            check_eq(more['context_data'], context, 'the context is left as it was')
        if m > window:
            matches(one.predict(series.view(m - window, m), **more), want, 'prediction on a view, of the ' + what)
        check(raises(lambda: one.predict(gen.build(zoo.cut(used, 0, window - 1)), **more), ValueError) is not None, 'too short')
        check(raises(lambda: one.predict(series, steps=2, **more), NotImplementedError) is not None, 'more than one step')
        if context:
            check(raises(lambda: one.predict(series), ValueError) is not None, 'without the context')
        else:
            check(raises(lambda: one.predict(series, context_data={labels[0]: 1}), ValueError) is not None, 'with a context')
        if set(targets) != set(labels) and not context:
            # There is no way to know the other labels
            check(raises(lambda: one.forecast(series), ValueError) is not None, 'forecast of some labels only')
            check(raises(lambda: one.apply(series), ValueError) is not None, 'application of some labels only')
            check_eq(gen.snapshot(series), before, 'the source series is left as it was by what is refused')
            continue
        full = dict(want, **(context or {}))
        if case['how'] == 'forecast':
            got = one.forecast(series, **more)
        elif case['how'] == 'predict':
            continue
        else:
            target = gen.build(used)
            result = one.apply(target, inplace=case['how'] == 'inplace', **more)
            if case['how'] == 'inplace':
                result = target
            else:
                check_eq(gen.snapshot(target), before, 'the source series is left as it was')
            check_eq(len(result), m + 1, 'one more item')
            check_eq([x.data_indexes['forecast'] for x in result], [0] * m + [1], 'forecast index')
            check_eq([x.data for x in result][:m], [row_of(use, i) for i in range(m)], 'data of the source')
            got = result[-1]
        matches(got.data, full, 'forecast')
        check_eq(got.start.t if use['kind'] == 'slots' else got.t, t, 'time')
        check_eq(str(got.tz), use['tz'], 'time zone')


@sub('C29', 'repeated', lambda: cases().map(lambda case: dict(case, target='all', context=False)),
     'LSTM forecasters of all of the labels applied for more than one step: each one is forecast from the previous ones; non-trivial = at least two labels', quick=100, thorough=1500)
def repeated(case, ctx):
    if not samples(case, case['spec'], None)[0]:
        raise Reject()
    model, spec, scale, _ = fitted(case)
    use = case['use']
    ctx.nontrivial(len(spec['labels']) > 1)
    result = model.apply(gen.build(use), steps=3)
    step = gen.build(use)
    for _ in range(3):
        step = model.apply(step)
    flat = lambda s: [(x.start.t if use['kind'] == 'slots' else x.t, sorted(x.data.items())) for x in s]
    check_eq(flat(result), flat(step), 'several steps at once, or one at a time')
    back = gen.build(use)
    items = [model.forecast(gen.build(use))]
    check_eq(flat(result)[len(use['ts']):][:1], flat(items), 'first step')


@sub('C29', 'evaluation', lambda: cases().map(lambda case: dict(case, target='all', context=False)),
     'evaluations of LSTM forecasters: the error metrics are those of the predictions of each item from the previous ones; non-trivial = at least two items evaluated', quick=150, thorough=2000)
def evaluation(case, ctx):
    if not samples(case, case['spec'], None)[0]:
        raise Reject()
    model, spec, scale, _ = fitted(case)
    use, window, targets = case['use'], case['window'], targets_of(case)
    m = len(use['ts'])
    series = gen.build(use)
    before = gen.snapshot(series)
    if m < window + 2:
        return
    ctx.nontrivial()
    errors = {label: [] for label in targets}
    for i in range(window, m):
        got = model.predict(gen.build(zoo.cut(use, 0, i)))
        for label in targets:
            errors[label].append(abs(got[label] - row_of(use, i)[label]))
    got = model.evaluate(series, error_metrics=['MAE', 'MSE'])
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')
    for label in targets:
        check_close(got[label + '_MAE'], sum(errors[label]) / len(errors[label]), 'MAE', 1e-6, 1e-6, label=label)
        check_close(got[label + '_MSE'], sum(x * x for x in errors[label]) / len(errors[label]), 'MSE', 1e-6, 1e-6, label=label)


@sub('C29', 'anomalies', lambda: cases(),
     'anomaly detectors based on LSTM forecasters: the predictions items are compared with are those of an LSTM forecaster fitted by itself on the same series, for each label (from the others at the same time, if with context); non-trivial = some items are compared', quick=120, thorough=1500)
def anomalies(case, ctx):
    from timeseria.models.anomaly_detectors import LSTMAnomalyDetector
    keras_stub.install()
    case = dict(case, external=False, again=None, context=case['context'] and len(case['spec']['labels']) > 1)
    spec, use = case['spec'], case['use']
    if not samples(case, spec, None)[0] or len(spec['ts']) < case['window'] + 5 or len(use['ts']) < case['window'] + 2:
        raise Reject()
    labels = sorted(spec['labels'])
    kwargs = {name: v for name, v in options(case).items() if name not in ('target', 'with_context', 'data_loss_limit')}
    if case['context']:
        kwargs['with_context'] = True
    model = LSTMAnomalyDetector(window=case['window'], features=list(case['features']), neurons=case['neurons'])
    fit = gen.build(dict(spec, indexes=None))
    before = gen.snapshot(fit)
    try:
        model.fit(fit, error_distribution='norm', error_metric='E', **kwargs)
    except ValueError as e:
        if 'distribution' in str(e):
            raise Reject()
        raise
    check_eq(gen.snapshot(fit), before, 'the source series is left as it was')
    try:
        result = model.apply(gen.build(use), index_bounds=[0.5, 10 ** 6], index_type='lin', details=['pred'])
    except ValueError:
        # Bounds and distributions are matter of the other checks
        raise Reject()
    ctx.nontrivial(len(result) > 0)
    slots = use['kind'] == 'slots'
    for item in result:
        i = use['ts'].index(item.start.t if slots else item.t)
        for label in labels:
            alone = dict(case, target=label if case['context'] else 'all')
            scale = scales(spec) if case['normalize'] else None
            targets = targets_of(alone)
            where = list(range(i - case['window'], i))
            rows, ts = [row_of(use, j) for j in where], [use['ts'][j] for j in where]
            wants = []
            # The known finding: the context includes what is to be predicted
            for last in ([row_of(use, i, [x for x in labels if x != label]), row_of(use, i)] if case['context'] else [None]):
                more = ([], []) if last is None else ([last], [use['ts'][i]])
                out = keras_stub.output(features_of(alone, scale, ts + more[1], rows + more[0], use['tz']), len(targets))[targets.index(label)]
                wants.append(out * (scale[label][1] - scale[label][0]) + scale[label][0] if scale else out)
            got = float(item.data[label + '_pred'])
            check(any(close(got, want, 1e-6, 1e-6) for want in wants), 'prediction', i=i, label=label, got=got, want=wants)


@sub('C29', 'leak', lambda: st.just(None), 'where the known finding on the context of anomaly detectors is replayed; nothing is generated', quick=1, thorough=1)
def leak(case, ctx):
    if case is None:
        return
    ctx.nontrivial()
    from timeseria.models.anomaly_detectors import LSTMAnomalyDetector
    keras_stub.install()
    spec = {'kind': 'points', 'form': 'dict', 'labels': ['a', 'b'], 'tz': 'UTC', 'ts': [60 * i for i in range(12)], 'data': [[i * i % 7 + i, 10 * i] for i in range(12)]}
    model = LSTMAnomalyDetector(window=2)
    model.fit(gen.build(spec), with_context=True, error_distribution='norm', error_metric='E')
    got = []
    for value in (5, 50):
        changed = dict(spec, data=spec['data'][:-1] + [[value, 110]])
        got.append(model.apply(gen.build(changed), index_bounds=[0.5, 10 ** 6], index_type='lin', details=['pred'])[-1].data['a_pred'])
    check_close(got[0], got[1], 'prediction for an item', 1e-9, 1e-9)


@sub('C29', 'refusals', lambda: st.fixed_dictionaries({'case': cases(), 'what': st.sampled_from(['feature', 'metric', 'target', 'target type', 'context', 'other labels'])}),
     'unknown features, error metrics and targets, context with all of the labels as targets, and series with other labels are refused; non-trivial = every case', quick=60)
def refusals(case, ctx):
    what, case = case['what'], case['case']
    ctx.nontrivial()
    if not samples(case, case['spec'], None)[0]:
        raise Reject()
    if what == 'feature':
        case = dict(case, features=['values', 'colors'])
    model, _ = create(case)
    series = gen.build(case['spec'])
    before = gen.snapshot(series)
    wrong = {'metric': {'minimize_error_metric': 'XYZ'}, 'target': {'target': 'nope', 'with_context': False}, 'target type': {'target': 3, 'with_context': False}, 'context': {'target': 'all', 'with_context': True}}.get(what, {})
    if what == 'other labels':
        model.fit(series, **options(case))
        other = dict(case['use'], labels=['z{}'.format(j) for j in range(len(case['spec']['labels']))])
        more = {'context_data': {'z0': 1}} if case['context'] else {}
        check(raises(lambda: model.predict(gen.build(other), **more), ValueError) is not None, 'other labels')
    else:
        e = raises(lambda: model.fit(series, **options(case, **wrong)), Exception)
        check(isinstance(e, TypeError if what == 'target type' else ValueError), 'refused', what=what, error=repr(e))
        check(not model.fitted, 'not fitted')
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')
