"""C23 - cross validations."""
import statistics

from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import sub, check, check_eq, check_close, fail, raises, Reject
from checks.c20 import model_of


def recorder():
    """A model which writes down what it is given, and whose evaluations depend on all of it."""
    from timeseria.models.base import Model

    def what(series):
        return [[item.start.t if hasattr(item, 'start') else item.t, [item.data[k] for k in sorted(item.data)]] for item in series]

    class Recorder(Model):
        def __init__(self):
            super(Recorder, self).__init__()
            self.calls = []

        @Model.fit_function
        def fit(self, series, strength=1, verbose=False):
            self.calls.append(['fit', what(series), strength])
            self.learnt = sum(v for _, row in what(series) for v in row) * strength

        @Model.evaluate_function
        def evaluate(self, series, scale=1, fit_like=0):
            self.calls.append(['evaluate', what(series), scale, fit_like])
            total = sum(v for _, row in what(series) for v in row)
            return {'score': self.learnt - scale * total, 'other': total * total + fit_like}

    class Updatable(Recorder):
        def fit_update(self, series, strength=1, verbose=False):
            self.calls.append(['update', what(series), strength])
            self.learnt += sum(v for _, row in what(series) for v in row) * strength * 0.5

    class NotUpdatable(Recorder):
        def fit_update(self, series, strength=1, verbose=False):
            raise NotImplementedError()

    return {'Recorder': Recorder, 'Updatable': Updatable, 'NotUpdatable': NotUpdatable}


def chunks(n, rounds):
    """The items to evaluate on, the ones to fit on, and the ones left, for each round."""
    size = n // rounds
    for i in range(rounds):
        a, b = i * size, (i + 1) * size
        before, after = [0, a], [b, n]
        first, other = (before, after) if a > n - b else (after, before)
        yield [a, b], first, other


@sub('C23', 'rounds', lambda: st.fixed_dictionaries({'spec': zoo.series(6, 40, max_labels=3), 'rounds': st.one_of(st.none(), st.integers(2, 12)), 'kind': st.sampled_from(['Recorder', 'Updatable', 'Updatable', 'NotUpdatable']),
                                                    'window': st.sampled_from([None, None, 1, 2, 4, 9]), 'strength': st.sampled_from([None, 2, 3]), 'scale': st.sampled_from([None, 2, 5]), 'like': st.sampled_from([None, 1]), 'view': st.booleans()}),
     'custom models writing down what they are given, updatable or not, with any number of rounds, items (not a multiple of the rounds too), window and parameters: each round fits on the bigger of the parts before and after the items it then evaluates on, '
     'updates on the other one if possible, and never sees the items to evaluate on before; rounds evaluate on consecutive parts of the same length; results are average and standard deviation; non-trivial = more than two rounds', quick=700, shards=2)
def rounds(case, ctx):
    spec, kind = case['spec'], case['kind']
    n = len(spec['ts'])
    if n < (case['rounds'] or 10) * 2:
        n_rounds = 2
    else:
        n_rounds = case['rounds']
    model = recorder()[kind]()
    if case['window']:
        model.window = case['window']
    kwargs = {}
    if n_rounds:
        kwargs['rounds'] = n_rounds
    n_rounds = n_rounds or 10
    if case['strength']:
        kwargs['fit_strength'] = case['strength']
    if case['scale']:
        kwargs['evaluate_scale'] = case['scale']
    if case['like']:
        kwargs['evaluate_fit_like'] = case['like']
    strength, scale, like = case['strength'] or 1, case['scale'] or 1, case['like'] or 0
    if n // n_rounds < 2:
        raise Reject()
    ctx.nontrivial(n_rounds > 2)
    ctx.label('not a multiple', n % n_rounds != 0)
    if case['view']:
        longer = dict(zoo.cut(spec, 0, n), indexes=None)
        ts = zoo.following(spec, 2)
        longer = dict(longer, ts=spec['ts'] + ts, data=spec['data'] + [[99] * len(spec['labels'])] * 2)
        source = gen.build(longer)
        before = gen.snapshot(source)
        series = source.view(0, n)
    else:
        source = series = gen.build(spec)
        before = gen.snapshot(source)
    order = sorted(range(len(spec['labels'])), key=lambda j: spec['labels'][j])
    rows = [[t, [row[j] for j in order]] for t, row in zip(spec['ts'], spec['data'])]
    want, evaluations = [], []
    for (a, b), first, other in chunks(n, n_rounds):
        want.append(['fit', rows[first[0]:first[1]], strength])
        learnt = sum(v for _, row in rows[first[0]:first[1]] for v in row) * strength
        if kind == 'Updatable' and other[0] < other[1] and not (case['window'] and other[1] - other[0] < case['window']):
            want.append(['update', rows[other[0]:other[1]], strength])
            learnt += sum(v for _, row in rows[other[0]:other[1]] for v in row) * strength * 0.5
        want.append(['evaluate', rows[a:b], scale, like])
        total = sum(v for _, row in rows[a:b] for v in row)
        evaluations.append({'score': learnt - scale * total, 'other': total * total + like})
    got = model.cross_validate(series, **kwargs)
    check_eq([call[0] for call in model.calls], [call[0] for call in want], 'what is called on the model')
    for k, (x, y) in enumerate(zip(model.calls, want)):
        check_eq(x, y, 'what the model is given', call=k)
    check_eq(set(got), {'score_avg', 'score_stdev', 'other_avg', 'other_stdev'}, 'metrics')
    for name in ('score', 'other'):
        check_close(got[name + '_avg'], statistics.mean(x[name] for x in evaluations), 'average', 1e-9, 1e-7, metric=name)
        check_close(got[name + '_stdev'], statistics.stdev(x[name] for x in evaluations), 'standard deviation', 1e-9, 1e-7, metric=name)
    check_eq(gen.snapshot(source), before, 'the source series is left as it was')
    check(not model.fitted, 'models are not fitted after a cross validation')
    # Also a second time
    check_eq(model.cross_validate(series, **kwargs), got, 'repeated')


@sub('C23', 'models', lambda: st.fixed_dictionaries({'spec': zoo.series(24, 44, max_labels=2, value=zoo.quarters(20, 60)), 'rounds': st.integers(2, 4), 'kind': st.sampled_from(['PeriodicAverageForecaster', 'PeriodicAverageForecaster', 'Persistence', 'PeriodicAverageReconstructor', 'Fittable']),
                                                    'window': st.integers(2, 4), 'period': st.integers(2, 3), 'metrics': st.sampled_from([None, ['MAE'], ['RMSE', 'MAPE']])}),
     'built-in and custom models: each metric is the average and the standard deviation of those of fresh models, each fitted and evaluated by itself on the parts of the series (as series of their own); non-trivial = more than two rounds', quick=250, shards=2)
def models(case, ctx):
    from timeseria.exceptions import NotEnoughDataError
    spec, kind = case['spec'], case['kind']
    n = len(spec['ts'])

    def make():
        if kind == 'PeriodicAverageForecaster':
            return model_of('forecasters', kind, window=case['window'])
        if kind == 'PeriodicAverageReconstructor':
            return model_of('reconstructors', kind)
        return zoo.custom()[kind](window=case['window']) if kind == 'Persistence' else zoo.custom()[kind]()
    fit, evaluate = {}, {}
    if kind.startswith('Periodic'):
        fit['periodicity'] = case['period']
        if spec.get('indexes'):
            fit['data_loss_limit'] = None
    elif kind == 'Persistence':
        fit['drift'] = 3
    if kind == 'Fittable':
        evaluate['extra'] = 2
    elif case['metrics'] and kind != 'PeriodicAverageReconstructor':
        evaluate['error_metrics'] = case['metrics']
    if kind == 'PeriodicAverageReconstructor':
        evaluate['steps'] = [1]
        spec = dict(spec, labels=spec['labels'][:1], data=[row[:1] for row in spec['data']])
    evaluations = []
    for (a, b), first, _ in chunks(n, case['rounds']):
        model = make()
        model.fit(gen.build(zoo.cut(spec, *first)), **fit)
        try:
            evaluations.append(model.evaluate(gen.build(zoo.cut(spec, a, b)), **evaluate))
        except KeyError:
            # A phase which was never seen
            raise Reject()
        except NotEnoughDataError:
            evaluations = None
            break
    ctx.nontrivial(case['rounds'] > 2)
    kwargs = {'fit_' + k: v for k, v in fit.items()}
    kwargs.update({'evaluate_' + k: v for k, v in evaluate.items()})
    if evaluations is None:
        check(raises(lambda: make().cross_validate(gen.build(spec), rounds=case['rounds'], **kwargs), NotEnoughDataError) is not None, 'where a round cannot be evaluated, there is no cross validation')
        return
    got = make().cross_validate(gen.build(spec), rounds=case['rounds'], **kwargs)
    names = list(evaluations[0])
    check_eq(set(got), {x + y for x in names for y in ('_avg', '_stdev')}, 'metrics')
    for name in names:
        values = [x[name] for x in evaluations]
        check_close(got[name + '_avg'], statistics.mean(values), 'average', 1e-9, 1e-7, metric=name)
        check_close(got[name + '_stdev'], statistics.stdev(values), 'standard deviation', 1e-6, 1e-6, metric=name)


@sub('C23', 'refusals', lambda: st.fixed_dictionaries({'spec': zoo.series(12, 20), 'kind': st.sampled_from(['PeriodicAverageForecaster', 'Recorder', 'Fittable']), 'name': st.sampled_from(['periodicity', 'series', 'round', 'Fit_strength', 'evaluation_x'])}),
     'parameters meant for neither the fit nor the evaluation, fitted models and what is not a (regular, non-empty) time series are refused, and leave the model as it was; non-trivial = every case', quick=100)
def refusals(case, ctx):
    from timeseria.datastructures import TimeSeries
    ctx.nontrivial()
    spec, kind = case['spec'], case['kind']

    def make():
        if kind == 'PeriodicAverageForecaster':
            return model_of('forecasters', kind)
        return recorder()[kind]() if kind == 'Recorder' else zoo.custom()[kind]()
    fit = {'periodicity': 2} if kind.startswith('Periodic') else {}
    extra = {'fit_' + k: v for k, v in fit.items()}
    model = make()
    if case['name'] != 'series':
        check(raises(lambda: model.cross_validate(gen.build(spec), rounds=2, **dict(extra, **{case['name']: 3}))) is not None, 'unknown parameters are refused', name=case['name'])
    check(raises(lambda: model.cross_validate(gen.build(spec)[0].data, rounds=2, **extra), TypeError) is not None, 'something else than a time series is refused')
    check(raises(lambda: model.cross_validate(TimeSeries(), rounds=2, **extra), ValueError) is not None, 'empty series are refused')
    check(not model.fitted, 'not fitted')
    model.fit(gen.build(spec), **fit)
    check(raises(lambda: model.cross_validate(gen.build(spec), rounds=2, **extra), NotImplementedError) is not None, 'fitted models are refused')
    check(model.fitted, 'still fitted')
