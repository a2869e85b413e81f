"""C18 - models only work on what they were fitted for."""
import copy
import os
import tempfile

from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import sub, check, check_eq, fail, raises

# Fit parameters, and the way of calling each of the methods available
KINDS = ['PeriodicAverageForecaster', 'PeriodicAverageForecaster', 'PeriodicAverageReconstructor', 'PeriodicAverageAnomalyDetector', 'Fittable', 'Fittable', 'Persistence']


def make(kind):
    from timeseria.models import forecasters, reconstructors, anomaly_detectors
    for place in (forecasters, reconstructors, anomaly_detectors):
        if hasattr(place, kind):
            return getattr(place, kind)()
    return zoo.custom()[kind]()


def fit(model, kind, series, **kwargs):
    if kind.startswith('PeriodicAverage'):
        kwargs['periodicity'] = 2
    if kind.endswith('AnomalyDetector'):
        kwargs.update(error_metric='E', error_distribution='norm')
    return model.fit(series, **kwargs)


def methods(kind):
    """What can be done with a model on a series, and whether it is to be refused with the documented exceptions."""
    out = {}
    if not kind.endswith('AnomalyDetector'):
        if kind.endswith('Reconstructor'):
            out['predict'] = lambda m, s: m.predict(s, from_i=2, to_i=3)
            out['evaluate'] = lambda m, s: m.evaluate(s, steps=[1])
        else:
            out['predict'] = lambda m, s: m.predict(s)
            out['evaluate'] = lambda m, s: m.evaluate(s)
    if kind.endswith('Forecaster') or kind == 'Persistence':
        out['forecast'] = lambda m, s: m.forecast(s)
        out['predict 2'] = lambda m, s: m.predict(s, steps=2)
        out['apply 3'] = lambda m, s: m.apply(s, steps=3)
    if kind.endswith('AnomalyDetector'):
        out['apply'] = lambda m, s: m.apply(s, index_bounds=[0.5, 3], index_type='lin')
    else:
        out['apply'] = lambda m, s: m.apply(s)
    return out


def plain(value):
    from timeseria.datastructures import Series, Point, Slot
    if isinstance(value, Series):
        return gen.snapshot(value)
    if isinstance(value, (Point, Slot)):
        return gen.snapshot_item(value)
    if isinstance(value, list):
        return [plain(v) for v in value]
    if isinstance(value, dict):
        return {str(k): plain(v) for k, v in value.items()}
    return value


def variants(spec):
    """Series which are not those of the fit, with the exception they are refused with (None if they are to be accepted)."""
    from timeseria.datastructures import TimeSeries, Series
    n = len(spec['ts'])
    out = {}
    out['same'] = (gen.build(spec), None)
    out['part'] = (gen.build(zoo.cut(spec, 0, n - 2)), None)
    out['view'] = (gen.build(spec).view(0, n - 1), None)
    other = dict(spec, data=[list(reversed(row)) if len(row) > 1 else [row[0] + 1] for row in spec['data']])
    out['other values'] = (gen.build(other), None)
    out['other order'] = (gen.build(dict(spec, labels=list(reversed(spec['labels'])), data=[list(reversed(row)) for row in spec['data']])), None)
    out['other label'] = (gen.build(dict(spec, labels=['z'] + spec['labels'][1:])), ValueError)
    out['more labels'] = (gen.build(dict(spec, labels=spec['labels'] + ['z'], data=[row + [1] for row in spec['data']])), ValueError)
    if len(spec['labels']) > 1:
        out['less labels'] = (gen.build(dict(spec, labels=spec['labels'][:1], data=[row[:1] for row in spec['data']])), ValueError)
    unit = {'1s': '1m', '1m': '1h', '10m': '15m', '15m': '10m', '1h': '2h', '2h': '1h', '24h': '1h'}.get(spec['res'], '24h')
    resolution = dict(spec, ts=zoo.instants(0, unit, 'UTC', n))
    if spec['kind'] == 'slots':
        resolution['unit'] = unit
    out['other resolution'] = (gen.build(resolution), ValueError)
    step = zoo.STEPS.get(spec['res'])
    if step:
        # Only just different
        close = dict(spec, ts=[i * (step + 1) for i in range(n)])
        if spec['kind'] == 'slots':
            close['unit'] = '{}s'.format(step + 1)
        out['close resolution'] = (gen.build(close), ValueError)
    points = dict(spec, kind='points', ts=[i * 60 + (i > 2) * 10 for i in range(n)])
    out['variable'] = (gen.build(points), ValueError)
    out['empty'] = (TimeSeries(), ValueError)
    out['list'] = ([1, 2, 3], TypeError)
    out['none'] = (None, TypeError)
    out['dict'] = ({'a': 1}, TypeError)
    out['plain series'] = (Series(*list(gen.build(spec))), TypeError)
    out['item'] = (gen.build(spec)[0], TypeError)
    return out


VARIANTS = ['same', 'same', 'part', 'view', 'other values', 'other order', 'other label', 'more labels', 'less labels', 'other resolution', 'close resolution', 'variable', 'empty', 'list', 'none', 'dict', 'plain series', 'item']


def snap(thing):
    from timeseria.datastructures import Series
    return gen.snapshot(thing) if isinstance(thing, Series) else repr(thing)


@sub('C18', 'histories', lambda: st.fixed_dictionaries({
    'kind': st.sampled_from(KINDS), 'one': zoo.series(8, 12, losses='none'), 'two': zoo.series(8, 12, losses='none'),
    'start': st.sampled_from(['fit', 'fit', 'fit', 'use']),
    'steps': st.lists(st.tuples(st.sampled_from(['fit', 'fit', 'use', 'use', 'use', 'use', 'use', 'use', 'save', 'bad fit', 'failing fit', 'cross']), st.sampled_from([0, 0, 1]), st.sampled_from(VARIANTS), st.integers(0, 9)).map(list),
                      min_size=4, max_size=12)}),
     'histories of fitting (also wrongly, or failing half way), using and saving a model, on the series it was fitted on, on compatible ones, and on others (resolution, labels, empty, variable, not even '
     'series): unfitted models and unsuitable series are refused with the documented exception, changing nothing, and suitable ones give what a model just fitted gives; '
     'non-trivial = at least a fit and, after it, one refused and one accepted use', quick=900, shards=3)
def histories(case, ctx):
    from timeseria.exceptions import NotFittedError
    kind = case['kind']
    specs = [dict(spec) for spec in (case['one'], case['two'])]
    if 'Reconstructor' in kind:
        specs = [dict(spec, labels=spec['labels'][:1], data=[row[:1] for row in spec['data']]) for spec in specs]
    model = make(kind)
    calls = methods(kind)
    fitted = None
    seen = set()
    identifier = model.id
    with tempfile.TemporaryDirectory() as tmp:
        for number, (what, which, variant, pick) in enumerate([[case['start'], 0, 'same', 0]] + case['steps']):
            spec = specs[which]
            if what == 'fit':
                fit(model, kind, gen.build(spec))
                fitted = which
                check(model.fitted, 'a model is fitted after the fit')
            elif what == 'bad fit':
                thing, refused = variants(spec).get(variant, (None, TypeError))
                if refused and variant in ('variable', 'empty', 'list', 'none', 'dict', 'plain series', 'item'):
                    check(raises(lambda: fit(model, kind, thing), refused) is not None, 'fitting on what is not suitable is refused', variant=variant)
            elif what == 'failing fit':
                if kind == 'Fittable':
                    check(raises(lambda: model.fit(gen.build(spec), fail=True), RuntimeError) is not None, 'the exception of the fit is raised')
                    fitted = None
            elif what == 'cross':
                if fitted is not None:
                    check(raises(lambda: model.cross_validate(gen.build(specs[fitted]), rounds=2)) is not None, 'cross validating a fitted model is refused')
            elif what == 'save':
                path = os.path.join(tmp, 'model {}'.format(pick % 3))
                existed = os.path.exists(path)
                before = {f: open(os.path.join(path, f)).read() for f in os.listdir(path) if os.path.isfile(os.path.join(path, f))} if existed else None
                if fitted is None:
                    check(raises(lambda: model.save(path), NotFittedError) is not None, 'saving an unfitted model is refused')
                    check(os.path.exists(path) == existed, 'a refused saving leaves nothing behind')
                elif existed:
                    check(raises(lambda: model.save(path), ValueError) is not None, 'saving over an existing path is refused')
                    check_eq({f: open(os.path.join(path, f)).read() for f in before}, before, 'a refused saving leaves what was there as it was')
                else:
                    check(raises(lambda: model.save(''), ValueError) is not None, 'saving with no path is refused')
                    model.save(path)
                    check(os.path.isdir(path), 'a model is saved in a directory')
            else:
                thing, refused = variants(specs[fitted if fitted is not None else which]).get(variant, (None, TypeError))
                name = sorted(calls)[pick % len(calls)]
                before = snap(thing)
                if fitted is None:
                    e = raises(lambda: calls[name](model, thing))
                    check(e is not None, 'using an unfitted model is refused', method=name)
                    if name != 'forecast' or variant in ('same', 'part'):
                        check(isinstance(e, NotFittedError), 'using an unfitted model raises NotFittedError', method=name, e=repr(e))
                elif refused:
                    e = raises(lambda: calls[name](model, thing))
                    check(e is not None, 'using a model on what is not suitable is refused', method=name, variant=variant)
                    if name != 'forecast':
                        check(isinstance(e, refused), 'exception of a refused usage', method=name, variant=variant, e=repr(e))
                    seen.add('refused')
                else:
                    fresh = make(kind)
                    fit(fresh, kind, gen.build(specs[fitted]))
                    got, want = [], []
                    for m, out in ((model, got), (fresh, want)):
                        try:
                            out.append(plain(calls[name](m, thing)))
                        except Exception as e:
                            out.append('{}: {}'.format(type(e).__name__, e))
                    check(not (isinstance(want[0], str) and 'NotFitted' in want[0]), 'fitted models can be used')
                    check_eq(got, want, 'a model gives what it gives when just fitted', method=name, variant=variant)
                    if not isinstance(want[0], str):
                        seen.add('used')
                check_eq(snap(thing), before, 'using a model does not change what it is used on', method=name, variant=variant)
            check_eq(model.id, identifier, 'identifier of the model')
            if fitted is None:
                check(not model.fitted, 'a model is not fitted until (successfully) fitted')
    ctx.nontrivial(len(seen) == 2)
    ctx.label('used', 'used' in seen)


@sub('C18', 'suitable', lambda: st.fixed_dictionaries({
    'kind': st.sampled_from(['PeriodicAverageForecaster', 'PeriodicAverageReconstructor', 'Fittable', 'Persistence']), 'spec': zoo.series(10, 20, losses='none', max_labels=3), 'how': st.sampled_from(['same', 'part', 'view', 'other order', 'other values'])}),
     'fitted models are usable, for everything they provide, on any series with the resolution and labels of the fit (wherever it is in time, in part, as a view, with the labels in another order); '
     'non-trivial = every case', quick=400)
def suitable(case, ctx):
    kind, spec = case['kind'], case['spec']
    if 'Reconstructor' in kind:
        spec = dict(spec, labels=spec['labels'][:1], data=[row[:1] for row in spec['data']])
    model = make(kind)
    fit(model, kind, gen.build(spec))
    thing, _ = variants(spec)[case['how']]
    for name, call in methods(kind).items():
        result = call(model, thing)
        check(result is not None, 'a result is given', method=name)
    ctx.nontrivial()


@sub('C18', 'no_fit', lambda: st.fixed_dictionaries({
    'kind': st.sampled_from(['LinearInterpolationReconstructor', 'Stateless', 'Parametric', 'MeanReconstructor']), 'spec': zoo.series(6, 12), 'other': zoo.series(6, 12), 'factor': st.integers(-5, 5),
    'bad': st.sampled_from(['variable', 'empty', 'list', 'none', 'dict', 'plain series', 'item'])}),
     'models with nothing to fit: usable straight away on any regular series, one after the other, refusing what is not one; with parameters they can be saved, and without they cannot, nor have an identifier; '
     'non-trivial = every case', quick=400)
def no_fit(case, ctx):
    ctx.nontrivial()
    kind = case['kind']
    if kind == 'Parametric':
        model = zoo.custom()[kind](case['factor'])
        with tempfile.TemporaryDirectory() as tmp:
            model.save(os.path.join(tmp, 'model'))
            check(raises(lambda: model.save(os.path.join(tmp, 'model')), ValueError) is not None, 'saving over an existing path is refused')
            loaded = zoo.custom()[kind].load(os.path.join(tmp, 'model'))
        check_eq((loaded.data, loaded.id), (model.data, model.id), 'parameters of a loaded model')
        check_eq(loaded.data['factor'], case['factor'], 'parameters of a loaded model')
        check(zoo.custom()[kind](1).id != model.id, 'models have their own identifier')
        for method in (model.predict, model.apply, model.evaluate, model.fit):
            check(raises(lambda: method(gen.build(case['spec'])), NotImplementedError) is not None, 'what a model does not provide is refused')
        return
    model = make(kind)
    check(raises(lambda: model.id, TypeError) is not None, 'models without parameters have no identifier')
    with tempfile.TemporaryDirectory() as tmp:
        check(raises(lambda: model.save(os.path.join(tmp, 'model')), TypeError) is not None, 'models without parameters are not saved')
        check_eq(os.listdir(tmp), [], 'what is refused leaves nothing behind')
    check(raises(lambda: model.fit(gen.build(case['spec'])), NotImplementedError) is not None, 'models without parameters are not fitted')
    calls = methods(kind)
    for spec in (case['spec'], case['other'], case['spec']):
        series = gen.build(spec)
        before = gen.snapshot(series)
        for name in sorted(calls):
            if name == 'apply' and 'Reconstructor' in kind and any(x is not None and x >= 1 for x in (zoo.losses(spec)[0], zoo.losses(spec)[-1])):
                continue
            if name == 'evaluate' and 'Reconstructor' in kind and (len(spec['labels']) > 1 or any(x == 1 for x in zoo.losses(spec))):
                continue
            result = [plain(calls[name](m, series)) for m in (model, make(kind))]
            check_eq(result[0], result[1], 'a model used on a series after the other', method=name)
        check_eq(gen.snapshot(series), before, 'using a model does not change what it is used on')
    thing, refused = variants(case['spec'])[case['bad']]
    for name, call in calls.items():
        check(raises(lambda: call(model, thing), refused) is not None, 'using a model on what is not suitable is refused', method=name, variant=case['bad'])


@sub('C18', 'single_points', lambda: st.fixed_dictionaries({'spec': zoo.series(4, 8, kinds=['points'], losses='none'), 'how': st.sampled_from(['list', 'dict']), 'steps': st.integers(1, 4),
                                                              'i': st.integers(0, 7), 'drift': st.integers(-3, 3), 'wrong': st.booleans()}),
     'series of a single point, which have no resolution of their own, are accepted by the models that can do with one, but for their labels; non-trivial = every case', quick=200)
def single_points(case, ctx):
    ctx.nontrivial()
    spec = case['spec']
    model = zoo.custom()['Persistence'](window=1, how=case['how'])
    model.fit(gen.build(spec), drift=case['drift'])
    i = case['i'] % len(spec['ts'])
    one = zoo.cut(spec, i, i + 1)
    if case['wrong']:
        series = gen.build(dict(one, labels=['z'] + one['labels'][1:]))
        check(raises(lambda: model.predict(series), ValueError) is not None and raises(lambda: model.apply(series), ValueError) is not None, 'wrong labels are refused')
        return
    result = model.apply(gen.build(one), steps=case['steps'])
    check_eq([x.t for x in result], [one['ts'][0] + k * zoo.STEPS[spec['res']] for k in range(case['steps'] + 1)], 'instants')
    for k, item in enumerate(result):
        for label in spec['labels']:
            check_eq(item.data[label], zoo.column(one, label)[0] + k * case['drift'], 'values')
