"""C19 - saved models load as they were."""
import json
import copy
import os
import tempfile

from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import sub, check, check_eq, fail, raises, Reject

PARAMETERS = st.fixed_dictionaries({
    'periodicity': st.sampled_from([2, 3, 4, 'auto']), 'dst': st.booleans(), 'window': st.sampled_from(['auto', 'auto', 2, 3]), 'metric': st.sampled_from(['E', 'AE', 'PE', 'APE']),
    'distribution': st.sampled_from(['norm', 'norm', 'laplace', 'gennorm']), 'store': st.sampled_from([True, True, False]), 'how': st.sampled_from(['list', 'dict']), 'drift': st.integers(-4, 4)})
KINDS = ['PeriodicAverageForecaster', 'PeriodicAverageForecaster', 'PeriodicAverageReconstructor', 'PeriodicAverageAnomalyDetector', 'PeriodicAverageReconstructorAnomalyDetector',
         'Fittable', 'Persistence', 'PersistenceDetector', 'ContextualDetector']
_DETECTORS = {}


def detectors():
    from timeseria.models.anomaly_detectors import ModelBasedAnomalyDetector
    if not _DETECTORS:
        for name in ('Persistence', 'Contextual'):
            _DETECTORS[name + 'Detector'] = type(name + 'Detector', (ModelBasedAnomalyDetector,), {'model_class': zoo.custom()[name]})
    return _DETECTORS


def cls(kind):
    from timeseria.models import forecasters, reconstructors, anomaly_detectors
    for place in (forecasters, reconstructors, anomaly_detectors):
        if hasattr(place, kind):
            return getattr(place, kind)
    return detectors()[kind] if kind.endswith('Detector') else zoo.custom()[kind]


def make(kind, p):
    if kind == 'PeriodicAverageForecaster' or kind == 'PeriodicAverageAnomalyDetector':
        return cls(kind)(window=p['window'])
    if kind == 'Persistence':
        return cls(kind)(how=p['how'])
    return cls(kind)()


def fit(model, kind, series, p):
    kwargs = {}
    if kind.startswith('PeriodicAverage'):
        kwargs.update(periodicity=p['periodicity'], dst_affected=p['dst'])
    elif kind == 'Fittable':
        kwargs.update(extra=p['drift'])
    elif kind.startswith('Persistence'):
        kwargs.update(drift=p['drift'])
    if kind.endswith('Detector'):
        kwargs.update(error_metric=p['metric'], error_distribution=p['distribution'], store_errors=p['store'])
    if kind == 'ContextualDetector':
        kwargs['with_context'] = True
    model.fit(series, **kwargs)


def usable(kind, spec):
    """The series the kind of model works with."""
    if kind.startswith('PeriodicAverageReconstructor') or kind.startswith('Prophet'):
        return dict(spec, labels=spec['labels'][:1], data=[row[:1] for row in spec['data']])
    if kind == 'ContextualDetector' and len(spec['labels']) == 1:
        return dict(spec, labels=spec['labels'] + ['context'], data=[row + [i % 3 + 1] for i, row in enumerate(spec['data'])])
    return spec


def plain(value):
    from timeseria.datastructures import Series, Point, Slot
    if isinstance(value, Series):
        return plain(gen.snapshot(value))
    if isinstance(value, (Point, Slot)):
        return plain(gen.snapshot_item(value))
    if isinstance(value, float) and value != value:
        return 'nan'
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if isinstance(value, dict):
        return {str(k): plain(v) for k, v in value.items()}
    return value


def everything(kind, model, spec, p):
    """All a model has to say about a series."""
    out = {}

    def ask(name, call):
        try:
            out[name] = plain(call(gen.build(spec)))
        except Exception as e:
            out[name] = 'raised {}: {}'.format(type(e).__name__, e)
    if kind.endswith('Detector'):
        ask('apply', lambda s: model.apply(s))
        ask('apply lin', lambda s: model.apply(s, index_bounds=['1_sigma', '4_sigma'], index_type='lin', details=True))
        ask('apply adherence', lambda s: model.apply(s, index_bounds=['adherence/2', 'adherence/20'], threshold=0.5, multivariate_index_strategy='avg'))
    elif kind.endswith('Reconstructor'):
        ask('predict', lambda s: model.predict(s, from_i=2, to_i=3))
        ask('apply', lambda s: model.apply(s, data_loss_threshold=0.5))
        ask('evaluate', lambda s: model.evaluate(s, steps=2, metrics=['RMSE', 'MAE', 'MAPE'], details=True))
        ask('evaluate auto', lambda s: model.evaluate(s))
    else:
        ask('predict', lambda s: model.predict(s))
        ask('apply', lambda s: model.apply(s))
        ask('evaluate', lambda s: model.evaluate(s))
        if kind != 'Fittable':
            ask('forecast', lambda s: model.forecast(s, steps=2))
            ask('apply 3', lambda s: model.apply(s, steps=3))
            ask('evaluate more', lambda s: model.evaluate(s, error_metrics=['MSE', 'MAPE', 'HAE'], return_results_series=True))
    out['fitted'] = model.fitted
    out['id'] = model.id
    out['window'] = plain(getattr(model, 'window', None))
    return out


def files(path):
    out = {}
    for place, _, names in os.walk(path):
        for name in names:
            with open(os.path.join(place, name)) as f:
                out[os.path.relpath(os.path.join(place, name), path)] = f.read()
    return out


@sub('C19', 'histories', lambda: st.fixed_dictionaries({
    'kind': st.sampled_from(KINDS), 'p': PARAMETERS, 'q': PARAMETERS, 'one': zoo.series(12, 20, value='mixed'), 'two': zoo.series(12, 20, value='mixed'), 'factor': st.sampled_from([2, 0.5, -1]),
    'first': st.integers(0, 5),
    'steps': st.lists(st.tuples(st.sampled_from(['fit', 'fit', 'save', 'load', 'use', 'copy']), st.integers(0, 5)).map(list), min_size=1, max_size=5)}),
     'histories of fitting, saving, using, copying and loading (also what was loaded) models of all kinds: whatever was done in the meanwhile, what is loaded says exactly what the model said when it was saved, about the series it was '
     'fitted on and about another, with the same identifier, and changes neither the saved model nor its files; non-trivial = at least a model loaded after another fit, save, load or use, and giving results', quick=300, shards=4)
def histories(case, ctx):
    kind = case['kind']
    specs = [usable(kind, case['one']), usable(kind, case['two'])]
    parameters = [case['p'], dict(case['q'], window=case['p']['window'], how=case['p']['how'])]
    other = [dict(spec, data=[[v * case['factor'] + i for i, v in enumerate(row)] for row in spec['data']]) for spec in specs]
    model = make(kind, case['p'])
    fitted = None
    saved = {}
    answers = 0
    with tempfile.TemporaryDirectory() as tmp:
        for number, (what, pick) in enumerate([['fit', case['first']], ['save', 0]] + case['steps'] + [['load', case['first']]]):
            if what == 'fit':
                if kind in ('PeriodicAverageForecaster', 'PeriodicAverageAnomalyDetector') and case['p']['window'] != 'auto' and any(m is model for m in [x.get('loaded') for x in saved.values()]):
                    # The window given when creating a model is not among its parameters
                    continue
                try:
                    fit(model, kind, gen.build(specs[pick % 2]), parameters[pick % 2])
                except Exception as e:
                    check(not model.fitted, 'a model is not fitted after a failed fit', e=repr(e))
                    fitted = None
                else:
                    fitted = pick % 2
            elif fitted is None:
                continue
            elif what == 'save':
                path = os.path.join(tmp, 'model {}'.format(number))
                before = everything(kind, model, specs[fitted], parameters[fitted]), everything(kind, model, other[fitted], parameters[fitted])
                model.save(path)
                saved[path] = {'fitted': fitted, 'says': before, 'files': files(path), 'labels': list(model.data['data_labels']), 'resolution': str(model.data['resolution']), 'number': number}
                check_eq((everything(kind, model, specs[fitted], parameters[fitted]), everything(kind, model, other[fitted], parameters[fitted])), before, 'saving a model does not change it')
            elif what == 'load' and saved:
                path = sorted(saved)[pick % len(saved)]
                loaded = cls(kind).load(path)
                known = saved[path]
                fitted = known['fitted']
                says = everything(kind, loaded, specs[fitted], parameters[fitted]), everything(kind, loaded, other[fitted], parameters[fitted])
                check_eq(says, known['says'], 'what a loaded model says')
                check_eq((list(loaded.data['data_labels']), str(loaded.data['resolution'])), (known['labels'], known['resolution']), 'labels and resolution of a loaded model')
                check_eq(files(path), known['files'], 'files of a saved model')
                if any(not isinstance(v, str) for v in known['says'][0].values()) and not str(known['says'][0]['apply']).startswith('raised'):
                    if number > known['number'] + 1:
                        answers += 1
                known['loaded'] = loaded
                model = loaded
            elif what == 'use':
                everything(kind, model, specs[fitted], parameters[fitted])
            elif what == 'copy':
                says = everything(kind, model, specs[fitted], parameters[fitted])
                twin = copy.deepcopy(model)
                check_eq(everything(kind, twin, specs[fitted], parameters[fitted]), says, 'what a copy of a model says')
                for known in saved.values():
                    if known.get('loaded') is model:
                        known['loaded'] = twin
                model = twin
        for path in saved:
            check_eq(files(path), saved[path]['files'], 'files of a saved model')
    ctx.nontrivial(answers > 0)
    ctx.label(kind)
    ctx.label('nothing saved', not saved)
    ctx.label('answers', answers)


@sub('C19', 'resolutions', lambda: st.fixed_dictionaries({
    'kind': st.sampled_from(['Fittable', 'Persistence', 'PeriodicAverageForecaster']), 'p': PARAMETERS, 'n': st.integers(8, 12), 't0': st.integers(-10**6, 10**9), 'tz': st.sampled_from(gen.TZS),
    'step': st.one_of(st.integers(1, 100), st.sampled_from([3599, 3601, 5400, 86399, 90000, 172800, 604800, 86400 * 30]), st.integers(1, 10**6)), 'label': st.text(min_size=1, max_size=5), 'numpy': st.booleans()}),
     'models fitted on points at any resolution, with any label: loaded they accept what they accepted, refuse other resolutions and labels, and give the same; non-trivial = every case', quick=300)
def resolutions(case, ctx):
    ctx.nontrivial()
    n, step, label = case['n'], case['step'], case['label']
    spec = {'kind': 'points', 'form': 'dict', 'labels': [label], 'tz': case['tz'], 'ts': [case['t0'] + i * step for i in range(n)], 'data': [[i * i % 7 + 1] for i in range(n)]}
    if case.get('numpy'):
        spec['numbers'] = 'numpy'
    p = dict(case['p'], periodicity=2)
    kind = case['kind']
    if step > 3600:
        # Unless it is too coarse for the DST to be taken into account
        p['dst'] = False
    model = make(kind, p)
    fit(model, kind, gen.build(spec), p)
    with tempfile.TemporaryDirectory() as tmp:
        model.save(os.path.join(tmp, 'model'))
        loaded = cls(kind).load(os.path.join(tmp, 'model'))
    says = everything(kind, model, spec, p)
    check_eq(everything(kind, loaded, spec, p), says, 'what a loaded model says')
    check(not str(says['predict']).startswith('raised'), 'a loaded model can be used', says=says['predict'])
    for wrong in (dict(spec, labels=[label + 'x']), dict(spec, ts=[case['t0'] + i * (step + 1) for i in range(n)])):
        for m in (model, loaded):
            check(raises(lambda: m.predict(gen.build(wrong)), ValueError) is not None, 'a loaded model refuses other labels and resolutions', wrong={k: wrong[k] for k in ('labels', 'ts')})


@sub('C19', 'prophet', lambda: st.fixed_dictionaries({'kind': st.sampled_from(['ProphetForecaster', 'ProphetReconstructor']), 'spec': zoo.series(12, 30, units=['1m', '1h', '24h', '1D'], max_labels=1, losses='none')}),
     'Prophet models, saved and loaded; non-trivial = every case', quick=16, thorough=150)
def prophet(case, ctx):
    ctx.nontrivial()
    kind, spec = case['kind'], case['spec']
    model = cls(kind)()
    model.fit(gen.build(spec))
    with tempfile.TemporaryDirectory() as tmp:
        model.save(os.path.join(tmp, 'model'))
        loaded = cls(kind).load(os.path.join(tmp, 'model'))
    check_eq((loaded.id, loaded.fitted, loaded.data['data_labels']), (model.id, True, model.data['data_labels']), 'parameters of a loaded model')
    for call in ([lambda m: m.predict(gen.build(spec), steps=3), lambda m: m.apply(gen.build(spec), steps=2)] if kind == 'ProphetForecaster' else [lambda m: m.predict(gen.build(spec), from_i=3, to_i=5)]):
        got, want = ([], [])
        for m, out in ((loaded, got), (model, want)):
            try:
                out.append(plain(call(m)))
            except ValueError as e:
                # Instants which cannot be on the clock
                out.append(str(e))
        check_eq(got, want, 'what a loaded model says')


@sub('C19', 'preprocessed', lambda: st.fixed_dictionaries({'kind': st.sampled_from(['PeriodicAverageAnomalyDetector', 'PeriodicAverageReconstructorAnomalyDetector', 'PersistenceDetector', 'ContextualDetector']), 'p': PARAMETERS, 'numpy': st.booleans(),
                                                             'spec': zoo.series(12, 20, losses='none')}),
     'detectors, with series pre-processed before saving and after loading: both give what the series as it is gives; non-trivial = every case', quick=160)
def preprocessed(case, ctx):
    kind, p = case['kind'], dict(case['p'], periodicity=2)
    spec = usable(kind, case['spec'])
    if case.get('numpy'):
        spec = dict(spec, numbers='numpy')
    model = make(kind, p)
    try:
        fit(model, kind, gen.build(spec), p)
    except Exception:
        raise Reject()
    ctx.nontrivial()
    with tempfile.TemporaryDirectory() as tmp:
        model.save(os.path.join(tmp, 'model'))
        loaded = cls(kind).load(os.path.join(tmp, 'model'))
    bounds = ['1_sigma', '4_sigma']
    want = plain(model.apply(gen.build(spec), index_bounds=bounds, index_type='lin'))
    ready = model.preprocess(gen.build(spec))
    check_eq(plain(loaded.apply(ready, index_bounds=bounds, index_type='lin')), want, 'loaded, on what was pre-processed before saving')
    check_eq(plain(model.apply(loaded.preprocess(gen.build(spec)), index_bounds=bounds, index_type='lin')), want, 'saved, on what was pre-processed after loading')


@sub('C19', 'unsaved', lambda: st.just(0), 'where the known finding (the fitted state of Auto-ARIMA forecasters is not saved) is replayed; nothing is generated', quick=1, thorough=1)
def unsaved(case, ctx):
    if case == 0:
        return
    ctx.nontrivial()
    spec = {'kind': 'points', 'form': 'dict', 'labels': ['a'], 'tz': 'UTC', 'ts': [3600 * i for i in range(30)], 'data': [[i % 5 + i / 7] for i in range(30)]}
    model = cls('AARIMAForecaster')()
    model.fit(gen.build(spec))
    with tempfile.TemporaryDirectory() as tmp:
        model.save(os.path.join(tmp, 'model'))
        loaded = cls('AARIMAForecaster').load(os.path.join(tmp, 'model'))
    e = raises(lambda: loaded.predict(gen.build(spec)))
    check(e is None, 'a loaded model can be used', e=repr(e))
