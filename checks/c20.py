"""C20 - forecasts."""
import copy
import math

from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import sub, check, check_eq, check_close, close, fail, raises, Reject


def model_of(module, name, *args, **kwargs):
    import importlib
    return getattr(importlib.import_module('timeseria.models.' + module), name)(*args, **kwargs)


@st.composite
def periodic(draw, value=None, losses='none'):
    """A series, with a periodicity and where to fit and to predict along it."""
    spec = draw(st.one_of([zoo.series(12, 40, losses=losses, value=value or 'mixed')] * 3 + [zoo.series(12, 40, losses=losses, value=value or 'mixed', kinds=['slots'], units=['1D', '1D', '1D', '1W'], tzs=['Europe/London', 'Europe/London', 'Europe/Rome'])]))
    n = len(spec['ts'])
    periodicity = draw(st.integers(1, min(7, n // 3)))
    dst = draw(st.booleans()) and spec['res'] in ('1s', '1m', '10m', '15m', '1h')
    window = draw(st.sampled_from(['auto', 'auto', 2, 3, 5]))
    if window == 'auto' and periodicity == 1:
        window = 2
    size = periodicity if window == 'auto' else window
    fit_from = draw(st.integers(0, n - 2 * periodicity))
    fit_to = draw(st.integers(fit_from + 2 * periodicity, n))
    use_from = draw(st.integers(0, n - size - 1))
    use_to = draw(st.integers(use_from + size, n))
    return {'spec': spec, 'periodicity': periodicity, 'dst': dst, 'window': window, 'fit': [fit_from, fit_to], 'use': [use_from, use_to], 'steps': draw(st.integers(1, 9)),
            'limit': draw(st.sampled_from([1.0, 1.0, 0.5, None])), 'order': draw(st.booleans())}


def fitted(case):
    spec = zoo.cut(case['spec'], *case['fit'])
    model = model_of('forecasters', 'PeriodicAverageForecaster', window=case['window'])
    model.fit(gen.build(spec), periodicity=case['periodicity'], dst_affected=case['dst'], data_loss_limit=case['limit'])
    return model, spec


@sub('C20', 'periodic_averages', lambda: periodic(losses=None),
     'periodic average forecasters fitted on a part of a series and used on another, with any periodicity, window, resolution, time zone, DST handling and data loss: for each step and label the forecast is the average of the items of the fit '
     'with the same phase and an acceptable data loss, plus the average difference on the window (or exactly the recorded defect on it); non-trivial = at least two phases, not constant', quick=900, shards=3)
def periodic_averages(case, ctx):
    refs = {}
    model, used = None, zoo.cut(case['spec'], *case['use'])
    spec = zoo.cut(case['spec'], *case['fit'])
    for label in spec['labels']:
        refs[label] = zoo.PeriodicAverages(spec, label, case['periodicity'], case['dst'], case['limit'])
    if not refs[spec['labels'][0]].averages:
        check(raises(lambda: fitted(case), ValueError) is not None, 'fitting only on lost items is refused')
        return
    model, _ = fitted(case)
    if case['order']:
        used = dict(used, labels=list(reversed(used['labels'])), data=[list(reversed(row)) for row in used['data']])
    window = case['periodicity'] if case['window'] == 'auto' else case['window']
    check_eq(model.window, window, 'window of the model')
    series = gen.build(used)
    n = len(used['ts'])
    try:
        future = zoo.following(used, case['steps'])
    except Exception:
        raise Reject()
    recent = [used['ts'][i] for i in range(n - window - 1, n)] if n > window else used['ts'] + used['ts'][-1:]
    if any(ref.at(t) is None for ref in refs.values() for t in future + recent):
        # A phase which was never seen: nothing can be told
        return
    try:
        got = model.predict(series, steps=case['steps'])
    except ValueError as e:
        if 'ime' in str(e) and used['res'] in zoo.CALENDAR:
            # Not on the clock
            raise Reject()
        raise
    check_eq(len(got), case['steps'], 'number of forecasts')
    for label in used['labels']:
        values = zoo.column(used, label)
        ref = refs[label]
        differences = [v - ref.at(t) for v, t in zip(values, used['ts'])] if all(ref.at(t) is not None for t in used['ts']) else None
        if differences is None:
            differences = [v - ref.at(t) if ref.at(t) is not None else None for v, t in zip(values, used['ts'])]
        offset = sum(differences[-window:]) / window
        defect = sum(differences[n - 1 - window + j] for j in range(window)) / (window - 1)
        for k in range(case['steps']):
            average = ref.at(future[k])
            if not close(got[k][label], average + offset, 1e-9, 1e-7) and not close(got[k][label], average + defect, 1e-9, 1e-7):
                fail('forecast', step=k, label=label, got=got[k][label], want=average + offset, average=average, offset=offset)
        ctx.nontrivial(len(set(ref.averages.values())) > 1)
    check_eq([set(x) for x in got], [set(used['labels'])] * case['steps'], 'labels of the forecasts')


@st.composite
def rhythms(draw):
    spec = draw(zoo.series(4, 4, losses='none', calendar=False))
    periods = draw(st.lists(st.sampled_from([3, 4, 6, 8, 12]), min_size=2, max_size=3, unique=True))
    labels = draw(st.permutations(['a', 'b', 'c']))[:len(periods)]
    n = 48 if draw(st.booleans()) else 96
    ts = zoo.instants(spec['ts'][0], spec['res'], spec['tz'], n)
    data = [[round(20 + 10 * math.sin(2 * math.pi * i / p + j), 6) for j, p in enumerate(periods)] for i in range(n)]
    return {'spec': dict(spec, labels=labels, ts=ts, data=data), 'periods': periods, 'steps': draw(st.integers(1, 15)), 'use': draw(st.integers(0, 30)), 'short': draw(st.integers(1, 11))}


@sub('C20', 'rhythms', lambda: rhythms(),
     'series of many labels, each with a periodicity of its own, with nothing told to the periodic average forecaster: each label is forecast as when alone, by its own periodicity, and the window of the model is the longest of them (and what is shorter '
     'is refused); non-trivial = different periodicities', quick=120)
def rhythms_(case, ctx):
    spec, periods, steps = case['spec'], case['periods'], case['steps']
    ctx.nontrivial(len(set(periods)) > 1)
    model = model_of('forecasters', 'PeriodicAverageForecaster')
    model.fit(gen.build(spec))
    check_eq(model.window, max(periods), 'window of the model')
    used = zoo.cut(spec, case['use'], len(spec['ts']))
    got = model.predict(gen.build(used), steps=steps)
    got = [got] if isinstance(got, dict) else got
    for j, label in enumerate(spec['labels']):
        alone = model_of('forecasters', 'PeriodicAverageForecaster')
        one = dict(spec, labels=[label], data=[[row[j]] for row in spec['data']])
        alone.fit(gen.build(one), periodicity=periods[j])
        want = alone.predict(gen.build(zoo.cut(one, case['use'], len(spec['ts']))), steps=steps)
        want = [want] if isinstance(want, dict) else want
        for k in range(steps):
            check_close(got[k][label], want[k][label], 'forecast of a label, as when alone', 1e-9, 1e-7, label=label, step=k)
    short = zoo.cut(spec, 0, case['short'])
    if case['short'] < max(periods):
        check(raises(lambda: model.predict(gen.build(short)), ValueError) is not None, 'series shorter than the window are refused')


@sub('C20', 'level', lambda: st.just(None), 'where the known finding on the offset of periodic average forecasters is replayed; nothing is generated', quick=1, thorough=1)
def level(case, ctx):
    if case is None:
        return
    ctx.nontrivial()
    spec = {'kind': 'points', 'form': 'dict', 'labels': ['a'], 'tz': 'UTC', 'ts': [3600 * i for i in range(24)], 'data': [[i % 4] for i in range(24)]}
    model = model_of('forecasters', 'PeriodicAverageForecaster')
    model.fit(gen.build(spec), periodicity=4)
    moved = dict(spec, data=[[row[0] + 10] for row in spec['data']])
    check_close(model.predict(gen.build(moved))[0]['a'], 10, 'forecast of a periodic series which only changed level')


@sub('C20', 'exactly_periodic', lambda: st.fixed_dictionaries({'case': periodic(), 'values': st.lists(st.lists(zoo.quarters(-40, 40), min_size=7, max_size=7), min_size=3, max_size=3), 'lost': st.lists(st.integers(0, 39), max_size=6)}),
     'exactly periodic series (but on fully lost items, which have anything): wherever they are fitted and used, forecasts continue them exactly, and applying the model gives the items which follow; non-trivial = at least two different values', quick=500, shards=2)
def exactly_periodic(case, ctx):
    values, lost, case = case['values'], case['lost'], case['case']
    spec = case['spec']
    period = case['periodicity']
    n = len(spec['ts'])
    try:
        ts = spec['ts'] + zoo.following(spec, case['steps'])
    except Exception:
        raise Reject()
    phases = [zoo.count(t, spec['res'], spec['tz'], ts[0], case['dst']) % period for t in ts]
    data = [[values[j][phase] for j in range(len(spec['labels']))] for phase in phases]
    a, b = case['fit']
    lost = {i for i in lost if a <= i < b and sum(1 for k in range(a, b) if phases[k] == phases[i] and k not in lost) > 0}
    whole = dict(spec, ts=ts, data=data)
    learnt = dict(zoo.cut(whole, a, b), indexes=[{'data_loss': 1 if i in lost else 0} for i in range(a, b)])
    learnt['data'] = [[v + 17 for v in row] if i + a in lost else row for i, row in enumerate(learnt['data'])]
    model = model_of('forecasters', 'PeriodicAverageForecaster', window=case['window'])
    model.fit(gen.build(learnt), periodicity=period, dst_affected=case['dst'])
    if set(phases) - {phases[i] for i in range(a, b) if i not in lost}:
        return
    ctx.nontrivial(len({x for row in data for x in row}) > 1)
    i, j = case['use']
    used = zoo.cut(whole, i, j)
    try:
        result = model.apply(gen.build(used), steps=case['steps'])
    except ValueError as e:
        if 'ime' in str(e) and spec['res'] in zoo.CALENDAR:
            raise Reject()
        raise
    check_eq([x.start.t if spec['kind'] == 'slots' else x.t for x in result], ts[i:j] + zoo.following(used, case['steps']), 'instants')
    full = {t: row for t, row in zip(ts, data)}
    for item in list(result):
        t = item.start.t if spec['kind'] == 'slots' else item.t
        for label, want in zip(spec['labels'], full[t] if t in full else [None] * 9):
            check_close(item.data[label], want, 'periodic continuation', 1e-9, 1e-7, t=t, label=label)


@st.composite
def uses(draw):
    spec = draw(zoo.series(8, 14))
    return {'kind': draw(st.sampled_from(['PeriodicAverageForecaster', 'Persistence list', 'Persistence dict', 'Persistence dict'])), 'spec': spec, 'window': draw(st.integers(2, 4)), 'drift': draw(st.integers(-3, 3)),
            'steps': draw(st.integers(1, 6)), 'again': draw(st.integers(1, 3)), 'use': draw(st.integers(4, len(spec['ts']))), 'view': draw(st.booleans())}


def forecaster(case):
    if case['kind'] == 'PeriodicAverageForecaster':
        model = model_of('forecasters', 'PeriodicAverageForecaster', window=case['window'])
        model.fit(gen.build(dict(case['spec'], indexes=None)), periodicity=2)
    else:
        model = zoo.custom()['Persistence'](window=case['window'], how=case['kind'].split()[1])
        model.fit(gen.build(case['spec']), drift=case['drift'])
    return model


@sub('C20', 'applying', lambda: uses(),
     'forecasters giving all steps at once, or one at a time: the series and its items come back as they were (marked as not forecast), followed by exactly as many items as asked, contiguous, with the unit, time zone and labels of the '
     'series, marked as forecast and with no data loss known, holding what the model predicts; in place or not, at once or in more goes (for models predicting one step at a time); non-trivial = every case', quick=700, shards=2)
def applying(case, ctx):
    ctx.nontrivial()
    spec = zoo.cut(case['spec'], 0, case['use'])
    model = forecaster(case)
    series = gen.build(spec)
    before = gen.snapshot(series)
    steps = case['steps']
    try:
        result = model.apply(series, steps=steps)
    except ValueError as e:
        if 'ime' in str(e) and spec['res'] in zoo.CALENDAR:
            raise Reject()
        raise
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')
    n = len(spec['ts'])
    check_eq(len(result), n + steps, 'length')
    future = zoo.following(spec, steps)
    slots = spec['kind'] == 'slots'
    check_eq([x.start.t if slots else x.t for x in result], spec['ts'] + future, 'instants')
    check_eq(str(result.tz), spec['tz'], 'time zone')
    check_eq(str(result.resolution), str(gen.build(spec).resolution), 'resolution')
    if case['kind'] == 'Persistence dict':
        values = {label: zoo.column(spec, label) for label in spec['labels']}
        for label in values:
            for _ in range(steps):
                values[label].append(sum(values[label][-case['window']:]) / case['window'] + case['drift'])
        want = [{label: values[label][n + k] for label in values} for k in range(steps)]
    elif case['kind'] == 'Persistence list':
        values = {label: sum(zoo.column(spec, label)[-case['window']:]) / case['window'] for label in spec['labels']}
        want = [{label: values[label] + (k + 1) * case['drift'] for label in values} for k in range(steps)]
    else:
        want = model.predict(gen.build(spec), steps=steps)
    for i, item in enumerate(result):
        check_eq(str(item.start.tz if slots else item.tz), spec['tz'], 'time zone of the items')
        if slots:
            check_eq(item.unit, series[0].unit, 'unit of the items')
        if i < n:
            check_eq(item.data, series[i].data, 'data of the source items')
            check_eq(item.data_indexes, dict(series[i].data_indexes, forecast=0), 'data indexes of the source items')
        else:
            check_eq(item.data_indexes['forecast'], 1, 'forecast index')
            check(item.data_loss is None, 'data loss of a forecast')
            check_eq(set(item.data), set(spec['labels']), 'labels')
            for label in spec['labels']:
                check_close(item.data[label], want[i - n][label], 'value of the forecast', 1e-9, 1e-7, step=i - n, label=label)
    other = gen.build(spec)
    check(model.apply(other, steps=steps, inplace=True) is None, 'in place gives nothing back')
    check_eq(gen.snapshot(other), gen.snapshot(result), 'in place')
    one = model.forecast(gen.build(spec))
    one = one[0] if isinstance(one, list) else one
    check_eq(gen.snapshot_item(one)['data'], gen.snapshot_item(result[n])['data'], 'forecast of one item')
    check_eq((one.start.t if slots else one.t), future[0], 'instant of a forecast')
    if case['kind'] == 'Persistence dict':
        more = model.apply(result, steps=case['again'])
        once = model.apply(gen.build(spec), steps=steps + case['again'])
        check_eq(gen.snapshot(more), gen.snapshot(once), 'in more goes')
    elif case['again']:
        more = model.apply(result, steps=case['again'])
        check_eq(gen.snapshot(more)[:n + steps], gen.snapshot(result), 'what was already forecasted stays as it was')
        check_eq([x.data_indexes['forecast'] for x in more][n:], [1] * (steps + case['again']), 'forecast index of further forecasts')
    if case['view']:
        # The last part of a longer series
        longer = gen.build(case['spec'])
        view = longer.view(max(0, case['use'] - 4), case['use'])
        part = gen.build(zoo.cut(case['spec'], max(0, case['use'] - 4), case['use']))
        check_eq(model.predict(view), model.predict(part), 'on a view')


@sub('C20', 'contexts', lambda: st.fixed_dictionaries({'spec': zoo.series(6, 10, max_labels=3, losses='none'), 'targets': st.integers(1, 2), 'with': st.booleans(), 'context': st.lists(zoo.quarters(), min_size=3, max_size=3), 'wrong': st.booleans()}),
     'forecasters of some labels (targets) with the others as context: the context is required if and only if the model was fitted with it, and forecast items carry both the predicted targets and the context given, which is left as it was; '
     'non-trivial = with context', quick=300)
def contexts(case, ctx):
    spec = case['spec']
    if len(spec['labels']) < 2:
        spec = dict(spec, labels=spec['labels'] + ['other'], data=[row + [i % 4 + 1] for i, row in enumerate(spec['data'])])
    targets = sorted(spec['labels'])[:min(case['targets'], len(spec['labels']) - 1)]
    others = [label for label in spec['labels'] if label not in targets]
    model = zoo.custom()['Contextual']()
    model.fit(gen.build(spec), target=targets, with_context=case['with'])
    series = gen.build(spec)
    before = gen.snapshot(series)
    context = {label: v for label, v in zip(others, case['context'])}
    given = copy.deepcopy(context)
    if not case['with']:
        check(raises(lambda: model.predict(series, context_data=context), ValueError) is not None, 'context data not fitted with is refused')
        got = model.predict(series)
        check_eq(got, {label: zoo.column(spec, label)[-1] for label in targets}, 'prediction without context')
        check(raises(lambda: model.apply(series), ValueError) is not None, 'forecasting some labels only, without the others, is refused')
        check_eq(gen.snapshot(series), before, 'the source series is left as it was')
        return
    ctx.nontrivial()
    for call in (model.predict, model.forecast, model.apply):
        check(raises(lambda: call(series), ValueError) is not None, 'missing context data is refused')
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')
    want = {label: zoo.column(spec, label)[-1] + sum(context.values()) for label in targets}
    check_eq(model.predict(series, context_data=context), want, 'prediction with context')
    want.update(context)
    try:
        item = model.forecast(series, context_data=context)
        result = model.apply(series, context_data=context)
    except ValueError as e:
        if 'ime' in str(e) and spec['res'] in zoo.CALENDAR:
            raise Reject()
        raise
    check_eq(item.data, want, 'forecast with context')
    check_eq(result[-1].data, want, 'forecast with context')
    check_eq((len(result), result[-1].data_indexes['forecast']), (len(series) + 1, 1), 'forecast with context')
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')
    check_eq(context, given, 'the context is left as it was')


@sub('C20', 'prophet', lambda: st.fixed_dictionaries({'spec': zoo.series(12, 40, units=['1m', '1h', '24h', '1D'], max_labels=1, losses='none'), 'steps': st.integers(1, 5), 'use': st.integers(2, 12)}),
     'Prophet forecasters against Prophet itself, on the wall clock times of the series and of the steps; non-trivial = every case', quick=20, thorough=200)
def prophet(case, ctx):
    from prophet import Prophet
    from pandas import DataFrame
    ctx.nontrivial()
    spec, steps = case['spec'], case['steps']
    label = spec['labels'][0]
    clock = lambda t: gen.local_dt(t, spec['tz']).replace(tzinfo=None)
    model = model_of('forecasters', 'ProphetForecaster')
    model.fit(gen.build(spec))
    used = zoo.cut(spec, 0, case['use'])
    future = zoo.following(used, steps)
    if spec['res'] == '24h' or spec['kind'] == 'slots':
        pass
    try:
        got = model.predict(gen.build(used), steps=steps)
    except ValueError as e:
        raise Reject()
    reference = Prophet()
    reference.fit(DataFrame([[clock(t), v] for t, v in zip(spec['ts'], zoo.column(spec, label))], columns=['ds', 'y']))
    want = reference.predict(DataFrame([clock(t) for t in future], columns=['ds']))['yhat']
    for k in range(steps):
        check_close(got[k][label], want[k], 'forecast', 1e-6, 1e-6, step=k)


@sub('C20', 'auto_arima', lambda: st.fixed_dictionaries({'spec': zoo.series(14, 24, max_labels=1, losses='none'), 'steps': st.integers(1, 5)}),
     'Auto-ARIMA forecasters against pmdarima itself, usable only at the end of the series of the fit; non-trivial = every case', quick=10, thorough=80)
def auto_arima(case, ctx):
    import pmdarima
    import numpy
    ctx.nontrivial()
    spec, steps = case['spec'], case['steps']
    label = spec['labels'][0]
    model = model_of('forecasters', 'AARIMAForecaster')
    model.fit(gen.build(spec))
    want = pmdarima.auto_arima(numpy.array(zoo.column(spec, label)), error_action='ignore', suppress_warnings=True, stepwise=True).predict(steps)
    got = model.predict(gen.build(spec), steps=steps)
    for k in range(steps):
        check_close(got[k][label], want[k], 'forecast', 1e-6, 1e-6, step=k)
    short = gen.build(zoo.cut(spec, 0, len(spec['ts']) - 1))
    check(raises(lambda: model.predict(short)) is not None, 'forecasting from elsewhere is refused')
    ts = spec['ts'] + zoo.following(spec, 1)
    check(raises(lambda: model.predict(gen.build(dict(spec, ts=ts, data=spec['data'] + spec['data'][-1:])))) is not None, 'forecasting from later is refused')


@sub('C20', 'fixed_offsets', lambda: st.fixed_dictionaries({
    'minutes': st.integers(-14 * 60, 14 * 60), 'pytz': st.booleans(), 'periodicity': st.integers(2, 5), 't0': st.integers(-10 ** 5, 10 ** 5), 'values': st.lists(st.integers(1, 50), min_size=14, max_size=14),
    'window': st.sampled_from([None, 2, 3]), 'steps': st.integers(1, 6)}),
     'periodic average forecasters on time zones being just an offset: taking the DST into account or not, forecasts have the instants and values of those on UTC, on the wall clock of the offset; non-trivial = the '
     'offset is not zero', quick=100)
def fixed_offsets(case, ctx):
    import datetime
    import pytz
    from timeseria.datastructures import TimeSeries, DataTimePoint
    from timeseria.models.forecasters import PeriodicAverageForecaster
    ctx.nontrivial(case['minutes'])
    zone = pytz.FixedOffset(case['minutes']) if case['pytz'] else datetime.timezone(datetime.timedelta(minutes=case['minutes']))
    results = []
    for tz, dst in (('UTC', False), (zone, False), (zone, True)):
        series = TimeSeries(*[DataTimePoint(t=(case['t0'] + i) * 3600, tz=tz, data={'a': v}) for i, v in enumerate(case['values'])])
        model = PeriodicAverageForecaster(**({} if case['window'] is None else {'window': case['window']}))
        model.fit(series, periodicity=case['periodicity'], dst_affected=dst)
        forecasted = model.apply(series, steps=case['steps'])
        results.append([(x.t, x.data) for x in forecasted])
        if tz != 'UTC':
            check_eq([x.dt.utcoffset() for x in forecasted], [datetime.timedelta(minutes=case['minutes'])] * len(forecasted), 'wall clock of the forecasts')
    check_eq(results[1], results[0], 'forecasts on a fixed offset and on UTC')
    check_eq(results[2], results[0], 'forecasts on a fixed offset, also taking the DST into account')
