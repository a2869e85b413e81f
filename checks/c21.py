"""C21 - reconstructions."""
from fractions import Fraction

from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import sub, check, check_eq, check_close, fail, raises, Reject
from checks.c20 import model_of


@st.composite
def gappy(draw, min_n=5, max_n=24, ends=True, max_labels=3, kinds=('points', 'slots')):
    """A series with data losses in runs, and the threshold for reconstructing."""
    spec = draw(zoo.series(min_n, max_n, max_labels=max_labels, losses='none', kinds=kinds, value='mixed'))
    n = len(spec['ts'])
    losses = []
    while len(losses) < n:
        losses += [draw(st.sampled_from([0, 0, 0, 0.25, 0.5, 0.75, 1, 1, 1, None]))] * draw(st.sampled_from([1, 1, 1, 2, 3, 5]))
    losses = losses[:n]
    threshold = draw(st.sampled_from([1.0, 1.0, 0.5, 0.3]))
    if not ends or draw(st.integers(0, 5)):
        losses[0], losses[-1] = 0, 0
    spec['indexes'] = [{'data_loss': x} for x in losses]
    if draw(st.booleans()):
        for i, x in enumerate(spec['indexes']):
            x['custom'] = [0, 1, None][i % 3]
    if draw(st.integers(0, 3)) == 0:
        # (of a reconstruction before this one)
        for i, x in enumerate(spec['indexes']):
            x['data_reconstructed'] = [0, 1, 1][i % 3]
    return spec, threshold


def gaps(spec, threshold):
    """Positions [from, to] of the gaps to reconstruct."""
    out = []
    for i, x in enumerate(zoo.losses(spec)):
        if x is not None and x >= threshold:
            if out and out[-1][1] == i - 1:
                out[-1][1] = i
            else:
                out.append([i, i])
    return out


def expect(spec, threshold, values):
    """What a reconstructed series is to be: values is a function of the label, and of the borders of the gap, giving the values for it."""
    data = {label: list(zoo.column(spec, label)) for label in spec['labels']}
    indexes = [dict(x, data_reconstructed=0) for x in spec['indexes']]
    for a, b in gaps(spec, threshold):
        for label in spec['labels']:
            data[label][a:b + 1] = values(label, a, b)
        for i in range(a, b + 1):
            indexes[i]['data_reconstructed'] = 1
    return data, indexes


def compare(result, spec, data, indexes, rel=1e-9):
    slots = spec['kind'] == 'slots'
    check_eq([x.start.t if slots else x.t for x in result], spec['ts'], 'instants')
    check_eq(str(result.tz), spec['tz'], 'time zone')
    check_eq(list(result.data_labels()), sorted(spec['labels']), 'labels')
    for i, item in enumerate(result):
        for label in spec['labels']:
            if indexes[i]['data_reconstructed']:
                check_close(item.data[label], data[label][i], 'reconstructed value', rel, 1e-7, i=i, label=label)
            else:
                check_eq(item.data[label], data[label][i], 'value not to be reconstructed', i=i, label=label)
        check_eq(dict(item.data_indexes), indexes[i], 'data indexes', i=i)


def applied(model, spec, threshold, data, indexes, rel=1e-9, level=5):
    """Apply, not in place and in place, checking what comes back."""
    series = gen.build(spec)
    before = gen.snapshot(series)
    result = model.apply(series, data_loss_threshold=threshold)
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')
    compare(result, spec, data, indexes, rel)
    if threshold == 1.0:
        check_eq(gen.snapshot(model.apply(series)), gen.snapshot(result), 'default threshold')
    check(model.apply(series, data_loss_threshold=threshold, inplace=True) is None, 'in place gives nothing back')
    check_eq(gen.snapshot(series), gen.snapshot(result), 'in place')
    if level:
        # The same model, on another series
        other = dict(spec, data=[[v + level for v in row] for row in spec['data']])
        compare(model.apply(gen.build(other), data_loss_threshold=threshold), other, {label: [v + level for v in data[label]] for label in data}, indexes, rel)


def refused(model, spec, threshold):
    series = gen.build(spec)
    before = gen.snapshot(series)
    check(raises(lambda: model.apply(series, data_loss_threshold=threshold), ValueError) is not None, 'gaps with no items on both sides are refused')
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')


@sub('C21', 'linear', lambda: gappy(),
     'linear interpolation reconstructors over series with gaps of any length, position and loss: the items of the gaps (and no others) are replaced with what is on the segment between the two items around them, for each label, all the rest '
     'being kept, and gaps at the start or end refused; non-trivial = at least a gap, and none at the start or end', quick=700, shards=2)
def linear(case, ctx):
    spec, threshold = case
    model = model_of('reconstructors', 'LinearInterpolationReconstructor')
    n = len(spec['ts'])
    found = gaps(spec, threshold)

    def values(label, a, b):
        column = zoo.column(spec, label)
        t0, t1 = spec['ts'][a - 1], spec['ts'][b + 1]
        return [float(Fraction(column[a - 1]) + Fraction(t - t0, t1 - t0) * (Fraction(column[b + 1]) - Fraction(column[a - 1]))) for t in spec['ts'][a:b + 1]]
    if any(a == 0 or b == n - 1 for a, b in found):
        refused(model, spec, threshold)
        return
    ctx.nontrivial(len(found) > 0)
    ctx.label('many', len(found) > 1)
    applied(model, spec, threshold, *expect(spec, threshold, values))
    for a, b in found[:2]:
        series = gen.build(spec)
        got = model.predict(series, from_i=a, to_i=b)
        for label in spec['labels']:
            for k, want in enumerate(values(label, a, b)):
                check_close(got[k][label], want, 'prediction')


@sub('C21', 'periodic', lambda: st.fixed_dictionaries({'case': gappy(8, 30, max_labels=1), 'periodicity': st.integers(1, 5), 'dst': st.booleans(), 'limit': st.sampled_from([1.0, 1.0, 0.5, None]), 'fit': st.integers(0, 10), 'self': st.booleans()}),
     'periodic average reconstructors, fitted on the series with the gaps or on another part of it: the items of the gaps (and no others) are replaced with the average of the items with their phase (and an acceptable loss) plus the average of the '
     'differences on the two items around the gap; non-trivial = at least a gap, none at the start or end, and different averages', quick=700, shards=2)
def periodic(case, ctx):
    (spec, threshold), period = case['case'], case['periodicity']
    dst = case['dst'] and spec['res'] in ('1s', '1m', '10m', '15m', '1h')
    n = len(spec['ts'])
    learnt = spec if case['self'] else zoo.cut(spec, min(case['fit'], n - 5), n)
    label = spec['labels'][0]
    model = model_of('reconstructors', 'PeriodicAverageReconstructor')
    model.fit(gen.build(learnt), periodicity=period, dst_affected=dst, data_loss_limit=case['limit'])
    ref = zoo.PeriodicAverages(learnt, label, period, dst, case['limit'])
    found = gaps(spec, threshold)
    if any(ref.at(t) is None for a, b in found for t in spec['ts'][max(0, a - 1):b + 2]):
        # A phase which was never seen: nothing can be told
        return
    if any(a == 0 or b == n - 1 for a, b in found):
        refused(model, spec, threshold)
        return
    column = zoo.column(spec, label)

    def values(label, a, b):
        offset = sum(column[i] - ref.at(spec['ts'][i]) for i in (a - 1, b + 1)) / 2
        return [ref.at(t) + offset for t in spec['ts'][a:b + 1]]
    ctx.nontrivial(len(found) > 0 and len(set(ref.averages.values())) > 1)
    applied(model, spec, threshold, *expect(spec, threshold, values))


@sub('C21', 'exact', lambda: st.fixed_dictionaries({'case': gappy(10, 30, ends=False, max_labels=1), 'periodicity': st.integers(2, 5), 'values': st.lists(zoo.quarters(-40, 40), min_size=5, max_size=5), 'level': zoo.quarters(-20, 20), 'slope': zoo.quarters(-3, 3)}),
     'what is lost from exactly periodic series (also if they changed level since the fit), or from straight lines, is reconstructed exactly; non-trivial = at least a gap', quick=400)
def exact(case, ctx):
    (spec, threshold), period = case['case'], case['periodicity']
    found = gaps(spec, threshold)
    ctx.nontrivial(len(found) > 0)
    n = len(spec['ts'])
    whole = [case['values'][zoo.count(t, spec['res'], spec['tz'], spec['ts'][0], False) % period] for t in spec['ts']]
    line = [case['slope'] * (t - spec['ts'][0]) / 900 for t in spec['ts']]
    for name, truth in (('PeriodicAverageReconstructor', [v + case['level'] for v in whole]), ('LinearInterpolationReconstructor', line)):
        model = model_of('reconstructors', name)
        if name.startswith('Periodic'):
            model.fit(gen.build(dict(spec, indexes=None, data=[[v] for v in whole])), periodicity=period)
        ruined = dict(spec, data=[[v + 1000 if any(a <= i <= b for a, b in found) else v] for i, v in enumerate(truth)])
        result = model.apply(gen.build(ruined), data_loss_threshold=threshold)
        for i, item in enumerate(result):
            check_close(item.data[spec['labels'][0]], truth[i], 'reconstruction of what is known', 1e-9, 1e-6, i=i, model=name)


@sub('C21', 'custom', lambda: st.fixed_dictionaries({'case': gappy(5, 16), 'how': st.sampled_from(['list', 'dict'])}),
     'custom reconstructors, predicting lists of dictionaries or dictionaries of lists, on several labels: items of the gaps (and no others) hold what the model predicts for them; non-trivial = at least a gap, and none at the start or end', quick=300)
def custom(case, ctx):
    spec, threshold = case['case']
    model = zoo.custom()['MeanReconstructor'](how=case['how'])
    found = gaps(spec, threshold)
    if any(a == 0 or b == len(spec['ts']) - 1 for a, b in found):
        refused(model, spec, threshold)
        return
    ctx.nontrivial(len(found) > 0)
    applied(model, spec, threshold, *expect(spec, threshold, lambda label, a, b: [(zoo.column(spec, label)[a - 1] + zoo.column(spec, label)[b + 1]) / 2] * (b - a + 1)))


@sub('C21', 'chained', lambda: st.fixed_dictionaries({'unit': st.sampled_from(['10m', '15m', '1h']), 'n': st.integers(30, 60), 'holes': st.lists(st.tuples(st.integers(2, 50), st.integers(2, 12)).map(list), min_size=1, max_size=3), 'slope': zoo.quarters(-5, 5),
                                                        'kind': st.sampled_from(['resample', 'aggregate']), 'tz': st.sampled_from(gen.TZS)}),
     'series with holes which are resampled or aggregated (which gives the fully lost items) and then linearly reconstructed: straight lines come back as such; non-trivial = at least an item reconstructed', quick=200)
def chained(case, ctx):
    step = 300
    skip = {i for at, size in case['holes'] for i in range(at, at + size)}
    spec = {'kind': 'points', 'form': 'dict', 'labels': ['a'], 'tz': case['tz'], 'ts': [], 'data': []}
    for i in range(case['n'] * 2):
        if i not in skip or i in (0, 1):
            spec['ts'].append(1600000200 + i * step)
            spec['data'].append([100 + case['slope'] * i])
    series = getattr(gen.build(spec), case['kind'])(case['unit'])
    if len(series) < 2:
        return
    if series[0].data_loss >= 1 or series[-1].data_loss >= 1:
        return
    model = model_of('reconstructors', 'LinearInterpolationReconstructor')
    try:
        result = model.apply(series)
    except ValueError:
        if series.resolution == 'variable':
            raise Reject()
        raise
    label = series.data_labels()[0]
    before = [item.data[label] for item in series]
    for i, item in enumerate(result):
        check_eq(item.data_indexes['data_reconstructed'], int(series[i].data_loss >= 1), 'data_reconstructed index')
        if series[i].data_loss < 1:
            check_eq(item.data[label], before[i], 'values with data')
        else:
            ctx.nontrivial()
            a = max(k for k in range(i) if series[k].data_loss < 1)
            b = min(k for k in range(i + 1, len(series)) if series[k].data_loss < 1)
            check_close(item.data[label], before[a] + (before[b] - before[a]) * (i - a) / (b - a), 'reconstructed values', 1e-9, 1e-7)


@sub('C21', 'prophet', lambda: gappy(14, 40, ends=False, max_labels=1),
     'Prophet reconstructors against Prophet itself, on the wall clock times of the series and of the gaps; non-trivial = at least a gap', quick=20, thorough=200)
def prophet(case, ctx):
    from prophet import Prophet
    from pandas import DataFrame
    spec, threshold = case
    spec = dict(spec)
    label = spec['labels'][0]
    clock = lambda t: gen.local_dt(t, spec['tz']).replace(tzinfo=None)
    learnt = dict(spec, indexes=None)
    model = model_of('reconstructors', 'ProphetReconstructor')
    model.fit(gen.build(learnt))
    reference = Prophet()
    reference.fit(DataFrame([[clock(t), v] for t, v in zip(spec['ts'], zoo.column(spec, label))], columns=['ds', 'y']))
    ctx.nontrivial(len(gaps(spec, threshold)) > 0)
    applied(model, spec, threshold, *expect(spec, threshold, lambda label, a, b: list(reference.predict(DataFrame([clock(t) for t in spec['ts'][a:b + 1]], columns=['ds']))['yhat'])), rel=1e-6, level=0)
