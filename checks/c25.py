"""C25 - anomaly events."""
from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import sub, check, check_eq

INDEX = st.one_of(st.sampled_from([0, 1]), st.sampled_from([0, 0.25, 0.5, 0.5, 0.75, 1, 1, None]))


def events(values, threshold, persistence, gap):
    """By definition: which items are part of an event."""
    hits = [i for i, v in enumerate(values) if v is not None and v >= threshold]
    groups = []
    for i in hits:
        if groups and i - groups[-1][-1] - 1 <= gap:
            groups[-1].append(i)
        else:
            groups.append([i])
    out = [0] * len(values)
    for group in groups:
        if group[-1] - group[0] + 1 >= persistence:
            for i in range(group[0], group[-1] + 1):
                out[i] = 1
    return out


@st.composite
def cases(draw):
    # Stretches of the same kind, so that events and gaps of any length are common
    values = []
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from(['on', 'off', 'any']))
        k = draw(st.integers(1, 6))
        values += {'on': [1] * k, 'off': [draw(st.sampled_from([0, 0.25, None]))] * k}.get(kind) or draw(st.lists(INDEX, min_size=k, max_size=k))
    n = len(values)
    kind = draw(st.sampled_from(['points', 'slots']))
    spec = {'kind': kind, 'form': draw(st.sampled_from(['dict', 'dict', 'list'])), 'labels': ['a', 'b'][:draw(st.integers(1, 2))], 'tz': draw(st.sampled_from(gen.TZS)), 'ts': [3600 * i for i in range(n)], 'unit': '1h', 'res': '1h'}
    spec['data'] = [[i * 3 % 7 + j for j in range(len(spec['labels']))] for i in range(n)]
    spec['indexes'] = [{'anomaly': v, 'data_loss': i % 3 / 2} for i, v in enumerate(values)]
    return {'spec': spec, 'threshold': draw(st.sampled_from([None, None, 0.5, 0.6, 0.25])), 'persistence': draw(st.sampled_from([None, 1, 2, 3, 4, 6])), 'gap': draw(st.sampled_from([None, 0, 1, 2, 3, 5])), 'replace': draw(st.booleans()), 'inplace': draw(st.booleans()), 'again': draw(st.booleans())}


@sub('C25', 'events', lambda: cases(),
     'series with anomaly indexes (also undefined ones) and any threshold, persistence and maximum gap: the items from the first to the last of each maximal group of anomalous ones with gaps not above the maximum, and lasting enough, are marked as events, the others as no '
     'events, wherever they are in the series; all the rest is kept, in place or on a copy; non-trivial = at least an item in an event and one not', quick=1500, thorough=20000, shards=2)
def judge(case, ctx):
    from timeseria.models.anomaly_detectors import AnomalyDetector
    spec = case['spec']
    values = [x['anomaly'] for x in spec['indexes']]
    kwargs = {name: value for name, value in (('index_treshold', case['threshold']), ('min_persistence', case['persistence']), ('max_gap', case['gap'])) if value is not None}
    if case['replace']:
        kwargs['replace_index'] = True
    threshold = 1 if case['threshold'] is None else case['threshold']
    persistence = 2 if case['persistence'] is None else case['persistence']
    gap = 2 if case['gap'] is None else case['gap']
    want = events(values, threshold, persistence, gap)
    ctx.nontrivial(0 < sum(want) < len(want))
    ctx.label('at the end', want[-1] == 1)
    ctx.label('with a gap inside', any(w and (v is None or v < threshold) for w, v in zip(want, values)))
    series = gen.build(spec)
    before = gen.snapshot(series)
    result = AnomalyDetector.mark_events(series, inplace=case['inplace'], **kwargs)
    if case['inplace']:
        check(result is series, 'in place')
    else:
        check_eq(gen.snapshot(series), before, 'the source series is left as it was')
    check_eq(type(result), type(series), 'type of the result')
    expected = gen.snapshot(gen.build(dict(spec, indexes=[dict(x, **({'anomaly': w} if case['replace'] else {'anomaly_event': w})) for x, w in zip(spec['indexes'], want)])))
    key = 'anomaly' if case['replace'] else 'anomaly_event'
    check_eq([item.data_indexes[key] for item in result], want, 'events', values=values)
    check_eq(gen.snapshot(result), expected, 'all the rest')
    if case['again'] and not case['replace']:
        # Events of a previous run never matter
        stricter = AnomalyDetector.mark_events(result, index_treshold=threshold, min_persistence=persistence + 2, max_gap=0)
        check_eq([item.data_indexes['anomaly_event'] for item in stricter], events(values, threshold, persistence + 2, 0), 'events, marked again')


@sub('C25', 'detected', lambda: st.fixed_dictionaries({'level': st.integers(20, 60), 'where': st.integers(40, 60), 'length': st.integers(1, 5), 'tz': st.sampled_from(gen.TZS)}),
     'events of a detector: a series which is periodic but for a stretch of items far off is marked there and nowhere else; non-trivial = every case', quick=40)
def detected(case, ctx):
    from timeseria.models.anomaly_detectors import PeriodicAverageAnomalyDetector
    ctx.nontrivial()
    n = 80
    spec = {'kind': 'points', 'form': 'dict', 'labels': ['a'], 'tz': case['tz'], 'ts': [3600 * i for i in range(n)], 'data': [[case['level'] + i % 4 + (i * i % 5) / 8] for i in range(n)]}
    model = PeriodicAverageAnomalyDetector(window=4)
    model.fit(gen.build(spec), periodicity=4, error_metric='E', error_distribution='norm')
    bad = dict(spec, data=[[v[0] + (1000 if case['where'] <= i < case['where'] + case['length'] else 0)] for i, v in enumerate(spec['data'])])
    result = model.apply(gen.build(bad), index_bounds=['max_err', '20_sigma'], index_type='lin')
    marked = model.mark_events(result, min_persistence=1, max_gap=0)
    values = {item.t: item.data_indexes['anomaly'] for item in marked}
    check_eq([item.data_indexes['anomaly_event'] for item in marked], [1 if v >= 1 else 0 for v in values.values()], 'events')
    # Once the window is past what happened, all is as before
    quiet = [i for i in range(6, n) if not case['where'] <= i < case['where'] + case['length'] + 6]
    check_eq([i for i in quiet if values[3600 * i] >= 1], [], 'nothing happens elsewhere')
    check(values[3600 * case['where']] >= 1, 'what happens is detected')
