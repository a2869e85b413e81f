"""C09 - merge."""
from hypothesis import strategies as st

from harness import gen
from harness.core import sub, check, check_eq, check_close, raises, fail


def patterned(rows, n):
    """Rows over and over again."""
    return rows + [type(rows[0])(rows[(i * 7 + i // 10) % len(rows)]) for i in range(len(rows), n)]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 10))
    base = draw(gen.series_specs(min_n=n, max_n=n, forms=('dict',), variable=False, max_labels=1, value=st.just(0), steps=[1, 10, 60, 600, 3600, 86400, 0.5], with_indexes=False))
    if base['kind'] == 'points' and draw(st.integers(0, 29)) == 23:
        gen.stretch(base, draw(st.sampled_from([60, 130])))
        n = len(base['ts'])
    full = base['ts']
    # Different windows of the same timeline
    specs = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4, 5]))):
        lo = draw(st.integers(0, n - 2))
        hi = draw(st.integers(lo + 2, n))
        labels = draw(gen.labels_lists(1, 3, pool=['a', 'b', 'c', 'x y']))
        spec = {k: base[k] for k in ('kind', 'form', 'unit') if k in base}
        spec.update(labels=labels, ts=full[lo:hi], tz=base['tz'] if draw(st.integers(0, 3)) or base.get('unit') in gen.CALENDAR else draw(st.sampled_from(gen.TZS)),
                    data=patterned(draw(gen.rows(min(hi - lo, 10), len(labels), gen.int_values())), hi - lo))
        if draw(st.booleans()):
            spec['indexes'] = patterned(draw(gen.indexes(min(hi - lo, 10))), hi - lo)
        specs.append(spec)
    if len(specs) > 1 and draw(st.integers(0, 11)) == 7 and base.get('unit') not in gen.CALENDAR:
        # One of them out of phase, with nothing in common
        k = draw(st.integers(0, len(specs) - 1))
        half = (full[1] - full[0]) / 2
        specs[k]['ts'] = [t + half for t in specs[k]['ts']]
    if draw(st.sampled_from([False, False, False, True])):
        # With list data, values (small ones too) must not be mistaken for positions
        specs = [dict(spec, form='list') for spec in specs]
    return {'specs': specs, 'method': draw(st.booleans())}


@sub('C09', 'merge', cases,
     'one to five series over different (also disjoint) windows of a timeline, with own and shared labels (or list data) and indexes, points or slots, merged: exactly the common instants, each label (and '
     'index) being the average over the series having it; non-trivial = at least two series sharing at least two instants', quick=2000, shards=2)
def merge(case, ctx):
    from timeseria.operations import merge as merge_function
    specs = case['specs']
    seriess = [gen.build(spec) for spec in specs]
    before = [gen.snapshot(s) for s in seriess]
    result = seriess[0].merge(*seriess[1:]) if case['method'] and len(seriess) > 1 else merge_function(*seriess)
    check_eq([gen.snapshot(s) for s in seriess], before, 'merging does not change the series')
    start, end = max(spec['ts'][0] for spec in specs), min(spec['ts'][-1] for spec in specs)
    common = [t for t in specs[0]['ts'] if start <= t <= end and all(t in spec['ts'] for spec in specs)]
    check_eq([item.t for item in result], common, 'the merged series covers exactly what the series have in common')
    names = [gen.label_names(spec) for spec in specs]
    labels = sorted({l for x in names for l in x})
    for item in result:
        t = item.t
        check_eq(type(item).__name__, type(seriess[0][0]).__name__, 'type of the merged items')
        # (for slots, a common time zone)
        check_eq(str(item.tz), specs[0]['tz'], 'the time zone is that of the first series')
        if specs[0]['kind'] == 'slots':
            source = [x for x in seriess[0] if x.t == t][0]
            check(item.end.t == source.end.t and item.unit == source.unit, 'extent of the merged slots')
        check_eq(sorted(item.data_labels()), labels, 'labels of the merged series')
        for l in labels:
            values = [gen.by_label(spec, spec['ts'].index(t), l) for spec, own in zip(specs, names) if l in own]
            check_close(item.data[l] if isinstance(item.data, dict) else item.data[int(l)], sum(values) / len(values), 'merged value', label=l, t=t)
        indexes = {}
        for spec in specs:
            if spec.get('indexes') is not None:
                for name, value in spec['indexes'][spec['ts'].index(t)].items():
                    if value is not None:
                        indexes.setdefault(name, []).append(value)
        check_eq({k: round(v, 9) for k, v in item.data_indexes.items() if v is not None}, {k: round(sum(v) / len(v), 9) for k, v in indexes.items()}, 'merged indexes', t=t)
    ctx.nontrivial(len(specs) >= 2 and len(common) >= 2)
    ctx.label('disjoint', not common)
    ctx.label('common', len(common) >= 2)
    ctx.label('several', len(specs) >= 2)
    ctx.label('shared_labels', sum(len(s['labels']) for s in specs) > len(labels))
    ctx.label('zones', len(set(s['tz'] for s in specs)) > 1)
    ctx.label('lists', specs[0]['form'] == 'list')


def refusal_cases():
    return st.fixed_dictionaries({'what': st.sampled_from(['variable', 'variable first', 'steps', 'units', 'points and slots', 'calendar and physical']), 'n': st.integers(3, 6), 'step': st.sampled_from([1, 60, 600])})


@sub('C09', 'refusals', refusal_cases, 'merging series of variable or different resolutions is refused; non-trivial = every case', quick=150)
def refusals(case, ctx):
    from timeseria.datastructures import TimeSeries, DataTimePoint, DataTimeSlot, TimePoint
    from timeseria.operations import merge as merge_function
    from timeseria.units import TimeUnit
    ctx.nontrivial()
    n, step, what = case['n'], case['step'], case['what']

    def points(step, skip=None, label='a'):
        return TimeSeries(*[DataTimePoint(t=i * step, data={label: i}) for i in range(n) if i != skip])

    def slots(unit):
        series = TimeSeries()
        start = TimePoint(0)
        for i in range(n):
            series.append(DataTimeSlot(start=start, unit=TimeUnit(unit), data={'b': i}))
            start = series[-1].end
        return series

    if what == 'variable':
        args = [points(step), points(step, skip=1)] if n > 3 else [points(step), TimeSeries(*[DataTimePoint(t=t * step, data={'b': 1}) for t in (0, 1, 5)])]
    elif what == 'variable first':
        args = [TimeSeries(*[DataTimePoint(t=t * step, data={'b': 1}) for t in (0, 1, 5)]), points(step)]
    elif what == 'steps':
        args = [points(step), points(step * 2, label='b')]
    elif what == 'units':
        args = [slots('1h'), slots('15m')]
    elif what == 'points and slots':
        args = [points(step), slots('1h')]
    else:
        args = [slots('1D'), slots('24h')]
    check(raises(lambda: merge_function(*args), ValueError, TypeError) is not None, 'merging "{}" is refused'.format(what))


@sub('C09', 'diverging_slots', lambda: st.fixed_dictionaries({
    'zones': st.lists(st.sampled_from(['Europe/London', 'UTC', 'Europe/Rome', 'Africa/Lagos', 'Africa/Abidjan']), min_size=2, max_size=3),
    'day': st.sampled_from([(2019, 3, 25), (2019, 10, 23), (2019, 6, 1), (2019, 1, 10)]), 'n': st.integers(2, 9), 'skip': st.integers(0, 3)}),
     'daily slots of time zones which are on the same hour for a part of the year only: merged if they have the same slots (on the time zone of the first), refused or with nothing in common otherwise; '
     'non-trivial = different time zones with slots in common', quick=300)
def diverging_slots(case, ctx):
    from timeseria.operations import merge as merge_function
    specs = []
    for k, tz in enumerate(case['zones']):
        ts = gen.day_starts(tz, *case['day'], case['n'] + case['skip'])[case['skip'] if k == 0 else 0:]
        specs.append({'kind': 'slots', 'form': 'dict', 'unit': '1D', 'tz': tz, 'labels': ['l{}'.format(k)], 'ts': ts, 'data': [[100 * k + i] for i in range(len(ts))]})
    seriess = [gen.build(spec) for spec in specs]
    before = [gen.snapshot(s) for s in seriess]
    extents = [{(item.start.t, item.end.t) for item in s} for s in seriess]
    shared = sorted(set.intersection(*extents))
    lo, hi = max(min(x)[0] for x in extents), min(max(x)[0] for x in extents)
    same = all({e for e in x if lo <= e[0] <= hi} == set(shared) for x in extents)
    error = raises(lambda: merge_function(*seriess), ValueError)
    if error is None:
        result = merge_function(*seriess)
        check_eq([(item.start.t, item.end.t) for item in result], shared if same else [], 'the merged slots are those in common')
        for item in result:
            check_eq(str(item.tz), case['zones'][0], 'the time zone is that of the first series')
            want = {spec['labels'][0]: spec['data'][spec['ts'].index(item.start.t)][0] for spec in specs}
            check_eq(item.data, want, 'the merged values are those of the same slot')
    else:
        check(not same, 'slots which are the same are merged', error=str(error))
    check_eq([gen.snapshot(s) for s in seriess], before, 'merging does not change the series')
    ctx.nontrivial(len(set(case['zones'])) > 1 and bool(shared))
    ctx.label('refused', error is not None)
    ctx.label('zones', len(set(case['zones'])) > 1)
