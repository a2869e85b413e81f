"""C13 - data losses and data indexes of resampled and aggregated series."""
from hypothesis import strategies as st

from checks import c11
from harness import gen, refs
from harness.core import sub, check, check_eq, check_close, raises, fail, Reject

RATIOS = [(60, '1m'), (60, '5m'), (60, '10m'), (600, '1h'), (600, '10m'), (900, '1h'), (3600, '1h'), (600, '5m'), (600, '1m'), (1, '10s'), (0.5, '1s'), (3600, '15m')]
CALENDAR = [(3600, '1D'), (3600 * 6, '1D'), (900 * 14, '1D'), (86400, '1W'), (3600 * 12, '1D')]


@st.composite
def cases(draw):
    case = draw(c11.sampled(ratios=draw(st.sampled_from([RATIOS, RATIOS, CALENDAR])), max_n=16, with_losses=draw(st.sampled_from([True, True, False]))))
    if draw(st.booleans()):
        spec = case['spec']
        spec.setdefault('indexes', [{} for _ in spec['ts']])
        for d in spec['indexes']:
            d['data_loss'] = draw(st.sampled_from([0, 0, 0.25, 0.5, 1, None]))
    case['how'] = draw(st.sampled_from(['linear', 'uniform']))
    case['validity'] = draw(st.booleans())
    case['unit_object'] = False
    case['target'] = 'slots' if case['unit'] in ('1D', '1W') else draw(st.sampled_from(['points', 'slots']))
    case['force'] = draw(st.sampled_from([None, None, None, None, 0, 0.5, 1]))
    case['again'] = draw(st.sampled_from([None, 2, 3, 6]))
    return case


@sub('C13', 'losses_and_indexes', cases,
     'series with holes and jitter, with or without data losses and other indexes (also missing on some points, or None), resampled or aggregated: the loss compared with the uncovered part of '
     'the unit plus the part of the losses already there, the other indexes with their average over the points having them; non-trivial = a loss other than zero and one, or an index', quick=1500, shards=4)
def losses_and_indexes(case, ctx):
    from timeseria.transformations import Resampler, Aggregator
    spec = case['spec']
    ts = spec['ts']
    series = gen.build(spec)
    s, explicit = c11.sampling_interval(case)
    kwargs = {} if case['force'] is None else {'force_data_loss': case['force']}
    try:
        result = c11.process(Resampler if case['target'] == 'points' else Aggregator, case, series, **kwargs)
    except ValueError:
        # Calendar units cannot be counted up to a time which happens twice or never, nor from there
        if case['unit'] in gen.CALENDAR and any(refs.ambiguous(day * 86400, spec['tz']) for day in range(int(ts[0] // 86400) - 8, int(ts[-1] // 86400) + 9)):
            raise Reject()
        raise
    indexes = spec.get('indexes') or [{} for _ in ts]
    names = sorted({name for d in indexes for name in d})
    losses = [d.get('data_loss') for d in indexes]
    overlapping = any(b - a < s for a, b in zip(ts, ts[1:]))
    half = gen.PHYSICAL[case['unit']] / 2 if case['target'] == 'points' else None
    for item in result:
        a, b = (item.t - half, item.t + half) if half else (item.start.t, item.end.t)
        check_eq(sorted(item.data_indexes), sorted(set(names) | {'data_loss'}), 'the indexes of the result are those of the series, and the data loss')
        missing = 1 - refs.coverage(ts, s, a, b)
        if case['force'] is not None:
            check_eq(item.data_loss, case['force'], 'forced data loss')
        elif not any(losses) or not overlapping:
            want = missing + refs.previous_losses(ts, losses, s, a, b)
            check_close(item.data_loss, want, 'data loss', abs_=1e-9, window=(a, b))
            check(-1e-9 <= item.data_loss <= 1 + 1e-9, 'the data loss is between zero and one', got=item.data_loss)
            ctx.nontrivial(1e-6 < item.data_loss < 1 - 1e-6)
        else:
            check(item.data_loss >= missing - 1e-9, 'the data loss includes what is missing', got=item.data_loss, missing=missing)
        for name in names:
            if name == 'data_loss':
                continue
            want = refs.window_index(ts, [d.get(name) for d in indexes], s, a, b)
            check_close(item.data_indexes[name], want, 'data index of the result', abs_=1e-9, name=name, window=(a, b))
            ctx.nontrivial(want is not None)
    ctx.label(case['target'])
    ctx.label('previous_losses', any(losses) and not overlapping)
    # Losses are not forgotten by a further aggregation
    if case['target'] == 'points' and case['again'] and len(result) >= case['again'] + 2 and case['force'] is None and (not any(losses) or not overlapping):
        unit = 2 * half * case['again']
        from timeseria.units import TimeUnit
        slots = result.aggregate(TimeUnit(seconds=unit) if unit < 60 else '{}m'.format(int(unit // 60)) if unit % 60 == 0 else TimeUnit(seconds=unit))
        rts, rlosses = [x.t for x in result], [x.data_loss for x in result]
        ctx.label('twice', len(slots) > 0)
        for slot in slots:
            a, b = slot.start.t, slot.end.t
            check_close(slot.data_loss, 1 - refs.coverage(rts, 2 * half, a, b) + refs.previous_losses(rts, rlosses, 2 * half, a, b), 'data loss after aggregating a resampled series',
                        abs_=1e-9, window=(a, b))
            total = 0
            for t, loss in zip(rts, rlosses):
                total += loss * max(0, min(t + half, b) - max(t - half, a))
            check_close(slot.data_loss, total / (b - a), 'the loss of a slot is the time-weighted average of the losses of what it is made of', abs_=1e-9, window=(a, b))


@st.composite
def noisy_cases(draw):
    step = draw(st.sampled_from([0.1, 0.2, 0.5, 0.7, 1, 1.5, 2, 2.5, 5, 10, 15, 60, 90, 600, 900, 3600]))
    n = draw(st.integers(22, 60))
    # (in parts of what makes noise: all of the gaps are different, or they would have a most common one)
    noise = draw(st.permutations(list(range(-n // 2, n // 2 + 1))))[:n - 1]
    amount = min(step * draw(st.sampled_from([0.001, 0.004, 0.01])), 0.4)
    gaps = [step * draw(st.sampled_from([1] * 9 + [2, 5])) + amount * k / n for k in noise]
    return {'step': step, 'gaps': gaps, 't0': draw(st.sampled_from([0, 1600000000, -70.5, 1553994000 - 7200])), 'how': draw(st.sampled_from(['points', 'slots'])),
            'times': draw(st.sampled_from([4, 10])), 'tz': draw(st.sampled_from(gen.TZS))}


@sub('C13', 'noisy', noisy_cases,
     'series whose spacing is regular but for a noise (and some holes), so that no gap is ever the same: the sampling interval, and therefore what is lost, is found as if it was given; non-trivial = losing something', quick=250)
def noisy(case, ctx):
    from timeseria.datastructures import DataTimePoint, TimeSeries
    from timeseria.transformations import Aggregator, Resampler
    step, ts = case['step'], [case['t0']]
    for gap in case['gaps']:
        ts.append(ts[-1] + gap)
    unit = '{}s'.format(int(max(10, step * case['times'])))

    def series():
        return TimeSeries(*[DataTimePoint(t=t, data={'a': i % 7}, tz=case['tz']) for i, t in enumerate(ts)])
    shown = str(series())
    check(('Time series of #{} points'.format(len(ts)) in shown), 'the series can be shown', shown=shown)
    transformation = (Resampler if case['how'] == 'points' else Aggregator)(unit)
    found, given = transformation.process(series()), transformation.process(series(), validity=step)
    check_eq(len(found), len(given), 'items')
    label = 'a' if case['how'] == 'points' else 'a_avg'
    for one, other in zip(found, given):
        check_close(one.data_loss, other.data_loss, 'data loss', abs_=0.05)
        check_close(one.data[label], other.data[label], 'data', abs_=0.8)
    ctx.nontrivial(any(item.data_loss > 0.06 for item in given))
    ctx.label('short', step < 10)
