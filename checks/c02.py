"""C02 - the resolution (and what is guessed in its place) depends on the content of a series only, not on its history."""
from hypothesis import strategies as st

from harness import gen
from harness.core import sub, check, check_close, fail, raises

ASSUMPTIONS = ['Timestamps are multiples of a quarter of a second, so that differences of floats are exact.']


def _times():
    tick = st.sampled_from([1, 1, 1, 1, 2, 3, 5])
    # (sometimes long ones)
    ticks = st.tuples(st.lists(tick, min_size=1, max_size=14), st.sampled_from([1] * 28 + [9, 20])).map(lambda x: x[0] * x[1])
    return st.tuples(st.sampled_from([0.25, 0.5, 1, 60, 600, 3600, 86400]), ticks, st.sampled_from([0, 3600, 1446073200]))


def _edits():
    return st.lists(st.one_of(
        st.tuples(st.just('append'), st.sampled_from([1, 1, 1, 2, 3])),
        st.tuples(st.just('bad_append'), st.sampled_from([0, -1, -2])),
        st.tuples(st.just('bad_label'), st.sampled_from([1, 2])),
        st.tuples(st.sampled_from(['bad_slot', 'bad_slot_insert', 'bad_insert', 'bad_pop', 'bad_remove']), st.integers(1, 3)),
        st.tuples(st.just('pop'), st.integers(0, 20)),
        st.tuples(st.just('pop_last'), st.just(0)),
        st.tuples(st.just('remove'), st.integers(0, 20)),
        st.tuples(st.just('insert'), st.integers(0, 20)),
        st.tuples(st.just('prepend'), st.sampled_from([1, 1, 2])),
        st.tuples(st.just('clear'), st.integers(1, 3)),
        st.tuples(st.just('look'), st.just(0)),
        st.tuples(st.just('look'), st.just(0)),
        st.tuples(st.just('duplicate'), st.just(0)),
        st.tuples(st.just('slice'), st.integers(0, 3)),
        st.tuples(st.just('filter'), st.just(0)),
        st.tuples(st.just('change_tz'), st.just(0)),
    ).map(list), max_size=10)


def cases():
    return st.fixed_dictionaries({'times': _times().map(list), 'edits': _edits(), 'given_tz': st.sampled_from([False, False, True])})


def _refused(series, op, k, ts):
    """An edit which cannot be accepted, whatever the content of the (point) series."""
    from timeseria.datastructures import DataTimeSlot, TimePoint
    from timeseria.units import TimeUnit
    slot = DataTimeSlot(start=TimePoint(t=ts[-1] + k), unit=TimeUnit({1: '1h', 2: '1m', 3: '1D'}[k]), data={'a': 1.0, 'b': 2.0})
    calls = {'bad_slot': lambda: series.append(slot), 'bad_slot_insert': lambda: series.insert(len(ts) if k > 1 else 0, slot),
             'bad_insert': lambda: series.insert(0, _point(ts[0] + k)), 'bad_pop': lambda: series.pop(len(ts) + k),
             'bad_remove': lambda: series.remove(_point(ts[-1] + k))}
    check(raises(calls[op]) is not None, 'an illegal edit was accepted', op=[op, k], ts=ts)


def _point(t):
    from timeseria.datastructures import DataTimePoint
    return DataTimePoint(t=t, data={'a': 1.0, 'b': 2.0})


def _look(series):
    """Every observable which depends on the resolution."""
    out = {'resolution': None if series.resolution is None else str(series.resolution)}
    if out['resolution'] == 'variable':
        out['guess'] = str(series.guess_resolution())
        out['confidence'] = series.guess_resolution(confidence=True)['confidence']
    else:
        for confidence in (False, True):
            try:
                series.guess_resolution(confidence=confidence)
            except ValueError:
                pass
            else:
                fail('guessing a resolution which is well defined or undefined must be refused')
    out['repr'] = str(series)
    return out


@sub('C02', 'content_only', cases,
     'a point series is edited with an arbitrary history (interleaved with looking at its resolution, and with refused appends) and '
     'compared with a series freshly built from the same items and with a reference computed from the timestamps; non-trivial = '
     'the history changes how the resolution is classified', quick=2500, shards=2)
def content_only(case, ctx):
    from timeseria.datastructures import TimeSeries
    step, ticks, t0 = case['times']
    ts = [t0]
    for k in ticks:
        ts.append(ts[-1] + k * step)
    series = TimeSeries(*[_point(t) for t in ts], **({'tz': 'UTC'} if case.get('given_tz') else {}))
    classes = {_classify(ts)}
    for op, arg in case['edits']:
        if op == 'append':
            t = (ts[-1] if ts else t0) + arg * step
            series.append(_point(t))
            ts.append(t)
        elif op in ('bad_append', 'bad_label'):
            if not ts:
                continue
            from timeseria.datastructures import DataTimePoint
            item = _point(ts[-1] + arg * step) if op == 'bad_append' else DataTimePoint(t=ts[-1] + arg * step * 7, data={'z': 1})
            try:
                series.append(item)
            except (ValueError, TypeError):
                pass
            else:
                fail('an illegal append was accepted', op=[op, arg], ts=ts)
        elif op.startswith('bad_'):
            if ts:
                _refused(series, op, arg, ts)
        elif op == 'pop':
            if ts:
                i = arg % len(ts)
                series.pop(i)
                ts.pop(i)
        elif op == 'pop_last':
            if ts:
                series.pop()
                ts.pop()
        elif op == 'remove':
            if ts:
                i = arg % len(ts)
                series.remove(_point(ts[i]))
                ts.pop(i)
        elif op == 'insert':
            if len(ts) > 1:
                i = 1 + arg % (len(ts) - 1)
                t = (ts[i - 1] + ts[i]) / 2
                series.insert(i, _point(t))
                ts.insert(i, t)
        elif op == 'prepend':
            if ts:
                t = ts[0] - arg * step
                series.insert(0, _point(t))
                ts.insert(0, t)
        elif op == 'clear':
            series.clear()
            ts = [t0 + 5 + i * step * arg for i in range(arg)]
            for t in ts:
                series.append(_point(t))
        elif op == 'duplicate':
            series = series.duplicate()
        elif op == 'slice':
            if len(ts) > arg:
                series = series[arg:len(ts)]
                ts = ts[arg:]
        elif op == 'filter':
            if ts:
                series = series.filter('a', 'b')
        elif op == 'change_tz':
            if ts:
                series.change_tz('Europe/Rome')
                series.change_tz('UTC')
        elif op == 'look':
            if ts:
                _look(series)
        classes.add(_classify(ts))
    if not ts:
        check(series.resolution is None, 'an empty series has a resolution', got=series.resolution)
        return
    got = _look(series)
    fresh = _look(TimeSeries(*[_point(t) for t in ts]))
    if got != fresh:
        fail('the resolution depends on the history of the series', ts=ts, got=got, fresh=fresh)
    # Reference
    diffs = [b - a for a, b in zip(ts, ts[1:])]
    if not diffs:
        check(series.resolution is None, 'a one-point series has a resolution', got=series.resolution)
    elif len(set(diffs)) > 1:
        check(series.resolution == 'variable', 'unevenly spaced points, but the resolution is not variable', ts=ts, got=series.resolution)
        # The guess: one of the most common spacings (the detection works on rounded ones if they are too spread)
        from timeseria.units import TimeUnit
        counts = {d: diffs.count(d) for d in diffs}
        guess = series.guess_resolution().as_seconds()
        top = max(counts.values())
        if len(counts) < 0.7 * len(diffs):
            check(counts.get(guess) == top, 'the guessed resolution is not the most common spacing', ts=ts, guess=guess, counts=counts)
            second = max([counts[d] for d in counts if d != guess])
            check_close(got['confidence'], 1 - second / top, 'wrong confidence', ts=ts)
        check(0 <= got['confidence'] <= 1, 'confidence outside [0,1]', got=got['confidence'])
    else:
        check(series.resolution != 'variable', 'evenly spaced points, but the resolution is variable', ts=ts)
        check(series.resolution.as_seconds() == diffs[0], 'wrong resolution', ts=ts, got=str(series.resolution), want=diffs[0])
    ctx.nontrivial(len(classes) > 1)
    ctx.label('variable', len(set(diffs)) > 1)
    ctx.label('constant', len(set(diffs)) == 1)


def _classify(ts):
    diffs = set(b - a for a, b in zip(ts, ts[1:]))
    return 'variable' if len(diffs) > 1 else (list(diffs)[0] if diffs else None)


@sub('C02', 'slots', lambda: st.fixed_dictionaries({
        'spec': gen.series_specs(min_n=1, max_n=6, kinds=('slots',)),
        'edits': st.lists(st.sampled_from(['append', 'pop', 'pop0', 'dup', 'prepend', 'slice', 'look', 'refill', 'bad_unit', 'bad_tz', 'bad_gap', 'bad_point']), max_size=8),
        'other': st.sampled_from(['2h', '3m'])}),
     'a slot series keeps reporting the unit of the slots it holds, whatever its history, and reports none when emptied; non-trivial = '
     'emptied and refilled with another unit', quick=700)
def slots(case, ctx):
    from timeseria.datastructures import DataTimeSlot, TimePoint
    from timeseria.units import TimeUnit
    spec = case['spec']
    series = gen.build(spec)
    unit = spec['unit']
    refilled = False
    for op in case['edits']:
        if op == 'append':
            last = list(series)[-1]
            series.append(DataTimeSlot(start=TimePoint(t=last.end.t, tz=spec['tz']), unit=TimeUnit(unit), data=dict(last.data) if isinstance(last.data, dict) else list(last.data)))
        elif op == 'pop':
            if len(series) > 1:
                series.pop()
        elif op == 'pop0':
            if len(series) > 1:
                series.pop(0)
        elif op == 'dup':
            series = series.duplicate()
        elif op == 'prepend':
            if unit in gen.CALENDAR:
                continue
            first = series[0]
            start = first.start.t - (first.end.t - first.start.t)
            series.insert(0, DataTimeSlot(start=TimePoint(t=start, tz=spec['tz']), unit=TimeUnit(unit), data=dict(first.data) if isinstance(first.data, dict) else list(first.data)))
        elif op.startswith('bad'):
            last = list(series)[-1]
            data = dict(last.data) if isinstance(last.data, dict) else list(last.data)
            from timeseria.datastructures import DataTimePoint
            bad = {'bad_unit': lambda: DataTimeSlot(start=TimePoint(t=last.end.t, tz=spec['tz']), unit=TimeUnit('7m'), data=data),
                   'bad_tz': lambda: DataTimeSlot(start=TimePoint(t=last.end.t, tz='Asia/Tokyo'), unit=TimeUnit(unit), data=data),
                   'bad_gap': lambda: DataTimeSlot(start=TimePoint(t=last.end.t + 86400 * 7, tz=spec['tz']), unit=TimeUnit(unit), data=data),
                   'bad_point': lambda: DataTimePoint(t=last.end.t, tz=spec['tz'], data=data)}[op]()
            check(raises(lambda: series.append(bad)) is not None, 'an illegal append was accepted', op=op, got=bad)
            check(raises(lambda: series.insert(len(series), bad)) is not None, 'an illegal insert was accepted', op=op, got=bad)
        elif op == 'slice':
            series = series[0:max(1, len(series) - 1)]
        elif op == 'refill':
            series.clear()
            check(series.resolution is None, 'an empty slot series has a resolution', got=series.resolution)
            unit = case['other']
            for i in range(2):
                series.append(DataTimeSlot(start=TimePoint(t=i * {'2h': 7200, '3m': 180}[unit], tz=spec['tz']), unit=TimeUnit(unit), data={'z': i}))
            refilled = True
        check(series.resolution == TimeUnit(unit), 'wrong resolution', got=str(series.resolution), want=unit)
        check(unit in str(series), 'the description does not report the unit', got=str(series))
    check(series.resolution == TimeUnit(unit), 'wrong resolution', got=str(series.resolution), want=unit)
    ctx.nontrivial(refilled or len(case['edits']) > 2)
    ctx.label('refilled', refilled)


@sub('C02', 'detection', lambda: st.fixed_dictionaries({
        'gaps': st.one_of(st.lists(st.integers(1, 4000), min_size=2, max_size=60),
                          st.lists(st.sampled_from([60, 60, 60, 61, 59, 300]), min_size=2, max_size=60),
                          st.tuples(st.integers(22, 45), st.integers(1, 50)).map(lambda p: [p[1] + i for i in range(p[0])])),
        'frac': st.sampled_from([0, 0, 0.25])}),
     'sampling interval detection over spacings from regular to all distinct (up to 60 points): it terminates, and gives a spacing within '
     'the observed ones with a confidence in [0,1], or declares itself unable; non-trivial = more than 20 points', quick=600)
def detection(case, ctx):
    from timeseria.utilities import detect_sampling_interval
    from timeseria.datastructures import TimeSeries
    ts = [0]
    for i, g in enumerate(case['gaps']):
        ts.append(ts[-1] + g + (case['frac'] if i % 2 else 0))
    series = TimeSeries(*[_point(t) for t in ts])
    diffs = [b - a for a, b in zip(ts, ts[1:])]
    try:
        value, confidence = detect_sampling_interval(series, confidence=True)
    except Exception as e:
        check('Cannot automatically detect' in str(e), 'unexpected failure', error=repr(e), ts=ts)
        check(len(set(round(d) for d in diffs)) > 0.9 * len(diffs), 'declared itself unable on a series with repeated spacings', ts=ts)
        ctx.label('unable')
    else:
        check(min(diffs) - 1 <= value <= max(diffs) + 1, 'spacing out of the observed range', got=value, ts=ts)
        check(0 <= confidence <= 1, 'confidence outside [0,1]', got=confidence)
        check(value == detect_sampling_interval(series), 'value depends on asking for the confidence')
    ctx.nontrivial(len(ts) > 20)
