"""C05 - points and slots: time coordinates, time zones, extents, succession, equality."""
import datetime as _dt

import pytz
from hypothesis import strategies as st

from harness import gen
from harness.core import sub, check, check_eq, check_close, fail, raises

ASSUMPTIONS = ['pytz is the reference for the time zone rules.']
SEC = {'1s': 1, '10s': 10, '1m': 60, '15m': 900, '1h': 3600, '6h': 21600, '24h': 86400, '0.5s': 0.5, '90s': 90}
EPOCHS = st.one_of(st.integers(0, 2 * 10 ** 9), st.integers(-10 ** 9, 4 * 10 ** 9), st.tuples(st.sampled_from([1364691600, 1382835600, 1552806000, 1572760800, 1603587600]), st.integers(-9000, 9000)).map(sum))


@sub('C05', 'points', lambda: st.fixed_dictionaries({
        't': EPOCHS, 'micro': st.sampled_from([0, 0, 500000, 250000, 1000, 123456]), 'tz': st.sampled_from(gen.TZS), 'tz2': st.sampled_from(gen.TZS),
        'dt_minus': st.integers(-3, 3), 'data': st.sampled_from([{'a': 1}, {'a': 2}, [1.5], {'a': 1, 'b': 0}]), 'data2': st.sampled_from([{'a': 1}, {'a': 2}, [1.5], {'a': 1, 'b': 0}]),
        'loss': st.sampled_from([None, 0, 0.5, 1]), 'as': st.sampled_from([None, None] + gen.ZONE_FORMS), 'fixed': st.sampled_from([60, -210, 345, 90])}),
     'points created from epochs and datetimes in several zones: same instant, wall clock of the zone, ordering and equality by instant and '
     'data, time zone changes preserve the instant; non-trivial = DST zone', quick=2500)
def points(case, ctx):
    from timeseria.datastructures import TimePoint, DataTimePoint
    t = round(case['t'] + case['micro'] / 10 ** 6, 6)
    dt = gen.local_dt(case['t'], case['tz']) + _dt.timedelta(microseconds=case['micro'])
    zone, zone2 = [gen.zone_as(case[x], case.get('as'), case['t']) for x in ('tz', 'tz2')]
    by_t, by_dt = TimePoint(t=t, tz=zone), TimePoint(dt=dt)
    by_both = TimePoint(dt=dt, tz=zone2)
    other_dt = dt.astimezone(zone) if case.get('as') and case['as'] != 'mixed' and case['t'] % 2 else dt
    for name, p, tz in (('t', by_t, case['tz']), ('dt', by_dt, case['tz']), ('dt+tz', by_both, case['tz2']), ('copy', TimePoint(by_dt), case['tz']), ('copy+tz', TimePoint(by_dt, tz=zone2), case['tz2']),
                        ('copy+tz', DataTimePoint(by_t, data=[1], tz=zone2), case['tz2']), ('other dt', TimePoint(dt=other_dt), case['tz'])):
        check(p.tz == TimePoint(t=0, tz=tz).tz, 'the same time zone, given in another way, is another one', how=name, got=repr(p.tz))
        check_close(p.t, t, 'wrong epoch', rel=0, abs_=2e-6, how=name)
        check(str(p.tz) == tz, 'wrong time zone', how=name, got=str(p.tz), want=tz)
        want = gen.local_dt(t, tz)
        check(abs((p.dt - want).total_seconds()) < 5e-6 and p.dt.utcoffset() == want.utcoffset(), 'wrong wall clock', how=name, got=str(p.dt), want=str(want))
        p.change_tz(zone2)
        want = gen.local_dt(t, case['tz2'])
        check_close(p.t, t, 'changing the time zone moved the point', rel=0, abs_=2e-6, how=name)
        check(str(p.tz) == case['tz2'] and p.dt.utcoffset() == want.utcoffset() and abs((p.dt - want).total_seconds()) < 5e-6,
              'wrong wall clock after changing the time zone', how=name, got=str(p.dt), want=str(want))
    # Fixed offsets
    for fixed in (_dt.timezone(_dt.timedelta(minutes=case['fixed'])), pytz.FixedOffset(case['fixed'])):
        want = dt.astimezone(fixed)
        for p in (TimePoint(t=t, tz=fixed), TimePoint(dt=want), TimePoint(dt=dt, tz=fixed)):
            check(abs(p.t - t) < 2e-6 and abs((p.dt - want).total_seconds()) < 5e-6 and p.dt.utcoffset() == want.utcoffset(), 'wrong wall clock on a fixed offset', got=str(p.dt), want=str(want))
    # Order and equality
    other_t = case['t'] + case['dt_minus']
    a = DataTimePoint(t=case['t'], tz=case['tz'], data=case['data'], data_loss=case['loss'])
    b = DataTimePoint(t=other_t, tz=case['tz2'], data=case['data2'])
    check((a > b) == (case['t'] > other_t) and (b > a) == (other_t > case['t']), 'wrong order', t=case['t'], other=other_t)
    check((a == b) == (case['t'] == other_t and case['data'] == case['data2']), 'wrong equality', a=str(a), b=str(b))
    check((TimePoint(t=case['t']) == TimePoint(t=other_t)) == (case['t'] == other_t), 'wrong equality of bare points')
    check(a.data_loss == case['loss'] and a.data_indexes == ({'data_loss': case['loss']}) and b.data_loss is None and b.data_indexes == {},
          'wrong data loss', got=(a.data_indexes, b.data_indexes))
    check(a.data_labels() == (sorted(case['data']) if isinstance(case['data'], dict) else [str(i) for i in range(len(case['data']))]), 'wrong labels')
    b.data_indexes = {'data_loss': 0.25, 'of mine': case['dt_minus']}
    check_eq((b.data_indexes, b.data_loss, a.data_loss), ({'data_loss': 0.25, 'of mine': case['dt_minus']}, 0.25, case['loss']), 'data indexes which are assigned')
    ctx.nontrivial(case['tz'] not in ('UTC', 'Asia/Kolkata'))
    ctx.label('equal', case['dt_minus'] == 0)


@sub('C05', 'slots', lambda: st.fixed_dictionaries({
        't': EPOCHS, 'tz': st.sampled_from(gen.TZS), 'tz2': st.sampled_from(gen.TZS), 'unit': st.sampled_from(sorted(SEC)), 'k': st.integers(-2, 2),
        'by': st.sampled_from(['unit', 'end', 't', 'dt']), 'delta': st.sampled_from([0, 0, 1, -1, 0.5, 0.25])}),
     'slots of fixed length created in every supported way: extent, length, unit, time zone handling, equality, and contiguity being required '
     'exactly by the series; non-trivial = the second slot is not contiguous', quick=2500)
def slots(case, ctx):
    from timeseria.datastructures import TimePoint, TimeSlot, DataTimePoint, DataTimeSlot, TimeSeries
    from timeseria.units import TimeUnit
    t, tz, n = case['t'], case['tz'], SEC[case['unit']]
    unit = TimeUnit(case['unit'])
    if case['by'] == 'unit':
        slot = TimeSlot(start=TimePoint(t=t, tz=tz), unit=unit)
    elif case['by'] == 'end':
        slot = TimeSlot(start=TimePoint(t=t, tz=tz), end=TimePoint(t=t + n, tz=tz))
    elif case['by'] == 't':
        slot = TimeSlot(t=t, tz=tz, unit=unit)
    else:
        slot = TimeSlot(dt=gen.local_dt(t, tz), unit=unit)
    check(slot.start.t == t and slot.t == t, 'wrong start', got=slot.start.t)
    check_close(slot.end.t, t + n, 'wrong end', rel=0, abs_=1e-6)
    check_close(slot.length, n, 'wrong length', rel=0, abs_=1e-6)
    check(slot.unit == unit and slot.unit == n, 'wrong unit', got=str(slot.unit), want=case['unit'])
    check(str(slot.tz) == tz and slot.dt == gen.local_dt(t, tz) and slot.dt.utcoffset() == gen.local_dt(t, tz).utcoffset(), 'wrong time zone or wall clock', got=str(slot.dt))
    check(slot.end.dt.utcoffset() == gen.local_dt(t + n, tz).utcoffset(), 'wrong wall clock of the end', got=str(slot.end.dt))
    slot.change_tz(case['tz2'])
    check(slot.start.t == t and abs(slot.end.t - t - n) < 1e-6 and str(slot.tz) == str(slot.start.tz) == str(slot.end.tz) == case['tz2'],
          'changing the time zone altered the slot', got=str(slot))
    # Degenerate and inconsistent slots
    for bad in (lambda: TimeSlot(start=TimePoint(t=t, tz=tz), end=TimePoint(t=t, tz=tz)),
                lambda: TimeSlot(start=TimePoint(t=t, tz=tz), end=TimePoint(t=t - n, tz=tz)),
                lambda: DataTimeSlot(start=TimePoint(t=t, tz=tz), unit=TimeUnit(seconds=-n), data={'v': 1}),
                lambda: TimeSlot(start=TimePoint(t=t, tz='Europe/Rome'), end=TimePoint(t=t + n, tz='America/New_York')),
                lambda: TimeSlot(start=t, end=TimePoint(t=t + n)), lambda: TimeSlot(start=TimePoint(t=t), end=t + n),
                lambda: TimeSlot(start=TimePoint(t=t), unit=n)):
        try:
            got = bad()
        except (ValueError, TypeError, AttributeError):
            pass
        else:
            fail('a degenerate slot was accepted', got=str(got))
    # Equality and succession
    a = DataTimeSlot(start=TimePoint(t=t, tz=tz), unit=unit, data={'v': 1})
    b = DataTimeSlot(start=TimePoint(t=t + case['k'] * n + case['delta'], tz=tz), unit=unit, data={'v': 1})
    for something in (a.start, None, 'x', t, n, DataTimePoint(t=t, data={'v': 1}, tz=tz)):
        check_eq((a == something, something == a, a != something), (False, False, True), 'a slot and what is not one are different', something=str(something))
    same = case['k'] * n + case['delta'] == 0
    check((a == b) == same, 'wrong equality', a=str(a), b=str(b))
    check(a != DataTimeSlot(start=TimePoint(t=t, tz=tz), unit=unit, data={'v': 2}), 'slots with different data are equal')
    # (same start, or same end, but the other border)
    for start, end in ((t, t + n), (t, t + n + 1), (t, t + n / 2), (t - 1, t + n), (t + n / 2, t + n)):
        want = (start, end) == (t, t + n)
        borders = {'start': TimePoint(t=start, tz=tz), 'end': TimePoint(t=end, tz=tz)}
        check((TimeSlot(start=TimePoint(t=t, tz=tz), end=TimePoint(t=t + n, tz=tz)) == TimeSlot(**borders)) == want and (a == DataTimeSlot(data={'v': 1}, **borders)) == want,
              'slots are equal if and only if both borders are', start=start, end=end, t=t, n=n)
    contiguous = abs(case['k'] * n + case['delta'] - n) < 1e-7
    try:
        TimeSeries(a, b)
        accepted = True
    except ValueError:
        accepted = False
    check(accepted == contiguous, 'contiguity is not what decides if a slot can follow', a=str(a), b=str(b), accepted=accepted)
    # The indexes which are assigned are those which are read, and those of no other item
    indexes = {'data_loss': 0.25, 'of mine': case['k']}
    b.data_indexes = indexes
    check_eq((b.data_indexes, b.data_loss, a.data_indexes, a.data_loss), ({'data_loss': 0.25, 'of mine': case['k']}, 0.25, {}, None), 'data indexes which are assigned')
    # Different unit or time zone: never in the same series
    for other in (DataTimeSlot(start=TimePoint(t=a.end.t, tz=tz), unit=TimeUnit('7m'), data={'v': 1}),
                  DataTimeSlot(start=TimePoint(t=a.end.t, tz='Europe/Paris'), unit=unit, data={'v': 1})):
        try:
            TimeSeries(a, other)
        except ValueError:
            pass
        else:
            fail('slots of different unit or time zone in the same series', other=str(other))
    ctx.nontrivial(not contiguous)
    ctx.label('contiguous', contiguous)


COORDINATES = st.lists(st.one_of(st.integers(-3, 3), st.integers(-12, 12).map(lambda i: i / 4)), min_size=1, max_size=3)


@sub('C05', 'generic', lambda: st.fixed_dictionaries({
        'a': COORDINATES, 'b': COORDINATES, 'length': st.integers(1, 12).map(lambda i: i / 4), 'data': st.lists(st.sampled_from([[1], [2], {'a': 1}, {'a': 1, 'b': 2}]), min_size=2, max_size=2),
        'same': st.booleans(), 'number': st.integers(1, 20).map(lambda i: i / 4)}),
     'points and slots which are not in time, of one or more dimensions: coordinates, equality, order, extent and unit; non-trivial = more than one dimension, or slots from units', quick=800)
def generic(case, ctx):
    from timeseria.datastructures import Point, Slot, DataPoint, DataSlot
    from timeseria.units import Unit
    a, b, n, (d1, d2) = case['a'], list(case['a']) if case['same'] else case['b'], case['length'], case['data']
    ctx.nontrivial(len(a) > 1 or len(a) == 1)
    ctx.label('dimensions', len(a) > 1)
    p, q = Point(*a), Point(*b)
    check_eq((list(p.coordinates), [p[i] for i in range(len(a))]), (a, a), 'coordinates of a point')
    check_eq((p == q, p != q), (a == b, a != b), 'points are equal if and only if their coordinates are', b=b)
    check_eq(DataPoint(*a, data=d1) == DataPoint(*b, data=d2), a == b and d1 == d2, 'points with data are equal if and only if coordinates and data are')
    check(not p == 'x' and not p == None, 'a point equals something else')  # noqa
    if len(a) == len(b) == 1:
        check_eq((p > q, q > p), (a > b, b > a), 'order of points')
    else:
        check(raises(lambda: p > q) is not None, 'multi-dimensional points have no order')
    end = [x + n + i for i, x in enumerate(a)]
    other = [x + n + i for i, x in enumerate(b)]
    slot = Slot(start=p, end=Point(*end))
    check_eq((slot.start, slot.end), (p, Point(*end)), 'borders')
    check_close(slot.length, n + (len(a) - 1) / 2, 'length of a slot (the average over the dimensions)')
    if len(a) == 1:
        for bad in (lambda: Slot(start=p, end=Point(a[0] - n)), lambda: DataSlot(start=p, end=Point(a[0] - n), data=d1), lambda: Slot(start=p, unit=Unit(-n)), lambda: Slot(start=p, unit=Unit(0))):
            check(raises(bad, ValueError) is not None, 'a slot ending before its start was accepted')
        check(slot.unit == n and slot.unit == Unit(n), 'unit of a slot', got=slot.unit, want=n)
        by_unit = Slot(start=p, unit=Unit(n))
        check(by_unit == slot and by_unit.end == slot.end and by_unit.length == n and by_unit.unit == n, 'slot from its unit', got=by_unit, want=slot)
        check(raises(lambda: Slot(start=p, unit=n)) is not None, 'a slot whose unit is not one')
        k = case['number']
        check_eq((Unit(n) + k, k + Unit(n), Unit(n) - k, k - Unit(n), Unit(n) * k, k * Unit(n), Unit(n) / k), (n + k, n + k, n - k, k - n, n * k, n * k, n / k),
                 'units and numbers', n=n, k=k)
        check_close(k / Unit(n), k / n, 'a number over a unit')
        check_eq((Unit(n) == Unit(k), Unit(n) == k), (n == k, n == k), 'equality of units', n=n, k=k)
    else:
        check(raises(lambda: Slot(start=p, unit=Unit(n))) is not None, 'units are only for one dimension')
    check_eq(slot == Slot(start=q, end=Point(*other)), a == b, 'slots are equal if and only if their borders are', b=b)
    for one in (slot, DataSlot(start=p, end=Point(*end), data=d1)):
        for something in (p, DataPoint(*a, data=d1), None, 'x', n, a, d1):
            check_eq((one == something, something == one, one != something), (False, False, True), 'a slot and what is not one are different', slot=str(one), something=str(something))
    check(slot != Slot(start=p, end=Point(*[x + 1 for x in end])), 'slots with different ends are equal')
    check_eq(DataSlot(start=p, end=Point(*end), data=d1) == DataSlot(start=q, end=Point(*other), data=d2), a == b and d1 == d2, 'slots with data are equal if and only if borders and data are', b=b)
    for bad in (lambda: Slot(start=p, end=p), lambda: Slot(start=p, end=Point(*(end + [1]))), lambda: Slot(start=a[0], end=Point(*end)), lambda: Slot(start=p, end=end[0])):
        check(raises(bad) is not None, 'a degenerate slot was accepted')


@sub('C05', 'calendar_slots', lambda: st.fixed_dictionaries({
        'start': st.tuples(st.sampled_from([2012, 2019, 2020, 2021]), st.one_of(st.sampled_from([3, 10, 11]), st.integers(1, 12)), st.one_of(st.integers(22, 28), st.integers(1, 28))).map(list), 'tz': st.sampled_from(gen.TZS[1:]),
        'unit': st.sampled_from(['1D', '1D', '1W', '1M', '1Y']), 'n': st.integers(2, 12), 'how': st.sampled_from(['dt', 't', 'from_dict', 'chain'])}),
     'consecutive calendar slots (days, weeks, months, years) over DST changes and leap years: every slot ends at the wall-clock start of the '
     'next, and they all fit in one series; non-trivial = the offset changes within the series', quick=1500)
def calendar_slots(case, ctx):
    from timeseria.datastructures import TimePoint, DataTimeSlot, TimeSeries
    from timeseria.units import TimeUnit
    zone = pytz.timezone(case['tz'])
    y, m, d = case['start']
    starts = []
    for i in range(case['n'] + 1):
        if case['unit'] == '1D':
            naive = _dt.datetime(y, m, d) + _dt.timedelta(days=i)
        elif case['unit'] == '1W':
            naive = _dt.datetime(y, m, d) + _dt.timedelta(days=7 * i)
        elif case['unit'] == '1M':
            naive = _dt.datetime(y + (m - 1 + i) // 12, (m - 1 + i) % 12 + 1, d)
        else:
            naive = _dt.datetime(y + i, m, d)
        starts.append(zone.localize(naive))
    unit = TimeUnit(case['unit'])
    if case['how'] == 'from_dict':
        series = TimeSeries.from_dict({dt: i for i, dt in enumerate(starts[:-1])}, slot_unit=case['unit'])
    else:
        series = TimeSeries()
        for i, dt in enumerate(starts[:-1]):
            if case['how'] == 'dt':
                slot = DataTimeSlot(dt=dt, unit=unit, data={'value': i})
            elif case['how'] == 't' or i == 0:
                slot = DataTimeSlot(start=TimePoint(t=dt.timestamp(), tz=case['tz']), unit=unit, data={'value': i})
            else:
                slot = DataTimeSlot(start=series[-1].end, unit=unit, data={'value': i})
            series.append(slot)
    check(len(series) == case['n'], 'wrong number of slots', got=len(series))
    for i, slot in enumerate(series):
        check(slot.start.t == starts[i].timestamp() and slot.end.t == starts[i + 1].timestamp(), 'wrong borders of a calendar slot', i=i, got=str(slot),
              want=(str(starts[i]), str(starts[i + 1])))
        check(slot.dt == starts[i] and slot.dt.utcoffset() == starts[i].utcoffset(), 'wrong wall clock', got=str(slot.dt), want=str(starts[i]))
        check_close(slot.length, (starts[i + 1] - starts[i]).total_seconds(), 'wrong length')
        check(slot.unit == unit, 'wrong unit')
        check(str(slot.tz) == case['tz'], 'wrong time zone', got=str(slot.tz))
    check(series.resolution == unit, 'wrong resolution', got=str(series.resolution))
    ctx.nontrivial(len({s.utcoffset() for s in starts}) > 1)
    ctx.label(case['unit'])
