"""C04 - time units: physical and calendar arithmetic."""
import calendar
import datetime as _dt

import pytz
from hypothesis import strategies as st

from harness import gen
from harness.core import sub, check, check_eq, check_close, close, fail, raises, Reject

ASSUMPTIONS = ['pytz is the reference for the time zone rules; the IANA zones used have offsets of whole minutes in 1970-2037.',
               'The calendar shifts and roundings are implemented by the propertime dependency: what is decided is what Timeseria exposes.']

EPOCHS = st.one_of(st.integers(0, 2 * 10 ** 9),
                   # around DST changes
                   st.tuples(st.sampled_from([1364691600, 1382835600, 1552806000, 1572760800, 1603587600, 1616893200, 1583650800, 1601740800]),
                             st.integers(-100000, 100000)).map(sum),
                   # around ends of months and years
                   st.tuples(st.sampled_from([1330473600, 1456704000, 1546300800, 1551398400, 1582934400]), st.integers(-200000, 200000)).map(sum))
PHYS = st.one_of(st.tuples(st.sampled_from(['s', 'm', 'h']), st.integers(1, 90)).map(list))
CAL = st.sampled_from([['D', 1], ['D', 2], ['D', 7], ['W', 1], ['W', 2], ['M', 1], ['M', 2], ['M', 11], ['M', 12], ['M', 13], ['Y', 1], ['Y', 4]])
SEC = {'s': 1, 'm': 60, 'h': 3600}


def _exists_once(naive, zone):
    try:
        zone.localize(naive, is_dst=None)
        return True
    except (pytz.AmbiguousTimeError, pytz.NonExistentTimeError):
        return False


def _shift_calendar(dt, letter, n, sign=1):
    """Reference: naive wall-clock arithmetic. None if the result is not a valid, unambiguous wall-clock time."""
    naive = dt.replace(tzinfo=None)
    if letter in 'DW':
        naive = naive + sign * _dt.timedelta(days=n * (7 if letter == 'W' else 1))
    else:
        months = (naive.year * 12 + naive.month - 1) + sign * n * (12 if letter == 'Y' else 1)
        y, m = divmod(months, 12)
        m += 1
        if naive.day > calendar.monthrange(y, m)[1]:
            return None
        naive = naive.replace(year=y, month=m)
    zone = pytz.timezone(str(dt.tzinfo))
    if not _exists_once(naive, zone):
        return None
    return zone.localize(naive, is_dst=None)


@sub('C04', 'shift', lambda: st.fixed_dictionaries({
        't': EPOCHS, 'frac': st.sampled_from([0, 0, 0.5]), 'tz': st.sampled_from(gen.TZS), 'unit': st.one_of(PHYS, CAL), 'sign': st.sampled_from([1, 1, -1])}),
     'time point/datetime/epoch plus or minus a unit, at arbitrary instants (dense around DST changes and ends of months) in several zones, against '
     'epoch arithmetic (physical) and naive wall-clock arithmetic (calendar); non-trivial = the offset changes in between, or the unit is a calendar one',
     quick=4000, shards=2)
def shift(case, ctx):
    from timeseria.units import TimeUnit
    from timeseria.datastructures import TimePoint
    letter, n = case['unit']
    unit = TimeUnit('{}{}'.format(n, letter))
    t = case['t'] + case['frac']
    point = TimePoint(t=t, tz=case['tz'])
    dt = gen.local_dt(t, case['tz'])
    check(point.dt == dt and point.dt.utcoffset() == dt.utcoffset(), 'wrong datetime of a point', got=str(point.dt), want=str(dt))
    physical = letter in SEC
    if physical:
        want = t + case['sign'] * n * SEC[letter]
    else:
        if case['sign'] < 0:
            # Not supported: has to be refused, not to give something else
            try:
                got = point - unit
            except NotImplementedError:
                return
            ref = _shift_calendar(dt, letter, n, -1)
            check(ref is not None and got.t == ref.timestamp(), 'wrong calendar subtraction', got=got.t, want=str(ref))
            return
        ref = _shift_calendar(dt, letter, n)
        want = None if ref is None else ref.timestamp()
    results = {}
    for name, call in (('point', lambda: (point + unit if case['sign'] > 0 else point - unit).t),
                       ('dt', lambda: (dt + unit if case['sign'] > 0 else dt - unit).timestamp()),
                       ('shift', lambda: unit.shift(dt, case['sign']).timestamp())):
        try:
            results[name] = call()
        except ValueError as e:
            if want is not None and letter == 'M' and (dt.month, dt.day) == (2, 29):
                # The propertime dependency changes the year first, ending up on a February the 29th which might not exist
                ctx.label('leap_day_refused')
                continue
            if want is not None:
                fail('a valid shift was refused', how=name, error=str(e))
            ctx.label('undefined')
            continue
        if want is None:
            fail('a shift to a non-existent or ambiguous time gave a result', how=name, got=results[name])
        check_close(results[name], want, 'wrong shift', rel=0, abs_=1e-5, how=name)
    if want is not None and 'point' in results:
        moved = point + unit if case['sign'] > 0 else point - unit
        check(str(moved.tz) == str(point.tz), 'the time zone was lost', got=str(moved.tz))
        if case['sign'] > 0:
            check_close(unit.as_seconds(dt), want - t, 'wrong duration at a given start', rel=0, abs_=1e-5)
    if physical:
        check_close(unit.as_seconds(), n * SEC[letter], 'wrong duration', rel=0, abs_=0)
        check_close(t + unit if case['sign'] > 0 else t - unit, want, 'wrong epoch arithmetic', rel=0, abs_=1e-5)
    else:
        try:
            unit.as_seconds()
        except ValueError:
            pass
        else:
            fail('a calendar unit has a duration without a start')
    after = gen.local_dt(want, case['tz']) if want is not None else dt
    ctx.nontrivial(not physical or after.utcoffset() != dt.utcoffset())
    ctx.label('dst_crossed', after.utcoffset() != dt.utcoffset())
    ctx.label('calendar', not physical)


@sub('C04', 'rounding', lambda: st.fixed_dictionaries({
        't': EPOCHS, 'tz': st.sampled_from(gen.TZS),
        'unit': st.one_of(st.sampled_from(['1s', '30s', '1m', '5m', '15m', '30m', '1h', '24h', '1D', '1W', '1M', '1Y']))}),
     'floor/ceil/round of datetimes: the result is on the grid of the unit, brackets the input, and the two are one unit apart; '
     'non-trivial = calendar unit, or zone with DST', quick=2500)
def rounding(case, ctx):
    from timeseria.units import TimeUnit
    unit = TimeUnit(case['unit'])
    tz = case['tz']
    if case['unit'] == '24h' and tz != 'UTC':
        # Multi-hour roundings on time zones with an offset are a matter of the propertime dependency
        return
    t = case['t']
    dt = gen.local_dt(t, tz)
    zone = pytz.timezone(tz)
    naive = dt.replace(tzinfo=None)
    letter = case['unit'][-1]
    if letter in 'DWMY':
        start = naive.replace(hour=0, minute=0, second=0, microsecond=0)
        if letter == 'W':
            start -= _dt.timedelta(days=start.weekday())
        if letter in 'MY':
            start = start.replace(day=1)
        if letter == 'Y':
            start = start.replace(month=1)
        if letter == 'D':
            end = start + _dt.timedelta(days=1)
        elif letter == 'W':
            end = start + _dt.timedelta(days=7)
        elif letter == 'M':
            end = (start.replace(day=28) + _dt.timedelta(days=5)).replace(day=1)
        else:
            end = start.replace(year=start.year + 1)
        if not (_exists_once(start, zone) and _exists_once(end, zone)):
            return
        lo, hi = zone.localize(start).timestamp(), zone.localize(end).timestamp()
    else:
        seconds = unit.as_seconds()
        lo = t - t % seconds
        hi = lo + seconds
        if tz == 'Asia/Kolkata' and letter == 'h':
            # Epoch-aligned hours
            pass
    floor, ceil, half = unit.floor(dt), unit.ceil(dt), unit.round(dt)
    check_close(floor.timestamp(), lo, 'wrong floor', rel=0, abs_=1e-6, t=t)
    check_close(ceil.timestamp(), hi, 'wrong ceil', rel=0, abs_=1e-6, t=t)
    check_close(half.timestamp(), lo if t - lo <= hi - t else hi, 'wrong round', rel=0, abs_=1e-6, t=t)
    check(str(floor.tzinfo) == tz and str(ceil.tzinfo) == tz, 'the time zone was lost')
    ctx.nontrivial(letter in 'DWMY' or tz != 'UTC')
    ctx.label(case['unit'])


COMP = ['years', 'months', 'weeks', 'days', 'hours', 'minutes', 'seconds']
LETTERS = dict(zip(COMP, 'YMWDhms'))


@sub('C04', 'representations', lambda: st.fixed_dictionaries({
        'a': st.dictionaries(st.sampled_from(COMP), st.integers(1, 70), min_size=1, max_size=3),
        'b': st.dictionaries(st.sampled_from(COMP), st.integers(1, 70), min_size=1, max_size=3),
        'seconds': st.one_of(st.integers(1, 10 ** 6), st.integers(1, 10 ** 7).map(lambda i: i / 64), st.integers(1, 5 * 10 ** 6).map(lambda i: i / 10 ** 6))}),
     'units given as string, number, value= and components: same unit, string round trip, componentwise sum, equality iff same duration or '
     'same components; non-trivial = composite units', quick=2000)
def representations(case, ctx):
    from timeseria.units import TimeUnit
    ua = TimeUnit(**case['a'])
    ub = TimeUnit(**case['b'])
    sa = '_'.join('{}{}'.format(case['a'][c], LETTERS[c]) for c in COMP if c in case['a'])
    check(str(ua) == sa, 'wrong string representation', got=str(ua), want=sa)
    for name, other in (('string', TimeUnit(sa)), ('own string', TimeUnit(str(ua))), ('value', TimeUnit(value=sa))):
        for c in COMP:
            check(getattr(other, c) == case['a'].get(c, 0), 'a component is lost in the string representation', how=name, component=c,
                  got=getattr(other, c), unit=sa)
        check(other == ua and not (other != ua), 'units with the same components are different', how=name, unit=sa)
    total = ua + ub
    for c in COMP:
        check(getattr(total, c) == case['a'].get(c, 0) + case['b'].get(c, 0), 'the sum of two units is not componentwise', component=c, a=sa, b=str(ub), got=str(total))
    check(isinstance(total, TimeUnit), 'the sum of two time units is not a time unit', got=type(total).__name__)

    def duration(d):
        return None if any(c in d for c in ('years', 'months', 'weeks', 'days')) else d.get('hours', 0) * 3600 + d.get('minutes', 0) * 60 + d.get('seconds', 0)
    da, db = duration(case['a']), duration(case['b'])
    want_equal = (da == db) if da is not None and db is not None else case['a'] == case['b']
    if (da is None) == (db is None):
        check((ua == ub) == want_equal, 'wrong unit equality', a=sa, b=str(ub), got=ua == ub, want=want_equal)
    if da is not None:
        check_close(ua.as_seconds(), da, 'wrong duration', rel=0, abs_=0, unit=sa)
        check(ua == da, 'a physical unit is not equal to its duration', unit=sa)
        check(ua != da + 1, 'a physical unit is equal to another duration', unit=sa)
    s = case['seconds']
    for u in (TimeUnit(s), TimeUnit(value=s), TimeUnit(seconds=s), TimeUnit('{}s'.format('{:.7f}'.format(s).rstrip('0').rstrip('.')))):
        check_close(u.as_seconds(), s, 'wrong duration of a unit given in seconds', rel=1e-12, abs_=1e-6, got_unit=str(u))
    for bad in ('', '15q', 'h1', '1', '1h-2m', '1h_', 'P1D', '-1h'):
        try:
            u = TimeUnit(bad)
        except (ValueError, TypeError):
            pass
        else:
            if bad == '':
                continue
            fail('an invalid unit was accepted', string=bad, got=str(u))
    ctx.nontrivial(len(case['a']) > 1)


@sub('C04', 'generic_units', lambda: st.fixed_dictionaries({'v': st.integers(-100, 100), 'w': st.integers(-100, 100), 'x': st.integers(-100, 100)}),
     'generic units behave as their value when summed, subtracted, multiplied and divided with numbers, units and points; non-trivial = distinct operands', quick=400)
def generic_units(case, ctx):
    from timeseria.units import Unit
    from timeseria.datastructures import Point
    v, w, x = case['v'], case['w'], case['x']
    u = Unit(v)
    check(u + x == v + x and x + u == v + x, 'sum with a number')
    check(u + Unit(w) == v + w, 'sum of units')
    check(u - x == v - x and x - u == x - v, 'difference with a number', got=(u - x, x - u), v=v, x=x)
    check(u - Unit(w) == v - w, 'difference of units')
    check(u * x == v * x and x * u == v * x, 'product with a number')
    if x:
        check_close(u / x, v / x, 'ratio with a number')
    if v and x:
        check_close(x / u, x / v, 'inverse ratio with a number')
    check((Point(x) + u).coordinates == (x + v,), 'point plus unit', got=(Point(x) + u).coordinates)
    check((u == Unit(w)) == (v == w) and (u == w) == (v == w), 'equality')
    check((u + Point(x)).coordinates == (x + v,), 'unit plus point')
    check((u - Point(x)).coordinates == (v - x,), 'unit minus point')
    for refused in (lambda: u + Point(x, w), lambda: u - Point(x, w), lambda: u + None, lambda: u - 'one', lambda: u * 'ab', lambda: u / [1], lambda: Unit([v, w]) * x, lambda: Unit([v, w]) / 2):
        check(raises(refused, NotImplementedError) is not None, 'what makes no sense is refused')
    check(not (u == 'one') and not (u == None) and Unit([v, w]) == Unit([v, w]) and not (Unit([v, w]) == Unit([v, w + 1])), 'equality with other objects')  # noqa: E711
    ctx.nontrivial(len({v, w, x}) == 3)
