"""C12 - aggregation."""
from hypothesis import strategies as st

from checks import c11
from harness import gen, refs
from harness.core import sub, check, check_eq, check_close, raises, fail, Reject

RATIOS = [(60, '5m'), (60, '10m'), (60, '1m'), (600, '1h'), (600, '10m'), (900, '1h'), (3600, '1h'), (600, '5m'), (1, '10s'), (10, '1m'), (0.5, '1s'), (3600, '15m')]
CALENDAR = [(3600, '1D'), (3600 * 6, '1D'), (900 * 14, '1D'), (86400, '1D'), (86400, '1W'), (86400 * 3, '1W'), (86400 * 5, '1M'), (86400 * 16, '1M'), (86400 * 50, '1Y'),
            (3600 * 12, '1D'), (3600 * 30, '1D'), (86400 * 16, '1W'), (86400 * 11, '1W')]


@st.composite
def cases(draw):
    case = draw(c11.sampled(ratios=draw(st.sampled_from([RATIOS, CALENDAR, CALENDAR])), max_n=16))
    case['how'] = draw(st.sampled_from(['linear', 'linear', 'uniform']))
    case['validity'] = draw(st.booleans())
    case['unit_object'] = draw(st.booleans())
    case['ops'] = draw(st.lists(st.sampled_from(['avg', 'min', 'max', 'sum', 'custom', 'count']), min_size=1, max_size=4, unique=True))
    if len(case['spec']['labels']) > 1:
        # (an operation giving a number, instead of a number for each label, only makes sense for a single label)
        case['ops'] = [op for op in case['ops'] if op != 'count'] or ['avg']
    case['strings'] = draw(st.booleans())
    case['start'] = draw(st.one_of(st.none(), st.none(), st.integers(-3, 4)))
    case['end'] = draw(st.one_of(st.none(), st.none(), st.integers(-4, 2)))
    case['datetimes'] = draw(st.booleans())
    case['fill'] = draw(st.sampled_from([None, None, 0, -7.5]))
    return case


def custom(series):
    """A user-defined operation: one value per label."""
    return {label: [item.data[label] for item in series][0] for label in series.data_labels()}


def count(series):
    """A user-defined operation: a scalar."""
    return len([item for item in series])


def grid_from(case, ts, unit, tz):
    """The slots: starts and ends."""
    first = refs.unit_floor(ts[0], unit, tz)
    if first != ts[0] and case['start'] is None:
        first = refs.unit_next(first, unit, tz)
    if case['start'] is not None:
        # Explicit: some units before or after
        for _ in range(abs(case['start'])):
            first = refs.unit_next(first, unit, tz) if case['start'] > 0 else refs.unit_floor(first - 1, unit, tz)
    return first


@sub('C12', 'aggregate', cases,
     'regular series, series with holes and jittered ones, at every phase and in several time zones (over DST changes), aggregated in fixed and calendar slots, with built-in '
     'and user-defined operations, explicit or automatic start and end, and filling: slots compared with the calendar, values with their definition; non-trivial = at least '
     'two slots, one with a gap, or of uneven lengths', quick=1500, shards=4)
def aggregate(case, ctx):
    from timeseria import operations
    from timeseria.transformations import Aggregator
    spec, unit = case['spec'], case['unit']
    ts, labels = spec['ts'], spec['labels']
    series, tz = c11.build(case)
    s, explicit = c11.sampling_interval(case)
    columns = {l: [gen.by_label(spec, i, l) for i in range(len(ts))] for l in labels}

    # The slots that are expected
    start = grid_from(case, ts, unit, tz)
    kwargs = {}
    if tz != 'UTC' and not case['datetimes'] and unit not in gen.PHYSICAL:
        # An epoch as start or end is checked to be on the grid of UTC
        case = dict(case, start=None, end=None)
        start = grid_from(case, ts, unit, tz)
    if case['start'] is not None:
        kwargs['start'] = gen.local_dt(start, tz) if case['datetimes'] else start
    slots = []
    a = start
    end = None
    if case['end'] is not None:
        end = refs.unit_floor(ts[-1], unit, tz)
        for _ in range(abs(case['end'])):
            end = refs.unit_next(end, unit, tz) if case['end'] > 0 else refs.unit_floor(end - 1, unit, tz)
        if ts[0] < 0 < ts[-1] and refs.unit_floor(0, unit, tz) == 0:
            end = 0
        if end <= start:
            end = None
        else:
            kwargs['end'] = gen.local_dt(end, tz) if case['datetimes'] else end
    while True:
        b = refs.unit_next(a, unit, tz)
        if b > ts[-1] or (end is not None and b > end):
            break
        if b > ts[0]:
            slots.append((a, b))
        a = b

    ops = []
    for op in case['ops']:
        if op in ('custom', 'count'):
            ops.append({'custom': custom, 'count': count}[op])
        else:
            ops.append(op if case['strings'] else getattr(operations, op))
    if case['fill'] is not None:
        kwargs['fill_with'] = case['fill']
    try:
        result = c11.process(Aggregator, case, series, operations=ops, **kwargs)
    except ValueError:
        # Calendar units cannot be counted up to a time which happens twice, nor from there
        around = [refs.unit_floor(start - 1, unit, tz), refs.unit_next(b, unit, tz)] + [t for slot in slots for t in slot]
        if unit not in gen.PHYSICAL and any(refs.ambiguous(t, tz) for t in around):
            raise Reject()
        raise
    check_eq([(x.start.t, x.end.t) for x in result], slots, 'the slots', ts=ts)

    uneven = gapped = 0
    for item, (a, b) in zip(result, slots):
        check_eq(type(item).__name__, 'DataTimeSlot', 'type of the aggregated items')
        check_eq((str(item.tz), str(item.start.tz), str(item.end.tz)), (tz, tz, tz), 'aggregating keeps the time zone')
        check_eq(str(item.unit), unit, 'the unit of the slots')
        inside = [i for i, t in enumerate(ts) if a <= t < b]
        cover = refs.coverage(ts, s, a, b)
        regions = refs.validity(ts, s)
        inner_gap = any(regions[i][1] < regions[i + 1][0] for i in inside[:-1])
        gapped += cover < 1
        uneven += (b - a) != (slots[0][1] - slots[0][0])
        want_labels = []
        for op in case['ops']:
            want_labels += ['{}_{}'.format(l, op) for l in (labels if op != 'count' else sorted(labels)[:1])]
        check_eq(sorted(item.data), sorted(want_labels), 'labels of the slots')
        for op in case['ops']:
            for l in labels:
                if op == 'count' and l != sorted(labels)[0]:
                    continue
                got = item.data['{}_{}'.format(l, op)]
                window = refs.window(ts, columns[l], s, a, b, case['how'])
                values = [columns[l][i] for i in inside]
                if case['fill'] is not None and got == case['fill'] and cover > 0 and any(d.get('data_loss') for d in spec.get('indexes') or []):
                    # Missing also according to the data losses the points already had
                    continue
                # (with explicit starts before the first point, there is no loss which is exactly one)
                if cover == 0 and case['fill'] is not None:
                    check_close(got, case['fill'], 'a fully missing slot is filled with the value requested', op=op, slot=(a, b))
                elif op == 'avg':
                    check_close(got, window, 'average of the slot', abs_=1e-6, slot=(a, b), label=l)
                elif not inside:
                    # An empty slot is made of one value: its average
                    check_close(got, 1 if op == 'count' else window, 'value of a slot with no points', abs_=1e-6, op=op, slot=(a, b), label=l)
                elif op == 'min':
                    check_close(got, min(values), 'minimum of the slot', slot=(a, b), label=l)
                elif op == 'max':
                    check_close(got, max(values), 'maximum of the slot', slot=(a, b), label=l)
                elif op == 'custom':
                    check_close(got, values[0], 'a user-defined operation gets the points of the slot', slot=(a, b), label=l)
                elif op == 'sum' and not inner_gap:
                    check_close(got, sum(values), 'sum of the slot', slot=(a, b), label=l)
                elif op == 'count' and not inner_gap:
                    check_close(got, len(values), 'number of points of the slot', slot=(a, b), label=l)
    ctx.nontrivial(len(slots) >= 2 and (gapped or uneven))
    ctx.label('uneven', uneven)
    ctx.label('calendar', unit not in gen.PHYSICAL)
    ctx.label('start', 'start' in kwargs)
    ctx.label('end', 'end' in kwargs)
    ctx.label('empty_slot', any(not [t for t in ts if a <= t < b] for a, b in slots))
    if case['how'] == 'linear' and not explicit and not kwargs and not case['unit_object'] and result:
        check_eq([(x.start.t, x.data) for x in series.aggregate(unit, operations=ops)], [(x.start.t, x.data) for x in result], 'the method and the Aggregator agree')


@sub('C12', 'lists', cases, 'series with list data are aggregated as those with the positions as labels; non-trivial = at least two slots', quick=200)
def lists(case, ctx):
    from timeseria.transformations import Aggregator
    # (user-defined operations may well depend on the form)
    ops = [op for op in case['ops'] if op not in ('custom', 'count')] or ['min']
    results = []
    for c in c11.as_lists(case):
        try:
            results.append([(x.start.t, x.data, x.data_indexes) for x in c11.process(Aggregator, c, gen.build(c['spec']), operations=ops, **({} if case['fill'] is None else {'fill_with': case['fill']}))])
        except ValueError as e:
            results.append(str(e))
    check_eq(results[0], results[1], 'aggregation of list data')
    ctx.nontrivial(len(results[0]) >= 2 and not isinstance(results[0], str))


@sub('C12', 'given', cases,
     'what user-defined operations are given for each slot, read in every way (loops, nested ones, lists, sorting, lengths, the operations as methods): always the same items, in order, within the slot, on the wall clock of the series, '
     'those of the slot and, only in the gaps between them, ones between their neighbours; and the series is left as it was; non-trivial = at least two slots', quick=400, shards=2)
def given(case, ctx):
    from timeseria.transformations import Aggregator
    spec, tz = case['spec'], case['spec']['tz']
    ts, labels = spec['ts'], spec['labels']
    series = gen.build(spec)
    before = gen.snapshot(series)
    s, _ = c11.sampling_interval(case)
    seen = []

    def reading(items):
        looped = [p for p in items]
        shown = [(p.t, str(p.tz), p.dt.utcoffset(), {l: p.data[l] for l in labels}) for p in looped]
        for how, got in (('list', list(items)), ('sorted', sorted(items, key=lambda p: p.t)), ('contents', items.contents()), ('zip', [a for a, b in zip(items, items) if a is b]),
                         ('nested', [a for a in items if [b for b in items] and len(items)]), ('again', [p for p in items])):
            check_eq([p.t for p in got], [p[0] for p in shown], 'items given to an operation', how=how)
        check_eq(len(items), len(shown), 'length')
        check_eq(sum(1 for a in items for b in items), len(shown) ** 2, 'pairs of items')
        check_eq(items.data_labels(), sorted(labels), 'labels')
        for l in labels:
            values = [p[3][l] for p in shown]
            check_eq((items.min(l), items.max(l)), (min(values), max(values)), 'operations on what is given')
            check_close(items.sum(l), sum(values), 'operations on what is given')
        seen.append(shown)
        return {l: len(shown) for l in labels}
    try:
        # (the operation is to be called for what is checked only)
        result = c11.process(Aggregator, dict(case, used=None), series, operations=[reading])
    except ValueError:
        if case['unit'] not in gen.PHYSICAL:
            raise Reject()
        raise
    check_eq(gen.snapshot(series), before, 'the series is left as it was')
    # (an operation may also be computed for what is then not part of the result)
    check(len(seen) >= len(result), 'operations are computed for each slot')
    regions = refs.validity(ts, s)
    for item in result:
        a, b = item.start.t, item.end.t
        got = [shown for shown in seen if shown and a <= shown[0][0] < b]
        check_eq(len(got), 1, 'operations are computed once for each slot')
        got = got[0]
        inside = [i for i, t in enumerate(ts) if a <= t < b]
        check_eq([p[0] for p in got], sorted({p[0] for p in got}), 'order')
        for t, zone, offset, data in got:
            check_eq((zone, offset), (tz, gen.local_dt(t, tz).utcoffset()), 'wall clock of what operations are given', t=t)
            check(a <= t < b, 'within the slot', t=t)
        real = {ts[i]: i for i in inside}
        if inside:
            check(set(real) <= {p[0] for p in got}, 'all of the items of the slot are given')
            gaps = [(i, i + 1) for i in inside[:-1] if regions[i][1] < regions[i + 1][0]]
            check_eq(len(got) - len(inside), len(gaps), 'an item for each gap', items=[p[0] for p in got])
        for t, _, _, data in got:
            for l in labels:
                if t in real:
                    check_close(data[l], gen.by_label(spec, real[t], l), 'value of an item', t=t)
                elif inside:
                    i = max(j for j in range(len(ts)) if ts[j] < t)
                    x, y = gen.by_label(spec, i, l), gen.by_label(spec, i + 1, l)
                    want = (x + y) / 2 if case['how'] == 'uniform' else x + (y - x) * (t - ts[i]) / (ts[i + 1] - ts[i])
                    check_close(data[l], want, 'value in a gap', 1e-9, 1e-6, t=t)
    ctx.nontrivial(len(result) >= 2)
    ctx.label('gaps', any(p[0] not in ts for shown in seen if len(shown) > 1 for p in shown))
