"""C01 - order, type, unit and label consistency of series, over histories of editing operations."""
from hypothesis import strategies as st

from harness import gen
from harness.core import sub, check, fail

ASSUMPTIONS = ['Negative positions in insert() are only required to keep the series well-formed if they are accepted.',
               'Items offered to one series are of the two item types a time series accepts, or generic points and slots for a generic series.']

UNITS = {'1h': 3600, '2h': 7200}
SHAPES = [['dict', ['a']], ['dict', ['b']], ['dict', ['a', 'b']], ['list', 1], ['list', 2],
          ['number', 'int'], ['number', 'float'], ['dict', []], ['list', 0]]


def _op():
    where = st.one_of(st.just(['next', 1]), st.just(['next', 1]), st.just(['next', 1]),
                      st.tuples(st.just('next'), st.integers(1, 4)).map(list),
                      st.tuples(st.just('prev'), st.integers(1, 4)).map(list),
                      st.tuples(st.just('abs'), st.integers(-4, 24)).map(list))
    item = st.fixed_dictionaries({
        'where': where,
        'odd': st.sampled_from(['', '', '', '', '', '', '', '', 'kind', 'shape', 'unit', 'tz']),
        'shape': st.sampled_from([0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 5, 6, 7, 8]),
        'value': st.integers(-5, 5)})
    return st.one_of(
        st.tuples(st.just('append'), item).map(list),
        st.tuples(st.just('append'), item).map(list),
        st.tuples(st.just('append'), item).map(list),
        st.tuples(st.just('insert'), st.integers(-3, 8), item).map(list),
        st.tuples(st.just('insert'), st.sampled_from([0, 'end', 'mid', 'fit']), item).map(list),
        st.tuples(st.just('pop'), st.one_of(st.none(), st.just(0), st.integers(0, 8), st.integers(-8, -1))).map(list),
        st.tuples(st.just('remove'), st.integers(0, 8)).map(list),
        st.just(['clear']),
        st.just(['duplicate']))


def cases():
    return st.fixed_dictionaries({
        'cls': st.sampled_from(['TimeSeries', 'TimeSeries', 'Series']),
        'kind': st.sampled_from(['points', 'points', 'slots']),
        'shape': st.sampled_from([0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 5, 6, 7, 8]),
        'tz': st.sampled_from(['UTC', 'Europe/Rome']),
        'given_tz': st.sampled_from([None, None, None, 'UTC', 'Europe/Rome']),
        'n0': st.integers(0, 6),
        'ops': st.lists(_op(), min_size=1, max_size=14)})


def _model_item(case, op_item, model):
    """What item does this operation offer, as plain data."""
    kind, unit, tz = case['kind'], '1h', case['tz']
    shape = SHAPES[case['shape']]
    if op_item['odd'] == 'kind':
        kind = 'slots' if kind == 'points' else 'points'
    elif op_item['odd'] == 'shape':
        shape = SHAPES[op_item['shape']]
    elif op_item['odd'] == 'unit':
        unit = '2h'
    elif op_item['odd'] == 'tz':
        tz = 'Asia/Kolkata'
    if case['cls'] == 'Series':
        tz = None
    step = UNITS[unit]
    how, k = op_item['where']
    if how == 'next':
        if model:
            t = (model[-1]['end'] + (k - 1) * step) if kind == 'slots' and model[-1]['kind'] == 'slots' else model[-1]['t'] + k * 3600
        else:
            t = 0
    elif how == 'prev':
        t = model[0]['t'] - (k * step if kind == 'slots' else k * 3600) if model else 0
    else:
        t = k * 1800
    return {'kind': kind, 't': t, 'end': t + step if kind == 'slots' else None, 'unit': unit if kind == 'slots' else None,
            'tz': tz, 'shape': shape, 'value': op_item['value']}


def _data(m):
    form, width = m['shape']
    if form == 'number':
        # Numbers, zero being one of them
        return {'int': int, 'float': float}[width](m['value'])
    return {l: m['value'] for l in width} if form == 'dict' else [m['value']] * width


def _real_item(case, m):
    from timeseria.datastructures import (DataTimePoint, DataTimeSlot, TimePoint, DataPoint, DataSlot, Point)
    from timeseria.units import TimeUnit
    if case['cls'] == 'Series':
        if m['kind'] == 'points':
            return DataPoint(m['t'], data=_data(m))
        return DataSlot(start=Point(m['t']), end=Point(m['end']), data=_data(m))
    if m['kind'] == 'points':
        return DataTimePoint(t=m['t'], tz=m['tz'], data=_data(m))
    return DataTimeSlot(start=TimePoint(t=m['t'], tz=m['tz']), unit=TimeUnit(m['unit']), data=_data(m))


def well_formed(case, model, series_tz):
    """The invariant, on the model."""
    for i, m in enumerate(model):
        first = model[0]
        if m['kind'] != first['kind'] or m['shape'] != first['shape']:
            return False
        if case['cls'] == 'TimeSeries' and m['kind'] == 'slots' and (m['unit'] != first['unit'] or m['tz'] != series_tz):
            return False
        if i:
            if m['kind'] == 'points' and not m['t'] > model[i - 1]['t']:
                return False
            if m['kind'] == 'slots' and m['t'] != model[i - 1]['end']:
                return False
    return True


def _observe(case, series):
    out = []
    for item in list(series):
        kind = 'slots' if hasattr(item, 'end') else 'points'
        t = item.start.coordinates[0] if kind == 'slots' else item.coordinates[0]
        out.append((kind, t, item.end.coordinates[0] if kind == 'slots' else None, item.data))
    return out


def _expected(model):
    return [(m['kind'], m['t'], m['end'], _data(m)) for m in model]


@sub('C01', 'histories', cases,
     'histories of append/insert/pop/remove/clear/duplicate over point and slot series, legal and illegal operations mixed, '
     'compared step by step with a list model; non-trivial = at least two accepted edits of which one is not an append, and one refused',
     quick=3000, shards=2)
def histories(case, ctx):
    from timeseria.datastructures import TimeSeries, Series
    given = case.get('given_tz') if case['cls'] == 'TimeSeries' else None
    series = TimeSeries(**({'tz': given} if given else {})) if case['cls'] == 'TimeSeries' else Series()
    model = []
    series_tz = given
    accepted = refused = edits = 0
    start = ['append', {'where': ['next', 1], 'odd': '', 'value': 1}]
    for op in [start] * case['n0'] + case['ops']:
        before = list(model)
        want = None          # the model after the operation, None if it has to be refused
        must_accept = True
        item = None
        if op[0] in ('append', 'insert'):
            m = _model_item(case, op[-1], model)
            if series_tz is not None and m['tz'] != series_tz and not model and case['cls'] == 'TimeSeries' and m['kind'] == 'slots':
                # An emptied slot series may or may not remember its time zone: not specified, do not offer it
                continue
            item = _real_item(case, m)
            if op[0] == 'append':
                new = model + [m]
                call = lambda: series.append(item)  # noqa
            else:
                pos = op[1]
                if pos == 'end':
                    pos = len(model)
                elif pos == 'mid':
                    pos = len(model) // 2
                elif pos == 'fit':
                    pos = len([x for x in model if x['t'] < m['t']])
                if pos > len(model):
                    pos = len(model)
                new = list(model)
                new.insert(pos, m)
                if pos < 0:
                    must_accept = False
                call = lambda: series.insert(pos, item)  # noqa
            tz_ref = series_tz if series_tz is not None else m['tz']
            if well_formed(case, new, tz_ref):
                want = new
        elif op[0] == 'pop':
            if not model:
                call = lambda: series.pop()  # noqa
            elif op[1] is None:
                want = model[:-1]
                call = lambda: series.pop()  # noqa
            else:
                i = op[1] % len(model)
                new = model[:i] + model[i + 1:]
                given = i if op[1] >= 0 else i - len(model)
                call = lambda: series.pop(given)  # noqa
                if well_formed(case, new, series_tz):
                    want = new
                    if before[0]['kind'] == 'slots' and given != 0:
                        must_accept = False
        elif op[0] == 'remove':
            if not model:
                continue
            i = op[1] % len(model)
            target = _real_item(case, model[i])
            # Removing is by equality: the first equal one, which is unique as items are ordered
            call = lambda: series.remove(target)  # noqa
            if model[0]['kind'] == 'points':
                want = model[:i] + model[i + 1:]
        elif op[0] == 'clear':
            want = []
            call = lambda: series.clear()  # noqa
        elif op[0] == 'duplicate':
            want = model

            def call():
                nonlocal series
                series = series.duplicate()
        error = None
        try:
            result = call()
        except Exception as e:  # a refusal, if legitimate
            error = e
        if error is None:
            if want is None:
                fail('an illegal operation was accepted', op=op, before=_expected(before), after=_observe(case, series))
            model = want
            accepted += 1
            if op[0] in ('insert', 'pop', 'remove', 'clear'):
                edits += 1
            if op[0] == 'pop':
                gone = [x for x in before if x not in want] or before[:1]
                check(result is not None and result.data == _data(gone[0]), 'pop() returned something else than the item it removed',
                      op=op, before=_expected(before), got=result)
        else:
            if want is not None and must_accept:
                fail('a legal operation was refused', op=op, before=_expected(before), error=repr(error))
            refused += 1
        got = _observe(case, series)
        if got != _expected(model):
            fail('the series does not hold what it should', op=op, refused=error is not None, got=got, want=_expected(model))
        check(len(series) == len(model), 'wrong length', got=len(series), want=len(model))
        if model:
            if case['cls'] == 'TimeSeries' and model[0]['kind'] == 'slots':
                series_tz = series_tz or model[0]['tz']
            form, width = model[0]['shape']
            if form != 'number':
                check(series.data_labels() == (sorted(width) if form == 'dict' else [str(i) for i in range(width)]),
                      'wrong data labels', got=series.data_labels(), shape=model[0]['shape'])
            check(series.item_type is type(series[0]), 'wrong item type')
    ctx.nontrivial(accepted >= 2 and edits >= 1 and refused >= 1)
    ctx.label('edits', edits > 0)
    ctx.label('refused', refused > 0)
    ctx.label('slots', case['kind'] == 'slots')
    ctx.label('len>=3', len(model) >= 3)


@sub('C01', 'construction', lambda: st.fixed_dictionaries({
        'spec': gen.series_specs(min_n=2, max_n=8, long=200), 'break': st.sampled_from(['none', 'none', 'dup', 'back', 'label', 'swap']),
        'at': st.integers(1, 7), 'how': st.sampled_from(['init', 'append'])}),
     'series built from item lists through the constructor or append, with at most one defect planted in the list; '
     'non-trivial = a defect was planted', quick=800)
def construction(case, ctx):
    from timeseria.datastructures import TimeSeries
    spec = case['spec']
    items = [gen.build_item(spec, i) for i in range(len(spec['ts']))]
    at = min(case['at'], len(items) - 1)
    bad = case['break'] != 'none'
    if case['break'] == 'dup':
        items.insert(at, gen.build_item(spec, at))
    elif case['break'] == 'back':
        items.append(gen.build_item(spec, at - 1))
    elif case['break'] == 'swap':
        items[at - 1], items[at] = items[at], items[at - 1]
    elif case['break'] == 'label':
        other = dict(spec)
        if spec['form'] == 'dict':
            other['labels'] = [l + '_' for l in spec['labels'][:-1]] + ['other']
        else:
            other['data'] = [r + [1] for r in spec['data']]
        items[at] = gen.build_item(other, at)
    wanted = [gen.snapshot_item(i) for i in items]
    error = None
    series = TimeSeries()
    try:
        if case['how'] == 'init':
            series = TimeSeries(*items)
        else:
            for item in items:
                series.append(item)
    except Exception as e:
        error = e
    if bad:
        check(error is not None, 'a malformed list of items was accepted', broken=case['break'], at=at)
    else:
        if error is not None:
            raise error
        check(gen.snapshot(series) == wanted, 'the series does not hold the items it was given', got=gen.snapshot(series), want=wanted)
    ctx.nontrivial(bad)
    ctx.label(case['break'])
