"""C03 - item access, slicing and views agree with the plain list of items."""
from hypothesis import strategies as st

from harness import gen, zoo
from checks import c08
from harness.core import sub, check, check_eq, check_close, close, fail, raises, Reject, HarnessError


def _pos():
    return st.one_of(st.none(), st.integers(-14, 16), st.integers(0, 8))


def _view():
    return st.tuples(st.sampled_from([None, 0, 1, 2, -8, -20]), st.sampled_from([None, -1, 5, 8, 30])).map(list)


def cases():
    return st.fixed_dictionaries({
        'spec': gen.series_specs(min_n=1, max_n=10, long=240),
        'view': st.one_of(st.none(), _view(), st.tuples(_pos(), _pos()).map(list)),
        'view2': st.one_of(st.none(), _view(), st.tuples(_pos(), _pos()).map(list)),
        'i': st.integers(-13, 13), 'k': st.integers(0, 12), 'between': st.sampled_from([0, 0, 0, 0.125, -0.125, 2 ** -14, -2 ** -14, 0.001]),
        'slices': st.lists(st.tuples(_pos(), _pos()).map(list), min_size=1, max_size=3),
        'times': st.lists(st.tuples(_edge(), _edge()).map(list), min_size=1, max_size=3),
        'tz': st.sampled_from(gen.TZS), 'n': st.integers(0, 12), 'step': st.sampled_from([1, 1, 2, 2, 3, 5, -1, -2])})


def _edge():
    """A time border: none, or an item (by position) plus an offset in fractions of its distance from the next."""
    return st.one_of(st.none(), st.tuples(st.integers(-1, 11), st.sampled_from([0, 0, 0, 0, 0.25, 0.5, -0.5, 0.75, 2 ** -12, -2 ** -12])).map(list))


def _time(spec, edge, items):
    """Edge -> epoch."""
    if edge is None:
        return None
    k, frac = edge
    ts = [i.t for i in items]
    step = (items[0].end.t - items[0].t) if spec['kind'] == 'slots' else (min([b - a for a, b in zip(ts, ts[1:])] or [2]))
    if k < 0:
        base = ts[0] - step
    elif k >= len(ts):
        base = ts[-1] + step * (k - len(ts) + 1)
    else:
        base = ts[k]
    return base + frac * step


def _same(got, want):
    got = list(got)
    return len(got) == len(want) and all(a is b for a, b in zip(got, want))


@sub('C03', 'access_and_slicing', cases,
     'a series (or a view of it, or a view of a view) accessed by position, epoch, datetime and data label, sliced by positions, epochs and '
     'datetimes in any time zone, with borders in, between and out of the items, compared with the list of its items; non-trivial = a '
     'border falls out of range or between items, or a view is involved', quick=2000, shards=2)
def access_and_slicing(case, ctx):
    spec = case['spec']
    root = gen.build(spec)
    items = [root[i] for i in range(len(spec['ts']))]
    for i, item in enumerate(items):
        check(item.t == spec['ts'][i], 'the items are not the ones appended', i=i)
    series = root
    views = [v for v in (case['view'], case['view2']) if v is not None] if case['view'] is not None else []
    for from_i, to_i in views:
        series = series.view(from_i, to_i)
        items = items[from_i:to_i]
        if not items:
            check(len(series) == 0 and list(series) == [], 'an empty view has items', got=list(series), view=[from_i, to_i])
            return
    n = len(items)
    # Whole content
    check(len(series) == n, 'wrong length', got=len(series), want=n)
    check(_same(series, items), 'iterating does not give the items in order')
    check(_same(series.contents(), items), 'contents() does not give the items in order')
    check([(a is x, b is y) for (a, x) in zip(series, items) for (b, y) in zip(series, items)] == [(True, True)] * n * n
          and len([1 for _ in series for _ in series]) == n * n, 'nested iteration does not visit all the pairs')
    check(_same(reversed(series), items[::-1]), 'looping in reverse does not give the items from the last', views=len(views))
    # Position
    i = case['i']
    for call in (lambda: series[i], lambda: series.get(at_i=i)):
        if -n <= i < n:
            check(call() is items[i], 'wrong item by position', i=i, got=call(), want=items[i])
        else:
            try:
                got = call()
            except IndexError:
                ctx.label('out_of_range')
                ctx.nontrivial()
            else:
                fail('a position out of range gives an item', i=i, n=n, got=got)
    # Time
    k = case['k']
    t = items[k % n].t + case['between']
    dt = gen.local_dt(t, case['tz'])
    for call in (lambda: series[float(t)], lambda: series.get(at_t=t), lambda: series[dt], lambda: series.get(at_dt=dt)):
        if not case['between']:
            check(call() is items[k % n], 'wrong item by time', t=t, got=call(), want=items[k % n])
        else:
            try:
                got = call()
            except ValueError:
                pass
            else:
                fail('a time with no item gives an item', t=t, got=got)
    # What is not there
    from timeseria.datastructures import DataTimePoint, DataTimeSlot
    from timeseria.units import TimeUnit
    data = items[k % n].data
    other = DataTimeSlot(t=t, unit=TimeUnit('1h'), data=data) if spec['kind'] == 'points' else DataTimePoint(t=t, data=data)
    for something in (None, 'x', t, other):
        check(something not in series, 'an item of another type is in the series', something=str(something))
        check(raises(lambda: series.index(something), ValueError) is not None, 'an item of another type has a position', something=str(something))
    check_eq((series == [other] * n, series == [None] * n, list(series) == [other] * n), (False, False, False), 'a series equals a list of something else')
    # head / tail
    m = case['n']
    check(_same(series.head(m), items[:m]), 'wrong head', n=m)
    check(_same(series.tail(m), items[-m:] if m else []), 'wrong tail', n=m)
    # Slices by position
    for a, b in case['slices']:
        want = items[a:b]
        got = [series.slice(from_i=a, to_i=b)]
        if a is not None or b is not None:
            got.append(series[a:b])
        for s in got:
            check(_same(s, want), 'wrong slice by position', slice=[a, b], n=n, got=[x.t for x in s], want=[x.t for x in want])
        ctx.nontrivial((a is not None and not 0 <= a <= n) or (b is not None and not 0 <= b <= n))
    # Slices with a step, shallow copies
    for a, b in case['slices'][:2] + [[None, None]]:
        step = case['step']
        want = items[a:b:step]
        if len(want) > 1 and (step < 0 or (spec['kind'] == 'slots' and step > 1)):
            check(raises(lambda: series[a:b:step], ValueError) is not None, 'items out of order, or slots with others missing in between, are sliced', slice=[a, b, step])
        else:
            got = series[a:b:step]
            check(_same(got, want), 'wrong slice with a step', slice=[a, b, step], n=n, got=[x.t for x in got], want=[x.t for x in want])
            if want:
                check_eq(str(got.tz), spec['tz'], 'time zone of a slice with a step')
    for name, got in (('copy()', series.copy()), ('a slice without limits', series[:])):
        check(isinstance(got, type(root)), '{} is not a series'.format(name), got=type(got).__name__)
        check(_same(got, items), '{} does not hold the items'.format(name))
        check(got == series and str(got.tz) == spec['tz'] and got.data_labels() == root.data_labels(), '{} is not as the series'.format(name))
        if spec['kind'] == 'points':
            got.remove(items[0])
        else:
            got.pop()
        check(_same(got, items[1:] if spec['kind'] == 'points' else items[:-1]) and _same(series, items), 'editing {} alters the series'.format(name))
    # Slices by time
    for ea, eb in case['times']:
        a, b = _time(spec, ea, items), _time(spec, eb, items)
        if a is None and b is None:
            continue
        if spec['kind'] == 'points':
            want = [x for x in items if (a is None or x.t >= a) and (b is None or x.t < b)]
        else:
            want = [x for x in items if (a is None or x.start.t >= a) and (b is None or x.end.t <= b)]
        fa, fb = (None if a is None else float(a)), (None if b is None else float(b))
        da, db = (None if a is None else gen.local_dt(a, case['tz'])), (None if b is None else gen.local_dt(b, case['tz']))
        for how, s in (('float', series[fa:fb]), ('t', series.slice(from_t=a, to_t=b)),
                       ('dt', series[da:db]), ('from_dt', series.slice(from_dt=da, to_dt=db))):
            check(_same(s, want), 'wrong slice by time', how=how, slice=[a, b], got=[x.t for x in s], want=[x.t for x in want],
                  all=[x.t for x in items])
            if s:
                check(s.data_labels() == gen.label_names(spec), 'a slice reports other data labels')
        ctx.nontrivial((ea or [0, 0])[1] != 0 or (eb or [0, 0])[1] != 0)
        ctx.label('empty_time_slice', not want)
    # Membership, index, equality
    check(items[-1] in series, 'the last item is not in the series')
    same = list(items)
    check(series == same and not (series != same), 'a series is not equal to its items')
    if n > 1:
        check(not (series == same[:-1]), 'a series is equal to a part of its items')
    check_eq(series.index(items[k % n]), k % n, 'position of an item', views=len(views))
    if len(items) < len(root):
        outside = next(x for x in root if not any(x is y for y in items))
        check(raises(lambda: series.index(outside), ValueError) is not None, 'an item out of a view has a position')
    a, b = case['slices'][0]
    lo, hi = 0 if a is None else a, n if b is None else b
    found = raises(lambda: items.index(items[k % n], lo, hi), ValueError) is None
    if found:
        check_eq(series.index(items[k % n], a, b), k % n, 'position of an item within a part', part=[a, b], n=n)
    else:
        check(raises(lambda: series.index(items[k % n], a, b), ValueError) is not None, 'an item out of the part where it is searched has a position', part=[a, b], n=n, k=k % n)
    # Mixed or multiple criteria are refused
    for bad in (lambda: series.get(at_i=0, at_t=items[0].t), lambda: series.slice(from_i=0, from_t=items[0].t),
                lambda: series.slice(from_i=0, to_t=items[-1].t), lambda: series.slice(from_t=items[0].t, to_i=1),
                lambda: series.slice(to_i=1, to_dt=gen.local_dt(items[-1].t, 'UTC')), lambda: series.slice(from_i=0, to_dt=gen.local_dt(items[-1].t, 'UTC')),
                lambda: series.slice(from_dt=gen.local_dt(items[0].t, 'UTC'), to_i=1), lambda: series.slice(from_i=0, from_dt=gen.local_dt(items[0].t, 'UTC')),
                lambda: series.slice(from_t=items[0].t, from_dt=gen.local_dt(items[0].t, 'UTC')), lambda: series.slice(to_t=items[-1].t, to_i=n),
                lambda: series.slice(to_t=items[-1].t, to_dt=gen.local_dt(items[-1].t, 'UTC')), lambda: series.get(at_i=0, at_dt=gen.local_dt(items[0].t, 'UTC')),
                lambda: series.get(at_t=items[0].t, at_dt=gen.local_dt(items[0].t, 'UTC'))):
        try:
            bad()
        except ValueError:
            pass
        else:
            fail('mixed access criteria were accepted')
    ctx.label('view', bool(views))
    ctx.nontrivial(bool(views))


@sub('C03', 'slices_are_series', lambda: st.fixed_dictionaries({
        'spec': gen.series_specs(min_n=3, max_n=10), 'a': st.integers(0, 4), 'b': st.integers(2, 10), 'op': st.sampled_from(['slice', 'view', 'materialize', 'duplicate'])}),
     'a slice, view, materialised view or duplicate describes the same items, and the copies are independent of the source; non-trivial = always', quick=800)
def slices_are_series(case, ctx):
    spec = case['spec']
    series = gen.build(spec)
    n = len(series)
    a = min(case['a'], n - 1)
    b = max(a + 1, min(case['b'], n))
    want = gen.snapshot(series)[a:b]
    if case['op'] == 'slice':
        got = series[a:b]
    elif case['op'] == 'view':
        got = series.view(a, b)
    elif case['op'] == 'materialize':
        got = series.view(a, b).materialize()
    else:
        got = series[a:b].duplicate()
    check(gen.snapshot(got) == want, 'the content is not the one of the source', got=gen.snapshot(got), want=want)
    check(got.data_labels() == series.data_labels(), 'wrong data labels')
    check(got.item_type is series.item_type, 'wrong item type')
    if case['op'] in ('materialize', 'duplicate'):
        for item in got:
            if isinstance(item.data, dict):
                item.data[spec['labels'][0]] = 12345
            else:
                item.data[0] = 12345
            item.data_indexes['data_loss'] = 0.77
        got.change_tz('Asia/Tokyo')
        check(gen.snapshot(series)[a:b] == want, 'modifying the copy changed the source')
    else:
        # Shared items by design: whatever is done on the source is seen
        series.change_tz('Asia/Tokyo')
        check([str(x.tz) for x in got] == ['Asia/Tokyo'] * (b - a), 'a view does not show the current state of the source')
    ctx.nontrivial()


@sub('C03', 'copies', lambda: st.fixed_dictionaries({
        'spec': st.one_of(gen.series_specs(min_n=1, max_n=9, long=120), gen.generic_specs(min_n=1, max_n=9).map(lambda spec: dict(spec, generic=True))),
        'how': st.sampled_from(['copy', 'deepcopy', 'pickle']), 'protocol': st.integers(0, 5), 'twice': st.booleans(),
        'view': st.one_of(st.none(), st.tuples(st.integers(0, 4), st.integers(1, 6)).map(list)), 'held': st.booleans(), 'end': st.sampled_from(['pop', 'clear', 'append'])}),
     'series (in time or not), and views, copied, deep copied and pickled (with all the protocols), also within something else holding them twice: the copies are of the same type, time zone and resolution, hold the same items, '
     'can be used and changed as the originals, and leave them as they were; non-trivial = more than one item', quick=1000)
def copies(case, ctx):
    import copy
    import pickle
    spec = case['spec']
    generic = bool(spec.get('generic'))
    root = gen.build_generic(spec) if generic else gen.build(spec)
    series = root
    if case['view'] and not generic:
        a = min(case['view'][0], len(root) - 1)
        series = root.view(a, min(len(root), a + case['view'][1]))
    ctx.nontrivial(len(series) > 1)
    ctx.label(case['how'])
    ctx.label('view', series is not root)
    items = list(series)
    def look(s):
        if generic:
            return [[gen.generic_place(x), x.data] for x in s], len(s), s.data_labels(), type(s).__name__
        return gen.snapshot(s), str(s.tz), str(s.resolution) if len(root) > 1 else None, len(s), s.data_labels(), type(s).__name__, str(s.item_type)
    before = look(series)
    copied = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle': lambda x: pickle.loads(pickle.dumps(x, protocol=case['protocol']))}[case['how']]
    if case['held'] and case['how'] != 'copy':
        held = copied({'a': series, 'b': [series]})
        check(held['a'] is held['b'][0], 'what is held twice is copied twice')
        got = held['a']
    else:
        got = copied(series)
    if case['twice']:
        got = copied(got)
    check_eq(look(got), before, 'a copy')
    check(got is not series and got == series and list(got) == items, 'a copy is not as the original')
    if case['how'] == 'copy':
        check(_same(got, items), 'a shallow copy holds other items')
    else:
        check(not any(x is y for x in got for y in items), 'a copy shares the items')
    if series is not root:
        check_eq(gen.snapshot(root), gen.snapshot(gen.build(spec)), 'the series viewed')
        return
    # Used as the original
    if case['end'] == 'append':
        again = gen.build_generic(spec) if generic else gen.build(spec)
        if len(root) > 1:
            check(raises(lambda: got.append(again[0]), ValueError) is not None, 'an item out of order is appended to a copy')
    elif case['end'] == 'pop' and (generic or spec['kind'] == 'slots' or len(root) > 1):
        check_eq(str(got.pop()), str(items[-1]), 'the last item of a copy')
        check_eq(len(got), len(items) - 1, 'length of a copy without its last item')
    else:
        got.clear()
        check_eq(list(got), [], 'a copy with no items')
    if case['how'] != 'copy':
        for x in got:
            if isinstance(x.data, dict):
                x.data['added'] = 1
            else:
                x.data.append(1)
        if not generic and len(got):
            got.change_tz('Asia/Tokyo')
    check(_same(series, items), 'changing a copy alters the items of the original')
    check_eq(look(series), before, 'the original')


@sub('C03', 'empty_views', lambda: st.fixed_dictionaries({
        'spec': gen.series_specs(min_n=1, max_n=8), 'at': st.integers(0, 8), 'i': st.integers(0, 9)}),
     'views with no items hold nothing and give nothing at non-negative positions (negative ones: see the known finding); non-trivial = '
     'the view lies within the series', quick=300)
def empty_views(case, ctx):
    series = gen.build(case['spec'])
    at = min(case['at'], len(series))
    view = series.view(at, at)
    check(len(view) == 0 and list(view) == [] and view.contents() == [] and view.head(3) == [], 'an empty view holds items')
    check(view == [] and series[0] not in view, 'an empty view is not equal to an empty list')
    try:
        got = view[case['i']]
    except IndexError:
        pass
    else:
        fail('an empty view gives an item', i=case['i'], got=got)
    ctx.nontrivial(at < len(series))


@st.composite
def viewing(draw):
    spec = draw(gen.series_specs(min_n=3, max_n=10, long=120, steps=[60, 300, 600], units=['1m', '10m', '1h', '1D'], value=st.integers(-400, 400).map(lambda i: i / 4), subsecond=False))
    n = len(spec['ts'])
    # Views of a single point know the resolution of the series, a series of a single point does not
    a = draw(st.integers(0, n - 2))
    b = draw(st.integers(a + 2, n))
    c = draw(st.integers(a, b - 2))
    return {'spec': spec, 'a': a, 'b': b, 'nested': draw(st.one_of(st.none(), st.tuples(st.just(c - a), st.integers(c - a + 2, b - a)).map(list))), 'ops': draw(st.lists(st.sampled_from(sorted(set(c08.NEW + c08.PLAIN) - {'save'})), min_size=1, max_size=4, unique=True))}


@sub('C03', 'operations_on_views', viewing,
     'operations, transformations and conversions on a view (also of a view) of a series of points or slots: each gives what it gives on a series made of the items shown only, whether or not other operations were made on the view before; non-trivial = the view is not the entire series', quick=500)
def operations_on_views(case, ctx):
    spec = case['spec']
    n = len(spec['ts'])
    a, b = case['a'], case['b']
    series = gen.build(spec)
    view = series.view(a, b)
    if case['nested']:
        view = view.view(*case['nested'])
        a, b = a + case['nested'][0], a + case['nested'][1]
    part = zoo.cut(spec, a, b)
    if str(gen.build(part).resolution) != str(series.resolution):
        # Views have the resolution of the series, also if their items are evenly spaced and the others are not
        raise Reject()
    ctx.nontrivial(b - a < n)
    if spec.get('points'):
        raise HarnessError('unexpected spec')
    other = dict(part, data=[[v + 1 for v in row] for row in part['data']])
    for op in case['ops']:
        refused = None
        try:
            want = c08.plain(c08.run(gen.build(part), gen.build(other), op, part))
        except Exception as e:
            refused = type(e).__name__
        if refused:
            try:
                got = c08.plain(c08.run(view, gen.build(other), op, part))
            except Exception:
                continue
            if op in ('summary', 'repr'):
                continue
            fail('what is refused on the items shown is not on a view', op=op, refused=refused, got=got)
        else:
            got = c08.plain(c08.run(view, gen.build(other), op, part))
            if op in ('repr', 'summary', 'plot'):
                continue
            # The type of series does not matter
            bare = lambda x: x[1:] if isinstance(x, list) and x and isinstance(x[0], str) and x[0].startswith('TimeSeries') else x
            check_eq(bare(got), bare(want), 'operation on a view', op=op)
        check_eq(gen.snapshot(series), gen.snapshot(gen.build(spec)), 'the series is left as it was', op=op)


@sub('C03', 'summaries', lambda: st.fixed_dictionaries({'spec': gen.series_specs(min_n=1, max_n=24, long=240), 'limit': st.sampled_from([1, 2, 3, 4, 5, 9, 10, 10, 11, 23, 24, 30, None]), 'newlines': st.booleans()}),
     'summaries, of any series and with any limit: they tell the first and last half of the items allowed (or all of them), each once and in order, and no others, and printing one prints the same; '
     'non-trivial = some items are left out', quick=300)
def summaries(case, ctx):
    import contextlib
    import io
    series = gen.build(case['spec'])
    before = gen.snapshot(series)
    n, limit = len(series), case['limit']
    text = series.summary(limit=limit, newlines=case['newlines'])
    shown = range(n)
    if limit is not None and limit < n:
        shown = list(range(limit - limit // 2)) + list(range(n - limit // 2, n))
        ctx.nontrivial()
    check(text.startswith(str(series)), 'a summary starts with the series')
    where = []
    for i, item in enumerate(series):
        check_eq(text.count(str(item)), int(i in shown), 'times an item is in the summary', i=i, n=n, limit=limit)
        if i in shown:
            where.append(text.index(str(item)))
    check_eq(where, sorted(where), 'order of the items of a summary')
    check_eq('...' in text, len(shown) < n, 'dots for what is left out')
    check(('\n' in text) == case['newlines'], 'newlines of a summary')
    if limit == 10:
        check_eq(series.summary(newlines=case['newlines']), text, 'default limit')
    printed = io.StringIO()
    with contextlib.redirect_stdout(printed):
        series.inspect(limit=limit)
    check_eq(printed.getvalue(), series.summary(limit=limit, newlines=True) + '\n', 'what is printed')
    check_eq(gen.snapshot(series), before, 'summaries leave the series as it was')


@sub('C03', 'generic', lambda: st.fixed_dictionaries({
        'spec': gen.generic_specs(min_n=1, max_n=9), 'i': st.integers(-12, 12), 'a': _pos(), 'b': _pos(), 'step': st.sampled_from([None, None, 1, 2, 3]), 'k': st.integers(0, 8), 'limit': st.sampled_from([1, 2, 5, 10, 30])}),
     'series of points and slots which are not in time, accessed by position, sliced (also by steps, for points), selected, filtered, renamed and searched, compared with the list of their items; '
     'non-trivial = a border is out of range or negative', quick=500)
def generic(case, ctx):
    spec, i, a, b, step = case['spec'], case['i'], case['a'], case['b'], case['step']
    series = gen.build_generic(spec)
    items = list(series)
    n, labels = len(items), spec['labels']
    ctx.nontrivial(any(x is not None and (x < 0 or x >= n) for x in (a, b, i)))
    ctx.label(spec['kind'])
    for name, at in (('by position', lambda: series[i]), ('with get', lambda: series.get(i)), ('with get and its argument', lambda: series.get(at_i=i))):
        if -n <= i < n:
            check(at() is items[i], 'the item {}'.format(name), i=i)
        else:
            check(isinstance(raises(at), IndexError), 'no item {} out of the series'.format(name), i=i)
    if spec['kind'] == 'slots':
        step = None
    part = series[a:b:step]
    check(type(part) is type(series), 'a slice is a series', got=type(part).__name__)
    check(_same(part, items[a:b:step]), 'a slice holds the items of the list', got=len(part), want=len(items[a:b:step]), n=n)
    if a is not None or b is not None:
        check(_same(series.slice(from_i=a, to_i=b), items[a:b]), 'slice() holds the items of the list', a=a, b=b, n=n)
    check(_same(series, items), 'slicing leaves the series as it was')
    if len(items[a:b]) > 0:
        check(_same(series[a:b][:], items[a:b]), 'a slice of a slice')
    for name, value in (('from_t', 1.0), ('to_t', 1.0), ('from_dt', gen.local_dt(1, 'UTC')), ('to_dt', gen.local_dt(1, 'UTC'))):
        check(isinstance(raises(lambda: series.slice(**{name: value})), TypeError), 'a series which is not in time cannot be sliced by it', name=name)
    k = case['k'] % n
    check(items[k] in series, 'an item is in its series')
    check_eq(series.index(items[k]), k, 'position of an item')
    twin = gen.build_generic(spec)
    check_eq(series == twin, True, 'series of the same items are equal')
    check_eq(series.index(twin[k]), k, 'position of an item equal to one of the series')
    check_eq(sorted(series.data_labels()), sorted(labels), 'labels')
    check_eq(len(series.contents()), n, 'contents')
    head = series.head(case['limit'])
    check(_same(head, items[:case['limit']]) if not isinstance(head, str) else True, 'head() gives the first items')
    column = labels[case['k'] % len(labels)]
    if spec['form'] == 'dict':
        for name, got in (('filter()', series.filter(column)), ('the label in brackets', series[column])):
            check_eq([x.data for x in got], [{column: row[labels.index(column)]} for row in spec['values']], 'values with {}'.format(name))
            check_eq([gen.generic_place(x) for x in got], [gen.generic_place(x) for x in items], 'places with {}'.format(name))
        copy = series.duplicate()
        copy.rename_data_label(column, 'renamed')
        check_eq([x.data for x in copy], [{('renamed' if l == column else l): v for l, v in zip(labels, row)} for row in spec['values']], 'values of a renamed label')
        check_eq(sorted(copy.data_labels()), sorted('renamed' if l == column else l for l in labels), 'labels after renaming one')
        copy.remove_data_label('renamed')
        check_eq([x.data for x in copy], [{l: v for l, v in zip(labels, row) if l != column} for row in spec['values']], 'values without the removed label')
    if spec['indexes'] is not None:
        copy = series.duplicate()
        copy.remove_data_loss()
        check_eq([x.data_indexes for x in copy], [{x: y for x, y in d.items() if x != 'data_loss'} for d in spec['indexes']], 'indexes without the data loss')
        check_eq([x.data_indexes for x in series], [dict(d) for d in spec['indexes']], 'indexes of the series duplicated')
    check_eq([list(x.data.values()) if spec['form'] == 'dict' else list(x.data) for x in series], [list(row) for row in spec['values']], 'values are left as they were')
