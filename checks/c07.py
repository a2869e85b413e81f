"""C07 - operations returning series agree with their definition."""
import math

from hypothesis import strategies as st

from harness import gen
from harness.core import sub, check, check_eq, check_close, close, raises, fail

DYADIC = st.integers(-400, 400).map(lambda i: i / 4)


def _span(spec):
    """Seconds from an item to the next, as long as they are all the same (calendar days: those of the first)."""
    ts = spec['ts']
    if spec['kind'] == 'slots' and spec['unit'] not in gen.CALENDAR:
        return gen.PHYSICAL[spec['unit']]
    return ts[1] - ts[0]


def _variable(spec):
    ts = spec['ts']
    gaps = {b - a for a, b in zip(ts, ts[1:])}
    return spec['kind'] == 'points' and len(gaps) > 1


def _mode_gap(spec):
    """The most common spacing, None if there is not exactly one."""
    gaps = [b - a for a, b in zip(spec['ts'], spec['ts'][1:])]
    counts = {g: gaps.count(g) for g in gaps}
    best = max(counts.values())
    modes = [g for g in counts if counts[g] == best]
    return modes[0] if len(modes) == 1 else None


def _columns(spec):
    return {label: [gen.by_label(spec, i, label) for i in range(len(spec['ts']))] for label in gen.label_names(spec)}


def _value(item, label):
    return item.data[label] if isinstance(item.data, dict) else item.data[int(label)]


def check_frame(spec, source, result, first, name, indexes=True):
    """The result holds, from the `first` source item on, the same items: instants, zones, extents and data indexes."""
    check_eq(len(result), len(spec['ts']) - first, '{}: length of the result'.format(name))
    check_eq(type(result).__name__, type(source).__name__, '{}: type of the result'.format(name))
    for k, item in enumerate(result):
        i = k + first
        src = source[i]
        check(type(item) is type(src), '{}: type of the items'.format(name))
        check(item.t == spec['ts'][i] and str(item.tz) == spec['tz'], '{}: instant and zone of the items'.format(name), i=i, t=item.t, tz=item.tz)
        if spec['kind'] == 'slots':
            check(item.end.t == src.end.t and item.unit == src.unit, '{}: extent of the slots'.format(name), i=i)
        if indexes:
            check_eq(item.data_indexes, spec['indexes'][i] if spec.get('indexes') is not None else {}, '{}: data indexes are carried forward'.format(name), i=i)


def check_values(spec, result, expected, postfix, name, rel=1e-9, abs_=1e-9):
    """expected: label -> list of values (None: not judged)."""
    labels = gen.label_names(spec)
    dict_form = spec['form'] == 'dict'
    check_eq(result.data_labels(), sorted(l + postfix for l in labels) if dict_form else labels, '{}: labels of the result'.format(name))
    for l in labels:
        for k, want in enumerate(expected[l]):
            if want is None:
                continue
            got = _value(result[k], l + postfix if dict_form else l)
            check_close(got, want, '{}: value'.format(name), rel=rel, abs_=abs_, label=l, position=k)


@st.composite
def derivative_cases(draw):
    value = draw(st.sampled_from([DYADIC, gen.int_values(), gen.values()]))
    spec = draw(gen.series_specs(min_n=2, max_n=10, value=value, t0s=st.sampled_from([0, 60, -3600, 1325376000, 1364688000 - 3600, 1446073200 - 7200]), long=240))
    return {'spec': spec, 'c': draw(st.sampled_from([None, 'number', 'dict'])), 'generic': False}


@sub('C07', 'derivative_integral', derivative_cases,
     'derivative, integral, diff and csum of a series compared with their definition, and with being the inverse of each other (integral of the '
     'derivative and csum of the diff give back the series, from its first value); non-trivial = at least four items and two distinct increments', quick=2000, shards=2)
def derivative_integral(case, ctx):
    spec = case['spec']
    n = len(spec['ts'])
    ts = spec['ts']
    source = gen.build(spec)
    columns = _columns(spec)
    labels = gen.label_names(spec)
    variable = _variable(spec)
    # Calendar days normalise by the length of a day; the judge only fixes it when the first one is not a 23 or 25 hours one
    span = (_mode_gap(spec) if variable else _span(spec))
    if spec['kind'] == 'slots' and spec['unit'] in gen.CALENDAR and (source[0].end.t - source[0].start.t) % 86400 != 0:
        span = None
    ctx.nontrivial(n >= 4 and any(len({c[i + 1] - c[i] for i in range(n - 1)}) > 1 for c in columns.values()))
    ctx.label('variable', variable)
    ctx.label('multi', len(labels) > 1)
    scale = max(abs(v) for c in columns.values() for v in c) + 1

    derivative = source.derivative()
    check_frame(spec, source, derivative, 0, 'derivative')
    expected = {}
    for l in labels:
        c = columns[l]
        e = []
        for i in range(n):
            if i == 0 or i == n - 1:
                j = 0 if i == 0 else n - 2
                e.append((c[j + 1] - c[j]) / span if span else None)
            elif variable:
                e.append(((c[i] - c[i - 1]) / (ts[i] - ts[i - 1]) + (c[i + 1] - c[i]) / (ts[i + 1] - ts[i])) / 2)
            else:
                e.append((c[i + 1] - c[i - 1]) / 2 / span if span else None)
        expected[l] = e
    check_values(spec, derivative, expected, '_derivative', 'derivative', abs_=1e-9 * scale / min(1, span or 1))

    # Not normalized: the increments only, whatever the time between the items
    raw = source.derivative(normalize=False)
    check_frame(spec, source, raw, 0, 'not normalized derivative')
    check_values(spec, raw, {l: [columns[l][1] - columns[l][0]] + [(columns[l][i + 1] - columns[l][i - 1]) / 2 for i in range(1, n - 1)] + [columns[l][-1] - columns[l][-2]] for l in labels}, '_diff',
                 'not normalized derivative', abs_=1e-9 * scale)

    # Diffs and cumulative sums
    if variable:
        check(isinstance(raises(source.diff), ValueError), 'differences of a variable resolution series are refused')
        check(isinstance(raises(source.csum), ValueError), 'cumulative sums of a variable resolution series are refused')
    else:
        diff = source.diff()
        check_frame(spec, source, diff, 1, 'diff')
        check_values(spec, diff, {l: [columns[l][i + 1] - columns[l][i] for i in range(n - 1)] for l in labels}, '_diff', 'diff')
        csum = source.csum()
        check_frame(spec, source, csum, 0, 'csum')
        check_values(spec, csum, {l: [math.fsum(columns[l][:i + 1]) for i in range(n)] for l in labels}, '_csum', 'csum', abs_=1e-9 * scale * n)
        # Offset: the first value comes back, one step before
        # (calendar units cannot be subtracted, and are explicitly refused)
        if n >= 3 and not (spec['kind'] == 'slots' and spec['unit'] in gen.CALENDAR):
            suffix = '_diff' if spec['form'] == 'dict' else ''
            offset = {l + suffix: columns[l][0] for l in labels}
            if spec['form'] == 'list' and len(labels) == 1 and case['c'] == 'number':
                offset = columns['0'][0]
            if offset:
                back = diff.csum(offset=offset)
                check_eq(len(back), n, 'csum with an offset gives one item more')
                check(all(back[i].t == ts[i] for i in range(n)), 'csum of diff: instants of the items', got=[x.t for x in back], want=ts)
                for l in labels:
                    for i in range(n):
                        check_close(_value(back[i], l + '_diff_csum' if spec['form'] == 'dict' else l), columns[l][i], 'csum of diff with the first value as offset gives the series back',
                                    abs_=1e-9 * scale * n, label=l, i=i)

    # Integral of the derivative
    regular_start = not variable or (span is not None and ts[1] - ts[0] == span)
    if regular_start:
        suffix = '_derivative' if spec['form'] == 'dict' else ''
        if case['c'] == 'dict':
            c0 = {l + suffix: columns[l][0] for l in labels}
        elif case['c'] == 'number':
            c0 = 7.5
        else:
            c0 = 0
        integral = derivative.integral(c=c0)
        check_frame(spec, source, integral, 0, 'integral')
        for l in labels:
            shift = 0 if case['c'] == 'dict' else (c0 - columns[l][0])
            for i in range(n):
                check_close(_value(integral[i], l + '_derivative_integral' if spec['form'] == 'dict' else l), columns[l][i] + shift,
                            'the integral of the derivative is the series, up to the constant', rel=1e-7, abs_=1e-7 * scale, label=l, i=i)


@st.composite
def map_cases(draw):
    value = draw(st.sampled_from([DYADIC, gen.int_values(), gen.values()]))
    long = draw(st.integers(0, 3)) == 0
    spec = draw(gen.series_specs(min_n=20 if long else 1, max_n=32 if long else 10, value=value, long=240))
    labels = gen.label_names(spec)
    number = st.sampled_from([0, 1, 2, -1, 0.5, -3.25, 10])
    per_label = st.dictionaries(st.sampled_from(labels + ['other']), number, max_size=3)
    low = draw(st.sampled_from([0, -1, 0.5, 10]))
    return {'spec': spec, 'by': draw(st.one_of(number, per_label)), 'window': draw(st.one_of(st.integers(1, 30 if long else 12), st.integers(1, len(spec['data'])))),
            'range': draw(st.one_of(st.none(), st.just([0, 1]), st.just([low, low + draw(st.sampled_from([1, 0.5, 20]))]))),
            'source_range': draw(st.one_of(st.none(), st.just([[l, [draw(st.sampled_from([-100, 0, 3])), draw(st.sampled_from([4, 100, 1000]))]] for l in labels])))}


@sub('C07', 'maps', map_cases,
     'rescale, offset, normalize and moving average of a series compared with their definition, over single or per-label factors, target and source ranges, and '
     'windows; non-trivial = at least three items, and two distinct values', quick=2000, shards=2)
def maps(case, ctx):
    spec = case['spec']
    n = len(spec['ts'])
    source = gen.build(spec)
    columns = _columns(spec)
    labels = gen.label_names(spec)
    by = case['by']
    ctx.nontrivial(n >= 3 and all(len(set(c)) > 1 for c in columns.values()))

    result = source.rescale(by)
    check_frame(spec, source, result, 0, 'rescale')
    check_values(spec, result, {l: [v * (by.get(l, 1) if isinstance(by, dict) else by) for v in columns[l]] for l in labels}, '', 'rescale')
    result = source.offset(by)
    check_frame(spec, source, result, 0, 'offset')
    check_values(spec, result, {l: [v + (by.get(l, 0) if isinstance(by, dict) else by) for v in columns[l]] for l in labels}, '', 'offset')

    w = case['window']
    if w <= n:
        result = source.mavg(w)
        check_frame(spec, source, result, w - 1, 'mavg', indexes=False)
        check_values(spec, result, {l: [math.fsum(columns[l][i - w + 1:i + 1]) / w for i in range(w - 1, n)] for l in labels}, '_mavg_{}'.format(w), 'mavg')
    check(isinstance(raises(lambda: source.mavg(0)), ValueError), 'a moving average without a window is refused')

    sources = dict(case['source_range']) if case['source_range'] else {l: [min(columns[l]), max(columns[l])] for l in labels}
    if all(hi > lo for lo, hi in sources.values()) and all(hi - lo > 1e-6 for lo, hi in sources.values()):
        kwargs = {}
        if case['range'] is not None:
            kwargs['range'] = list(case['range'])
        if case['source_range']:
            kwargs['source_range'] = dict(sources)
        result = source.normalize(**kwargs)
        check_frame(spec, source, result, 0, 'normalize')
        lo, hi = case['range'] or [0, 1]
        check_values(spec, result, {l: [lo + (v - sources[l][0]) / (sources[l][1] - sources[l][0]) * (hi - lo) for v in columns[l]] for l in labels}, '', 'normalize')
        ctx.label('normalized')
        if not case['source_range']:
            for l in labels:
                check_close(result.min(l), lo, 'the minimum is normalized to the lower end of the range', label=l)
                check_close(result.max(l), hi, 'the maximum is normalized to the upper end of the range', label=l)


@st.composite
def inplace_cases(draw):
    value = draw(st.sampled_from([DYADIC, gen.int_values()]))
    spec = draw(gen.series_specs(min_n=2, max_n=8, value=value, long=240))
    labels = gen.label_names(spec)
    number = st.sampled_from([0, 2, -1, 0.5, 10])
    return {'spec': spec, 'op': draw(st.sampled_from(['derivative', 'integral', 'csum', 'rescale', 'offset', 'normalize', 'not normalized derivative'])),
            'by': draw(st.one_of(number, st.dictionaries(st.sampled_from(labels), number, max_size=2))),
            'c': draw(st.sampled_from([0, 3]))}


@sub('C07', 'inplace', inplace_cases,
     'each operation that supports the in-place mode, run in-place on a duplicate and not in-place on the series: same values, existing data of other labels, instants and '
     'indexes kept; non-trivial = at least three items', quick=1500)
def inplace(case, ctx):
    spec, op, by = case['spec'], case['op'], case['by']
    n = len(spec['ts'])
    source = gen.build(spec)
    columns = _columns(spec)
    labels = gen.label_names(spec)
    if op == 'csum' and _variable(spec):
        op = 'integral'
    if op == 'normalize' and not all(max(c) > min(c) for c in columns.values()):
        op = 'offset'
    ctx.nontrivial(n >= 3)
    ctx.label(op)

    def run(series, **kwargs):
        if op in ('rescale', 'offset'):
            return getattr(series, op)(by, **kwargs)
        if op == 'integral':
            return series.integral(c=case['c'], **kwargs)
        if op == 'not normalized derivative':
            return series.derivative(normalize=False, **kwargs)
        return getattr(series, op)(**kwargs)

    copy = run(source)
    target = source.duplicate()
    check(run(target, inplace=True) is None, '{} in-place returns nothing'.format(op))
    check_eq(len(target), n, '{} in-place keeps the length'.format(op))
    check_frame(spec, source, target, 0, op + ' in-place')
    for i in range(n):
        if spec['form'] == 'list' or op in ('rescale', 'offset', 'normalize'):
            want = copy[i].data
        else:
            want = dict(source[i].data)
            want.update(copy[i].data)
        check_eq(target[i].data, want, '{} in-place gives the same values as not in-place'.format(op), i=i)
    check_eq(target.data_labels(), target[-1].data_labels(), '{} in-place leaves all the items with the same labels'.format(op))
    for window_op in ('mavg', 'diff'):
        if not (window_op == 'diff' and _variable(spec)):
            args = (1,) if window_op == 'mavg' else ()
            check(isinstance(raises(lambda: getattr(source, window_op)(*args, inplace=True)), NotImplementedError),
                  '{} in-place is refused, as it would change the length'.format(window_op))


@st.composite
def generic_cases(draw):
    spec = draw(gen.generic_specs(min_n=2, max_n=9))
    number = st.sampled_from([0, 1, 2, -1, 0.5, -4, 10])
    ends = st.sampled_from([[0, 1], [-1, 1], [0, 10], [5, 6], [-3, -1]])
    return {'spec': spec, 'by': draw(st.one_of(number, st.dictionaries(st.sampled_from(spec['labels']), number, max_size=2))),
            'window': draw(st.integers(1, 5)), 'range': draw(st.one_of(st.none(), ends)),
            'source_range': draw(st.one_of(st.none(), st.just('each'))), 'sources': draw(st.lists(ends, min_size=len(spec['labels']), max_size=len(spec['labels'])))}


@sub('C07', 'generic', generic_cases,
     'diff, csum, rescale, offset, normalize (also in-place), moving average and the scalar operations on series of points and slots which are not in time, compared with their '
     'definition, items and source kept; non-trivial = at least three items and two distinct values per label', quick=700)
def generic(case, ctx):
    spec, by, w = case['spec'], case['by'], case['window']
    n = len(spec['values'])
    labels = spec['labels']
    columns = {l: [row[k] for row in spec['values']] for k, l in enumerate(labels)}
    uneven = all(max(c) > min(c) for c in columns.values())
    ctx.nontrivial(n >= 3 and uneven)
    ctx.label(spec['kind'])
    ctx.label(spec['form'])
    source = gen.build_generic(spec)
    place = (lambda i: (spec['xs'][i],)) if spec['kind'] == 'points' else (lambda i: (spec['xs'][i], spec['xs'][i + 1]))

    def verify(result, expected, postfix, name, first=0, indexes=True):
        check_eq(len(result), n - first, '{}: length of the result'.format(name))
        check_eq(type(result).__name__, 'Series', '{}: type of the result'.format(name))
        names = sorted(l + postfix for l in labels) if spec['form'] == 'dict' else labels
        check_eq(sorted(result.data_labels()), sorted(names), '{}: labels of the result'.format(name))
        for k, item in enumerate(result):
            check(type(item) is type(source[0]), '{}: type of the items'.format(name))
            check_eq(gen.generic_place(item), place(k + first), '{}: place of the items'.format(name), k=k)
            if indexes:
                check_eq(item.data_indexes, (spec['indexes'][k + first] if spec['indexes'] is not None else {}), '{}: data indexes are carried forward'.format(name), k=k)
            for l in labels:
                got = item.data[l + postfix] if spec['form'] == 'dict' else item.data[int(l)]
                check_close(got, expected[l][k], '{}: value'.format(name), rel=1e-9, abs_=1e-9, label=l, position=k)

    factor = {l: (by.get(l, 1) if isinstance(by, dict) else by) for l in labels}
    shift = {l: (by.get(l, 0) if isinstance(by, dict) else by) for l in labels}
    done = [('rescale', lambda s, **kw: s.rescale(by, **kw), {l: [v * factor[l] for v in columns[l]] for l in labels}, '', 0),
            ('offset', lambda s, **kw: s.offset(by, **kw), {l: [v + shift[l] for v in columns[l]] for l in labels}, '', 0),
            ('diff', lambda s: s.diff(), {l: [b - a for a, b in zip(columns[l], columns[l][1:])] for l in labels}, '_diff', 1),
            ('csum', lambda s, **kw: s.csum(**kw), {l: [math.fsum(columns[l][:i + 1]) for i in range(n)] for l in labels}, '_csum', 0)]
    if w <= n:
        done.append(('mavg', lambda s: s.mavg(w), {l: [math.fsum(columns[l][i - w + 1:i + 1]) / w for i in range(w - 1, n)] for l in labels}, '_mavg_{}'.format(w), w - 1))
    if uneven or case['source_range']:
        sources = dict(zip(labels, case['sources'])) if case['source_range'] else {l: [min(columns[l]), max(columns[l])] for l in labels}
        kwargs = {}
        if case['range'] is not None:
            kwargs['range'] = list(case['range'])
        if case['source_range']:
            kwargs['source_range'] = {l: list(r) for l, r in sources.items()}
        lo, hi = case['range'] or [0, 1]
        done.append(('normalize', lambda s, **kw: s.normalize(**kwargs, **kw),
                     {l: [lo + (v - sources[l][0]) / (sources[l][1] - sources[l][0]) * (hi - lo) for v in columns[l]] for l in labels}, '', 0))
    for name, run, expected, postfix, first in done:
        verify(run(source), expected, postfix, name, first, indexes=name != 'mavg')
        if name not in ('diff', 'mavg'):
            target = source.duplicate()
            check(run(target, inplace=True) is None, '{} in-place returns nothing'.format(name))
            if name == 'csum' and spec['form'] == 'dict':
                for i in range(n):
                    want = dict(source[i].data)
                    want.update({l + postfix: expected[l][i] for l in labels})
                    check_eq(target[i].data, want, 'csum in-place adds to the data', i=i)
            else:
                verify(target, expected, '' if spec['form'] == 'list' else postfix, name + ' in-place', 0)
        for i in range(n):
            check_eq([v for v in (source[i].data.values() if spec['form'] == 'dict' else source[i].data)], list(spec['values'][i]), '{} leaves the series as it was'.format(name), i=i)
    for name, want in (('min', {l: min(c) for l, c in columns.items()}), ('max', {l: max(c) for l, c in columns.items()}),
                       ('sum', {l: math.fsum(c) for l, c in columns.items()}), ('avg', {l: math.fsum(c) / n for l, c in columns.items()})):
        got = getattr(source, name)()
        for l in labels:
            check_close(got[l] if isinstance(got, dict) else got, want[l], '{}: value'.format(name), rel=1e-9, abs_=1e-9, label=l)
            check_close(getattr(source, name)(l), want[l], '{} of a label: value'.format(name), rel=1e-9, abs_=1e-9, label=l)
    check(isinstance(raises(lambda: source.mavg(0)), ValueError), 'a moving average without a window is refused')


@sub('C07', 'single_items', lambda: st.fixed_dictionaries({'spec': gen.series_specs(min_n=1, max_n=1, value=gen.values()), 'c': st.sampled_from([None, 7.5, 'dict']), 'inplace': st.booleans()}),
     'series of a single item: its integral is the constant, its cumulative sum, moving average and offsets are those of its definition, and increments are refused; non-trivial = every case', quick=200)
def single_items(case, ctx):
    ctx.nontrivial()
    spec = case['spec']
    labels, columns = gen.label_names(spec), _columns(spec)
    source = gen.build(spec)
    before = gen.snapshot(source)
    c = {l: 10 + i for i, l in enumerate(labels)} if case['c'] == 'dict' else case['c']
    constants = {l: (c[l] if isinstance(c, dict) else c or 0) for l in labels}

    def whole(name, call, suffix, values):
        result = call()
        check_frame(spec, source, result, 0, name, indexes=name != 'mavg')
        check_values(spec, result, {l: [values[l]] for l in labels}, suffix, name)
        check_eq(gen.snapshot(source), before, name + ' leaves the series as it was')

    whole('integral', lambda: source.integral(**({} if c is None else {'c': c})), '_integral', constants)
    whole('csum', source.csum, '_csum', {l: columns[l][0] for l in labels})
    whole('mavg', lambda: source.mavg(1), '_mavg_1', {l: columns[l][0] for l in labels})
    for refused in (source.derivative, source.diff):
        check(isinstance(raises(refused), ValueError), 'increments of a single item are refused')
    if case['inplace']:
        source.integral(inplace=True, **({} if c is None else {'c': c}))
        for l in labels:
            check_close(_value(source[0], l + '_integral' if spec['form'] == 'dict' else l), constants[l], 'integral in place', label=l)
            if spec['form'] == 'dict':
                check_eq(source[0].data[l], columns[l][0], 'in place, other labels stay')
    else:
        check_eq(gen.snapshot(source), before, 'refused operations leave the series as it was')
