"""C28 - plots."""
import calendar
import datetime as dt
import json
import os
import subprocess

import pytz
from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import sub, check, check_eq, check_close, close, fail, raises, Reject, HarnessError

NAMES = ['a', 'b', 'temp', 'x y', 'it\'s', 'a,b', 'say "x"', 'è', 'C/D', 'kWh [1]']


def shown(*pages):
    """What the pages ask Dygraphs to show, by running their Javascript."""
    js = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'plotted.js')
    done = subprocess.run(['node', js], input=json.dumps([{'html': page} for page in pages]), capture_output=True, text=True, timeout=60)
    if done.returncode != 0:
        if 'harness/plotted.js' in done.stderr and 'Cannot find module' in done.stderr:
            raise HarnessError(done.stderr)
        fail('the Javascript of the plot does not run', error=[line for line in done.stderr.splitlines() if 'Error' in line][:2])
    return json.loads(done.stdout)


def clock(t, tz):
    """The milliseconds of the wall clock, as if it was on UTC."""
    local = gen.local_dt(t, tz).replace(tzinfo=None)
    return calendar.timegm(local.timetuple()) * 1000 + local.microsecond / 1000


@st.composite
def cases(draw):
    spec = draw(gen.series_specs(1, 14, long=400))
    if spec['form'] == 'dict' and draw(st.booleans()):
        spec = dict(spec, labels=draw(st.lists(st.sampled_from(NAMES), min_size=len(spec['labels']), max_size=len(spec['labels']), unique=True)))
    n = len(spec['ts'])
    return {'spec': spec, 'full': draw(st.booleans()), 'by': draw(st.sampled_from([None, None, None, 1, 2, 3, 5])), 'pick': draw(st.sampled_from([None, None, 'some', 'reversed'])), 'indexes': draw(st.sampled_from(['all', 'all', 'none', 'some'])),
            'mark': draw(st.one_of(st.none(), st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from(gen.TZS), st.booleans()).map(list))), 'where': draw(st.sampled_from(['html', 'html', 'file'])), 'title': draw(st.booleans()),
            'mini': draw(st.sampled_from([None, True, False])), 'view': draw(st.booleans()), 'never': draw(st.booleans()), 'minimal': draw(st.booleans()),
            'marked': draw(st.sampled_from(['MARKED', 'MARKED', "MARKED: it's", 'MARKED "x"', 'MARKED \\ è', None])), 'range': draw(st.sampled_from([None, None, [-10, 10], [0, 1], [-3, -1], [2.5, 1000], [0, 0.25]])),
            'height': draw(st.one_of(st.none(), st.none(), st.integers(1, 100))), 'color': draw(st.sampled_from([None, None, 'rgb(1,2,3)'])), 'mark_color': draw(st.sampled_from([None, None, 'rgb(4,5,6)'])),
            'flat': draw(st.sampled_from([None, None, None, 0, -10, 5, -0.001, 1e6]))}


def plot(case, series, **more):
    kwargs = dict(more)
    if case['full']:
        kwargs['full_precision'] = True
    if case['by']:
        kwargs['aggregate_by'] = case['by']
    if case['title']:
        kwargs['title'] = 'A title'
    if case['mini'] is not None:
        kwargs['mini_plot'] = case['mini']
    if case['minimal']:
        kwargs['minimal_legend'] = True
    if case['where'] == 'html':
        return series.plot(html=True, **kwargs)
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'plot-{}.html'.format(os.getpid()))
    try:
        check(series.plot(save_to=path, **kwargs) is None, 'nothing is given back when saving')
        with open(path, encoding='utf-8') as f:
            return f.read()
    finally:
        if os.path.exists(path):
            os.remove(path)


def expected(spec, labels, indexes, full, by):
    """The rows to be shown."""
    n = len(spec['ts'])
    values = [[gen.by_label(spec, i, label) for label in labels] for i in range(n)]
    marks = [[(spec['indexes'][i] if spec.get('indexes') else {}).get(name) for name in indexes] for i in range(n)]
    show = (lambda v, d: float(v)) if full else (lambda v, d: float('{:.{}f}'.format(v, d)))
    rows = []
    if not by:
        for i in range(n):
            rows.append([clock(spec['ts'][i], spec['tz'])] + [show(v, 2) for v in values[i]] + [None if v is None else show(v, 4) for v in marks[i]])
        return rows
    ends = [gen.build_item(spec, i).end.t for i in range(n)] if spec['kind'] == 'slots' else spec['ts']
    for k in range(n // by):
        group = range(k * by, (k + 1) * by)
        first, last = spec['ts'][group[0]], ends[group[-1]]
        row = [clock(first + (last - first) / 2, spec['tz'])]
        for j in range(len(labels)):
            column = [values[i][j] for i in group]
            row.append([show(min(column), 2), show(sum(column) / by, 2), show(max(column), 2)])
        for j in range(len(indexes)):
            average = show(sum(marks[i][j] or 0 for i in group) / by, 4)
            row.append([0, average, average])
        rows.append(row)
    return rows


def same_rows(got, want, full, what):
    check_eq(len(got), len(want), what + ': number of rows')
    flat = lambda row: [x for cell in row for x in (cell if isinstance(cell, list) else [cell])]
    for k, (a, b) in enumerate(zip(got, want)):
        check_eq([isinstance(x, list) for x in a], [isinstance(x, list) for x in b], what + ': columns', row=k)
        a, b = flat(a), flat(b)
        check_eq(len(a), len(b), what + ': columns', row=k)
        for x, y in zip(a, b):
            if y is None or x is None:
                check_eq(x, y, what + ': undefined', row=k)
            elif abs(x - y) > (1e-6 if full else 0.0101) + 1e-9 * abs(y):
                fail(what, row=k, got=a, want=b)
        if abs(a[0] - b[0]) > 0.5:
            fail(what + ': time', row=k, got=a[0], want=b[0])
        if not full:
            # Rounding is on the last digit only
            for x, y in zip(a[1:], b[1:]):
                if y is not None and abs(x - y) > 1e-9 and abs(x - y) > 0.0101:
                    fail(what, row=k, got=a, want=b)


@sub('C28', 'plots', lambda: cases(),
     'points and slots, of any time zone (and around DST changes), labels, data and data indexes, plotted as HTML or saved to a file, with or without aggregation, full precision, choices of labels and indexes, marks, titles, colors and ranges of the values: the Javascript of the plot runs, and gives to the plotting '
     'library a row per item (or per whole group of items) with its wall clock time, its data and its data indexes, in columns labelled accordingly, the mark on its times, and a range of the values which includes all of them (or what is asked); the series is left as it was; non-trivial = at least two items', quick=300, thorough=4000, shards=4)
def judge(case, ctx):
    spec = case['spec']
    n = len(spec['ts'])
    if case['flat'] is not None:
        spec = dict(spec, data=[[case['flat'] for _ in row] for row in spec['data']])
    ctx.nontrivial(n > 1)
    series = gen.build(spec)
    before = gen.snapshot(series)
    labels = gen.label_names(spec)
    check_eq(list(series.data_labels()), labels, 'labels of the series')
    every = []
    for x in spec.get('indexes') or []:
        every += [name for name in x if name not in every]
    known = [name for name in ('data_reconstructed', 'data_loss', 'anomaly', 'forecast') if name in every]
    every = known + sorted(set(every) - set(known))
    kwargs = {}
    chosen = list(labels)
    if case['pick']:
        chosen = chosen[:1] if case['pick'] == 'some' else list(reversed(chosen))
        kwargs['data_labels'] = list(chosen)
    indexes = every
    if case['indexes'] == 'none':
        indexes = []
        kwargs['data_indexes'] = None if n % 2 else []
    elif case['indexes'] == 'some' and every:
        indexes = every[-1:]
        kwargs['data_indexes'] = list(indexes)
    if case['mark']:
        i, j, tz, own = case['mark']
        i, j = min(i, j), max(i, j)
        tz = spec['tz'] if own else tz
        kwargs['mark'] = [gen.local_dt(spec['ts'][i], tz), gen.local_dt(spec['ts'][j], tz)]
        if case['marked']:
            kwargs['mark_title'] = case['marked']
        if case['mark_color']:
            kwargs['mark_color'] = case['mark_color']
    if case['range']:
        kwargs['value_range'] = list(case['range'])
    if case['color']:
        kwargs['color'] = case['color']
    shown_values = [gen.by_label(spec, i, label) for i in range(n) for label in chosen]
    if case['height'] and case['height'] > max(shown_values):
        kwargs['height'] = case['height']
    page = plot(case, series, **kwargs)
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')
    pages = [page]
    if case['by'] and case['never']:
        pages.append(plot(case, series, aggregate=False, **kwargs))
    if case['view'] and n > 1:
        longer = gen.build(spec)
        pages.append(plot(case, longer.view(0, n - 1), **{k: v for k, v in kwargs.items() if k != 'data_indexes'}))
    got = shown(*pages)
    first = got[0]
    same_rows(first['rows'], expected(spec, chosen, indexes, case['full'], case['by']), case['full'], 'rows')
    if spec['form'] == 'list':
        names = ['value'] if len(chosen) == 1 else ['value {}'.format(x) for x in chosen]
    else:
        names = chosen
    check_eq(first['options']['labels'], ['Timestamp'] + names + indexes, 'labels')
    check_eq(bool(first['options'].get('customBars')), bool(case['by']), 'bars for the groups')
    check_eq(first['options'].get('sigFigs'), 6 if case['full'] else None, 'significant figures in the legend')
    check_eq(first['options']['stepPlot'], spec['kind'] == 'slots', 'steps for slots')
    check_eq(first['options']['labelsUTC'], True, 'times shown as they are given')
    check_eq(first['options']['showRangeSelector'], case['mini'] is not False, 'range selector')
    check_eq(len(first['options']['colors']), len(chosen), 'colors')
    check(first['options']['labelsDiv'] in first['ids'], 'place for the legend')
    check_eq(first['library'], case['where'] == 'file', 'saved pages stand alone')
    for name in indexes:
        check_eq(first['options']['series'][name]['axis'], 'y2', 'indexes have an axis on their own')
    if spec['form'] == 'dict':
        for name in chosen:
            check(first['options']['series'][name].get('axis') != 'y2', 'data does not')
    low, high = first['options']['valueRange']
    if case['range']:
        least, most = case['range']
    else:
        least, most = min(shown_values), max(shown_values)
        if 'height' in kwargs:
            most = case['height']
    check(low < high and low <= least and high >= most, 'range of the values', got=[low, high], values=[least, most])
    around = 0.11 * (most - least) + 0.02 * max(abs(least), abs(most)) + (2 if least == most else 0)
    check(low >= least - around and high <= most + around, 'range of the values, not too wide', got=[low, high], values=[least, most])
    if case['color'] and len(chosen) == 1:
        check_eq(first['options']['colors'], [case['color']], 'color')
    else:
        check_eq(len(set(first['options']['colors'])), len(chosen), 'different colors')
    if not case['minimal']:
        check('#{} {}'.format(n, spec['kind']) in first['idle'], 'legend', got=first['idle'][:200])
        check(spec['tz'] in first['over'], 'time zone in the legend', got=first['over'][:200])
    check('WHEN' in first['over'], 'time in the legend')
    check_eq('>&nbsp;{}&nbsp;<'.format(case['marked'] or 'mark') in first['idle'], bool(case['mark']), 'mark in the legend', idle=first['idle'][-200:])
    for name in names + indexes:
        check(name in first['idle'] and name in first['over'], 'labels in the legend')
    check_eq('A title' in page, case['title'], 'title')
    if case['mark']:
        start, end = clock(spec['ts'][i], spec['tz']), clock(spec['ts'][j], spec['tz'])
        check_eq(len(first['marks']['drawn']), 1, 'mark')
        if case['mark_color']:
            check_eq(first['marks']['color'], case['mark_color'], 'color of the mark')
        check_close(first['marks']['asked'][0], start, 'start of the mark', 1e-12, 1)
        check_close(first['marks']['asked'][1], end, 'end of the mark', 1e-12, 1)
        check_close(first['marks']['drawn'][0][2], end - start, 'width of the mark', 1e-12, 2)
    else:
        check(first['marks'] is None, 'no mark')
    k = 1
    if case['by'] and case['never']:
        same_rows(got[k]['rows'], expected(spec, chosen, indexes, case['full'], None), case['full'], 'rows, asking not to aggregate')
        check(not got[k]['options'].get('customBars'), 'no bars')
        k += 1
    if case['view'] and n > 1:
        part = zoo.cut(spec, 0, n - 1)
        same_rows([[cell for cell in row[:1 + len(chosen)]] for row in got[k]['rows']], expected(part, chosen, [], case['full'], case['by']), case['full'], 'rows of a view')


@sub('C28', 'automatic', lambda: st.fixed_dictionaries({'threshold': st.integers(3, 8), 'n': st.integers(1, 120), 'never': st.booleans(), 'slots': st.booleans()}),
     'series longer than the threshold (lowered for the check) are aggregated by ten for each order of magnitude above it, unless asked not to; non-trivial = longer than the threshold', quick=60)
def automatic(case, ctx):
    from timeseria import plots
    n, threshold = case['n'], case['threshold']
    ctx.nontrivial(n > threshold)
    spec = {'kind': 'slots' if case['slots'] else 'points', 'form': 'dict', 'labels': ['a'], 'tz': 'UTC', 'ts': [60 * i for i in range(n)], 'unit': '1m', 'data': [[i % 7] for i in range(n)]}
    by = None
    if n > threshold and not case['never']:
        by = 10
        while n // threshold >= by:
            by *= 10
    series = gen.build(spec)
    old = plots.AGGREGATE_THRESHOLD
    plots.AGGREGATE_THRESHOLD = threshold
    try:
        page = series.plot(html=True, **({'aggregate': False} if case['never'] else {}))
    finally:
        plots.AGGREGATE_THRESHOLD = old
    if by and n < by:
        return
    got = shown(page)[0]
    same_rows(got['rows'], expected(spec, ['a'], [], False, by), False, 'rows')
    check_eq(bool(got['options'].get('customBars')), bool(by), 'bars for the groups')


@sub('C28', 'refusals', lambda: st.fixed_dictionaries({'spec': gen.series_specs(1, 6)}),
     'unknown labels, indexes and engines, empty series and options which cannot be together are refused; non-trivial = every case', quick=60)
def refusals(case, ctx):
    from timeseria.datastructures import TimeSeries
    ctx.nontrivial()
    series = gen.build(case['spec'])
    before = gen.snapshot(series)
    check(raises(lambda: TimeSeries().plot(html=True)) is not None, 'empty series')
    for kwargs, error in (({'data_labels': ['missing']}, ValueError), ({'data_labels': 'a'}, TypeError), ({'data_labels': [1]}, TypeError), ({'data_indexes': ['missing']}, ValueError), ({'data_indexes': 'missing'}, TypeError),
                          ({'image': True}, ValueError), ({'save_to': os.path.join(os.environ['VERIF_SCRATCH'], 'never.html')}, ValueError), ({'mark': [1, 2]}, None)):
        check(raises(lambda: series.plot(html=True, **kwargs), error) if error else raises(lambda: series.plot(html=True, **kwargs)) is not None, 'refused', options=kwargs)
    check(raises(lambda: series.plot(engine='unknown'), ValueError) is not None, 'unknown engines')
    check(not os.path.exists(os.path.join(os.environ['VERIF_SCRATCH'], 'never.html')), 'nothing is written')
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')


@sub('C28', 'matplotlib', lambda: st.fixed_dictionaries({'spec': gen.series_specs(1, 10, none_indexes=False)}),
     'points and slots plotted with Matplotlib: one line for each label (and for the data losses, if any) with one dot per item, at its instant and with its value, and the series is left as it was; non-trivial = at least two items', quick=120)
def with_matplotlib(case, ctx):
    from matplotlib import pyplot, dates
    spec = case['spec']
    ctx.nontrivial(len(spec['ts']) > 1)
    series = gen.build(spec)
    before = gen.snapshot(series)
    pyplot.close('all')
    try:
        check(series.plot(engine='mp') is None, 'nothing is given back')
        lines = pyplot.gca().get_lines()
        want = [[gen.by_label(spec, i, label) for i in range(len(spec['ts']))] for label in gen.label_names(spec)]
        marks = [x.get('data_loss') for x in spec.get('indexes') or []]
        if any(x is not None for x in marks):
            want.append(marks)
        check_eq(len(lines), len(want), 'number of lines')
        for line, values in zip(lines, want):
            check_eq(len(line.get_xdata()), len(spec['ts']), 'number of dots')
            for x, y, t, v in zip(dates.num2date(line.get_xdata(orig=False)), line.get_ydata(), spec['ts'], values):
                check_close(x.timestamp(), t, 'instant of a dot', 0, 2e-5)
                check((v is None and (y is None or y != y)) or close(y, v), 'value of a dot', got=y, want=v)
    finally:
        pyplot.close('all')
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')
