"""C15 - reading CSV files written by others."""
import datetime as _dt
import os
import random
import tempfile

import pytz
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import sub, check, check_eq, check_close, raises, fail

STEPS = [1, 60, 600, 900, 3600]
LAYOUTS = ['epoch', 'epoch float', 'iso Z', 'iso offset', 'iso naive', 'iso space', 'iso micro', 'custom', 'custom minutes', 'split', 'split']
BAD = ['na', 'text', 'empty', 'short', 'timestamp', 'duplicate', 'earlier']
PLACEHOLDERS = ['na', 'NaN', 'null', 'ND', 'N.A.', 'undef', 'nan', 'Null']


@st.composite
def cases(draw):
    n = draw(st.integers(1, 12))
    step = draw(st.sampled_from(STEPS))
    t = draw(st.one_of(st.sampled_from([1546300800, 1553990400 - 7200, 1572134400, 1577836800 - 1800, 0, 946684800]), st.integers(0, 1600000000),
                       st.tuples(st.sampled_from([1999, 2004, 2019, 2021]), st.sampled_from(range(1, 13)), st.sampled_from([1, 9, 15, 28, 29]), st.sampled_from([-6, -5, -2, -1, 0, 0, 12, 23]),
                                 st.sampled_from([0, 1, 30, 45])).map(lambda x: int(_dt.datetime(x[0], x[1], min(x[2], 28), tzinfo=pytz.utc).timestamp()) + x[3] * 3600 + x[4] * 60)))
    ts = [t]
    shape = draw(st.sampled_from(['regular', 'holes', 'irregular']))
    for _ in range(n - 1):
        ts.append(ts[-1] + (step if shape == 'regular' else step * draw(st.sampled_from([1, 1, 1, 2, 5])) if shape == 'holes' else draw(st.integers(1, 2 * step + 5))))
    layout = draw(st.sampled_from(LAYOUTS))
    labels = draw(gen.labels_lists(1, 3, pool=['flow', 'temp', 'C', 'x y', 'Na', 'RH (pct)', 'epoch time']))
    header = draw(st.booleans())
    rows = []
    for t in ts:
        rows.append({'t': t, 'values': [draw(st.sampled_from([0, 1, -2.5, 10.125, 1000, 3e-5, -7])) for _ in labels]})
    # Rows which are not good (never the first one: without labels, it is what the columns are detected from)
    bad = draw(st.lists(st.tuples(st.integers(1, n), st.sampled_from(BAD), st.sampled_from(PLACEHOLDERS), st.integers(0, len(labels) - 1)), max_size=3)) if draw(st.booleans()) else []
    return {'rows': rows, 'labels': labels, 'layout': layout, 'header': header, 'bad': [list(b) for b in bad], 'tz': draw(st.sampled_from(gen.TZS)), 'explicit': draw(st.booleans()),
            'first': draw(st.booleans()), 'name': draw(st.sampled_from(['timestamp', 'epoch', 'When'])), 'by_number': draw(st.booleans()),
            'separator': draw(st.sampled_from([',', ',', ';', '\t', '|'])), 'decimal_comma': draw(st.booleans()), 'quotes': draw(st.sampled_from(['', '', '"', "'"])),
            'noise': draw(st.lists(st.sampled_from(['# a comment, with separators; | \t of any kind', '', ';a comment', 'a preamble']), max_size=3)), 'noise_at': draw(st.integers(0, 12)),
            'newline': draw(st.sampled_from(['\n', '\n', '\r\n'])), 'last_newline': draw(st.booleans()), 'trailing': draw(st.integers(0, 5)) == 0, 'junk': draw(st.booleans()),
            'skip_errors': draw(st.booleans()) or draw(st.booleans()), 'sort': draw(st.sampled_from([None, None, 1, 2, 3])), 'limit': draw(st.sampled_from([None, None, None, 1, 3])),
            'select': draw(st.sampled_from([None, None, 'names', 'numbers', 'filter'])), 'type': draw(st.sampled_from(['auto', 'points'])), 'force_tz': draw(st.sampled_from([None, None, 'Asia/Kolkata']))}


def stamp(t, layout, tz):
    """A timestamp as text, or as a list of date and time."""
    local = gen.local_dt(t, tz)
    if layout == 'epoch':
        return str(t)
    if layout == 'epoch float':
        return '{}.0'.format(t)
    if layout == 'iso Z':
        return gen.local_dt(t, 'UTC').strftime('%Y-%m-%dT%H:%M:%SZ')
    if layout == 'iso micro':
        return gen.local_dt(t, 'UTC').strftime('%Y-%m-%dT%H:%M:%S.000000Z')
    if layout == 'iso offset':
        text = local.strftime('%Y-%m-%dT%H:%M:%S%z')
        return text[:-2] + ':' + text[-2:]
    if layout == 'iso naive':
        return local.strftime('%Y-%m-%dT%H:%M:%S')
    if layout == 'iso space':
        return local.strftime('%Y-%m-%d %H:%M:%S')
    if layout in ('custom', 'custom minutes'):
        return local.strftime('%d/%m/%Y %H:%M:%S')
    return [local.strftime('%d/%m/%y'), local.strftime('%H.%M.%S')]


NAIVE = ('iso naive', 'iso space', 'custom', 'custom minutes', 'split')


def expressible(t, tz):
    """Whether the instant has its own wall clock time."""
    local = gen.local_dt(t, tz)
    naive = local.replace(tzinfo=None)
    zone = pytz.timezone(tz)
    try:
        return zone.localize(naive, is_dst=None) == local
    except (pytz.AmbiguousTimeError, pytz.NonExistentTimeError):
        return False


@sub('C15', 'parsing', cases,
     'CSV files with any column layout (timestamps as epochs, ISO 8601, custom formats, separate date and time, in any column), separators, quotes, decimal commas, comments, preambles, line ends, with '
     'or without labels, wrong rows (missing or non-numerical values, short rows, wrong, duplicated or out of order timestamps), read with any of the options: exactly the good rows are '
     'loaded, or an error is raised if wrong rows are not to be skipped; non-trivial = at least three rows, and something unusual', quick=2500, shards=4)
def parsing(case, ctx):
    from timeseria.storages import CSVFileStorage
    from timeseria.datastructures import DataTimePoint
    from timeseria.exceptions import NoDataException
    layout, labels, sep, quote = case['layout'], case['labels'], case['separator'], case['quotes']
    # Where naive timestamps are: on the time zone they are read with
    tz = case['force_tz'] or case['tz']
    rows = [dict(row) for row in case['rows']]
    if layout in NAIVE:
        rows = [row for row in rows if expressible(row['t'], tz)]
    if not rows:
        return
    # The columns
    split = layout == 'split'
    stamp_names = ['Date', 'Time'] if split else [case['name']]
    junk = ['Notes'] if case['junk'] and case['header'] and case['select'] in ('names', 'numbers', 'filter') else []
    findable = split or case['explicit'] or (case['header'] and case['name'] in ('timestamp', 'epoch'))
    first = case['first'] or not findable
    columns = stamp_names + junk + labels if first else labels[:1] + stamp_names + junk + labels[1:]

    def number(v):
        text = repr(v)
        return text.replace('.', ',') if case['decimal_comma'] and sep != ',' else text

    def line(row):
        stamps = stamp(row['t'], layout, tz)
        stamps = stamps if split else [stamps]
        values = [number(v) for v in row['values']]
        for kind, what, at in row.get('bad', []):
            if kind == 'na':
                values[at] = what
            elif kind == 'text':
                values[at] = 'broken'
            elif kind == 'empty':
                values[at] = ''
            elif kind == 'timestamp':
                stamps = ['yesterday'] * len(stamps)
        cells = dict(zip(stamp_names, stamps))
        cells.update(zip(labels, values))
        cells['Notes'] = 'some text'
        out = ['{0}{1}{0}'.format(quote, cells[c]) for c in columns]
        if any(kind == 'short' for kind, _, _ in row.get('bad', [])):
            out = out[:max(2, len(out) - 1)] if len(out) > 2 else out
            row['bad'] = [b for b in row['bad'] if b[0] != 'short'] + ([['short', None, None]] if len(columns) > 2 else [])
        return sep.join(out) + (sep if case['trailing'] else '')

    # Put in the rows which are not good
    index_of = []
    for at, kind, what, column in case['bad']:
        if at >= len(rows):
            continue
        if kind == 'duplicate':
            rows.insert(at, {'t': rows[at - 1]['t'], 'values': [5 for _ in labels]})
        elif kind == 'earlier':
            t = rows[0]['t'] - 86400 * 7
            if layout in NAIVE and not expressible(t, tz):
                continue
            rows.insert(at, {'t': t, 'values': [6 for _ in labels]})
        else:
            rows[at] = dict(rows[at], bad=rows[at].get('bad', []) + [[kind, what, column]])
    if case['sort'] is not None:
        head, tail = rows[:1], rows[1:]
        random.Random(case['sort']).shuffle(tail)
        rows = head + tail
    text = [line(row) for row in rows]
    if any(t.startswith(('#', ';')) for t in text):
        return
    if case['header']:
        text.insert(0, sep.join('{0}{1}{0}'.format(quote, c) for c in columns) + (sep if case['trailing'] else ''))
    noise = [x for x in case['noise'] if sep not in x or x.startswith(('#', ';'))]
    at = min(case['noise_at'], len(text))
    text[at:at] = noise
    content = case['newline'].join(text) + (case['newline'] if case['last_newline'] else '')

    # What is asked
    kwargs = {'tz': case['tz'], 'separator': sep, 'skip_errors': case['skip_errors'], 'silence_errors': True, 'sort': case['sort'] is not None, 'series_type': case['type']}
    by_number = case['by_number'] or not case['header']
    if split:
        kwargs.update(date_column=columns.index('Date') if by_number else 'Date', date_format='%d/%m/%y', time_column=columns.index('Time') if by_number else 'Time', time_format='%H.%M.%S')
    else:
        if case['explicit'] or not (first or findable):
            kwargs['timestamp_column'] = columns.index(case['name']) if case['by_number'] or not case['header'] else case['name']
        if layout in ('custom', 'custom minutes'):
            kwargs['timestamp_format'] = '%d/%m/%Y %H:%M:%S'
        elif case['explicit']:
            kwargs['timestamp_format'] = 'epoch' if layout.startswith('epoch') else 'iso8601'
    get = {}
    select = case['select']
    wanted = list(labels)
    as_list = not case['header']
    if select == 'names' and case['header']:
        wanted = labels[-2:][::-1]
        kwargs['data_labels'] = list(wanted)
    elif select == 'numbers':
        wanted = labels[-2:][::-1] if case['explicit'] else labels[:1]
        kwargs['data_labels'] = [columns.index(l) for l in wanted]
        as_list = True
    elif select == 'filter' and case['header']:
        wanted = labels[-1:]
        if case['explicit']:
            # What is asked when getting the series comes first
            kwargs['data_labels'] = list(labels)
        get['filter_data_labels'] = list(wanted)
    if case['limit'] is not None:
        get['limit'] = case['limit']
    if case['force_tz']:
        get['force_tz'] = case['force_tz']

    # What is expected
    def is_bad(row):
        for kind, what, at in row.get('bad', []):
            if kind in ('na', 'text', 'empty'):
                if labels[at] in wanted:
                    return True
            elif kind == 'timestamp':
                return True
            elif kind == 'short' and not case['trailing']:
                if columns[-1] in wanted or columns[-1] in stamp_names:
                    return True
            elif kind == 'short':
                # (with the trailing separator, the last value is there but empty)
                if columns[-1] in wanted or columns[-1] in stamp_names:
                    return True
        return False

    errors = any(is_bad(row) for row in rows)
    good = []
    for row in rows:
        if is_bad(row):
            if not case['skip_errors']:
                break
            continue
        good.append(row)
        if case['limit'] is not None and len(good) >= case['limit']:
            break
    if not case['skip_errors']:
        reached = rows[:rows.index(good[-1]) + 1] if good and case['limit'] is not None and len(good) >= case['limit'] else rows
        errors = any(is_bad(row) for row in reached)
    if case['sort'] is not None:
        good = sorted(good, key=lambda row: row['t'])
    accepted = []
    for row in good:
        if accepted and row['t'] <= accepted[-1]['t']:
            errors = True
            continue
        accepted.append(row)

    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'file.csv')
        with open(path, 'wb') as f:
            f.write(content.encode('utf-8'))
        storage = CSVFileStorage(path, **kwargs)
        unusual = case['bad'] or case['noise'] or not first or split or sep != ',' or quote or case['sort'] or select
        ctx.nontrivial(len(rows) >= 3 and unusual)
        ctx.label('errors', errors)
        ctx.label('skipped', errors and case['skip_errors'])
        ctx.label('headerless', not case['header'])
        if errors and not case['skip_errors']:
            check(raises(lambda: storage.get(**get)) is not None, 'wrong rows raise an error, when they are not to be skipped', content=content)
            return
        if not accepted:
            check(isinstance(raises(lambda: storage.get(**get)), NoDataException), 'a file with no good rows is refused', content=content)
            return
        for attempt in ('first', 'second'):
            series = storage.get(**get)
            check_eq([item.t for item in series], [row['t'] for row in accepted], 'instants of the items read', content=content, attempt=attempt)
            for item, row in zip(series, accepted):
                check(type(item) is DataTimePoint and str(item.tz) == tz, 'type and time zone of the items read', got=item, tz=tz)
                want = {l: row['values'][labels.index(l)] for l in wanted}
                if as_list:
                    order = [c for c in columns if c in wanted] if select != 'numbers' else wanted
                    check_eq(item.data, [want[l] for l in order], 'data of the items read', content=content)
                else:
                    check_eq(item.data, want, 'data of the items read', content=content)
                check_eq(item.data_indexes, {}, 'no data indexes')


@st.composite
def slot_cases(draw):
    unit = draw(st.sampled_from(['1D', '1D', '1M', '1Y', '1h', '10m', '15m', '30m', '5m', '1m', '10s']))
    n = draw(st.one_of(st.just(2), st.integers(2, 14), st.integers(2, 14), st.integers(2, 14)))
    tz = draw(st.sampled_from(gen.TZS))
    labels = draw(gen.labels_lists(1, 2, pool=['flow', 'temp']))
    missing = draw(st.lists(st.integers(1, n - 2), max_size=3, unique=True)) if n > 2 else []
    return {'unit': unit, 'n': n, 'tz': tz, 'labels': labels, 'missing': sorted(missing), 'header': draw(st.booleans()), 'start': draw(st.sampled_from([[2019, 1], [2019, 3], [2019, 10], [2020, 2], [2019, 2], [2000, 6]])), 'day': draw(st.sampled_from([25, 25, 27, 31])),
            'format': draw(st.sampled_from(['epoch', 'iso', 'date'])), 'forced': draw(st.sampled_from([None, None, 'type', 'get', 'unit'])), 'indexes': draw(st.booleans()),
            'bad': [list(x) for x in draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(['duplicate', 'earlier', 'within', 'na'])), max_size=2))] if draw(st.integers(0, 2)) == 0 else [], 'skip_errors': draw(st.integers(0, 3)) > 0,
            'values': [[draw(st.sampled_from([0, 1, -2.5, 10, 64])) for _ in labels] for _ in range(n)]}


@sub('C15', 'slots', slot_cases,
     'CSV files with daily, monthly, yearly (and of less than a day, when slots are asked for) data, over DST changes, with missing rows: slots of the right unit, missing ones with interpolated values and a data loss of one; '
     'rows which are wrong, duplicated, out of order or within a slot are skipped if asked to, and otherwise refused; '
     'non-trivial = at least four rows', quick=1400, shards=4)
def slots(case, ctx):
    from timeseria.storages import CSVFileStorage
    from timeseria.datastructures import DataTimeSlot
    unit, tz, n, labels = case['unit'], case['tz'], case['n'], case['labels']
    year, month = case['start']
    if unit not in ('1M', '1Y'):
        start = _dt.datetime(year, month, 28 if month == 2 else min(case['day'], 30) if month == 6 else case['day'])
    elif unit == '1M':
        start = _dt.datetime(year, month, 1)
    else:
        start = _dt.datetime(year, 1, 1)
    ts = [refs.localize(start, tz)]
    for _ in range(n):
        ts.append(refs.unit_next(ts[-1], unit, tz))
    missing = case['missing']
    # The unit is detected from the most common interval
    gaps = [b - a for a, b in zip([t for i, t in enumerate(ts[:n]) if i not in missing][:11], [t for i, t in enumerate(ts[:n]) if i not in missing][1:11])]
    best = max(gaps.count(g) for g in gaps)
    modes = {g for g in gaps if gaps.count(g) == best}
    clear = {'1D': {82800, 86400, 90000}, '1M': {86400 * d for d in (28, 29, 30, 31)}, '1Y': {86400 * 365, 86400 * 366}, '1h': {3600}, '10m': {600}, '15m': {900}, '30m': {1800}, '5m': {300}, '1m': {60}, '10s': {10}}[unit]
    forced = case['forced']
    if unit not in ('1D', '1M', '1Y') and forced is None:
        forced = 'type'
    if forced != 'unit' and not modes <= clear:
        forced = 'unit'
    if any(kind == 'within' for _, kind in case['bad']):
        forced = 'unit'
    with_indexes = case['indexes'] and case['header']
    lines = []
    if case['header']:
        lines.append(','.join(['timestamp' if case['format'] != 'date' else 'Day'] + labels + (['__data_loss', '__custom'] if with_indexes else [])))
    kwargs = {'tz': tz}
    fmt = case['format']
    if fmt == 'date' and (unit not in ('1D', '1M', '1Y') or not case['header']):
        fmt = 'epoch'
        lines = [line.replace('Day', 'timestamp') for line in lines]
    row = []
    for i in range(n):
        if i in missing:
            continue
        row.append([ts[i], case['values'][i], i])
        for at, kind in case['bad']:
            if at == i:
                # (days and more may be read from dates only)
                row.append([{'duplicate': ts[i], 'earlier': ts[0] - 86400 * 400 if fmt != 'date' else ts[0], 'within': ts[i] + (60 if unit not in ('1m', '10s') else 5) if fmt != 'date' else ts[i], 'na': ts[i]}[kind], [3] * len(labels) if kind != 'na' else ['na'] * len(labels), i])
    for t, values, i in row:
        local = gen.local_dt(t, tz)
        text = str(int(t)) if fmt == 'epoch' else (local.strftime('%Y-%m-%d') if fmt == 'date' else stamp(int(t), 'iso offset', tz))
        lines.append(','.join([text] + [v if v == 'na' else repr(v) for v in values] + (['0.5', 'None' if i % 2 else '0.25'] if with_indexes else [])))
    if fmt == 'date':
        kwargs.update(date_column='Day', date_format='%Y-%m-%d')
    get = {}
    if forced == 'type':
        kwargs['series_type'] = 'slots'
    elif forced == 'get':
        get['force_slots'] = True
        if n % 2:
            # What is asked when getting the series comes first
            kwargs['series_type'] = 'points'
    elif forced == 'unit':
        get.update(force_slots=True, force_slot_unit=unit)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'file.csv')
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        kwargs.update(skip_errors=case['skip_errors'], silence_errors=True)
        if case['bad'] and not case['skip_errors'] and any(at not in missing for at, _ in case['bad']):
            check(raises(lambda: CSVFileStorage(path, **kwargs).get(**get)) is not None, 'wrong rows raise an error, when they are not to be skipped', lines=lines)
            return
        series = CSVFileStorage(path, **kwargs).get(**get)
    ctx.nontrivial(n >= 4)
    ctx.label('bad', len(case['bad']) > 0)
    ctx.label('missing', bool(missing))
    ctx.label(unit)
    check_eq([(item.start.t, item.end.t) for item in series], list(zip(ts[:n], ts[1:])), 'the slots', unit=unit)
    for i, item in enumerate(series):
        check(type(item) is DataTimeSlot and str(item.tz) == tz and str(item.unit) == unit, 'type, time zone and unit of the slots', got=str(item))
        lost = i in missing
        for k, l in enumerate(labels):
            got = item.data[l] if case['header'] else item.data[k]
            if not lost:
                want = case['values'][i][k]
            else:
                a = max(j for j in range(i) if j not in missing)
                b = min(j for j in range(i + 1, n) if j not in missing)
                va, vb = case['values'][a][k], case['values'][b][k]
                want = va + (vb - va) * (i - a) / (b - a)
            check_close(got, want, 'value of a slot', i=i, missing=lost)
        if lost:
            check_eq(item.data_loss, 1, 'the data loss of a missing slot')
        else:
            want = {'data_loss': 0.5, 'custom': None if i % 2 else 0.25} if with_indexes else {}
            check_eq({k: v for k, v in item.data_indexes.items() if v is not None}, {k: v for k, v in want.items() if v is not None}, 'data indexes of a slot', i=i)
        check_eq(sorted(item.data_labels()), sorted(labels) if case['header'] else [str(k) for k in range(len(labels))], 'labels of a slot')


@sub('C15', 'not_series', lambda: st.fixed_dictionaries({'content': st.sampled_from(['', 'epoch,a\n', '\n\n', '# comment\n', 'a,b\nc,d\n', 'epoch,a\n60,1\n', '60,1\n120,2\n']), 'skip': st.booleans()}),
     'files with nothing to read are refused, and foreign files are not loaded as if they were in the Timeseria format; non-trivial = every case', quick=60)
def not_series(case, ctx):
    from timeseria.datastructures import TimeSeries
    from timeseria.storages import CSVFileStorage
    ctx.nontrivial()
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'file.csv')
        with open(path, 'w') as f:
            f.write(case['content'])
        check(isinstance(raises(lambda: TimeSeries.load(path)), ValueError), 'loading a file which is not in the Timeseria format is refused')
        if '60' not in case['content']:
            check(raises(lambda: CSVFileStorage(path, skip_errors=case['skip']).get()) is not None, 'a file with no data is refused')
        else:
            series = TimeSeries.from_csv(path)
            check_eq([item.t for item in series], [60, 120] if '120' in case['content'] else [60], 'instants')


WRONG = [{'timestamp_column': 1.5}, {'timestamp_column': ['epoch']}, {'time_column': 'a'}, {'date_column': 'a'}, {'time_column': 2.5, 'time_format': '%H'}, {'date_column': 2.5, 'date_format': '%d'}, {'data_labels': 'a'},
         {'timestamp_column': 'epoch', 'time_column': 'a', 'time_format': '%H'}, {'timestamp_column': 'epoch', 'date_column': 'a', 'date_format': '%d'}, {'timestamp_column': None, 'data_labels': []},
         {'timestamp_column': 'nothing like that'}, {'data_labels': ['nothing like that']}, {'series_type': 'lines'}]
WRONG_GET = [{'id': 1}, {'start': 5}, {'end': 5}, {'force_points': True, 'force_slots': True}, {'filter_data_labels': ['nothing like that']}]


@sub('C15', 'options', lambda: st.fixed_dictionaries({
    'labels': gen.labels_lists(1, 3, pool=['flow', 'temp', 'è', 'x y', 'Größe']), 'header': st.booleans(), 'type': st.sampled_from(['auto', 'list', 'dict', 'float']), 'sort': st.sampled_from([None, None, 1, 2, 3]), 'encoding': st.sampled_from(['utf-8', 'utf-16', 'latin-1', 'cp1252']),
    'comment': st.sampled_from([None, '%', '!', '%!']), 'points': st.sampled_from(['type', 'get', 'auto', 'instead']), 'step': st.sampled_from([0.5, 0.25, 1, 60, 86400, 86400, 86400 * 31]), 't0': st.sampled_from([0, 86400 * 365, 1546300800, 1546300800.75]),
    'values': st.lists(st.lists(st.one_of(st.integers(-10**6, 10**6), st.floats(-1e9, 1e9), st.floats(-1, 1)), min_size=3, max_size=3), min_size=1, max_size=8), 'wrong': st.integers(0, 99), 'tz': st.sampled_from(gen.TZS)}),
     'CSV files read with an encoding, a data type, custom comments, asking for points whatever the sampling (and the type set in the storage), sub-second, sorting, and of any values: exactly what is in the file; and arguments which make no sense are refused; '
     'non-trivial = at least two of the options', quick=500)
def options(case, ctx):
    from timeseria.datastructures import DataTimePoint
    from timeseria.storages import CSVFileStorage
    labels, header = case['labels'], case['header']
    lines = ['epoch,' + ','.join(labels)] if header else []
    ts = [case['t0'] + i * case['step'] for i in range(len(case['values']))]
    rows = [row[:len(labels)] for row in case['values']]
    written = list(zip(ts, rows))
    if case['sort']:
        random.Random(case['sort']).shuffle(written)
    for t, row in written:
        lines.append(','.join([repr(t)] + [repr(v) for v in row]))
    kwargs, get = {'tz': case['tz'], 'encoding': case['encoding']}, {}
    if case['comment']:
        kwargs['comment_chars'] = list(case['comment'])
        lines[len(lines) // 2:len(lines) // 2] = [c + 'a, comment' for c in case['comment']]
    kind = case['type'] if case['type'] not in ('dict', 'float') or header else 'auto'
    if kind != 'auto':
        kwargs['data_type'] = {'list': list, 'dict': dict, 'float': float}[kind]
        if kind == 'float':
            chosen = case['wrong'] % len(labels)
            kwargs['data_labels'] = [labels[chosen]]
    if case['points'] == 'type' or (case['points'] == 'auto' and case['step'] >= 86400):
        kwargs['series_type'] = 'points'
    elif case['points'] == 'get':
        get['force_points'] = True
    elif case['points'] == 'instead':
        # What is asked when getting the series comes first
        kwargs['series_type'] = 'slots'
        get['force_points'] = True
    if case['sort']:
        kwargs['sort'] = True
    ctx.nontrivial((kind != 'auto') + bool(case['comment']) + (case['points'] != 'auto') + (case['encoding'] != 'utf-8') >= 2)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'file.csv')
        with open(path, 'w', encoding=case['encoding']) as f:
            f.write('\n'.join(lines) + '\n')
        series = CSVFileStorage(path, **kwargs).get(**get)
        check_eq([(type(x).__name__, x.t, str(x.tz)) for x in series], [('DataTimePoint', t, case['tz']) for t in ts], 'points of the file')
        as_list = kind == 'list' or not header
        if kind == 'float':
            check_eq([x.data for x in series], [float(row[chosen]) for row in rows], 'data of the file')
            return
        check_eq([x.data for x in series], [row if as_list else dict(zip(labels, row)) for row in rows], 'data of the file')
        if not header:
            return
        if case['wrong'] % 2:
            wrong = WRONG[case['wrong'] // 2 % len(WRONG)]
            check(raises(lambda: CSVFileStorage(path, **dict(kwargs, **wrong)).get()) is not None, 'arguments which make no sense are refused', wrong=wrong)
        else:
            wrong = WRONG_GET[case['wrong'] // 2 % len(WRONG_GET)]
            check(raises(lambda: CSVFileStorage(path, **kwargs).get(**wrong)) is not None, 'arguments which make no sense are refused', wrong=wrong)
