"""C10 - filtering, selecting, renaming and removing labels and indexes."""
from hypothesis import strategies as st

from harness import gen
from harness.core import sub, check, check_eq, raises, fail

POOL = ['a', 'b', 'c', 'x y', 'data_loss']


def steps():
    # A number stands for one of the current labels
    label = st.one_of(st.integers(0, 2), st.integers(0, 2), st.sampled_from(POOL))
    return st.lists(st.one_of(
        st.tuples(st.just('rename'), label, st.sampled_from(POOL)), st.tuples(st.just('rename'), label, st.sampled_from(POOL)), st.tuples(st.just('remove_label'), label),
        st.tuples(st.just('remove_index'), st.sampled_from(gen.INDEX_NAMES)), st.tuples(st.just('remove_loss')),
        st.tuples(st.just('filter'), st.lists(label, min_size=1, max_size=3)), st.tuples(st.just('getitem'), label),
        st.tuples(st.just('pop'), st.sampled_from([0, None])), st.tuples(st.just('append')), st.tuples(st.just('append_wrong')), st.tuples(st.just('duplicate'))),
        min_size=2, max_size=12).map(lambda l: [list(x) for x in l])


def resolve(x, labels):
    return labels[x % len(labels)] if isinstance(x, int) else x


def cases():
    return st.fixed_dictionaries({'spec': gen.series_specs(min_n=2, max_n=6, forms=('dict',), value=gen.int_values(), pool=POOL, steps=[60]), 'steps': steps()})


@sub('C10', 'histories', cases,
     'histories of renaming and removing labels and indexes, filtering (also with square brackets), duplicating and editing, over points and slots, compared after each step with plain '
     'dictionaries going through the same; non-trivial = at least one rename or removal and one filter or edit were effective', quick=2000, shards=2)
def histories(case, ctx):
    from timeseria.datastructures import DataTimePoint, DataTimeSlot
    spec = case['spec']
    n = len(spec['ts'])
    series = gen.build(spec)
    model = [{'t': spec['ts'][i], 'data': gen.make_data(spec, spec['data'][i]), 'indexes': dict(spec['indexes'][i]) if spec.get('indexes') else {}} for i in range(n)]
    renamed = other = 0
    for step in case['steps']:
        labels = sorted(model[0]['data'])
        op = step[0]
        step = [[resolve(x, labels) for x in arg] if isinstance(arg, list) else (resolve(arg, labels) if op in ('rename', 'remove_label', 'getitem') else arg) for arg in step]
        source, source_before = series, gen.snapshot(series)
        if op == 'rename':
            old, new = step[1:]
            if old not in labels:
                check(raises(lambda: series.rename_data_label(old, new), KeyError) is not None, 'renaming an unknown label is refused')
            elif new in labels and new != old:
                continue
            else:
                series.rename_data_label(old, new)
                for m in model:
                    m['data'][new] = m['data'].pop(old)
                renamed += old != new
        elif op == 'remove_label':
            if labels == [step[1]]:
                continue
            series.remove_data_label(step[1])
            for m in model:
                m['data'].pop(step[1], None)
            renamed += step[1] in labels
        elif op in ('remove_index', 'remove_loss'):
            name = step[1] if op == 'remove_index' else 'data_loss'
            series.remove_data_index(name) if op == 'remove_index' else series.remove_data_loss()
            for m in model:
                m['indexes'].pop(name, None)
        elif op in ('filter', 'getitem'):
            wanted = list(dict.fromkeys(step[1])) if op == 'filter' else [step[1]]
            if not set(wanted) <= set(labels):
                check(raises(lambda: series.filter(*wanted), KeyError) is not None, 'filtering on an unknown label is refused')
                continue
            series = series.filter(*wanted) if op == 'filter' else series[step[1]]
            check_eq(type(series).__name__, 'TimeSeries', 'filtering gives a series')
            model = [{'t': m['t'], 'data': {l: m['data'][l] for l in wanted}, 'indexes': dict(m['indexes'])} for m in model]
            # The source is not affected, neither now...
            check_eq(gen.snapshot(source), source_before, 'filtering does not change the series')
            # ...nor by what happens to the result
            probe = source.filter(*wanted)
            probe[0].data[wanted[0]] = 12345
            probe[0].data_indexes['probe'] = 1
            probe.rename_data_label(wanted[0], 'renamed')
            probe.change_tz('Asia/Tokyo')
            check_eq(gen.snapshot(source), source_before, 'a filtered series is independent from its source')
            other += 1
        elif op == 'pop':
            if len(model) <= 1:
                continue
            series.pop() if step[1] is None else series.pop(0)
            model.pop() if step[1] is None else model.pop(0)
            other += 1
        elif op in ('append', 'append_wrong'):
            last = series[-1]
            data = {l: 7 for l in labels}
            if op == 'append_wrong':
                data['another label'] = 1
            if spec['kind'] == 'points':
                item = DataTimePoint(t=last.t + 60, tz=spec['tz'], data=data)
            else:
                item = DataTimeSlot(start=last.end, unit=last.unit, data=data)
            if op == 'append_wrong':
                check(isinstance(raises(lambda: series.append(item)), ValueError), 'appending an item with other labels is refused')
            else:
                series.append(item)
                model.append({'t': item.t, 'data': dict(data), 'indexes': {}})
            other += 1
        elif op == 'duplicate':
            series = series.duplicate()
            check_eq(gen.snapshot(source), gen.snapshot(series), 'a duplicate is the same')
        # After each step
        check_eq(series.data_labels(), sorted(model[0]['data']), 'labels of the series', step=step)
        check_eq([{'t': x.t, 'data': x.data, 'indexes': x.data_indexes} for x in series], model, 'items of the series', step=step)
        check(all(str(x.tz) == spec['tz'] for x in series), 'time zone of the items')
    ctx.nontrivial(renamed and other)


@st.composite
def select_cases(draw):
    values = draw(st.one_of(st.just([0, 1, 2, -1, 0.5, -2.5, 10.0]), st.lists(st.one_of(st.floats(-1e6, 1e6), st.integers(-10**9, 10**9), st.floats(-1, 1).map(lambda x: x / 1e6)), min_size=1, max_size=4)))
    if draw(st.booleans()):
        # Values which are only just different
        values = values + [v + abs(v) / 10**9 for v in values] + [-v for v in values]
    spec = draw(gen.series_specs(min_n=1, max_n=10, value=st.sampled_from(values), long=240))
    return {'spec': spec, 'label': draw(st.integers(0, 2)), 'value': draw(st.sampled_from(values + [10, 99])), 'format': draw(st.sampled_from(['{}={}', '"{}"={}', '{} = {}', '"{}" = {}']))}


@sub('C10', 'select', select_cases,
     'selecting by equality, of any value: exactly the items having that value, in order, whatever the formatting of the query; unsupported queries are refused; non-trivial = some items match and '
     'some do not', quick=800)
def select(case, ctx):
    spec = case['spec']
    series = gen.build(spec)
    labels = gen.label_names(spec)
    label = labels[case['label'] % len(labels)]
    before = gen.snapshot(series)
    got = series.select(case['format'].format(label, case['value']))
    want = [series[i] for i in range(len(spec['ts'])) if gen.by_label(spec, i, label) == case['value']]
    got = [] if got is None else list(got)
    check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'the selected items are those with the value', got=[x.t for x in got], want=[x.t for x in want])
    for query in ('"{0}"=1 and "{0}"=2', '"{0}"=1 AND "{0}"=2', '"{0}"=1 or "{0}"=2', '"{0}"=1 OR "{0}"=2', '"{0}">1'):
        check(isinstance(raises(lambda: series.select(query.format(label))), NotImplementedError), 'an unsupported query is refused', query=query)
    check_eq(gen.snapshot(series), before, 'selecting does not change the series')
    ctx.nontrivial(0 < len(want) < len(spec['ts']))
