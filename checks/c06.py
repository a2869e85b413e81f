"""C06 - scalar operations agree with their definition."""
import math

from hypothesis import strategies as st

from harness import gen
from harness.core import sub, check, check_eq, check_close, raises, fail


@st.composite
def cases(draw):
    value = draw(st.sampled_from([gen.values(), gen.int_values(), gen.values(-1, 1), st.sampled_from([-5, -5.0, 0, -0.5]),
                                  st.floats(-1e9, 1e9, allow_nan=False)]))
    spec = draw(gen.series_specs(min_n=1, max_n=draw(st.sampled_from([2, 6, 14])), value=value, long=240))
    n = len(spec['ts'])
    lo = draw(st.integers(0, n - 1))
    return {'spec': spec, 'view': draw(st.one_of(st.none(), st.just([lo, draw(st.integers(lo + 1, n))]))),
            'label': draw(st.integers(0, 2)), 'generic': draw(st.booleans())}


def _series(case):
    """The series under test and the positions of its items in the spec."""
    from timeseria.datastructures import Series, DataPoint
    spec = case['spec']
    n = len(spec['ts'])
    if case['generic'] and spec['kind'] == 'points':
        series = Series()
        for i in range(n):
            series.append(DataPoint(spec['ts'][i], data=gen.make_data(spec, spec['data'][i])))
        return series, range(n)
    series = gen.build(spec)
    if case['view'] is not None:
        return series.view(*case['view']), range(*case['view'])
    return series, range(n)


@sub('C06', 'scalars', cases,
     'min, max, sum and avg of a series (of points or slots, temporal or generic, or a view), for all its labels at once or for one, as methods and as '
     'functions, compared with the values they are defined over; non-trivial = at least two distinct values for a label, on three items', quick=2500, shards=2)
def scalars(case, ctx):
    from timeseria import operations as ops
    spec = case['spec']
    series, positions = _series(case)
    labels = gen.label_names(spec)
    columns = {label: [gen.by_label(spec, i, label) for i in positions] for label in labels}
    before = [gen.snapshot_item(item) for item in series] if hasattr(series[0], 't') else None
    label = labels[case['label'] % len(labels)]
    want = {'min': min, 'max': max, 'sum': math.fsum, 'avg': lambda c: math.fsum(c) / len(c)}
    ctx.nontrivial(len(positions) >= 3 and any(len(set(c)) > 1 for c in columns.values()))
    ctx.label('view', case['view'] is not None)
    for name, reference in want.items():
        for how in ('method', 'function'):
            call = (lambda **kw: getattr(series, name)(**kw)) if how == 'method' else (lambda **kw: getattr(ops, name)(series, **kw))
            got = call()
            check_eq(sorted(got), sorted(labels), '{} gives one value per label'.format(name))
            for l in labels:
                scale = max(abs(v) for v in columns[l]) * len(columns[l])
                check_close(got[l], reference(columns[l]), '{} of the series ({})'.format(name, how), abs_=1e-12 * scale + 1e-300, label=l)
            one = call(data_label=label)
            check_eq(one, got[label], '{} of one label is the same as in the {} of all labels'.format(name, name))
            check(raises(lambda: call(data_label='no such label'), KeyError), '{} of an unknown label is refused'.format(name))
    for l in labels:
        lo, hi, avg = series.min(l), series.max(l), series.avg(l)
        slack = 1e-12 * (abs(lo) + abs(hi))
        check(lo - slack <= avg <= hi + slack, 'the average lies between minimum and maximum', label=l, min=lo, avg=avg, max=hi)
    if before is not None:
        check_eq([gen.snapshot_item(item) for item in series], before, 'scalar operations do not change the series')


def refusal_cases():
    return st.fixed_dictionaries({'op': st.sampled_from(['min', 'max', 'sum', 'avg']), 'what': st.sampled_from(
        ['empty', 'empty time', 'no data', 'scalar data', 'not a series', 'list of empty series']), 'n': st.integers(1, 4), 'method': st.booleans()})


@sub('C06', 'refusals', refusal_cases,
     'scalar operations on what they cannot work on: no items, no data, data which is not indexed, not a series; non-trivial = every case', quick=120)
def refusals(case, ctx):
    from timeseria import operations as ops
    from timeseria.datastructures import Series, TimeSeries, TimePoint, DataTimePoint
    ctx.nontrivial()
    what = case['what']
    if what == 'empty':
        series = Series()
    elif what == 'empty time':
        series = TimeSeries()
    elif what == 'no data':
        series = TimeSeries(*[TimePoint(t=60 * i) for i in range(case['n'])])
    elif what == 'scalar data':
        series = TimeSeries(*[DataTimePoint(t=60 * i, data=float(i)) for i in range(case['n'])])
    elif what == 'not a series':
        series = 5
    else:
        series = [TimeSeries()]
    if case['method'] and isinstance(series, Series):
        got = raises(lambda: getattr(series, case['op'])())
    else:
        got = raises(lambda: getattr(ops, case['op'])(series))
    check(isinstance(got, (ValueError, TypeError)), 'an operation on "{}" is refused'.format(what), got=got)
