"""C26 - interpolators."""
from hypothesis import strategies as st

from harness import gen
from harness.core import sub, check, check_eq, check_close, raises, fail


@st.composite
def cases(draw):
    return {'spec': draw(gen.series_specs(min_n=2, max_n=8, long=300, kinds=('points',), value=st.integers(-400, 400).map(lambda i: i / 4), t0s=st.sampled_from([0, -100, 1325376000]))),
            'i': draw(st.integers(0, 6)), 'j': draw(st.integers(1, 7)), 'frac': draw(st.sampled_from([0, 0.25, 0.5, 0.75, 0.125, 0.9375])), 'outside': draw(st.sampled_from([-1000.5, -1, -0.25, 0, 0.25, 1000]))}


@sub('C26', 'interpolators', cases,
     'linear and uniform interpolation at an instant within a series (of any spacing, labels, form), with the neighbouring items looked up or given (also non-adjacent), compared with the '
     'definition, and refused outside; non-trivial = the neighbours differ', quick=2000, shards=2)
def interpolators(case, ctx):
    from timeseria.interpolators import LinearInterpolator, UniformInterpolator
    spec = case['spec']
    ts = spec['ts']
    n = len(ts)
    labels = gen.label_names(spec)
    series = gen.build(spec)
    before = gen.snapshot(series)
    i = case['i'] % (n - 1)
    j = i + 1 + case['j'] % (n - 1 - i)
    at = ts[i] + (ts[i + 1] - ts[i]) * case['frac']

    def get(data, l):
        return data[l] if isinstance(data, dict) else data[int(l)]

    for how, cls in (('linear', LinearInterpolator), ('uniform', UniformInterpolator)):
        interpolator = cls(series)
        for a, b, kwargs in ((i, i + 1, {}), (i, i + 1, {'prev_i': i, 'next_i': i + 1}), (i, j, {'prev_i': i, 'next_i': j})):
            if case['frac'] == 0 and (kwargs or how == 'uniform'):
                continue
            got = interpolator.evaluate(at, **kwargs)
            check(type(got) is (dict if spec['form'] == 'dict' else list) and len(got) == len(labels), 'interpolation gives all the labels, in the same form', got=got)
            for l in labels:
                va, vb = gen.by_label(spec, a, l), gen.by_label(spec, b, l)
                want = va + (vb - va) * (at - ts[a]) / (ts[b] - ts[a]) if how == 'linear' else (va + vb) / 2
                check_close(get(got, l), want, '{} interpolation'.format(how), abs_=1e-7, at=at, given=bool(kwargs))
                check(min(va, vb) - 1e-7 <= get(got, l) <= max(va, vb) + 1e-7, 'an interpolated value is within those it is interpolated from')
        # Outside
        outside = (ts[0] + case['outside']) if case['outside'] < 0 else (ts[-1] + case['outside'])
        check(isinstance(raises(lambda: interpolator.evaluate(outside)), ValueError), 'interpolating outside the series is refused ({})'.format(how), at=outside)
        check(isinstance(raises(lambda: interpolator.evaluate(outside, prev_i=0, next_i=n - 1)), ValueError), 'interpolating outside the given items is refused ({})'.format(how), at=outside)
        for kwargs in ({'prev_i': i}, {'next_i': i + 1}):
            check(isinstance(raises(lambda: interpolator.evaluate(at, **kwargs)), ValueError), 'giving only one of the items is refused ({})'.format(how))
    check_eq(gen.snapshot(series), before, 'interpolating does not change the series')
    ctx.nontrivial(any(gen.by_label(spec, i, l) != gen.by_label(spec, i + 1, l) for l in labels) and case['frac'])
    ctx.label('list', spec['form'] == 'list')
