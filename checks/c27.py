"""C27 - error metrics, rescaling, periodicities, distributions and shell commands."""
import math
import os
import shlex
import tempfile
from fractions import Fraction

from hypothesis import strategies as st

from harness import gen, zoo
from harness.core import sub, check, check_eq, check_close, close, fail, raises, Reject

NAMES = ['mean_absolute_error', 'max_absolute_error', 'mean_squared_error', 'mean_absolute_percentage_error', 'max_absolute_percentage_error', 'mean_absolute_log_error', 'max_absolute_log_error']
VALUES = st.one_of(st.integers(1, 4000).map(lambda i: i / 16), st.integers(1, 10 ** 9).map(lambda i: i / 1000))


def by_definition(name, actual, predicted):
    if 'log' in name:
        errors = [abs(math.log(a) - math.log(p)) for a, p in zip(actual, predicted)]
    else:
        errors = [abs(Fraction(a) - Fraction(p)) / (abs(Fraction(a)) if 'percentage' in name else 1) for a, p in zip(actual, predicted)]
    if 'squared' in name:
        errors = [x * x for x in errors]
    return float(max(errors) if name.startswith('max') else sum(errors) / len(errors))


@sub('C27', 'metrics', lambda: st.fixed_dictionaries({'pairs': st.lists(st.tuples(VALUES, VALUES, st.booleans()).map(list), min_size=1, max_size=12), 'factor': st.sampled_from([1, 2, 0.5, 16]), 'order': st.randoms(use_true_random=False).map(lambda r: r.random())}),
     'all of the error metrics, on any lists of actual and predicted values (also negative ones, where they make sense), against their definition; zero if and only if all predictions are right, the order of the pairs does not matter, actual and predicted values are not '
     'interchangeable for percentage errors, lists of different lengths are refused; non-trivial = at least two different errors', quick=500)
def metrics(case, ctx):
    from timeseria import utilities
    actual = [a for a, p, _ in case['pairs']]
    predicted = [p for a, p, _ in case['pairs']]
    signed = [-a if s else a for a, p, s in case['pairs']]
    opposite = [p if i % 3 else -p for i, p in enumerate(predicted)]
    ctx.nontrivial(len({abs(a - p) for a, p in zip(actual, predicted)}) > 1)
    n = len(actual)
    for name in NAMES:
        metric = getattr(utilities, name)
        x, y = (actual, predicted) if 'log' in name else (signed, opposite)
        want = by_definition(name, x, y)
        got = metric(list(x), list(y))
        check_close(got, want, name, 1e-9, 1e-12)
        check_eq(metric(list(x), list(x)), 0, name + ' of right predictions')
        if any(a != b for a, b in zip(x, y)):
            check(got > 0, name + ' of wrong predictions')
        shift = int(case['order'] * n)
        check_close(metric(x[shift:] + x[:shift], y[shift:] + y[:shift]), want, name + ' in another order', 1e-9, 1e-12)
        factor = case['factor'] if 'absolute_error' in name else case['factor'] ** 2 if 'squared' in name else 1
        check_close(metric([case['factor'] * v for v in x], [case['factor'] * v for v in y]), want * factor, name + ' rescaled', 1e-9, 1e-12)
        check(raises(lambda: metric(x, y + [1]), ValueError) is not None, name + ' of lists of different lengths')


@sub('C27', 'rescaling', lambda: st.fixed_dictionaries({'values': st.lists(st.integers(0, 4000).map(lambda i: i / 16), min_size=5, max_size=5, unique=True), 'ends': st.sampled_from([None, None, 'both', 'zero', 'one']), 'wrong': st.integers(0, 6)}),
     'rescaling of values from an interval to another (also from zero, or up to one): linear, with the ends of the one in the ends of the other, and back; values out of the interval and negative ones are refused; non-trivial = the value is not at one of the ends', quick=400)
def rescaling(case, ctx):
    from timeseria.utilities import rescale
    a, b, value = sorted(case['values'][:2]) + [None]
    value = a + (b - a) * (case['values'][2] / 250)
    if not a <= value <= b:
        raise Reject()
    c, d = sorted(case['values'][3:])
    ctx.nontrivial(a < value < b)
    if case['ends'] == 'zero':
        c = 0
    if case['ends'] == 'one':
        c, d = min(c, 250) / 256, 1
    if case['ends'] == 'both':
        c, d = 0, 1
        check_close(rescale(value, a, b), (value - a) / (b - a), 'rescaled between zero and one', 1e-9, 1e-9)
    got = rescale(value, a, b, c, d)
    check_close(got, c + (value - a) * (d - c) / (b - a), 'rescaled', 1e-9, 1e-9)
    check_close([rescale(a, a, b, c, d), rescale(b, a, b, c, d)][0], c, 'start', 1e-9, 1e-9)
    check_close(rescale(b, a, b, c, d), d, 'end', 1e-9, 1e-9)
    back = min(max(got, c), d)
    check_close(rescale(back, c, d, a, b), value, 'there and back', 1e-9, 1e-6)
    wrong = [(b + 1, a, b, c, d), (a - 1, a, b, c, d), (-1, 0, 1, c, d), (value, -1, b, c, d), (value, a, -1, c, d), (value, a, b, -1, d), (value, a, b, c, -1)][case['wrong']]
    check(raises(lambda: rescale(*wrong), ValueError) is not None, 'refused', wrong=wrong)


@st.composite
def waves(draw):
    period = draw(st.integers(3, 24))
    cycles = draw(st.integers(4, 12))
    cut = draw(st.sampled_from([0, 0, 1, 2, 3]))
    n = max(period * cycles - cut, 10)
    kind = draw(st.sampled_from(['points', 'slots']))
    unit = draw(st.sampled_from(list(zoo.STEPS) + (['1D', '1M'] if kind == 'slots' else [])))
    tz = draw(st.sampled_from(gen.TZS))
    phase, noise = draw(st.integers(0, 23)), draw(st.integers(0, 9))
    data = [[20 + 10 * math.sin(2 * math.pi * (i / period + phase / 24)) + ((i * i * 7 + noise * i) % 11 - 5) / 50] for i in range(n)]
    return {'spec': {'kind': kind, 'form': draw(st.sampled_from(['dict', 'list'])), 'labels': ['a'], 'tz': tz, 'ts': zoo.instants(draw(st.sampled_from(zoo.starts(unit, tz))), unit, tz, n), 'unit': unit, 'res': unit, 'data': data},
            'period': period, 'exact': cut == 0 and period * cycles >= 10, 'factor': draw(st.sampled_from([1, 2, 100, -1, 0.5])), 'offset': draw(st.sampled_from([0, 30, -20, 1000]))}


@sub('C27', 'periodicity', lambda: waves(),
     'periodic series (with a little noise), of any period, length, unit, time zone and form: the period is found, exactly if the series has a whole number of them, and wherever it is in time, however large and at whatever level, '
     'and it is what models are fitted with when not told; non-trivial = every case', quick=300)
def periodicity(case, ctx):
    from timeseria.utilities import detect_periodicity
    from timeseria.models.forecasters import PeriodicAverageForecaster
    ctx.nontrivial()
    spec, period = case['spec'], case['period']
    n = len(spec['ts'])
    series = gen.build(spec)
    before = gen.snapshot(series)
    got = detect_periodicity(series)
    check_eq(gen.snapshot(series), before, 'the source series is left as it was')
    check(isinstance(got, int), 'type')
    if case['exact']:
        check_eq(got, period, 'periodicity')
    else:
        check(got in {round(n / math.floor(n / period)), round(n / math.ceil(n / period)), period}, 'periodicity', got=got, period=period, n=n)
    moved = dict(spec, data=[[row[0] * case['factor'] + case['offset']] for row in spec['data']])
    check_eq(detect_periodicity(gen.build(moved)), got, 'at another scale and level')
    elsewhere = dict(spec, kind='points', form='dict', tz='UTC', ts=[86400 * i for i in range(n)])
    check_eq(detect_periodicity(gen.build(elsewhere)), got, 'of the same values elsewhere in time')
    if spec['form'] == 'dict':
        told, alone = PeriodicAverageForecaster(window=3), PeriodicAverageForecaster(window=3)
        told.fit(gen.build(spec), periodicity=got)
        alone.fit(gen.build(spec))
        steps = 4
        try:
            want = told.predict(gen.build(spec), steps=steps)
        except (ValueError, KeyError):
            return
        check_eq(alone.predict(gen.build(spec), steps=steps), want, 'models fitted without telling the periodicity')


@sub('C27', 'distributions', lambda: st.fixed_dictionaries({'dist': st.sampled_from(['norm', 'norm', 'laplace', 'logistic', 'gennorm', 't']), 'loc': st.integers(-20, 20).map(lambda i: i / 4), 'scale': st.integers(1, 40).map(lambda i: i / 8), 'x': st.integers(-80, 80).map(lambda i: i / 8),
                                                            'fraction': st.integers(2, 200), 'other': st.integers(1, 40)}),
     'distribution functions of any (symmetric) distribution, center and scale: their value, for the normal one, is that of its definition; adherences are 1 in the center and lower the farther from it, on both sides, down to 0; '
     'and what is found looking for a value is where the function has it, on the side asked for; non-trivial = not centered on zero', quick=300)
def distributions(case, ctx):
    from timeseria.utilities import DistributionFunction
    params = {'loc': case['loc'], 'scale': case['scale']}
    if case['dist'] == 'gennorm':
        params['beta'] = 1.5
    if case['dist'] == 't':
        params['df'] = 3
    loc, scale = case['loc'], case['scale']
    ctx.nontrivial(loc != 0)
    f = DistributionFunction(case['dist'], params)
    x = loc + case['x'] * scale
    if case['dist'] == 'norm':
        check_close(f(x), math.exp(-((x - loc) / scale) ** 2 / 2) / (scale * math.sqrt(2 * math.pi)), 'value', 1e-9, 1e-12)
        check_close(f.adherence(x), math.erfc(abs(x - loc) / scale / math.sqrt(2)), 'adherence', 1e-6, 1e-9)
    check_close(f(x), f(2 * loc - x), 'both sides', 1e-9, 1e-12)
    check_close(f.adherence(loc), 1, 'adherence of the center', 1e-9, 1e-9)
    check(-1e-12 <= f.adherence(x) <= 1 + 1e-9, 'adherence', got=f.adherence(x), x=x)
    check_close(f.adherence(x), f.adherence(2 * loc - x), 'adherence on both sides', 1e-9, 1e-9)
    further = x + (1 if x >= loc else -1) * case['other'] / 8 * scale
    check(f.adherence(further) <= f.adherence(x) + 1e-12, 'adherence farther away')
    y = f(loc) / case['fraction']
    for side in ('right', 'left'):
        got = f.find_x(y, side=side)
        check(got >= loc if side == 'right' else got <= loc, 'side', side=side, got=got)
        check_close(f(got), y, 'value found', 1e-6, 1e-12)
    check_eq(f.find_x(y), f.find_x(y, side='right'), 'right side by default')
    check(raises(lambda: f.find_x(y, side='up'), ValueError) is not None, 'unknown sides')
    if case['other'] % 4 == 0:
        # As drawn
        start, end = loc - 3 * scale, loc + case['other'] / 8 * scale
        from matplotlib import pyplot
        f.plot(x_min=start, x_max=end, show=False)
        xs, ys = pyplot.gca().get_lines()[-1].get_data()
        check_eq([close(xs[0], start), close(xs[-1], end)], [True, True], 'drawn where asked')
        for k in range(0, len(xs), 97):
            check_close(ys[k], f(xs[k]), 'drawn value', 1e-9, 1e-12)
        pyplot.close('all')


TEXT = st.text(alphabet='abc XYZ019_-.,:;!?"\'\\#&|<>$*è\n', max_size=20)


@sub('C27', 'shell', lambda: st.fixed_dictionaries({'out': TEXT, 'err': TEXT, 'code': st.sampled_from([0, 0, 1, 2, 77, 255]), 'how': st.sampled_from(['capture', 'capture', 'verbose', 'interactive', 'plain', 'silent'])}),
     'shell commands with any output, error and exit code, in all of the ways to run them: outputs and exit codes are given back when capturing, and otherwise whether they were successful; non-trivial = the command fails', quick=60)
def shell(case, ctx):
    import contextlib
    import io
    from timeseria.utilities import os_shell
    ctx.nontrivial(case['code'] != 0)
    command = 'printf %s {}; printf %s {} >&2; exit {}'.format(shlex.quote(case['out']), shlex.quote(case['err']), case['code'])
    how = case['how']
    ok = case['code'] == 0
    strip = lambda s: s[:-1] if s.endswith('\n') else s
    if how in ('verbose', 'interactive'):
        # Not to write on the outputs of the check
        check_eq(os_shell('( {} ) > /dev/null 2>&1'.format(command), **{how: True}), ok, 'outcome')
        return
    printed = io.StringIO()
    with contextlib.redirect_stdout(printed):
        got = os_shell(command, **({how: True} if how != 'plain' else {}))
    if how == 'capture':
        check_eq((got.stdout, got.stderr, got.exit_code), (strip(case['out']), strip(case['err']), case['code']), 'what is captured')
        check(raises(lambda: os_shell(command, capture=True, verbose=True)) is not None, 'capturing and printing at the same time is refused')
    else:
        check_eq(bool(got), ok, 'outcome')
    if how == 'plain' or (how == 'silent' and not ok):
        check(strip(case['out']) in printed.getvalue() and strip(case['err']) in printed.getvalue(), 'what is printed')
