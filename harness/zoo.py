"""Series for models, the models to try, and the reference of the periodic averages."""
import datetime as _dt
import functools

import pytz
from hypothesis import strategies as st

from harness import gen, refs
from harness.core import Reject

STEPS = {'1s': 1, '1m': 60, '10m': 600, '15m': 900, '1h': 3600, '2h': 7200, '24h': 86400}
CALENDAR = ['1D', '1W', '1M', '1Y']
# Around DST changes, ends of months and leap days, and around the epoch
STARTS = [0, 1554562800 - 3600 * 6, 1570289400 - 3600 * 8, 2 ** 31 - 86400 * 2, -86400 * 11574, -86400 * 3, 1553900400, 1553990400 - 7200, 1572130800 - 3600 * 5, 1572130800, 1582848000, 1330387200, 1603584000 - 86400 * 2, 1604188800, 1583020800 + 86400 * 6]


def quarters(lo=1, hi=40):
    """Values whose sums and averages are (nearly) exact, and never zero."""
    return st.integers(lo * 4, hi * 4).map(lambda i: i / 4)


def mixed():
    """Strategies for values: positive ones, of any sign, or so few that they and their sums are often zero."""
    return st.sampled_from([0, 0, 1, 2]).map(lambda i: [quarters(), quarters(-40, 40), st.sampled_from([0, 0.0, 1, -1, 0.5, -0.5])][i])


@st.composite
def series(draw, min_n=4, max_n=24, kinds=('points', 'slots'), units=None, labels=None, max_labels=2, tzs=gen.TZS, value=None, losses=None, calendar=True, shifts=True):
    """Specs (as those of gen) of regular series, with all of the items of a period of time."""
    kind = draw(st.sampled_from(list(kinds)))
    choices = list(units or STEPS)
    if kind == 'points':
        choices = [u for u in choices if u in STEPS]
    elif calendar and units is None:
        choices = choices + CALENDAR * 2
    unit = draw(st.sampled_from(choices))
    tz = draw(st.sampled_from(list(tzs)))
    labels = labels or draw(gen.labels_lists(1, max_labels))
    n = draw(st.integers(min_n, max_n))
    start, skip = draw(st.sampled_from(STARTS)), draw(st.integers(0, 5))
    if start not in starts(unit, tz):
        tz = 'UTC'
    ts = instants(start, unit, tz, n, skip)
    # (the items are not always at the beginning of their unit)
    shift = draw(st.sampled_from([0, 0, 0, STEPS[unit] // 2, 1, STEPS[unit] - 1])) if kind == 'points' and shifts else 0
    ts = [t + shift for t in ts]
    spec = {'kind': kind, 'form': 'dict', 'labels': labels, 'tz': tz, 'ts': ts, 'res': unit, 'data': draw(gen.rows(n, len(labels), draw(mixed()) if value == 'mixed' else value if value is not None else quarters()))}
    if kind == 'slots':
        spec['unit'] = unit
    how = losses if losses is not None else draw(st.sampled_from(['none', 'none', 'some']))
    if how == 'some':
        spec['indexes'] = [{'data_loss': x} for x in draw(st.lists(st.sampled_from([0, 0, 0, 0.25, 0.5, 1, 1, None]), min_size=n, max_size=n))]
    if max_n >= 12 and n >= 6 and unit not in ('1Y', '1M') and draw(st.integers(0, 39)) == 23:
        # A long one, which goes on with what it has in other orders
        many = draw(st.sampled_from([64, 101, 150]))
        spec['ts'] = instants(start, unit, tz, many, skip)
        for i in range(n, many):
            spec['data'].append(list(spec['data'][(i * 7 + i // n) % n]))
            if spec.get('indexes') is not None:
                spec['indexes'].append(dict(spec['indexes'][(i * 3 + i // n) % n]))
    return spec


@functools.lru_cache(None)
def starts(unit, tz):
    """Where series of this unit can start: all of their midnights happen, and only once (Kathmandu had none on the first day of 1986)."""
    return [s for s in STARTS if unit not in CALENDAR or not any(
        refs.ambiguous(t, tz) or gen.local_dt(t, tz).hour or gen.local_dt(t, tz).minute for t in instants(s, unit, tz, 65 if unit == '1Y' else 400))]


def instants(start, unit, tz, n, skip=0):
    """n instants, one unit after the other, in a time zone."""
    t = refs.unit_floor(start, unit, tz)
    if unit in STEPS:
        return [int(t) + STEPS[unit] * (i + skip) for i in range(n)]
    out = []
    for i in range(n + skip):
        if i >= skip:
            out.append(int(t))
        t = refs.unit_next(t, unit, tz)
    return out


def following(spec, k):
    """The instants of the k items after the last of a spec."""
    t = spec['ts'][-1]
    out = []
    for _ in range(k):
        t = refs.unit_next(t, spec['res'], spec['tz'])
        out.append(int(t))
    return out


def cut(spec, start, end):
    """The items of a spec from the start-th to the end-th (excluded)."""
    out = dict(spec)
    for key in ('ts', 'data', 'indexes'):
        if spec.get(key) is not None:
            out[key] = spec[key][start:end]
    return out


def column(spec, label):
    j = spec['labels'].index(label)
    return [row[j] for row in spec['data']]


def losses(spec):
    return [x.get('data_loss') for x in spec['indexes']] if spec.get('indexes') is not None else [None] * len(spec['ts'])


# ---------------------------------------------------------------------------------------------------------------
# Periodic averages
# ---------------------------------------------------------------------------------------------------------------

def dst_seconds(t, tz):
    return int(gen.local_dt(t, tz).dst().total_seconds())


def count(t, unit, tz, origin, dst):
    """How many units there are from the origin to t (both on the grid of the units); on the wall clock if dst is set."""
    if unit in STEPS:
        delta = t - origin
        if dst:
            delta += dst_seconds(t, tz) - dst_seconds(origin, tz)
        if delta % STEPS[unit]:
            # The clocks moved by less than a unit
            raise Reject()
        return delta // STEPS[unit]
    a, b = gen.local_dt(origin, tz).date(), gen.local_dt(t, tz).date()
    if unit == '1D':
        return (b - a).days
    if unit == '1W':
        assert (b - a).days % 7 == 0
        return (b - a).days // 7
    if unit == '1M':
        return (b.year - a.year) * 12 + b.month - a.month
    return b.year - a.year


class PeriodicAverages(object):
    """The averages of the items which are a whole number of periods away from each other."""
    def __init__(self, spec, label, periodicity, dst=False, limit=1.0):
        self.spec, self.periodicity, self.dst = spec, periodicity, dst
        self.origin = spec['ts'][0]
        groups = {}
        for t, v, loss in zip(spec['ts'], column(spec, label), losses(spec)):
            if limit is not None and loss is not None and loss >= limit:
                continue
            groups.setdefault(self.phase(t), []).append(v)
        self.averages = {k: sum(v) / len(v) for k, v in groups.items()}

    def phase(self, t):
        return count(t, self.spec['res'], self.spec['tz'], self.origin, self.dst) % self.periodicity

    def at(self, t):
        """The average for an instant, None if the phase was never seen."""
        return self.averages.get(self.phase(t))


# ---------------------------------------------------------------------------------------------------------------
# Models written with the public API
# ---------------------------------------------------------------------------------------------------------------

_CUSTOM = None


def custom():
    """Small custom models: what they give is known, and they record what they are given."""
    global _CUSTOM
    if _CUSTOM is not None:
        return _CUSTOM
    from timeseria.models.base import Model
    from timeseria.models.forecasters import Forecaster
    from timeseria.models.reconstructors import Reconstructor

    def columns(series):
        return {label: [item.data[label] for item in series] for label in series.data_labels()}

    class Parametric(Model):
        """Has parameters, but no fit."""
        def __init__(self, factor=2):
            self.data = {'factor': factor}
            super(Parametric, self).__init__()

    class Fittable(Model):
        """Learns the maximum of each label."""
        @Model.fit_function
        def fit(self, series, extra=0, fail=False):
            self.data['max'] = {label: max(values) + extra for label, values in columns(series).items()}
            if fail:
                raise RuntimeError('asked to fail')

        @Model.predict_function
        def predict(self, series):
            return {label: self.data['max'][label] for label in series.data_labels()}

        @Model.apply_function
        def apply(self, series):
            series = series.duplicate()
            for item in series:
                item.data_indexes['custom'] = 1
            return series

        @Model.evaluate_function
        def evaluate(self, series, extra=0):
            return {label: self.data['max'][label] - max(values) + extra for label, values in columns(series).items()}

    class Stateless(Model):
        """Nothing to learn."""
        @Model.predict_function
        def predict(self, series):
            return {label: values[-1] for label, values in columns(series).items()}

        @Model.apply_function
        def apply(self, series):
            return series.duplicate()

        @Model.evaluate_function
        def evaluate(self, series):
            return {label: values[-1] for label, values in columns(series).items()}

    class Persistence(Forecaster):
        """Forecasts the average of the last `window` values, plus a step by step drift learnt from the data; in the ways in which a forecaster can give its predictions."""
        window = None

        def __init__(self, window=2, how='list'):
            super(Persistence, self).__init__()
            self.window = window
            self.how = how
            self.data['window'] = window
            self.data['how'] = how
            self.seen = []

        @classmethod
        def load(cls, path):
            model = super(Persistence, cls).load(path)
            model.window, model.how = model.data['window'], model.data['how']
            return model

        @Forecaster.fit_function
        def fit(self, series, drift=1, verbose=False):
            self.data['drift'] = drift
            self.data['first'] = {label: values[0] for label, values in columns(series).items()}

        @Forecaster.predict_function
        def predict(self, series, steps=1):
            if len(series) < self.data['window']:
                raise ValueError('Not enough data')
            self.seen.append([item.t for item in series])
            if self.data['how'] != 'list' and steps > 1:
                raise NotImplementedError('One step only')
            out = []
            for i in range(steps):
                values = columns(series)
                w = self.data['window']
                out.append({label: sum(values[label][-w:]) / w + (i + 1) * self.data['drift'] for label in values})
            if self.data['how'] == 'list':
                return out
            if self.data['how'] == 'dict of lists':
                return {label: [out[0][label]] for label in out[0]}
            return out[0]

    class Contextual(Forecaster):
        """Forecasts its target from the other labels at the same instant (the context) and the last value."""
        def __init__(self, window=2):
            super(Contextual, self).__init__()
            self.data['window'] = window
            self.seen = []

        @property
        def window(self):
            return self.data['window']

        @Forecaster.fit_function
        def fit(self, series, target='all', with_context=False, verbose=False):
            labels = series.data_labels()
            targets = labels if target == 'all' else [target] if isinstance(target, str) else list(target)
            self.data['target_data_labels'] = targets
            self.data['context_data_labels'] = [label for label in labels if label not in targets] if with_context else None

        @Forecaster.predict_function
        def predict(self, series, steps=1, context_data=None):
            if steps > 1:
                raise NotImplementedError('One step only')
            self.seen.append(([item.t for item in series], dict(context_data) if context_data else None))
            out = {}
            for label in self.data['target_data_labels']:
                out[label] = series[-1].data[label] + sum((context_data or {}).get(other, 0) for other in self.data['context_data_labels'] or [])
            return out

    class MeanReconstructor(Reconstructor):
        """Reconstructs with the average of the two items around the gap, as a list or as a dictionary."""
        window = 1

        def __init__(self, how='list'):
            super(MeanReconstructor, self).__init__()
            self.how = how

        @Reconstructor.predict_function
        def predict(self, series, from_i, to_i):
            if from_i < 1 or to_i > len(series) - 2:
                raise ValueError('Not enough data')
            value = {label: (series[from_i - 1].data[label] + series[to_i + 1].data[label]) / 2 for label in series.data_labels()}
            if self.how == 'list':
                return [dict(value) for _ in range(from_i, to_i + 1)]
            return {label: [value[label]] * (to_i - from_i + 1) for label in value}

    _CUSTOM = {'Parametric': Parametric, 'Fittable': Fittable, 'Stateless': Stateless, 'Persistence': Persistence, 'Contextual': Contextual, 'MeanReconstructor': MeanReconstructor}
    return _CUSTOM
