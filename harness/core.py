"""Common machinery of the checks.

A check is a list of *sub-checks*. A sub-check pairs a generator (a Hypothesis strategy producing a *case*:
plain JSON data describing an input, or a history of operations) with a judge: a function that runs the real code
on the case and compares it with an explicit oracle, raising Violation when they disagree. Cases are plain data so
that a shrunk failure can be written down as a replay file and replayed without Hypothesis.
"""
import hashlib
import json
import logging
import math
import os
import resource
import signal
import sys
import time
import traceback
import zlib

SUBS = {}
logging.disable(logging.CRITICAL)


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The machinery itself is wrong: never to be reported as a violation."""


class Reject(Exception):
    """The case is outside the domain (used sparingly, and counted)."""


class CaseStuck(BaseException):
    """A case used far more time or memory than any legitimate case does."""


class Ctx(object):
    """What a judge tells about the case it ran."""
    def __init__(self):
        self.is_nontrivial = False
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self.labels.append(name)


class Sub(object):
    def __init__(self, prop, name, strategy, judge, rule, quick, thorough, shards):
        self.prop, self.name, self.strategy, self.judge = prop, name, strategy, judge
        self.rule, self.quick, self.thorough, self.shards = rule, quick, thorough, shards


def sub(prop, name, strategy, rule, quick=300, thorough=None, shards=1):
    """Register a sub-check. `strategy` is a zero-argument function returning the strategy."""
    def deco(fn):
        SUBS.setdefault(prop, []).append(
            Sub(prop, name, strategy, fn, rule, quick, thorough or quick * 12, shards))
        return fn
    return deco


# ---------------------------------------------------------------------------------------------------------------
# Assertions
# ---------------------------------------------------------------------------------------------------------------

def fail(message, **info):
    if info:
        message += ' | ' + ', '.join('{}={!r}'.format(k, v) for k, v in info.items())
    raise Violation(message)


def check(cond, message, **info):
    if not cond:
        fail(message, **info)


def close(a, b, rel=1e-9, abs_=1e-9):
    """Numerical agreement, with a stated tolerance. NaN agrees with NaN."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def check_close(got, want, message, rel=1e-9, abs_=1e-9, **info):
    if not close(got, want, rel, abs_):
        fail(message, got=got, want=want, **info)


def check_eq(got, want, message, **info):
    if not (got == want):
        fail(message, got=got, want=want, **info)


def raises(fn, *excs):
    """Run fn; return the exception if it raised (one of excs), None if it did not raise."""
    try:
        fn()
    except (excs or Exception) as e:  # noqa
        return e
    return None


# ---------------------------------------------------------------------------------------------------------------
# Running
# ---------------------------------------------------------------------------------------------------------------

CASE_SECONDS = int(os.environ.get('VERIF_CASE_SECONDS', '60'))


def _on_alarm(signum, frame):
    raise CaseStuck('a single case ran for more than {} s'.format(CASE_SECONDS))


def run_case(sub_, case, ctx=None):
    """Run the judge on a case. Raises Violation / CaseStuck / HarnessError."""
    ctx = ctx if ctx is not None else Ctx()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        sub_.judge(case, ctx)
    except (Violation, HarnessError, Reject):
        raise
    except MemoryError:
        raise CaseStuck('a single case exhausted the memory limit')
    except RecursionError as e:
        raise Violation('unexpected RecursionError') from e
    except Exception as e:
        # The judge calls the real code and inspects what it returns; on the generated (valid) domain nothing of this
        # is expected to raise. Say where it came from.
        tb = traceback.extract_tb(e.__traceback__)
        where = ' < '.join('{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:]))
        raise Violation('unexpected {}: {} | at {}'.format(type(e).__name__, str(e)[:300], where)) from e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx


def case_key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode(), digest_size=10).hexdigest()


def _shorten(case, limit=600):
    s = json.dumps(case, default=str)
    if len(s) <= limit:
        return json.loads(s)
    return s[:limit] + '...'


def run_shard(args):
    """Run one shard of one sub-check. Returns a plain dict."""
    prop, name, shard, n, base_seed = args
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, seed
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 60
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    s = [x for x in SUBS[prop] if x.name == name][0]
    state = {'evaluations': 0, 'rejected': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'failed': None,
             'message': None, 'stuck': False}
    the_seed = zlib.crc32('{}|{}|{}|{}'.format(base_seed, prop, name, shard).encode())
    t0 = time.time()

    def inner(case):
        state['evaluations'] += 1
        ctx = Ctx()
        try:
            run_case(s, case, ctx)
        except Violation as e:
            state['failed'], state['message'] = case, str(e)
            raise
        except CaseStuck as e:
            state['failed'], state['message'], state['stuck'] = case, str(e), True
            raise
        except Reject:
            state['rejected'] += 1
            return
        for label in ctx.labels:
            state['labels'][label] = state['labels'].get(label, 0) + 1
        if ctx.is_nontrivial:
            key = case_key(case)
            if key not in state['nontrivial']:
                state['nontrivial'].add(key)
                if len(state['nontrivial']) in (1, 10, 60, 200):
                    state['samples'].append(_shorten(case))

    test = given(s.strategy())(inner)
    test = settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                    verbosity=hypothesis.Verbosity.quiet)(test)
    test = seed(the_seed)(test)
    error = None
    try:
        test()
    except (Violation, CaseStuck):
        pass
    except BaseException as e:  # noqa
        if state['failed'] is not None and 'Flaky' in type(e).__name__:
            pass
        else:
            error = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    else:
        state['failed'] = None
    state['error'] = error
    state['nontrivial'] = sorted(state['nontrivial'])
    state['name'] = name
    state['shard'] = shard
    state['wall'] = round(time.time() - t0, 2)
    return state
