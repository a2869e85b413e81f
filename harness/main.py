"""Entry point: run the sub-checks of a property, write the evidence, report."""
import glob
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import core

HOME = os.environ.get('VERIF_HOME', '/verif')
KNOWN = os.path.join(HOME, 'known_findings.jsonl')


def load_known(prop):
    """The findings recorded (and not repaired) for this property."""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    entry = json.loads(line)
                    if entry.get('property') == prop and entry.get('status') == 'known':
                        out.append(entry)
    return out


def find_sub(prop, name):
    for s in core.SUBS.get(prop, []):
        if s.name == name:
            return s
    raise core.HarnessError('no sub-check "{}" in {}'.format(name, prop))


def load_module(prop):
    repo = os.environ.get('REPO', '/repo')
    import timeseria
    if not os.path.abspath(timeseria.__path__[0]).startswith(os.path.abspath(repo)):
        raise core.HarnessError('timeseria imported from {}'.format(timeseria.__path__))
    return importlib.import_module('checks.' + prop.lower())


def replay(prop, path):
    load_module(prop)
    with open(path) as f:
        saved = json.load(f)
    s = find_sub(prop, saved['sub'])
    try:
        core.run_case(s, saved['case'])
    except (core.Violation, core.CaseStuck) as e:
        print('{}/{}: {}'.format(prop, s.name, e))
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    except core.Reject:
        print('outside the domain')
        return 0
    print('holds on this case')
    return 0


def write_replay(prop, name, case, message):
    d = os.path.join(HOME, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '{}-{}.json'.format(prop, name))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'sub': name, 'message': message, 'case': case}, f, indent=1, default=str)
    return path


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    prop = argv[0]
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(prop, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = argv[2].split(',') if len(argv) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    module = load_module(prop)
    subs = [s for s in core.SUBS[prop] if only is None or s.name in only]
    failures = []
    errors = []

    # 1. Replay tier: minimal cases of defects found before, and hand-picked borders
    replayed = 0
    for path in sorted(glob.glob(os.path.join(HOME, 'corpus', prop, '*.json'))):
        with open(path) as f:
            saved = json.load(f)
        if only is not None and saved['sub'] not in only:
            continue
        s = find_sub(prop, saved['sub'])
        try:
            core.run_case(s, saved['case'])
        except (core.Violation, core.CaseStuck) as e:
            failures.append((s.name, saved['case'], 'saved case {}: {}'.format(os.path.basename(path), e)))
        except core.Reject:
            errors.append('saved case {} is outside the domain'.format(path))
        replayed += 1

    # 2. Known findings: reproduce each recorded one
    for entry in load_known(prop):
        s = find_sub(prop, entry['sub'])
        try:
            core.run_case(s, entry['case'])
        except (core.Violation, core.CaseStuck):
            print('KNOWN-FINDING: property={} {}'.format(prop, entry['what']))

    # 3. Generated search
    jobs = []
    for s in subs:
        if tier == 'thorough':
            shards = 8
            n = max(1, s.thorough // shards)
        else:
            shards = s.shards
            n = max(1, s.quick // shards)
        for shard in range(shards):
            jobs.append((prop, s.name, shard, n, seed))
    # Longest first
    weight = {s.name: i for i, s in enumerate(subs)}
    workers = min(len(jobs), int(os.environ.get('VERIF_JOBS', '8')), os.cpu_count() or 1)
    if failures:
        results = []
    elif workers <= 1:
        results = [core.run_shard(j) for j in jobs]
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(workers, maxtasksperchild=1) as pool:
            results = pool.map(core.run_shard, jobs, chunksize=1)

    per_sub = {}
    for r in results:
        d = per_sub.setdefault(r['name'], {'evaluations': 0, 'rejected': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'wall_s': 0})
        d['evaluations'] += r['evaluations']
        d['rejected'] += r['rejected']
        d['nontrivial'].update(r['nontrivial'])
        d['wall_s'] = round(d['wall_s'] + r['wall'], 2)
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        d['samples'].extend(r['samples'])
        if r['error']:
            errors.append('{}[{}]: {}'.format(r['name'], r['shard'], r['error']))
        elif r['failed'] is not None:
            failures.append((r['name'], r['failed'], r['message']))

    # Evidence
    order = {s.name: s for s in subs}
    evaluations = sum(d['evaluations'] for d in per_sub.values()) + replayed
    nontrivial = sum(len(d['nontrivial']) for d in per_sub.values())
    samples = []
    for name in order:
        if name in per_sub:
            for c in per_sub[name]['samples'][:2]:
                samples.append({'sub_check': name, 'case': c})
    if not samples:
        samples = [{'sub_check': n, 'case': core._shorten(c)} for n, c, _ in failures]
    evidence = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': nontrivial,
            'rule': ' || '.join('{}: {}'.format(s.name, s.rule) for s in subs),
            'samples': samples,
            'saved_cases_replayed': replayed,
            'sub_checks': {n: {'evaluations': d['evaluations'], 'distinct_nontrivial': len(d['nontrivial']),
                               'rejected': d['rejected'], 'labels': dict(sorted(d['labels'].items())), 'wall_s': d['wall_s']}
                           for n, d in per_sub.items()},
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
    with open(os.path.join(HOME, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)

    for name, d in per_sub.items():
        print('{}/{}: {} cases, {} distinct non-trivial, {} rejected, {} s {}'.format(
            prop, name, d['evaluations'], len(d['nontrivial']), d['rejected'], d['wall_s'],
            ' '.join('{}={}'.format(k, v) for k, v in sorted(d['labels'].items()))))
    if failures:
        for name, case, message in failures:
            path = write_replay(prop, name, case, message)
            print('{}/{}: {}'.format(prop, name, message))
            print('  case: {}'.format(json.dumps(case, default=str)[:1500]))
            print('VIOLATION property={} replay={}'.format(prop, path))
        for e in errors:
            print('also: ' + e, file=sys.stderr)
        return 1
    if errors:
        for e in errors:
            print('ERROR ' + e, file=sys.stderr)
        return 2
    print('{}: held on {} cases ({} distinct non-trivial), {:.1f} s'.format(prop, evaluations, nontrivial, time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
