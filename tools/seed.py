"""Planted bugs: validate them in scratch copies of /repo, and see which checks catch them.

Usage: python3 tools/seed.py validate ID...     the patch applies, the stable tests pass with it, the demo passes without and fails with it
       python3 tools/seed.py catch ID... [-- PROPERTY...]   run the checks (by default of the property of each) against the patched copy
       python3 tools/seed.py all                 both, for everything, and a summary table in tools/catches.md"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HOME, 'seeded')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def copy(id_, patch=True):
    path = '/tmp/seed-{}-{}'.format(id_, os.getpid())
    if os.path.exists(path):
        shutil.rmtree(path)
    subprocess.run(['git', 'clone', '-q', '/repo', path], check=True)
    if patch:
        subprocess.run(['git', '-C', path, 'apply', os.path.join(SEEDED, id_, 'patch.diff')], check=True)
    return path


def demo(id_, path):
    beside = path + '-demo'
    shutil.copytree(os.path.join(SEEDED, id_), beside)
    for f in os.listdir(beside):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json':
            os.remove(os.path.join(beside, f))
    try:
        p = subprocess.run(['bash', os.path.join(beside, 'demo.sh')], cwd=path, env=ENV, capture_output=True, text=True, timeout=300)
    finally:
        shutil.rmtree(beside)
    return p.returncode, (p.stdout + p.stderr)[-400:]


def tests(path):
    with open('/opt/vp/test.sh') as f:
        script = f.read().replace('/opt/vp/reports', path + '-reports').replace('/repo', path)
    out = path + '-out.json'
    subprocess.run(['bash', '-c', script, 'test.sh', out], env=ENV, capture_output=True, text=True, timeout=900)
    with open(out) as f:
        passed = set(json.load(f)['passed'])
    os.remove(out)
    shutil.rmtree(path + '-reports')
    with open('/opt/vp/BASELINE.json') as f:
        return sorted(set(json.load(f)['stable']) - passed)


def validate(id_):
    path = copy(id_, patch=False)
    try:
        clean = demo(id_, path)
        subprocess.run(['git', '-C', path, 'apply', os.path.join(SEEDED, id_, 'patch.diff')], check=True)
        patched = demo(id_, path)
        missing = tests(path)
    finally:
        shutil.rmtree(path)
    good = clean[0] == 0 and patched[0] != 0 and not missing
    return good, 'demo clean={} patched={} tests failing={}{}'.format(clean[0], patched[0], missing, '' if good else '\n' + clean[1] + '\n---\n' + patched[1])


def catch(id_, props=None):
    with open(os.path.join(SEEDED, id_, 'meta.json')) as f:
        own = json.load(f)['property']
    path = copy(id_)
    out = {}
    home = path + '-verif'
    shutil.copytree(HOME, home, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
    os.makedirs(home + '/evidence')
    try:
        for prop in props or [own]:
            p = subprocess.run(['bash', 'run.sh', prop, 'quick'], cwd=home, env=dict(ENV, REPO=path, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'),
                               capture_output=True, text=True)
            out[prop] = (p.returncode, p.stdout[-600:] + p.stderr[-300:])
    finally:
        shutil.rmtree(path)
        shutil.rmtree(home)
    return out


def record(id_, found):
    path = os.path.join(HOME, 'tools', 'catches.json')
    catches = {}
    if os.path.exists(path):
        with open(path) as f:
            catches = json.load(f)
    catches.setdefault(id_, {}).update(found)
    catches = {k: v for k, v in catches.items() if os.path.isdir(os.path.join(SEEDED, k))}
    with open(path, 'w') as f:
        json.dump(catches, f, indent=1, sort_keys=True)


def main():
    what, ids = sys.argv[1], sys.argv[2:]
    props = None
    if '--' in ids:
        props, ids = ids[ids.index('--') + 1:], ids[:ids.index('--')]
    if what == 'all' or not ids:
        ids = sorted(d for d in os.listdir(SEEDED) if os.path.isdir(os.path.join(SEEDED, d)))
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        if what in ('validate', 'all'):
            for id_, (good, text) in zip(ids, pool.map(validate, ids)):
                print('{} {}: {}'.format('GOOD' if good else 'BAD ', id_, text), flush=True)
        if what in ('catch', 'all'):
            for id_, out in zip(ids, pool.map(lambda i: catch(i, props), ids)):
                record(id_, {prop: code == 1 for prop, (code, _) in out.items()})
                for prop, (code, text) in out.items():
                    print('{} {} by {}'.format({0: 'MISSED', 1: 'CAUGHT'}.get(code, 'ERROR'), id_, prop), '' if code == 0 else '\n'.join('    ' + l[:200] for l in text.splitlines()[-4:]), sep='\n', flush=True)


main()
