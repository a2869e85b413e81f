"""Mutation testing of the checks: random small changes to the source of /repo which the existing tests do not notice, and whether the checks do.

Usage: python3 tools/mutate.py FILE N SEED OUT.jsonl [FIRST_LINE-LAST_LINE]     (FILE as timeseria/units.py)"""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import threading

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
SWAPS = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in'],
         ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Mod: ['*'], ast.FloorDiv: ['/'], ast.And: ['or'], ast.Or: ['and']}

OPPOSITES = [('first', 'last'), ('prev', 'next'), ('start', 'end'), ('min', 'max'), ('from', 'to'), ('floor', 'ceil'), ('sums', 'totals'), ('actual', 'predicted'), ('left', 'right'), ('mins', 'maxs'), ('context', 'target'),
             ('deepcopy', ''), ('copy', ''), ('sorted', ''), ('list', ''), ('abs', ''), ('int', ''), ('float', ''), ('set', ''), ('mean', 'max'), ('sum', 'max')]


def opposite(name):
    """The name of the opposite thing, if there is one."""
    words = name.split('_')
    for one, other in OPPOSITES:
        if other:
            for a, b in ((one, other), (other, one)):
                if a in words:
                    return '_'.join(b if w == a else w for w in words)
    return None


def mutations(source):
    """(line, start, end, replacement) on offsets of the source."""
    tree = ast.parse(source)
    starts = [0]
    for line in source.split('\n'):
        starts.append(starts[-1] + len(line) + 1)
    raw = source.split('\n')

    def at(line, col):
        return starts[line - 1] + len(raw[line - 1].encode()[:col].decode())
    out = []
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Raise) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            skip.update(id(x) for x in ast.walk(node))
        if isinstance(node, ast.Call) and ast.unparse(node.func).startswith(('logger.', 'print', 'warnings.')):
            skip.update(id(x) for x in ast.walk(node))
        if isinstance(node, ast.FunctionDef) and node.name in ('__repr__', '_repr_html_', '__str__'):
            skip.update(id(x) for x in ast.walk(node))

    def span(node):
        return at(node.lineno, node.col_offset), at(node.end_lineno, node.end_col_offset)
    names = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} | {n.arg for n in ast.walk(tree) if isinstance(n, ast.arg)} | {'min', 'max'}
    attributes = {n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute)}
    for node in ast.walk(tree):
        if id(node) in skip:
            continue
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and opposite(node.id) in names:
            out.append((node.lineno,) + span(node) + (opposite(node.id),))
        if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load) and opposite(node.attr) in attributes:
            out.append((node.lineno, span(node)[1] - len(node.attr), span(node)[1], opposite(node.attr)))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and (node.func.id, '') in OPPOSITES and len(node.args) == 1 and not node.keywords:
            out.append((node.lineno,) + span(node) + ('(' + source[slice(*span(node.args[0]))] + ')',))
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a, b = span(node.left)[1], span(node.comparators[0])[0]
            text = source[a:b]
            if type(node.ops[0]) in SWAPS and '(' not in text and ')' not in text:
                out += [(node.lineno, a, b, ' ' + new + ' ') for new in SWAPS[type(node.ops[0])]]
        elif isinstance(node, ast.BinOp) and type(node.op) in SWAPS:
            a, b = span(node.left)[1], span(node.right)[0]
            text = source[a:b]
            if '(' not in text and ')' not in text and not (isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant)):
                out += [(node.lineno, a, b, ' ' + new + ' ') for new in SWAPS[type(node.op)]]
        elif isinstance(node, ast.BoolOp):
            a, b = span(node.values[0])[1], span(node.values[1])[0]
            text = source[a:b]
            if '(' not in text and ')' not in text:
                out += [(node.lineno, a, b, ' ' + new + ' ') for new in SWAPS[type(node.op)]]
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            a, b = span(node)
            out.append((node.lineno, a, b, '(' + source[span(node.operand)[0]:b] + ')'))
        elif isinstance(node, ast.Constant):
            a, b = span(node)
            if node.value is True or node.value is False:
                out.append((node.lineno, a, b, str(not node.value)))
            elif isinstance(node.value, (int, float)):
                out.append((node.lineno, a, b, str(node.value + 1)))
                if node.value:
                    out.append((node.lineno, a, b, str(node.value - 1)))
            elif node.value is None:
                pass
        elif isinstance(node, (ast.If, ast.IfExp)):
            a, b = span(node.test)
            out.append((node.lineno, a, b, '(not (' + source[a:b] + '))'))
        elif isinstance(node, ast.Expr) and source[span(node)[0]:].startswith(('logger.', 'print(')):
            pass
        elif isinstance(node, (ast.Expr, ast.AugAssign)) or (isinstance(node, ast.Assign) and not isinstance(node.targets[0], ast.Name)):
            a, b = span(node)
            out.append((node.lineno, a, b, 'pass'))
        elif isinstance(node, ast.Continue):
            out.append((node.lineno,) + span(node) + ('pass',))
        elif isinstance(node, ast.Break):
            out.append((node.lineno,) + span(node) + ('pass',))
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('duplicate', 'copy') and not node.args:
            a, b = span(node)
            out.append((node.lineno, a, b, source[a:span(node.func.value)[1]]))
        elif isinstance(node, ast.keyword) and node.arg and node.arg not in ('verbose',) and isinstance(node.value, (ast.Name, ast.Attribute)):
            # An argument which is not forwarded
            a, b = span(node)
            if source[b:b + 1] == ',':
                out.append((node.value.lineno, a, b + 1, ''))
    return out


def main():
    file, n, seed, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    with open(os.path.join('/repo', file)) as f:
        source = f.read()
    choices = mutations(source)
    if len(sys.argv) > 5:
        lo, hi = (int(x) for x in sys.argv[5].split('-'))
        choices = [c for c in choices if lo <= c[0] <= hi]
    rng = random.Random(seed)
    rng.shuffle(choices)
    props = []
    with open(os.path.join(HOME, 'properties.jsonl')) as f:
        for line in f:
            p = json.loads(line)
            if file in json.dumps(p):
                props.append(p['id'])
    with open('/opt/vp/BASELINE.json') as f:
        stable = set(json.load(f)['stable'])
    lock = threading.Lock()
    checking = threading.Semaphore(2)
    done = []
    order = list(props)

    def one(k, m):
        line, a, b, new = m
        text = source[:a] + new + source[b:]
        try:
            compile(text, file, 'exec')
        except SyntaxError:
            return
        path = '/tmp/mutant-{}-{}'.format(os.getpid(), k)
        shutil.copytree('/repo', path, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        record = {'file': file, 'line': line, 'source': source.split('\n')[line - 1].strip(), 'old': source[a:b], 'new': new}
        try:
            with open(os.path.join(path, file), 'w') as f:
                f.write(text)
            with open('/opt/vp/test.sh') as f:
                script = f.read().replace('/opt/vp/reports', path + '-reports').replace('/repo', path).replace('-m pytest -q', '-m pytest -q --timeout=60')
            results = path + '-out.json'
            try:
                subprocess.run(['bash', '-c', script, 'test.sh', results], env=ENV, capture_output=True, timeout=400)
                with open(results) as f:
                    missing = stable - set(json.load(f)['passed'])
            except Exception:
                missing = {'timeout'}
            for x in (results,):
                if os.path.exists(x):
                    os.remove(x)
            shutil.rmtree(path + '-reports', ignore_errors=True)
            if missing:
                record['status'] = 'tests'
            else:
                record['status'] = 'survived'
                with lock:
                    trying = list(order)
                with checking:
                    for prop in trying:
                        home = path + '-verif'
                        shutil.copytree(HOME, home, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '.hypothesis'))
                        os.makedirs(home + '/evidence')
                        p = subprocess.run(['bash', 'run.sh', prop, 'quick'], cwd=home, env=dict(ENV, REPO=path, VERIF_SEED='1', VERIF_TIER='quick', VERIF_JOBS='6'), capture_output=True, text=True)
                        shutil.rmtree(home)
                        if p.returncode == 1:
                            record['status'], record['by'] = 'caught', prop
                            record['how'] = [l for l in p.stdout.splitlines() if l.startswith(prop + '/') and ' cases, ' not in l][:1]
                            with lock:
                                order.remove(prop)
                                order.insert(0, prop)
                            break
                        if p.returncode != 0:
                            record.setdefault('errors', []).append([prop, p.stderr[-300:]])
        finally:
            shutil.rmtree(path, ignore_errors=True)
        with lock:
            done.append(record)
            with open(out, 'a') as f:
                f.write(json.dumps(record) + '\n')
    with concurrent.futures.ThreadPoolExecutor(7) as pool:
        for r in [pool.submit(one, k, m) for k, m in enumerate(choices[:n])]:
            r.result()
    print(file, len(choices), {s: sum(1 for r in done if r['status'] == s) for s in ('tests', 'caught', 'survived')})


if __name__ == "__main__":
    main()
