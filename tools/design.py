"""Regenerates the generated sections of DESIGN.md: the sub-checks with their rules, and which checks catch which planted bugs.

Usage: PYTHONPATH=/repo:/verif:/verif/vendor /opt/venv/bin/python tools/design.py"""
import glob
import importlib
import json
import os
import re
import sys

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HOME, os.path.join(HOME, 'vendor')]
from harness import core  # noqa: E402

for path in sorted(glob.glob(os.path.join(HOME, 'checks', 'c*.py'))):
    importlib.import_module('checks.' + os.path.basename(path)[:-3])

checks = []
for prop in sorted(core.SUBS):
    for s in core.SUBS[prop]:
        checks.append('- **{}/{}** ({} cases quick, {} thorough): {}.'.format(prop, s.name, s.quick, s.thorough, s.rule))

rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
try:
    with open(os.path.join(HOME, 'tools', 'catches.json')) as f:
        catches = json.load(f)
except IOError:
    catches = {}
for path in sorted(glob.glob(os.path.join(HOME, 'seeded', '*', 'meta.json'))):
    id_ = os.path.basename(os.path.dirname(path))
    with open(path) as f:
        meta = json.load(f)
    by = catches.get(id_, {})
    caught = ', '.join(sorted(p for p in by if by[p])) or ('missed' if by else 'not run')
    rows.append('| {} | {} | {} | {} |'.format(id_, meta['property'], meta['needs'], caught))

path = os.path.join(HOME, 'DESIGN.md')
with open(path) as f:
    text = f.read()
for name, lines in (('checks', checks), ('catches', rows)):
    text = re.sub('(<!-- {0} -->\n).*?(<!-- /{0} -->)'.format(name), lambda m: m.group(1) + '\n'.join(lines) + '\n' + m.group(2), text, flags=re.S)
with open(path, 'w') as f:
    f.write(text)
