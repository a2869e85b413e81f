"""Regenerates the "fixed:" lines of known_findings.jsonl from the fix commits of /repo, given the property each one belongs to."""
import os
import re
import subprocess

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTY = {}
for line in open(os.path.join(HOME, 'tools', 'fixed.txt')):
    if line.strip():
        prop, subject = line.strip().split(' ', 1)
        PROPERTY[subject] = prop
path = os.path.join(HOME, 'known_findings.jsonl')
kept = [l for l in open(path) if l.startswith('{')]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%H %s'], capture_output=True, text=True, check=True).stdout
for line in log.splitlines():
    commit, subject = line.split(' ', 1)
    if subject.startswith('fix: '):
        subject = subject[5:]
        kept.append('fixed: property={} {} {}\n'.format(PROPERTY[subject], commit, subject))
open(path, 'w').writelines(kept)
