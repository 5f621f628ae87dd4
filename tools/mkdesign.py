#!/usr/bin/env python3
"""Write DESIGN.md from tools/design.md, the checks, the planted bugs and the list of defects."""
import glob
import importlib
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def properties():
    out = []
    for line in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(line)
        mod = importlib.import_module('checks.' + p['id'].lower())
        size = ''
        ev = os.path.join(V, 'evidence', p['id'] + '.json')
        if os.path.exists(ev):
            c = json.load(open(ev)).get('coverage', {})
            if c.get('states'):
                size = ' (%s states, %s transitions)' % (format(c['states'], ','), format(c['transitions'], ','))
        out.append('* **%s** %s: %s.%s' % (p['id'], p['title'], mod.RULE.rstrip('.'), size))
    return '\n'.join(out)


def defects():
    out = []
    for line in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
        if m:
            out.append('* %s (%s): %s' % m.groups())
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
        if m:
            out.append('* %s (known, not repaired, key %s): %s' % m.groups())
    return '\n'.join(out)


def seeds():
    res = {}
    f = os.path.join(V, 'tools', 'seed_results.txt')
    if os.path.exists(f):
        for line in open(f):
            a = line.split()
            if len(a) >= 4 and a[2] == 'exit':
                res[a[0]] = a[3]
    out = ['| planted bug | property | caught by its quick check | needs |', '|---|---|---|---|']
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
        m = json.load(open(os.path.join(d, 'meta.json')))
        i = os.path.basename(d)
        out.append('| %s | %s | %s | %s |' % (i, m['property'], {'1': 'yes', '0': 'no'}.get(res.get(i), 'not run'), m['needs']))
    return '\n'.join(out)


def main():
    s = open(os.path.join(V, 'tools', 'design.md')).read()
    s = s.replace('{{PROPERTIES}}', properties()).replace('{{DEFECTS}}', defects()).replace('{{SEEDS}}', seeds())
    open(os.path.join(V, 'DESIGN.md'), 'w').write(s)


main()
