"""usage: VERIF_LINES=DIR bash run.sh C01 quick ...; then python3 tools/lines.py DIR [module...]

Lists the lines of the library that no check executed, and the conditional jumps of which only one way was ever taken.
"""
import dis
import os
import sys
from collections import defaultdict

REPO = os.environ.get('PADS_REPO', '/repo')


def codes(code):
    yield code
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            yield from codes(c)


seen, ways = defaultdict(set), defaultdict(set)
for f in os.listdir(sys.argv[1]):
    for line in open(os.path.join(sys.argv[1], f)):
        mod, what = line.rstrip('\n').split(' ', 1)
        if '>' in what:
            a, b = what.split('>')
            seen[mod].update(int(x.split(':')[0]) for x in (a, b) if x.split(':')[0] != 'None')
            ways[mod, a].add(b)
        else:
            seen[mod].add(int(what))
for mod in sys.argv[2:] or sorted(os.listdir(os.path.join(REPO, 'pads'))):
    if not mod.endswith('.py'):
        continue
    text = open(os.path.join(REPO, 'pads', mod)).read()
    lines = text.split('\n')
    want = set()
    for c in codes(compile(text, mod, 'exec')):
        if c.co_name == '<module>':
            continue
        want |= {n for _, _, n in c.co_lines() if n and n != c.co_firstlineno}
    miss = sorted(want - seen[mod])
    print('%s: %d of %d lines not executed' % (mod, len(miss), len(want)))
    for n in miss:
        print('   %5d %s' % (n, lines[n - 1]))
    for (m, a), to in sorted(ways.items()):
        if m == mod and len(to) == 1:
            n = int(a.split(':')[0])
            src = lines[n - 1].strip()
            if not src.startswith('for ') and ' for ' not in src:
                print('   one way %d>%s %s' % (n, next(iter(to)).split(':')[0], src))
