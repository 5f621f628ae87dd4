"""Build seeded/<id>/ directories from tools/seeds.py; verifies each patch in a scratch clone of /repo.

usage: python3 tools/mkseed.py [id ...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS  # noqa

PY = '/opt/venv/bin/python'


def run(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300, **kw)


def build(seed, clone):
    d = os.path.join(VERIF, 'seeded', seed['id'])
    for f, old, new in seed['edits']:
        p = os.path.join(clone, f)
        s = open(p).read()
        if s.count(old) != 1:
            return 'edit matches %d times in %s: %r' % (s.count(old), f, old)
        open(p, 'w').write(s.replace(old, new))
    diff = run(['git', 'diff'], clone).stdout
    for f in {e[0] for e in seed['edits']}:
        base = run(['git', 'show', '452a7d2:' + f], clone).stdout.splitlines()
        for line in run(['git', 'diff', f], clone).stdout.splitlines()[4:]:
            if line.startswith('-') and line[1:] not in base:
                return 'changes a line that is not in the original: ' + line
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(
        'import os\nimport sys\nsys.path.insert(0, os.getcwd())\n\n' + seed['demo'].strip('\n') + '\n')
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': seed['prop'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    bad = run(['bash', os.path.join(d, 'demo.sh')], clone)
    t = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'pytest_timeout', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], clone)
    run(['git', 'checkout', '--', '.'], clone)
    good = run(['bash', os.path.join(d, 'demo.sh')], clone)
    if good.returncode:
        return 'demo fails on the unchanged tree:\n' + good.stdout[-1500:]
    if not bad.returncode:
        return 'demo passes with the patch'
    if t.returncode:
        return 'tests fail with the patch:\n' + t.stdout[-1500:]
    return None


def main():
    ids = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix='seed')
    clone = os.path.join(tmp, 'repo')
    try:
        subprocess.check_call(['git', 'clone', '-q', os.environ.get('PADS_REPO', '/repo'), clone])
        for s in SEEDS:
            if ids and s['id'] not in ids:
                continue
            r = build(s, clone)
            run(['git', 'checkout', '--', '.'], clone)
            print(s['id'], s['prop'], 'ok' if r is None else 'PROBLEM: ' + r)
    finally:
        shutil.rmtree(tmp)


main()
