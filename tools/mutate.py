#!/usr/bin/env python3
"""Mutation testing of the checks.

    tools/mutate.py MODULE[,MODULE...] PROP[,PROP...] [--jobs N] [--out FILE] [--only I,J]

Every small change (operator, constant, condition, dropped statement) to pads/MODULE.py that the repository's
own tests let through is run against the quick checks of the named properties, in scratch copies.  Survivors
(no check reports a violation) are listed with the changed lines; they are either equivalent changes, or point at
behaviour the checks do not look at.
"""
import argparse
import ast
import copy
import difflib
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PADS_REPO', '/repo')
PY = '/opt/venv/bin/python'

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Div: [ast.Mult], ast.Mod: [ast.Mult], ast.BitAnd: [ast.BitOr],
       ast.BitOr: [ast.BitAnd], ast.BitXor: [ast.BitOr], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.Pow: [ast.Mult]}


def sites(tree):
    """Yield (description, apply) where apply changes the node in place."""
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.If) and isinstance(node.test, ast.Compare) and getattr(node.test.left, 'id', '') == '__name__':
            skip.update(id(x) for x in ast.walk(node))
        if isinstance(node, (ast.Raise, ast.Assert)):
            skip.update(id(x) for x in ast.walk(node) if x is not node)
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            skip.add(id(node))
    for node in ast.walk(tree):
        if id(node) in skip:
            continue
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                for new in CMP.get(type(op), []):
                    yield node, lambda n, i=i, new=new: n.ops.__setitem__(i, new())
        if isinstance(node, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(node.op), []):
                yield node, lambda n, new=new: setattr(n, 'op', new())
        if isinstance(node, ast.BoolOp):
            yield node, lambda n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())
            for i in range(len(node.values)):
                if len(node.values) > 1:
                    yield node, lambda n, i=i: n.values.pop(i)
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                yield node, lambda n: setattr(n, 'value', not n.value)
            elif isinstance(v, int):
                yield node, lambda n: setattr(n, 'value', n.value + 1)
                if v > 0:
                    yield node, lambda n: setattr(n, 'value', n.value - 1)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            yield node, lambda n: setattr(n, 'op', ast.UAdd()) if isinstance(n.op, ast.USub) else (setattr(n, 'operand', ast.UnaryOp(ast.Not(), n.operand)))
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(node.test, ast.Constant):
                yield node, lambda n: setattr(n, 'test', ast.Constant(False))
                if not isinstance(node, ast.While):
                    yield node, lambda n: setattr(n, 'test', ast.Constant(True))
        if isinstance(node, ast.comprehension):
            for i in range(len(node.ifs)):
                yield node, lambda n, i=i: n.ifs.pop(i)
        if isinstance(node, ast.Slice):
            for f in ('lower', 'upper', 'step'):
                if getattr(node, f) is not None:
                    yield node, lambda n, f=f: setattr(n, f, None)
        if isinstance(node, ast.Call):
            if len(node.args) >= 2:
                for i in range(len(node.args) - 1):
                    yield node, lambda n, i=i: n.args.__setitem__(slice(i, i + 2), [n.args[i + 1], n.args[i]])
            fn = getattr(node.func, 'id', None)
            for a, b in (('min', 'max'), ('max', 'min'), ('any', 'all'), ('all', 'any'), ('sorted', 'list'), ('reversed', 'list'), ('set', 'list'), ('list', 'iter')):
                if fn == a:
                    yield node, lambda n, b=b: setattr(n.func, 'id', b)
            at = getattr(node.func, 'attr', None)
            for a, b in (('append', 'extend'), ('add', 'discard'), ('discard', 'add'), ('pop', 'popleft'), ('update', 'difference_update'), ('keys', 'values')):
                if at == a and (a, b) in (('add', 'discard'), ('discard', 'add')):
                    yield node, lambda n, b=b: setattr(n.func, 'attr', b)
        for f in ('body', 'orelse', 'finalbody'):
            L = getattr(node, f, None)
            if isinstance(L, list):
                for i, st in enumerate(L):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Raise, ast.Continue, ast.Break, ast.Return)):
                        if isinstance(node, ast.Module):
                            continue
                        yield node, lambda n, f=f, i=i: getattr(n, f).__setitem__(i, ast.Pass())
                    if isinstance(st, (ast.Continue, ast.Break)):
                        yield node, lambda n, f=f, i=i: getattr(n, f).__setitem__(i, ast.Break() if isinstance(getattr(n, f)[i], ast.Continue) else ast.Continue())


def mutants(source):
    tree = ast.parse(source)
    base = ast.unparse(tree)
    nodes = list(ast.walk(tree))
    index = {id(n): i for i, n in enumerate(nodes)}
    seen = {base}
    for node, change in sites(tree):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[index[id(node)]]
        change(n)
        try:
            s = ast.unparse(ast.fix_missing_locations(t))
            compile(s, 'm', 'exec')
        except Exception:
            continue
        if s not in seen:
            seen.add(s)
            yield base, s, getattr(node, 'lineno', 0)


def run(cmd, timeout, env, cwd):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', ''


def judge(job):
    k, module, base, text, line, props, jobs, limit = job
    tmp = tempfile.mkdtemp(prefix='mut', dir='/dev/shm')
    try:
        for d in ('pads', 'tests'):
            shutil.copytree(os.path.join(REPO, d), os.path.join(tmp, d), ignore=shutil.ignore_patterns('__pycache__'))
        with open(os.path.join(tmp, 'pads', module + '.py'), 'w') as f:
            f.write(text)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX='/nonexistent/nopyc', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1',
                   PADS_REPO=tmp, VERIF_EVIDENCE=tmp, VERIF_JOBS=str(jobs), VERIF_TIER='quick')
        env.pop('VERIF_VERBOSE', None)
        rc, out = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], 60, env, tmp)
        diff = '\n'.join(l for l in difflib.unified_diff(base.splitlines(), text.splitlines(), lineterm='', n=2) if not l.startswith(('---', '+++')))
        if rc != 0:
            return k, module, 'tests', '', diff, line
        notes = []
        for p in props:
            rc, out = run(['bash', os.path.join(VERIF, 'run.sh'), p, 'quick'], limit, env, tmp)
            if rc == 1:
                return k, module, 'killed', p, diff, line
            if rc != 0:
                notes.append('%s:%s' % (p, rc))
        return k, module, 'SURVIVED', ' '.join(notes), diff, line
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('modules')
    ap.add_argument('props')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--jobs', type=int, default=1)
    ap.add_argument('--limit', type=int, default=300)
    ap.add_argument('--only')
    ap.add_argument('--count', action='store_true')
    a = ap.parse_args()
    jobs = []
    for m in a.modules.split(','):
        with open(os.path.join(REPO, 'pads', m + '.py')) as f:
            src = f.read()
        for k, (base, s, line) in enumerate(mutants(src)):
            if not a.only or str(k) in a.only.split(','):
                jobs.append((k, m, base, s, line, a.props.split(','), a.jobs, a.limit))
    if a.count:
        print(len(jobs))
        return
    tally = {}
    with ThreadPoolExecutor(a.workers) as ex:
        for k, m, verdict, note, diff, line in ex.map(judge, jobs):
            tally[verdict] = tally.get(verdict, 0) + 1
            if verdict == 'SURVIVED':
                print('==== %s #%d line %d %s' % (m, k, line, note))
                print(diff, flush=True)
    print('TOTAL', a.modules, a.props, tally)


if __name__ == '__main__':
    main()
