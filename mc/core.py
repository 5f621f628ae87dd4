"""Check runner: enumerates work units in forked processes, collects counts and violations.

A check module (checks/cNN.py) defines

    RULE  = 'what is enumerated / what counts as a state'
    def units(tier): return [(name, function, kwargs), ...]

Each unit function receives a Ctx and enumerates its cases, calling ctx.case(...) at the start of
every case.  Any exception that leaves the unit (a failed ctx.check, an exception of the code under test,
a time-out or exhausted memory) is a violation of the property at the current case.
"""
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PADS_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')

CASE_LIMIT = 60          # seconds a single case may take
QUICK_DEADLINE = 780     # whole quick run
UNIT_BUDGET = 240        # a state-space search of a quick run that takes longer stops early and says so
MEM = 3 << 30


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class HarnessError(BaseException):
    """The check itself is broken (never raised because of the code under test)."""


def lib(name):
    """Import a module of the code under test."""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    return importlib.import_module('pads.' + name)


def short(x, n=1500):
    try:
        s = repr(x)
    except Exception as e:          # repr of a half-built object
        s = '<unprintable %s>' % type(e).__name__
    return s if len(s) <= n else s[:n] + '...'


class Ctx:
    def __init__(self, name, known=()):
        self.name = name
        self.n = 0              # cases = traces
        self.t = 0              # transitions = library calls compared
        self.s = 0              # states
        self.seen = set()
        self.cur = None
        self.outcomes = Counter()
        self.samples = []
        self._next_sample = 1
        self.limit = CASE_LIMIT
        self.knownkeys = known
        self.knownhits = []
        self._tick_n = -1
        self._tick_t = 0
        self.t0 = time.monotonic()
        self.budget = UNIT_BUDGET if os.environ.get('VERIF_TIER') == 'quick' else 5 * 3600
        self.truncated = None

    # -- enumeration -------------------------------------------------
    def case(self, *desc, state=True):
        """Begin a case.  state=True: the case's input is a new distinct state by construction."""
        self.n += 1
        self.cur = desc
        if state:
            self.s += 1
        if self.n == self._next_sample:
            self._next_sample *= 7
            if len(self.samples) < 6:
                self.samples.append('%s: %s' % (self.name, short(desc, 300)))

    def state(self, key):
        """Count a state (deduplicated); True if new."""
        h = hash(key)
        if h in self.seen:
            return False
        self.seen.add(h)
        self.s += 1
        return True

    def call(self, f, *a, **k):
        self.t += 1
        return f(*a, **k)

    def outcome(self, *label):
        self.outcomes[label if len(label) > 1 else label[0]] += 1

    def overtime(self, what):
        """True (and recorded) once the unit has used up its time budget; only reached when the code under
        test keeps far more state, or is far slower, than the code the bounds were chosen for."""
        if time.monotonic() - self.t0 > self.budget:
            self.truncated = what
            return True
        return False

    # -- verdicts ----------------------------------------------------
    def check(self, cond, *msg):
        if not cond:
            raise Violation(' '.join(m if isinstance(m, str) else short(m) for m in msg))

    def equal(self, got, want, *what):
        if got != want:
            raise Violation('%s: got %s, expected %s' % (
                ' '.join(m if isinstance(m, str) else short(m) for m in what), short(got), short(want)))

    def raises(self, exc, f, *a, **k):
        """f(*a) must raise exc (or a subclass)."""
        self.t += 1
        try:
            r = f(*a, **k)
        except exc:
            return
        raise Violation('expected %s, got result %s' % (
            getattr(exc, '__name__', exc), short(r)))

    def known(self, key):
        if key in self.knownkeys:
            self.knownhits.append(key)
            return True
        return False

    # -- watchdog ----------------------------------------------------
    def _tick(self, signum, frame):
        now = time.monotonic()
        if self._beat is not None:
            self._beat.value = now
        if self.n != self._tick_n:
            self._tick_n, self._tick_t = self.n, now
        elif now - self._tick_t > self.limit:
            self._tick_t = now
            raise CaseTimeout('case did not terminate within %d s' % self.limit)


class Lines:
    """Which lines and branches of the library a unit executes (only when VERIF_LINES names a directory)."""

    def __init__(self):
        self.seen = set()
        m = sys.monitoring
        m.use_tool_id(m.COVERAGE_ID, 'verif')
        m.register_callback(m.COVERAGE_ID, m.events.LINE, self.line)
        m.register_callback(m.COVERAGE_ID, m.events.BRANCH, self.branch)
        m.set_events(m.COVERAGE_ID, m.events.LINE | m.events.BRANCH)

    def line(self, code, no):
        if '/pads/' in code.co_filename:
            self.seen.add((os.path.basename(code.co_filename), no, None))
        return sys.monitoring.DISABLE

    def branch(self, code, at, to):
        if '/pads/' not in code.co_filename:
            return sys.monitoring.DISABLE
        key = code, at, to
        if key not in self.seen:
            self.seen.add(key)

    def save(self, path):
        out = set()
        for a, b, c in self.seen:
            if c is None:
                out.add('%s %d' % (a, b))
            else:
                where = {}
                for lo, hi, no in a.co_lines():
                    for o in range(lo, hi, 2):
                        where[o] = no
                out.add('%s %s:%d>%s:%d' % (os.path.basename(a.co_filename), where.get(b), b, where.get(c), c))
        with open(path, 'w') as f:
            f.write('\n'.join(sorted(out)))


def _child(conn, beat, check, unitname, known):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    for name, fn, kw in check.units(os.environ.get('VERIF_TIER', 'quick')):
        if name == unitname:
            break
    else:
        raise HarnessError('no unit ' + unitname)
    ctx = Ctx(unitname, known)
    ctx._beat = beat
    signal.signal(signal.SIGALRM, ctx._tick)
    signal.setitimer(signal.ITIMER_REAL, 2, 2)
    cover = Lines() if os.environ.get('VERIF_LINES') else None
    t0 = time.time()
    viol = err = None
    try:
        fn(ctx, **kw)
    except HarnessError:
        err = traceback.format_exc()
    except (Violation, CaseTimeout) as e:
        viol = '%s: %s' % (type(e).__name__, e)
        if isinstance(e, CaseTimeout):
            viol += '\n' + traceback.format_exc(limit=-6)
    except BaseException as e:
        try:
            tb = traceback.format_exc(limit=-8)
        except BaseException:
            tb = ''
        viol = 'unexpected %s: %s\n%s' % (type(e).__name__, short(e, 300), tb)
    signal.setitimer(signal.ITIMER_REAL, 0)
    if cover:
        cover.save(os.path.join(os.environ['VERIF_LINES'], check.__name__ + '.' + unitname))
    try:
        cur = short(ctx.cur, 4000)
    except BaseException:
        cur = '?'
    top = ctx.outcomes.most_common(12)
    conn.send({'unit': unitname, 'n': ctx.n, 't': ctx.t, 's': ctx.s,
               'outcomes': [(str(k), v) for k, v in top], 'distinct_outcomes': len(ctx.outcomes),
               'samples': ctx.samples, 'viol': viol, 'err': err, 'case': cur,
               'known': ctx.knownhits, 'truncated': ctx.truncated, 'wall': time.time() - t0})
    conn.close()
    os._exit(0)


def load_known(prop):
    """Committed known findings:  `known: property=<id> key=<key> <text>`."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) >= 3 and w[0] == 'known:' and w[1] == 'property=' + prop and w[2].startswith('key='):
                out[w[2][4:]] = w[3].strip() if len(w) > 3 else ''
    return out


def run(prop, tier, only=None):
    os.environ['VERIF_TIER'] = tier
    t0 = time.time()
    sys.path.insert(0, VERIF)
    check = importlib.import_module('checks.' + prop.lower())
    known = load_known(prop)
    todo = [u[0] for u in check.units(tier)]
    if len(set(todo)) != len(todo):
        raise HarnessError('duplicate unit names')
    if only:
        todo = [u for u in todo if u == only]
    mp = multiprocessing.get_context('fork')
    workers = int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 1))
    running, done = {}, []
    viol = err = None
    incomplete = []
    deadline = QUICK_DEADLINE if tier == 'quick' else 6 * 3600
    todo.reverse()
    while (todo or running) and not viol and not err:
        while todo and len(running) < workers:
            u = todo.pop()
            beat = mp.Value('d', time.monotonic(), lock=False)
            r, w = mp.Pipe(False)
            p = mp.Process(target=_child, args=(w, beat, check, u, known), daemon=True)
            p.start()
            w.close()
            running[r] = (p, u, beat)
        for r in wait(list(running), timeout=2):
            p, u, beat = running.pop(r)
            try:
                res = r.recv()
            except EOFError:
                p.join()
                res = {'unit': u, 'n': 0, 't': 0, 's': 0, 'outcomes': [], 'samples': [], 'distinct_outcomes': 0,
                       'viol': 'process executing the cases died (exit code %s)' % p.exitcode, 'err': None,
                       'case': 'unit ' + u, 'known': [], 'wall': 0}
            p.join()
            done.append(res)
            viol = viol or (res if res['viol'] else None)
            err = err or res['err']
        now = time.monotonic()
        for r, (p, u, beat) in list(running.items()):
            if now - beat.value > 2 * CASE_LIMIT:
                viol = viol or {'unit': u, 'viol': 'no progress inside a call for %d s' % (2 * CASE_LIMIT),
                                'case': 'unit ' + u}
        if time.time() - t0 > deadline and not viol:
            incomplete.append('deadline of %d s, unfinished: %s' % (deadline, [x[1] for x in running.values()] + todo))
            break
    for r, (p, u, beat) in running.items():
        p.kill()
        p.join()
    wall = time.time() - t0
    incomplete += ['%s: %s' % (d['unit'], d['truncated']) for d in done if d.get('truncated')]
    os.makedirs(EVIDENCE, exist_ok=True)
    samples = []
    for d in done:
        samples += d['samples'][-2:]
    step = max(1, len(samples) // 14)
    seed = int(os.environ.get('VERIF_SEED') or 1)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': sum(d['s'] for d in done),
                       'transitions': sum(d['t'] for d in done),
                       'traces_validated_against_impl': sum(d['n'] for d in done),
                       'samples': samples[::step],
                       'exhaustive': not viol and not err and not incomplete,
                       'incomplete': incomplete,
                       'rule': getattr(check, 'RULE', ''),
                       'distinct_outcomes': sum(d['distinct_outcomes'] for d in done),
                       'units': {d['unit']: {'cases': d['n'], 'calls': d['t'], 'states': d['s'],
                                             'outcomes': dict(d['outcomes']), 'wall_s': round(d['wall'], 2)}
                                 for d in done}},
          'wall_s': round(wall, 2),
          'assumptions': getattr(check, 'ASSUMPTIONS', []),
          'violations': []}
    code = 0
    for k in sorted({k for d in done for k in d['known']}):
        print('KNOWN-FINDING: property=%s %s %s' % (prop, k, known.get(k, '')))
    if err and not viol:
        print(err)
        ev['error'] = err
        code = 2
    if viol:
        path = os.path.join(EVIDENCE, prop + '.replay.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'unit': viol['unit'], 'case': viol['case'],
                       'case_number': viol.get('n'), 'message': viol['viol'],
                       'replay': 'bash /verif/run.sh %s replay %s' % (prop, path)}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  unit: %s' % viol['unit'])
        print('  case: %s' % short(viol['case'], 1200))
        print('  %s' % viol['viol'][:3000])
        ev['violations'] = [{'replay': path, 'unit': viol['unit'], 'case': viol['case'], 'message': viol['viol'][:2000]}]
        code = 1
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for i in incomplete:
        print('INCOMPLETE: ' + i)
    c = ev['coverage']
    print('%s %s: %d states, %d transitions, %d traces, %.1f s, exit %d' % (
        prop, tier, c['states'], c['transitions'], c['traces_validated_against_impl'], wall, code))
    if os.environ.get('VERIF_VERBOSE'):
        for d in sorted(done, key=lambda d: -d['wall'])[:int(os.environ['VERIF_VERBOSE'])]:
            print('   %-40s %8d cases %9d calls %8d states %7.1fs %s' % (
                d['unit'], d['n'], d['t'], d['s'], d['wall'], str(d['outcomes'][:5])[:150]))
    sys.stdout.flush()
    return code
