"""Run context, scenario interface, batches, minimiser, replay and evidence."""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import traceback
from collections import Counter

from dsim import env
from dsim.clock import clock, real_perf

CPU_LIMIT = 25.0        # CPU seconds after which one run counts as stuck
LOG_KEEP = 400


class Violation(Exception):
    def __init__(self, kind, message, key=None):
        super().__init__(kind, message)
        self.kind, self.message, self.key = kind, message, key


class Stuck(BaseException):
    """One simulated run burned CPU_LIMIT without finishing."""


class BadPlan(Exception):
    """The (shrunk) plan makes no sense; nothing was tested."""


class HarnessError(Exception):
    pass


class Ctx(object):
    """What one simulated run records."""

    def __init__(self):
        self._hash = hashlib.blake2b(digest_size=12)
        self.log = []
        self.events = 0
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.sim_time = 0.0
        self.nontrivial = False
        self.cover = None

    def ev(self, *parts):
        line = ' '.join(map(str, parts))
        self._hash.update(line.encode() + b'\n')
        self.events += 1
        if len(self.log) < LOG_KEEP:
            self.log.append(line)

    def fault(self, name):
        self.faults[name] += 1
        self.nontrivial = True
        self.ev('FAULT', name)

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *parts):
        """A point of the coverage measure (hashed)."""
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
        self.states.add(int.from_bytes(h, 'big'))

    def interleaving(self, trace):
        h = hashlib.blake2b(digest_size=8)
        for t, l in trace:
            h.update(('%s:%s;' % (t, l)).encode())
        self._hash.update(h.digest())
        self.states.add(int.from_bytes(h.digest(), 'big'))
        if len(set(t for t, _ in trace)) > 1:
            self.nontrivial = True

    def fail(self, kind, message, key=None):
        self.ev('VIOLATION', kind, message)
        raise Violation(kind, message, key)

    def check(self, cond, kind, message, key=None):
        if not cond:
            self.fail(kind, message() if callable(message) else message, key)

    @property
    def digest(self):
        return self._hash.hexdigest()

    def __getstate__(self):
        state = dict(self.__dict__)
        state['_hash'] = Closed(self.digest)
        return state


class Closed(object):
    """The digest of a run that took place in another process."""

    def __init__(self, digest):
        self._digest = digest

    def hexdigest(self):
        return self._digest


class Scenario(object):
    """One property.  Subclasses give generate and execute."""
    id = None
    title = ''
    rule = ''
    real = ()
    stub = ()
    quick_runs = 400
    thorough_runs = 20000
    assumptions = ()
    cpu_limit = None        # seconds for one run, CPU_LIMIT by default
    pristine = False        # every run in a process that has done no other

    def prepare(self):
        """Import what is needed (once, in the parent)."""

    def generate(self, rng):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError


# -- running one plan ------------------------------------------------------

def _repo_frame(exc):
    tb = exc.__traceback__
    hit = None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if os.path.abspath(f).startswith(os.path.join(env.REPO,
                                                      'crowddynamics')):
            hit = '%s:%s' % (os.path.basename(f), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return hit


def reset_world(plan):
    import numpy as np
    clock.reset()
    np.random.seed(int(plan.get('np_seed', 0)) % (2 ** 32))
    random.seed(int(plan.get('np_seed', 0)))
    import cell_lists
    cell_lists.PAIR_SCHEDULE = None


def run_plan(scn, plan):
    """-> (ctx, None | dict(kind, message, key)).  Harness trouble raises."""
    if scn.pristine:
        return in_child(lambda: run_here(scn, plan))
    return run_here(scn, plan)


def run_here(scn, plan):
    ctx = Ctx()
    reset_world(plan)

    def on_alarm(*_):
        raise Stuck()
    old = signal.signal(signal.SIGVTALRM, on_alarm)
    limit = scn.cpu_limit or CPU_LIMIT
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    cwd = os.getcwd()
    try:
        try:
            scn.execute(plan, ctx)
            out = None
        except Violation as v:
            out = dict(kind=v.kind, message=v.message, key=v.key)
        except Stuck:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            out = dict(kind='stuck', key=None, message='the run did not '
                       'finish within %g s of CPU time' % limit)
        except BadPlan:
            raise
        except Exception as exc:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            where = _repo_frame(exc)
            if where is None:
                # no frame of the repository: the scenario choked on what
                # the code left behind (it never does on a correct tree)
                tb = traceback.extract_tb(exc.__traceback__)[-1]
                out = dict(kind='uninterpretable:' + type(exc).__name__,
                           key=None, message='the check cannot make sense of '
                           'what the code did: %s: %s (%s:%d)' % (
                               type(exc).__name__, exc,
                               os.path.basename(tb.filename), tb.lineno))
            else:
                out = dict(kind='unexpected-exception:%s:%s' % (
                               type(exc).__name__, where), key=None,
                           message='%s: %s (in %s)' % (
                               type(exc).__name__, exc, where))
            if os.environ.get('DSIM_DEBUG'):
                traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        try:
            if os.getcwd() != cwd:
                os.chdir(cwd)
        except OSError:
            os.chdir(cwd)
    return ctx, out


def seed_of(seed, prop, index):
    h = hashlib.sha256(('%s/%s/%s' % (seed, prop, index)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def make_plan(scn, seed, index):
    s = seed_of(seed, scn.id, index)
    rng = random.Random(s)
    plan = scn.generate(rng)
    plan.setdefault('np_seed', rng.randrange(2 ** 32))
    plan = json.loads(json.dumps(plan))
    return plan


# -- batches in forked children --------------------------------------------

def _child(func):
    """Runs func() in a forked child, returns a (pid, fd) pair."""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 1
    try:
        os.close(r)
        try:
            out = ('ok', func())
        except BadPlan as exc:
            out = ('badplan', str(exc))
        except HarnessError as exc:
            out = ('harness', str(exc))
        except BaseException:
            out = ('harness', traceback.format_exc())
        data = pickle.dumps(out)
        with os.fdopen(w, 'wb') as fp:
            fp.write(data)
        code = 0
    finally:
        os._exit(code)


def _collect(fds, timeout):
    """fds: {fd: tag}; yields (tag, bytes) as children finish."""
    bufs = {fd: b'' for fd in fds}
    end = real_perf() + timeout
    while bufs:
        left = end - real_perf()
        if left <= 0:
            return
        ready, _, _ = select.select(list(bufs), [], [], min(left, 5.0))
        for fd in ready:
            data = os.read(fd, 1 << 16)
            if data:
                bufs[fd] += data
            else:
                os.close(fd)
                yield fds[fd], bufs.pop(fd)


def in_child(func, timeout=120):
    pid, fd = _child(func)
    try:
        for _, data in _collect({fd: 0}, timeout):
            if not data:
                raise HarnessError('child died')
            kind, out = pickle.loads(data)
            if kind == 'badplan':
                raise BadPlan(out)
            if kind != 'ok':
                raise HarnessError(out)
            return out
        os.kill(pid, signal.SIGKILL)
        raise HarnessError('child timed out')
    finally:
        os.waitpid(pid, 0)


def run_batch(scn, seed, start, stop, known):
    """Executes runs start..stop-1 of a seed in this process."""
    t0 = real_perf()
    res = dict(start=start, runs=0, nontrivial=set(), states=set(),
               faults=Counter(), probes=Counter(), sim_time=0.0, events=0,
               digests=[], violation=None, known=Counter(), samples=[],
               steps=0)
    for i in range(start, stop):
        plan = make_plan(scn, seed, i)
        try:
            ctx, out = run_plan(scn, plan)
        except HarnessError as exc:
            raise HarnessError('run %d of seed %s:\nplan %s\n%s' % (
                i, seed, json.dumps(plan), exc))
        res['runs'] += 1
        res['faults'].update(ctx.faults)
        res['probes'].update(ctx.probes)
        res['states'] |= ctx.states
        res['sim_time'] += ctx.sim_time
        res['events'] += ctx.events
        res['digests'].append(ctx.digest)
        if ctx.nontrivial:
            res['nontrivial'].add(ctx.digest)
        if i < 2 or (out and len(res['samples']) < 2):
            res['samples'].append(dict(run=i, plan=plan, log=ctx.log[:25],
                                       outcome=out or 'held'))
        if out is not None:
            if out['key'] and out['key'] in known:
                res['known'][out['key']] += 1
                continue
            res['violation'] = dict(run=i, plan=plan, **out)
            break
    res['wall'] = real_perf() - t0
    return res


def _same(a, b):
    return b is not None and a['kind'] == b['kind']


def try_plans(scn, plans, timeout=90):
    """Runs plans in order in one clean child; -> outcome of the last."""
    def go():
        out = None
        for p in plans:
            try:
                _, out = run_plan(scn, p)
            except (HarnessError, BadPlan):
                out = None
        return out
    try:
        return in_child(go, timeout)
    except HarnessError:
        return None


# -- minimiser -------------------------------------------------------------

def _paths(node, path=()):
    """Every list, and every int, inside a plan (outermost first)."""
    if isinstance(node, dict):
        for k in sorted(node):
            if not k.startswith('_'):
                yield from _paths(node[k], path + (k,))
    elif isinstance(node, list):
        yield 'list', path
        for i, v in enumerate(node):
            yield from _paths(v, path + (i,))
    elif isinstance(node, bool):
        if node:
            yield 'bool', path
    elif isinstance(node, int):
        if node not in (0, 1):
            yield 'int', path


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _with(plan, path, value):
    plan = json.loads(json.dumps(plan))
    node = plan
    for p in path[:-1]:
        node = node[p]
    node[path[-1]] = value
    return plan


def minimise(scn, plan, outcome, budget=60.0, tries=400):
    t0 = real_perf()
    left = [tries]

    def ok(candidate):
        if left[0] <= 0 or real_perf() - t0 > budget:
            return False
        left[0] -= 1
        return _same(outcome, try_plans(scn, [candidate], 60))

    changed = True
    while changed and left[0] > 0 and real_perf() - t0 < budget:
        changed = False
        for kind, path in list(_paths(plan)):
            try:
                cur = _get(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            if kind == 'list' and isinstance(cur, list) and cur:
                size = len(cur)
                while size >= 1:
                    i = 0
                    while i < len(cur):
                        cand = _with(plan, path, cur[:i] + cur[i + size:])
                        if ok(cand):
                            plan, cur, changed = cand, _get(cand, path), True
                        else:
                            i += size
                    size //= 2
            elif kind == 'int' and isinstance(cur, int):
                for v in (0, 1, cur // 2, cur - 1 if cur > 0 else cur + 1):
                    if abs(v) < abs(cur):
                        cand = _with(plan, path, v)
                        if ok(cand):
                            plan, changed = cand, True
                            break
            elif kind == 'bool' and cur is True:
                cand = _with(plan, path, False)
                if ok(cand):
                    plan, changed = cand, True
    return plan, tries - left[0]


# -- replay ----------------------------------------------------------------

def replay_file(scn, path):
    with open(path) as fp:
        rec = json.load(fp)
    out = try_plans(scn, rec.get('prefix', []) + [rec['plan']], 300)
    return rec, out


def fresh_replay(path, timeout=300):
    """Replays the file in a fresh interpreter: True if it fails again."""
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = '12345'
    p = subprocess.run([sys.executable, os.path.join(env.VERIF, 'check.py'),
                        'replay', path], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, env=e, timeout=timeout)
    return p.returncode == 1 and b'VIOLATION' in p.stdout
