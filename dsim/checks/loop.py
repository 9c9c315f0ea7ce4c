"""The simulation loop: evaluation order, tree edits, run loop, simulated
clock, isolation, reproducibility, creation time stamps."""
import copy
import math
import os

import numpy as np

from dsim import build, core, fresh, gen
from dsim.clock import EPOCH, clock
from dsim.core import Scenario
from dsim.disk import Disk
from dsim.sched import Scheduler


class NodeFault(Exception):
    """Injected failure of a logic node."""


class Interrupt(BaseException):
    """Injected asynchronous interrupt (as KeyboardInterrupt)."""


ERRORS = {'fault': NodeFault, 'value': ValueError, 'memory': MemoryError,
          'interrupt': Interrupt, 'os': OSError, 'key': KeyError,
          'stopiter': StopIteration, 'genexit': GeneratorExit,
          'sysexit': SystemExit, 'keyboard': KeyboardInterrupt,
          'assertion': AssertionError, 'attribute': AttributeError,
          'notimpl': NotImplementedError, 'float': FloatingPointError}


class Loop(Scenario):
    real = ('crowddynamics.simulation.base', 'MultiAgentSimulation',
            'LogicNode', 'anytree')
    stub = ('numba, shapely, matplotlib stand-ins (imports only)',
            'cooperative scheduler in place of threads')

    def prepare(self):
        from crowddynamics.simulation import base, logic, multiagent
        self.base, self.logic, self.multi = base, logic, multiagent
        from crowddynamics import exceptions
        ERRORS.update(crowd=exceptions.CrowdDynamicsException,
                      invalid=exceptions.InvalidType,
                      overlap=exceptions.OverlappingError)

        class Probe(logic.LogicNode):
            """Logic node that reports to the scenario."""
            hook = None

            def update(self):
                self.hook(self)
        self.Probe = Probe

    def probe(self, sim, name, hook):
        node = self.Probe(sim)
        node.name = name
        node.hook = hook
        return node


def gen_tree(rng, n):
    """parents[i] < i; node 0 is the root."""
    shape = rng.choice(['any', 'chain', 'star', 'deep'])
    out = [-1]
    for i in range(1, n):
        if shape == 'chain':
            out.append(i - 1)
        elif shape == 'star':
            out.append(0)
        elif shape == 'deep':
            out.append(max(0, i - rng.randint(1, 3)))
        else:
            out.append(rng.randrange(i))
    return out


def post_order(children, root):
    out = []
    for c in children[root]:
        out += post_order(children, c)
    return out + [root]


# --------------------------------------------------------------------------

class EvaluationOrder(Loop):
    id = 'S01'
    title = 'Each iteration evaluates every logic node once, children first'
    rule = ('1-3 simulations in one process, interleaved at node boundaries '
            'by the seed; random trees; nodes fail at random evaluations.  '
            'Non-trivial: a node failed or two simulations interleaved.')
    quick_runs = 4000
    thorough_runs = 200000

    def generate(self, rng):
        sims = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 2, 3, 5, 8, 12])
            its = rng.randint(1, 6)
            sims.append({
                'parents': gen_tree(rng, n), 'entry': rng.randrange(n),
                'names': rng.choice([99, 99, 1, 2, 3]),
                'iters': its,
                'faults': [[rng.randrange(n * its),
                            rng.choice(sorted(ERRORS))]
                           for _ in range(rng.choice([0, 0, 1, 2, 4]))],
                'moves': [[rng.randrange(its), rng.randrange(n),
                           rng.randrange(n), rng.random() < .3]
                          for _ in range(rng.choice([0, 0, 1, 3]))]})
        return {'sims': sims, 'sched': [rng.randrange(6) for _ in
                                        range(rng.choice([0, 20, 100]))]}

    def execute(self, plan, ctx):
        sched = Scheduler(ctx, plan['sched'])
        for s, p in enumerate(plan['sims']):
            self.client(ctx, sched, s, p)
        sched.run()
        for t in sched.tasks:
            if t.error is not None:
                raise t.error

    def client(self, ctx, sched, s, p):
        parents = p['parents']
        n = len(parents)
        if not n:
            return
        sim = self.multi.MultiAgentSimulation()
        trace, count = [], [0]
        faults = {}
        for at, kind in p['faults']:
            faults.setdefault(at, kind)
        nodes = []

        def hook(node):
            sched.point(node.name)
            count[0] += 1
            trace.append(nodes.index(node))
            kind = faults.get(count[0] - 1)
            if kind:
                ctx.fault('node-' + kind)
                err = ERRORS[kind]('injected')
                hook.raised = err
                raise err
        children = {i: [] for i in range(n)}
        for i in range(n):
            # several nodes may have the same name
            nodes.append(self.probe(sim, 'n%d' % (i % max(1, p['names'])),
                                    hook))
            par = parents[i]
            if i and par >= 0:
                par = min(par, i - 1)
                children[par].append(i)
                nodes[par] << nodes[i]
            elif i:
                children[0].append(i)
                nodes[0].add_children(nodes[i])
        sim.logic = nodes[p['entry'] % n]

        def move(i, par, swap):
            # The tree may change from one iteration to the next.
            i, par = i % n, par % n
            below = post_order(children, i)
            if i == 0 or par in below:
                return
            if swap:
                # An other node takes the place of this one.
                for kids in children.values():
                    if i in kids:
                        kids.remove(i)
                below = children[i]
                nodes[i].parent = None
                for c in below:
                    nodes[c].parent = None
                nodes[i] = self.probe(sim, 'm%d' % i, hook)
                for c in below:
                    nodes[c].parent = nodes[i]
                nodes[i].parent = nodes[par]
                children[par].append(i)
                ctx.probe('replaced')
                return
            ctx.probe('moved')
            for kids in children.values():
                if i in kids:
                    if kids is children[par]:
                        return          # stays where it is
                    kids.remove(i)
            children[par].append(i)
            nodes[i].parent = nodes[par]

        def run():
            done = 0
            for it in range(p['iters']):
                for at, i, par, swap in p.get('moves', ()):
                    if at == it:
                        if swap and (sim.logic is nodes[i % n] or
                                     it == 0):
                            continue
                        move(i, par, swap)
                order = post_order(children, 0)
                del trace[:]
                hook.raised = None
                start = count[0]
                try:
                    sim.update()
                    failed = False
                except BaseException as exc:
                    if hook.raised is None:
                        raise
                    ctx.check(exc is hook.raised, 'error-replaced', lambda:
                              'simulation %d: node raised %r, the iteration '
                              'raised %r' % (s, hook.raised, exc))
                    failed = True
                ctx.check(failed or hook.raised is None, 'error-swallowed',
                          'simulation %d: a node raised %r, the iteration '
                          'ended normally' % (s, hook.raised))
                want = order
                if failed:
                    want = order[:count[0] - start]
                else:
                    done += 1
                ctx.check(trace == want, 'evaluation-order', lambda:
                          'simulation %d evaluated %r, the tree says %r'
                          % (s, trace, want))
                ctx.check(sim.data['iterations'] == done, 'iteration-count',
                          lambda: 'simulation %d counts %r iterations, %d '
                          'were completed' % (s, sim.data['iterations'],
                                              done))
                ctx.ev('sim', s, 'iter', done, failed, trace)
                ctx.state('S01', tuple(parents), failed, len(trace))
        sched.spawn('sim%d' % s, run)


# --------------------------------------------------------------------------

class TreeModel(object):
    def __init__(self):
        self.parent, self.children = {}, {}

    def add(self, i):
        self.parent[i], self.children[i] = None, []

    def set_parent(self, i, p):
        old = self.parent[i]
        if old == p:
            return
        if old is not None:
            self.children[old].remove(i)
        if p is not None:
            self.children[p].append(i)
        self.parent[i] = p

    def root(self, i):
        while self.parent[i] is not None:
            i = self.parent[i]
        return i

    def above(self, i):
        out = [i]
        while self.parent[i] is not None:
            i = self.parent[i]
            out.append(i)
        return out

    def pre(self, i):
        out = [i]
        for c in self.children[i]:
            out += self.pre(c)
        return out


class BadIter(object):
    """Iterable of nodes that fails part way."""

    def __init__(self, items, fail_at):
        self.items, self.fail_at = items, fail_at

    def __iter__(self):
        for i, x in enumerate(self.items):
            if i == self.fail_at:
                raise NodeFault('iterable failed')
            yield x
        if self.fail_at is not None and self.fail_at >= len(self.items):
            raise NodeFault('iterable failed')


class TreeEdits(Loop):
    id = 'S02'
    title = 'Edits of the logic tree do what they say, at any point of a run'
    rule = ('Histories of edits (<<, add, inject before, inject after, '
            'detach) by interleaved clients on shared trees, between '
            'iterations and between node evaluations of other simulations; '
            'iterables that fail half way, nodes that fail.  Non-trivial: a '
            'fault fired, clients interleaved, or a subtree was moved.')
    quick_runs = 4000
    thorough_runs = 200000
    NAMES = ['a', 'b', 'c', 'Reset', 'x y', '']

    def generate(self, rng):
        n = rng.randint(2, 9)
        clients = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.randint(2, 14)):
                r = rng.random()
                a, b = rng.randrange(n), rng.randrange(n)
                if r < .3:
                    ops.append(['shift', a, [rng.randrange(n) for _ in
                                             range(rng.randint(0, 4))],
                                rng.choice(['one', 'tuple', 'list', 'gen',
                                            'bad']), rng.randrange(5)])
                elif r < .4:
                    ops.append(['add', a, b])
                elif r < .6:
                    ops.append(['before', a, b])
                elif r < .8:
                    ops.append(['after', a, b])
                elif r < .86:
                    ops.append(['find', a, rng.randrange(8)])
                elif r < .9:
                    ops.append(['detach', a])
                else:
                    ops.append(['update', a, rng.choice([-1, -1, 0, 1, 3])])
            clients.append(ops)
        return {'names': [rng.randrange(6) if rng.random() < .4 else 6 + i
                          for i in range(n)], 'clients': clients,
                'sched': [rng.randrange(6) for _ in
                          range(rng.choice([0, 20, 100]))]}

    def execute(self, plan, ctx):
        sim = self.multi.MultiAgentSimulation()
        trace, state = [], {'fail': -1, 'count': 0}

        def hook(node):
            trace.append(nodes.index(node))
            state['count'] += 1
            if state['fail'] == state['count'] - 1:
                ctx.fault('node-fault')
                raise NodeFault('injected')
        model = TreeModel()
        nodes = []
        names = [self.NAMES[k] if k < len(self.NAMES) else 'node%d' % k
                 for k in plan['names']]
        for i, name in enumerate(names):
            nodes.append(self.probe(sim, name, hook))
            model.add(i)
        n = len(nodes)
        if not n:
            return

        def compare(when):
            for i in range(n):
                kids = [nodes.index(c) for c in nodes[i].children]
                par = nodes[i].parent
                par = None if par is None else nodes.index(par)
                ctx.check(par == model.parent[i] and
                          sorted(kids) == sorted(model.children[i]),
                          'tree-structure', lambda:
                          'after %s node %d has parent %r and children %r, '
                          'expected %r and %r' % (
                              when, i, par, kids, model.parent[i],
                              model.children[i]))
                ctx.check(kids == model.children[i], 'sibling-order', lambda:
                          'after %s children of node %d are %r, attached in '
                          'order %r' % (when, i, kids, model.children[i]))
            ctx.state('S02', tuple(model.parent[i] if model.parent[i] is not
                                   None else -1 for i in range(n)))

        def legal(par, kid):
            return kid not in model.above(par)

        def client(ops):
            for op in ops:
                sched.point(op[0])
                a = op[1] % n
                kind = op[0]
                if kind == 'shift':
                    kids, seen = [], set()
                    for x in op[2]:
                        x %= n
                        if legal(a, x) and x not in seen:
                            kids.append(x)
                            seen.add(x)
                    mode = op[3]
                    objs = [nodes[x] for x in kids]
                    fail = None
                    if mode == 'one':
                        kids, objs = kids[:1], objs[:1]
                        if not objs:
                            continue
                        arg = objs[0]
                    elif mode == 'tuple':
                        arg = tuple(objs)
                    elif mode == 'list':
                        arg = list(objs)
                    elif mode == 'gen':
                        arg = (o for o in objs)
                    else:
                        fail = min(op[4], len(objs))
                        arg = BadIter(objs, fail)
                    try:
                        out = nodes[a] << arg
                        ctx.check(fail is None, 'error-swallowed',
                                  'failure of the iterable vanished')
                        ctx.check(out is nodes[a], 'shift-result',
                                  '<< returned %r' % (out,))
                    except NodeFault:
                        ctx.fault('iterable-failed')
                        done = [x for x in kids if nodes[x].parent is
                                nodes[a]]
                        # what was attached before the failure may stay, but
                        # only in order and without a gap
                        before = [x for x in kids if model.parent[x] == a]
                        new = [x for x in done if x not in before]
                        ok = [x for x in kids if x not in before]
                        ctx.check(new == ok[:len(new)] and len(new) <= fail,
                                  'tree-structure', 'a failing iterable '
                                  'attached %r of %r' % (new, kids))
                        kids = [x for x in kids[:fail] if x in done]
                    for x in kids:
                        if model.children[x]:
                            ctx.nontrivial = True
                        model.set_parent(x, a)
                elif kind == 'add':
                    b = op[2] % n
                    if not legal(a, b):
                        continue
                    out = nodes[a].add_children(nodes[b])
                    ctx.check(out is nodes[a], 'add-result',
                              'add_children returned %r' % (out,))
                    model.set_parent(b, a)
                elif kind == 'before':
                    b = op[2] % n
                    if b in model.above(a) or a in model.above(b) or \
                            model.parent[a] is not None and \
                            model.parent[b] == model.parent[a]:
                        continue
                    par = model.parent[a]
                    nodes[a].inject_before(nodes[b])
                    model.set_parent(a, b)
                    model.set_parent(b, par)
                    ctx.probe('inject-before' + ('-root' if par is None
                                                 else ''))
                elif kind == 'after':
                    b = op[2] % n
                    if b in model.above(a) or a in model.above(b):
                        continue
                    nodes[a].inject_after(nodes[b])
                    for c in list(model.children[a]):
                        model.set_parent(c, b)
                    model.set_parent(b, a)
                    ctx.probe('inject-after')
                elif kind == 'detach':
                    nodes[a].parent = None
                    model.set_parent(a, None)
                elif kind == 'find':
                    k = op[2]
                    name = self.NAMES[k] if k < len(self.NAMES) else \
                        names[k % n]
                    hits = [i for i in model.pre(model.root(a))
                            if names[i] == name]
                    try:
                        got = nodes.index(nodes[a][name])
                    except KeyError:
                        got = None
                    if not hits:
                        ctx.check(got is None, 'lookup', 'found a node for '
                                  'the absent name %r' % name)
                    else:
                        ctx.check(got == hits[0], 'lookup', lambda:
                                  'lookup of %r gave node %r, the first in '
                                  'the tree is %r' % (name, got, hits[0]))
                    ctx.probe('find-hit' if hits else 'find-miss')
                elif kind == 'update':
                    sim.logic = nodes[a]
                    want = post_order(model.children, model.root(a))
                    del trace[:]
                    state['fail'], state['count'] = op[2], 0
                    try:
                        sim.update()
                        ctx.check(not 0 <= op[2] < len(want),
                                  'error-swallowed', 'node failure vanished')
                    except NodeFault:
                        want = want[:op[2] + 1]
                    ctx.check(trace == want, 'evaluation-order', lambda:
                              'iteration evaluated %r, the edited tree says '
                              '%r' % (trace, want))
                ctx.ev(*op)
                compare(' '.join(map(str, op)))
        sched = Scheduler(ctx, plan['sched'])
        for i, ops in enumerate(plan['clients']):
            sched.spawn('c%d' % i, lambda ops=ops: client(ops))
        sched.run()
        for t in sched.tasks:
            if t.error is not None:
                raise t.error


# --------------------------------------------------------------------------

class RunLoop(Loop):
    id = 'S03'
    title = 'Running stops exactly when the exit condition says so'
    rule = ('Exit conditions driven by the schedule, by other clients, '
            'changed or removed during the run, or failing; nodes failing; '
            'repeated runs of the same simulation; 1-3 runs interleaved at '
            'every condition check and node.  Non-trivial: a fault fired or '
            'runs interleaved.')
    quick_runs = 4000
    thorough_runs = 200000
    TRUTH = [(True, False), (1, 0), ('stop', ''), (np.bool_(True),
                                                   np.bool_(False)),
             ([0], []), (np.int64(3), np.int64(0)), (object(), None)]

    def generate(self, rng):
        sims = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            runs = []
            for _ in range(rng.randint(1, 4)):
                runs.append({'stop': rng.choice([0, 1, 2, 3, 7, 12]),
                             'truth': rng.randrange(7),
                             'falsy': rng.random() < .15,
                             'none': rng.random() < .15,
                             'fail_node': rng.choice([-1, -1, -1, 0, 2, 5]),
                             'fail_cond': rng.choice([-1, -1, -1, 0, 1, 4]),
                             'swap': rng.choice([-1, -1, 1, 3]),
                             'err': rng.choice(sorted(ERRORS))})
            sims.append({'runs': runs, 'nodes': rng.choice([1, 2, 3])})
        return {'sims': sims, 'sched': [rng.randrange(6) for _ in
                                        range(rng.choice([0, 20, 150]))]}

    def execute(self, plan, ctx):
        sched = Scheduler(ctx, plan['sched'])
        for s, p in enumerate(plan['sims']):
            self.client(ctx, sched, s, p)
        sched.run()
        for t in sched.tasks:
            if t.error is not None:
                raise t.error

    def client(self, ctx, sched, s, p):
        sim = self.multi.MultiAgentSimulation()
        hist = []           # C = condition, N = root node (one iteration)
        st = {}

        def fail(kind):
            ctx.fault('fail-' + kind)
            st['raised'] = ERRORS[kind]('injected')
            raise st['raised']

        def leaf(node):
            sched.point(node.name)

        def root(node):
            sched.point('root')
            r = st['run']
            i = st['iters']
            ctx.check(i < 400, 'runs-away', 'simulation %d does not stop' % s)
            st['iters'] += 1
            hist.append('N')
            if i == r['fail_node'] or r['none'] and i == r['stop']:
                fail(r['err'])
            if i == r['swap']:
                ctx.probe('condition-swapped')
                sim.exit_condition = condition(1)
            st['ok'] += 1
        nodes = max(1, p['nodes'])
        top = self.probe(sim, 'root', root)
        for i in range(nodes - 1):
            top << self.probe(sim, 'leaf%d' % i, leaf)
        sim.logic = top

        def condition(version):
            def cond(simulation):
                sched.point('exit?')
                r = st['run']
                hist.append('C')
                st['version'] = version
                ctx.check(simulation is sim, 'condition-argument', lambda:
                          'exit condition got %r' % (simulation,))
                st['conds'] += 1
                if st['conds'] - 1 == r['fail_cond']:
                    fail(r['err'])
                yes, no = self.TRUTH[r['truth'] % len(self.TRUTH)]
                st['said'] = st['iters'] >= r['stop']
                return yes if st['said'] else no

            class Counting(list):
                # a callable that is an empty collection itself
                def __call__(self, simulation):
                    return cond(simulation)

            return Counting() if st['run'].get('falsy') else cond

        def go():
            done = 0
            for r in p['runs']:
                st.update(run=r, iters=0, conds=0, ok=0, raised=None,
                          said=False, version=None)
                del hist[:]
                sim.exit_condition = None if r['none'] else condition(0)
                try:
                    sim.run()
                    err = None
                except BaseException as exc:
                    if st['raised'] is None:
                        raise
                    err = exc
                ctx.ev('sim', s, ''.join(hist), type(err).__name__)
                ctx.check(err is st['raised'], 'error-replaced', lambda:
                          'raised %r inside the run, the caller saw %r' % (
                              st['raised'], err))
                if err is None:
                    ctx.check(st['said'] and hist[-1] == 'C', 'early-stop',
                              lambda: 'the run ended after %s although the '
                              'condition had not been met' % ''.join(hist))
                h = ''.join(hist)
                if not r['none']:
                    ctx.check(h == ('CN' * len(h))[:len(h)],
                              'condition-order', lambda: 'checks (C) and '
                              'iterations (N) went %s' % h)
                elif 0 <= r['swap'] < st['iters']:
                    k = r['swap'] + 1
                    want = 'N' * k + ('CN' * len(h))
                    ctx.check(h == want[:len(h)], 'condition-order', lambda:
                              'checks and iterations went %s' % h)
                if 0 <= r['swap'] < st['ok'] and h.endswith('C'):
                    ctx.check(st['version'] == 1, 'stale-condition', 'the '
                              'exit condition was replaced during the run, '
                              'the old one is still consulted')
                done += st['ok']
                ctx.check(sim.data['iterations'] == done, 'iteration-count',
                          lambda: 'counter says %r, completed iterations are '
                          '%d' % (sim.data['iterations'], done))
                ctx.state('S03', h[:12], type(err).__name__)
        sched.spawn('sim%d' % s, go)


# --------------------------------------------------------------------------

class SimClock(Loop):
    id = 'S05'
    title = 'Simulated time and motion advance together, one step at a time'
    rule = ('Histories of iterations in which forces, velocities and time '
            'step limits are set by an adversary between steps, nodes fail '
            'before or after the integration, and the wall clock jumps.  '
            'Non-trivial: a node failed, the wall clock jumped, or the time '
            'step left its maximum.')
    quick_runs = 1000
    thorough_runs = 40000
    real = ('Integrator, Reset, MultiAgentSimulation',
            'core.integrator (pure Python, not compiled)')
    stub = ('numba (no compilation)', 'force sources (adversary node)',
            'wall clock')

    def prepare(self):
        super().prepare()
        from crowddynamics.simulation import agents
        self.agents = agents
        from crowddynamics.core import integrator
        self.steps = integrator
        np.random.seed(0)
        self.protos = [np.array(c(body_type='adult')) for c in (
            agents.Circular, agents.ThreeCircle)]

    def generate(self, rng):
        its = []
        scale = rng.choice([0, 1, 100, 1e4])
        for _ in range(rng.randint(1, 14)):
            its.append({'seed': rng.randrange(1 << 30),
                        'force': rng.choice([0, scale, scale, 1e5]),
                        'limits': rng.choice([-1, -1, -1, 0, 1, 2, 3]),
                        'kick': rng.choice([0, 0, 0, .1, 3, 100]),
                        'fail': rng.choice(['', '', '', '', 'before',
                                            'after']),
                        'jump': rng.choice([0, 0, 0, -86400, 3600])})
        return {'type': rng.randrange(2), 'n': rng.choice([1, 1, 2, 5]),
                'its': its, 'limits': rng.randrange(4),
                'away': rng.choice([0, 0, .3, .6]),
                'method': rng.choice([0, 0, 0, 0, 1, 2])}

    LIMITS = [(.01, .01), (.001, .01), (.0001, .5), (.02, .05)]

    def execute(self, plan, ctx):
        ag = self.agents
        three = plan['type'] % 2 == 1
        cls = ag.ThreeCircle if three else ag.Circular
        n = max(1, plan['n'])
        rs = np.random.RandomState(plan['np_seed'] % (2 ** 32))
        arr = np.concatenate([self.protos[int(three)]] * n)
        arr['mass'] *= rs.uniform(.5, 2, n)
        arr['inertia_rot'] *= rs.uniform(.5, 2, n)
        arr['target_velocity'] *= rs.uniform(.5, 2, n)
        arr['position'] = rs.uniform(-5, 5, (n, 2))
        if three:
            arr['orientation'] = rs.uniform(-np.pi, np.pi, n)
        if plan.get('away'):
            # some have left the domain already
            arr['active'] = rs.uniform(size=n) >= plan['away']
            ctx.probe('inactive-agents')
        sim = self.multi.MultiAgentSimulation()
        sim.agents = ag.Agents(agent_type=cls)
        sim.agents.array = arr
        box = {}
        scn = self

        class Adversary(self.logic.LogicNode):
            def update(self):
                it = box['it']
                r = np.random.RandomState(it['seed'])
                arr['force'] = r.normal(size=(n, 2)) * it['force']
                if three:
                    arr['torque'] = r.normal(size=n) * it['force'] * .05
                if it['kick']:
                    arr['velocity'] += r.normal(size=(n, 2)) * it['kick']
                box['pre'] = arr.copy()
                if it['fail'] == 'before':
                    ctx.fault('node-before-integration')
                    raise NodeFault('before')

        class After(self.logic.LogicNode):
            def update(self):
                if box['it']['fail'] == 'after':
                    ctx.fault('node-after-integration')
                    raise NodeFault('after')
        method = plan.get('method', 0) % 3
        steps = self.steps

        class Stepper(self.logic.Integrator):
            """The other integrators, used from a node."""
            def update(self):
                if method == 2 and box.get('init'):
                    return super().update()
                step = steps.euler_integrator if method == 1 else \
                    steps.velocity_verlet_integrator_init
                dt = step(arr, self.dt_min, self.dt_max)
                box['init'] = True
                sim.data['dt'] = dt
                sim.data['time_tot'] += dt
        integ = Stepper(sim) if method else self.logic.Integrator(sim)
        lim = self.LIMITS[plan['limits'] % 4]
        integ.dt_min, integ.dt_max = lim
        sim.logic = After(sim) << (integ << Adversary(sim))
        t_ref, done = 0.0, 0
        for it in plan['its']:
            box['it'] = it
            if it['limits'] >= 0:
                lim = self.LIMITS[it['limits'] % 4]
                integ.dt_min, integ.dt_max = lim
            if it['jump']:
                clock.jump(it['jump'])
                ctx.fault('wall-clock-jump')
            before = arr.copy()
            how = ('verlet', 'euler', 'verlet' if box.get('init') else
                   'init')[method]
            try:
                sim.update()
                failed = ''
                done += 1
            except NodeFault as exc:
                failed = str(exc)
            ctx.check(sim.data['iterations'] == done, 'iteration-count',
                      'iterations %r, completed %d' % (
                          sim.data['iterations'], done))
            if failed == 'before':
                ctx.check(sim.data['time_tot'] == t_ref, 'clock', lambda:
                          'time went from %r to %r without a step' % (
                              t_ref, sim.data['time_tot']))
                ctx.check(np.array_equal(arr['position'],
                                         before['position']), 'motion',
                          'agents moved without a step')
                continue
            dt = sim.data['dt']
            ctx.sim_time += float(dt)
            ctx.check(lim[0] <= dt <= lim[1], 'time-step', lambda:
                      'dt=%r outside [%r, %r]' % (dt, lim[0], lim[1]))
            t_ref = t_ref + dt
            ctx.check(abs(sim.data['time_tot'] - t_ref) <= 1e-12 * max(
                1, abs(t_ref)), 'clock', lambda: 'time_tot=%r, the steps add '
                'up to %r' % (sim.data['time_tot'], t_ref))
            if dt != lim[1]:
                ctx.probe('adaptive-step')
                ctx.nontrivial = True
            scn.judge(ctx, box['pre'], arr, dt, lim, three, how)
            ctx.probe(how)
            ctx.ev('iter', done, repr(float(dt)), failed)
            ctx.state('S05', round(float(dt), 4), failed, n, three)

    def judge(self, ctx, pre, post, dt, lim, three, how):
        vmax = float(np.max(np.hypot(pre['velocity'][:, 0],
                                     pre['velocity'][:, 1])))
        v0 = float(np.max(pre['target_velocity']))
        ctx.check(vmax * dt <= 1.1 * v0 * lim[1] * (1 + 1e-9) or
                  dt == lim[0], 'time-step', lambda: 'with speed %g a step of '
                  '%g moves further than the documented bound %g' % (
                      vmax, dt, 1.1 * v0 * lim[1]))
        if vmax <= v0:
            ctx.check(dt == lim[1], 'time-step', 'a slow crowd is stepped '
                      'with dt=%g instead of %g' % (dt, lim[1]))
        a1 = pre['force'] / pre['mass'][:, None]
        a0 = pre['force_prev'] / pre['mass'][:, None] \
            if how == 'verlet' else a1
        kept = (pre['force_prev'] if how == 'euler' else pre['force'])
        v = pre['velocity'] + (a0 + a1) / 2 * dt
        tol = 1e-9 * (1 + np.abs(v))
        ctx.check(np.all(np.abs(post['velocity'] - v) <= tol), 'motion',
                  lambda: 'velocity %r, the %s step gives %r' % (
                      post['velocity'].tolist(), how, v.tolist()))
        dx = post['position'] - pre['position']
        slack = 1.5 * np.maximum(np.abs(a0), np.abs(a1)) * dt ** 2 + \
            1e-9 * (1 + np.abs(post['position']))
        ctx.check(np.all(np.abs(dx - v * dt) <= slack), 'motion', lambda:
                  'displacement %r at velocity %r and dt %g' % (
                      dx.tolist(), v.tolist(), dt))
        if how != 'verlet':
            # the documented step
            want = pre['velocity'] * dt + a1 / 2 * dt ** 2
            ctx.check(np.all(np.abs(dx - want) <= 1e-9 * (
                1 + np.abs(post['position']))), 'motion', lambda:
                'displacement %r, the %s step of %g gives %r' % (
                    dx.tolist(), how, dt, want.tolist()))
        ctx.check(np.array_equal(post['force_prev'], kept), 'motion',
                  'the force of this step is not kept for the next')
        skip = {'position', 'velocity', 'force_prev'}
        if three:
            b1 = pre['torque'] / pre['inertia_rot']
            b0 = pre['torque_prev'] / pre['inertia_rot'] \
                if how == 'verlet' else b1
            kept = (pre['torque_prev'] if how == 'euler' else pre['torque'])
            w = pre['angular_velocity'] + (b0 + b1) / 2 * dt
            ctx.check(np.all(np.abs(post['angular_velocity'] - w) <=
                             1e-9 * (1 + np.abs(w))), 'motion',
                      'angular velocity does not follow the torque')
            turn = turn_of(post['orientation'] - pre['orientation'] - w * dt)
            ctx.check(np.all(turn <= 1.5 * np.maximum(
                np.abs(b0), np.abs(b1)) * dt ** 2 + 1e-6), 'motion',
                'orientation does not follow the angular velocity')
            if how != 'verlet':
                turn = turn_of(post['orientation'] - pre['orientation'] -
                               pre['angular_velocity'] * dt -
                               b1 / 2 * dt ** 2)
                ctx.check(np.all(turn <= 1e-8 * (1 + np.abs(w))), 'motion',
                          'orientation does not follow the documented step')
            ctx.check(np.all(np.abs(post['orientation']) <= np.pi + 1e-12),
                      'orientation-range', lambda: 'orientation %r' % (
                          post['orientation'].tolist(),))
            ctx.check(np.array_equal(post['torque_prev'], kept),
                      'motion', 'the torque of this step is not kept')
            skip |= {'orientation', 'angular_velocity', 'torque_prev',
                     'position_ls', 'position_rs'}
            phi = post['orientation']
            side = np.stack((np.sin(phi), -np.cos(phi)), axis=1) * \
                post['r_ts'][:, None]
            ctx.check(np.allclose(post['position_rs'] - post['position'],
                                  side, atol=1e-9) and
                      np.allclose(post['position_ls'] - post['position'],
                                  -side, atol=1e-9), 'motion',
                      'the shoulders do not move along')
        for f in post.dtype.names:
            if f not in skip:
                ctx.check(np.array_equal(post[f], pre[f]), 'motion',
                          'integration changed %s' % f)


# --------------------------------------------------------------------------

def turn_of(angle):
    return np.abs((angle + np.pi) % (2 * np.pi) - np.pi)


class Isolation(Loop):
    id = 'S06'
    title = 'Simulations in one process do not affect each other'
    rule = ('2-4 complete simulations (movement, interactions, steering, '
            'recording, states) interleaved at every logic node; each must '
            'end bit for bit as when it runs alone.  A co-hosted simulation '
            'may crash at any node.  Non-trivial: runs interleaved.')
    quick_runs = 160
    thorough_runs = 8000
    real = build.REAL
    stub = build.STUB
    pristine = True

    def prepare(self):
        super().prepare()
        build.prepare()

    def generate(self, rng):
        sims = [build.gen_sim(rng, fluctuation=False)]
        for _ in range(rng.randint(1, 3)):
            sims.append(build.relative(rng, sims[0]) if rng.random() < .6
                        else build.gen_sim(rng, fluctuation=False))
        return {'sims': sims,
                'iters': [rng.randint(1, 5) for _ in sims],
                'late': [rng.randrange(3) == 0 for _ in sims],
                'crash': rng.choice([-1, -1, 0, 3, 9, 20]),
                'sched': [rng.randrange(12) for _ in
                          range(rng.choice([0, 30, 300]))],
                'knobs': gen.disk_knobs(rng)}

    def execute(self, plan, ctx):
        k = plan['knobs']
        iters = plan['iters']
        sims = plan['sims'][:len(iters)]
        with Disk(ctx, (), k['buffer'], k['order']) as disk:
            disk.enabled = False
            alone = []
            for i, p in enumerate(sims):
                time, out = apart(lambda: self.alone(disk, p, i, iters[i]))
                ctx.sim_time += time
                alone.append(out)
            sched = Scheduler(ctx, plan['sched'], 100000)
            made = {}
            crashed = []

            def create(i):
                made[i] = build.make_sim(sims[i], disk.path('co%d' % i))
                build.hook_nodes(made[i], lambda node, i=i: hook(i, node))

            def client(i):
                if i not in made:
                    sched.point('%d:created' % i)
                    create(i)
                for _ in range(iters[i]):
                    try:
                        made[i].update()
                    except NodeFault:
                        crashed.append(i)
                        return
            count = [0]

            def hook(i, node):
                sched.point('%d:%s' % (i, node.name))
                if i == 0:
                    count[0] += 1
                    if count[0] - 1 == plan['crash']:
                        ctx.fault('co-hosted-crash')
                        raise NodeFault('injected')
            for i, p in enumerate(sims):
                os.mkdir(disk.path('co%d' % i))
                if not (plan['late'] + [False] * 9)[i]:
                    create(i)
                sched.spawn('sim%d' % i, lambda i=i: client(i))
            sched.run()
            for t in sched.tasks:
                if t.error is not None:
                    raise t.error
            for i, sim in sorted(made.items()):
                if i in crashed:
                    continue
                got = self.outcome(disk, sim, 'co%d' % i)
                for key in alone[i]:
                    ctx.check(got.get(key) == alone[i][key], 'not-isolated',
                              lambda: '%s of simulation %d of %d differs '
                              'from its run alone' % (key, i, len(made)))
                ctx.ev('sim', i, hash_bytes(got['agents']))
                ctx.state('S06', hash_bytes(got['agents']))

    def alone(self, disk, p, i, iters):
        d = 'solo%d' % i
        os.makedirs(disk.path(d), exist_ok=True)
        sim = build.make_sim(p, disk.path(d))
        for _ in range(iters):
            sim.update()
        return float(sim.data['time_tot']), self.outcome(disk, sim, d)

    @staticmethod
    def outcome(disk, sim, d):
        out = {'agents': sim.agents.array.tobytes(),
               'data': repr([(a, b) for a, b in sim.data.items()]),
               'meta': repr([(a, b) for a, b in sim.metadata.items()])}
        for dirpath, dirs, files in os.walk(disk.path(d)):
            for f in files:
                p = os.path.join(dirpath, f)
                rel = os.path.relpath(p, disk.root).split(os.sep)
                out['file ' + '/'.join(rel[1:])] = disk.read_bytes(*rel)
        return out


def apart(func):
    """func() in a process of its own, where nothing else has happened
    since this one forked; a failure is repeated here, where it is seen."""
    try:
        return core.in_child(func, 60)
    except core.HarnessError:
        return func()


def hash_bytes(b):
    import hashlib
    return hashlib.blake2b(b, digest_size=6).hexdigest()


# --------------------------------------------------------------------------

class Reproducible(Loop):
    id = 'S07'
    title = 'The random seed alone decides a run'
    rule = ('The same simulation twice with the same numpy seed, under '
            'different clocks, time zones, directory orders, I/O sizes, '
            'states of the random module and previous activity; '
            'trajectories and recorded files must be identical.  '
            'Non-trivial: fluctuation or random placement took part.')
    quick_runs = 160
    thorough_runs = 8000
    real = build.REAL
    stub = build.STUB
    pristine = True

    def prepare(self):
        super().prepare()
        build.prepare()

    def generate(self, rng):
        sim = build.gen_sim(rng, fluctuation=None)
        warm = rng.random()
        return {'sim': sim,
                'iters': rng.randint(1, 6),
                'hash': int(rng.random() < .08),
                'warmup': build.relative(rng, sim) if warm < .6 else
                build.gen_sim(rng, fluctuation=None) if warm < .75 else None,
                'shift': rng.choice([1, 3600, -86400, 1e7]),
                'zone': rng.choice([0, 7200, -18000]),
                'drift': rng.choice([0, .001, 5, 3600, 1e6, -5]),
                'knobs': [gen.disk_knobs(rng), gen.disk_knobs(rng)],
                'faults': [gen.faults(rng, gen.LEGAL, rng.randint(0, 4), 40),
                           gen.faults(rng, gen.LEGAL, rng.randint(0, 4),
                                      40)]}

    def execute(self, plan, ctx):
        import random
        if plan.get('hash'):
            # interpreters of their own, which hash strings differently
            ctx.fault('hash-seed')
            outs = [fresh.outcome(self.id, plan, h) for h in (101, 202)]
            for key in sorted(set(outs[0]) | set(outs[1])):
                ctx.check(outs[0].get(key) == outs[1].get(key),
                          'not-reproducible', lambda: '%s differs between '
                          'two interpreters with one seed' % key)
            if 'raised' in outs[0]:
                return      # it is seen in the runs that take place here
            ctx.ev('digest', outs[0]['agents'])
        first, ctx.sim_time = apart(lambda: self.once(plan, core.Ctx(), 0))
        clock.jump(plan['shift'])
        clock.local_offset = int(plan['zone'])
        clock.drift = plan['drift']
        random.seed(987654321)
        ctx.fault('clock-shift')
        if plan['warmup']:
            with Disk(ctx, (), 100, 1) as d2:
                os.mkdir(d2.path('w'))
                w = build.make_sim(plan['warmup'], d2.path('w'))
                w.update()
            ctx.probe('earlier-activity')
        second, _ = self.once(plan, ctx, 1)
        outs = [first, second]
        ctx.nontrivial = True
        for key in set(outs[0]) | set(outs[1]):
            ctx.check(outs[0].get(key) == outs[1].get(key), 'not-reproducible',
                      lambda: '%s differs between two runs with one seed'
                      % key)
        ctx.ev('digest', hash_bytes(outs[0]['agents']))
        ctx.state('S07', hash_bytes(outs[0]['agents']))

    def fresh(self, plan):
        out, _ = self.once(plan, core.Ctx(), 0)
        return {k: hash_bytes(v if isinstance(v, bytes) else v.encode())
                for k, v in out.items()}

    def once(self, plan, ctx, round_):
        k = plan['knobs'][round_ % len(plan['knobs'])]
        with Disk(ctx, plan['faults'][round_ % len(plan['faults'])],
                  k['buffer'], k['order']) as disk:
            np.random.seed(plan['np_seed'] % (2 ** 32))
            os.mkdir(disk.path('d'))
            sim = build.make_sim(plan['sim'], disk.path('d'), reseed=False)
            for _ in range(plan['iters']):
                sim.update()
            disk.enabled = False
            out = Isolation.outcome(disk, sim, 'd')
            out.pop('meta')
            # metadata holds the creation time, by design
            out = {a: b for a, b in out.items() if 'metadata' not in a}
        return out, float(sim.data['time_tot'])


# --------------------------------------------------------------------------

class CreationTime(Loop):
    id = 'S08'
    title = 'A simulation is stamped once, in UTC, when it is created'
    rule = ('Simulations created, inspected, copied and run while the wall '
            'clock jumps, drifts at every read and changes time zone.  '
            'Non-trivial: the clock was disturbed.')
    quick_runs = 4000
    thorough_runs = 200000

    def prepare(self):
        super().prepare()

        class MySim(self.multi.MultiAgentSimulation):
            pass
        MySim.__qualname__ = MySim.__name__
        globals()['MySim'] = MySim
        MySim.__module__ = __name__
        self.MySim = MySim

    def generate(self, rng):
        ops = []
        for _ in range(rng.randint(3, 20)):
            ops.append(rng.choice([
                ['make', rng.randrange(5), rng.randrange(4), -1],
                ['make', rng.randrange(5), rng.randrange(4),
                 rng.choice([-1, -1, rng.randrange(8)])],
                ['jump', rng.choice([-1e9, -3600, -.5, .25, 1, 86399, 1e8])],
                ['zone', rng.choice([0, 3600, -43200, 50400, 19800])],
                ['drift', rng.choice([0, 1e-6, 1, 3600, -10])],
                ['look', rng.randrange(8)], ['copy', rng.randrange(8)],
                ['update', rng.randrange(8)]]))
        return {'ops': ops}

    NAMES = [None, 'crowd', 'my_sim', 'x', 'my  hall 2']

    def execute(self, plan, ctx):
        import datetime as dt
        sims = []

        def stamp(x):
            d = x - dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
            return d.total_seconds()

        def look(rec):
            sim, lo, hi, first, name = rec
            t = sim.timestamp
            ctx.check(t.tzinfo is not None and t.utcoffset() ==
                      dt.timedelta(0), 'not-utc', lambda:
                      'timestamp %r is not UTC' % (t,))
            ctx.check(min(lo, hi) - 2e-6 <= stamp(t) <= max(lo, hi) + 2e-6,
                      'wrong-time', lambda: 'created between %r and %r, '
                      'stamped %r' % (lo, hi, stamp(t)))
            nwt = sim.name_with_timestamp
            ctx.check(sim.name == name, 'name', lambda: 'name %r, given %r'
                      % (sim.name, name))
            ctx.check(nwt.startswith(name + '_') and
                      ' ' not in nwt[len(name):],
                      'run-name', lambda: 'run name %r' % nwt)
            now = (str(t), sim.metadata.get('name'),
                   sim.metadata.get('timestamp'), nwt)
            ctx.check(now[1] == name and now[2] == str(t), 'metadata',
                      lambda: 'metadata %r of simulation %r stamped %s' % (
                          dict(sim.metadata), name, t))
            text = nwt[len(name) + 1:].replace('_', ' ')
            try:
                back = dt.datetime.fromisoformat(text)
            except ValueError:
                back = None
            ctx.check(back is not None and abs(stamp(back) - stamp(t)) < 1e-6,
                      'run-name', lambda: 'run name %r does not carry the '
                      'time stamp %s' % (nwt, t))
            if rec[3] is None:
                rec[3] = now
            ctx.check(rec[3] == now, 'stamp-changed', lambda:
                      'stamp went from %r to %r' % (rec[3], now))

        disturbed = False
        for op in plan['ops']:
            if op[0] == 'make':
                name = self.NAMES[op[1] % 5]
                cls = [self.multi.MultiAgentSimulation, self.MySim,
                       self.base.SimulationBase, self.MySim][op[2] % 4]
                lo = clock.now
                kw = dict(name=name) if name else {}
                if len(op) > 3 and op[3] >= 0 and sims:
                    # starts from the metadata of an earlier simulation
                    kw['metadata'] = copy.copy(
                        sims[op[3] % len(sims)][0].metadata)
                    ctx.probe('metadata-given')
                sim = cls(**kw)
                hi = clock.now
                rec = [sim, lo, hi, None, name or cls.__name__]
                sims.append(rec)
                if disturbed:
                    ctx.nontrivial = True
                if op[2] % 2:
                    look(rec)
                other = {}
                for r in sims:
                    t = r[0].metadata.get('timestamp')
                    key = r[0].name_with_timestamp
                    ctx.check(other.setdefault(key, (t, r[4])) == (t, r[4]),
                              'run-name', 'two simulations created at %s and '
                              '%s share the run name %s' % (
                                  other[key], t, key))
            elif op[0] == 'jump':
                if not -2e9 < clock.now - EPOCH + op[1] < 2e9:
                    continue
                clock.jump(op[1])
                ctx.fault('clock-jump')
                disturbed = True
            elif op[0] == 'zone':
                clock.local_offset = int(op[1])
                ctx.fault('time-zone')
                disturbed = True
            elif op[0] == 'drift':
                clock.drift = op[1]
                ctx.fault('clock-drift')
                disturbed = True
            elif sims:
                rec = sims[op[1] % len(sims)]
                if op[0] == 'look':
                    look(rec)
                elif op[0] == 'copy':
                    look(rec)
                    twin = copy.deepcopy(rec[0])
                    look([twin] + rec[1:])
                    sims.append([twin] + rec[1:])
                elif op[0] == 'update' and hasattr(rec[0], 'logic'):
                    if rec[0].logic is None:
                        rec[0].logic = self.probe(rec[0], 'n', lambda n: None)
                    rec[0].update()
            ctx.ev(*op)
            ctx.state('S08', op[0], len(sims), clock.drift,
                      clock.local_offset)
        clock.jump(12345.678)
        for rec in sims:
            look(rec)


SCENARIOS = [EvaluationOrder, TreeEdits, RunLoop, SimClock, Isolation,
             Reproducible, CreationTime]
