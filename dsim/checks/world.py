"""Physics, bookkeeping, steering and random sources as parts of simulated
runs: schedules of pairs, nodes, obstacles, faults between nodes."""
import math
import random
from collections import Counter

import numpy as np

from dsim import build
from dsim.core import BadPlan, Scenario


class NodeFault(Exception):
    pass


class World(Scenario):
    real = build.REAL
    stub = build.STUB

    def prepare(self):
        build.prepare()
        import cell_lists
        self.cells = cell_lists
        self.b = build._m
        self.agents_mod = self.b['agents']
        self.logic = self.b['logic']
        self.sg = self.b['sg']

    def bare_sim(self, array, three, domain=None, obstacles=None,
                 targets=()):
        sim = self.b['multi'].MultiAgentSimulation()
        f = self.b['Field']()
        if domain is not None:
            f.domain = domain
        if obstacles is not None:
            f.obstacles = obstacles
        f.targets = list(targets)
        sim.field = f
        a = self.agents_mod.Agents(
            agent_type=self.agents_mod.ThreeCircle if three else
            self.agents_mod.Circular)
        a.array = array
        a.index = len(array)
        sim.agents = a
        return sim

    def lines(self, segs):
        """Line obstacles as one geometry (None when there are none)."""
        geom = None
        for p, q in segs:
            g = self.sg.LineString([tuple(p), tuple(q)])
            geom = g if geom is None else geom | g
        return geom

    def row(self, three, **kw):
        cls = self.agents_mod.ThreeCircle if three else \
            self.agents_mod.Circular
        return np.array(cls(**kw))


def order_of(kind, seed):
    r = random.Random(seed)

    def schedule(pairs):
        pairs = list(pairs)
        if kind in ('reverse', 'both'):
            pairs.reverse()
        if kind == 'shuffle' or kind == 'mix':
            r.shuffle(pairs)
        if kind in ('flip', 'both'):
            pairs = [(j, i) for i, j in pairs]
        if kind == 'mix':
            pairs = [(j, i) if r.random() < .5 else (i, j) for i, j in pairs]
        return pairs
    return schedule


class ForceSchedule(World):
    id = 'A03'
    title = 'Forces do not depend on the order in which pairs are processed'
    rule = ('Random crowds from sparse to compressed, walls; the same '
            'instant is evaluated under several schedules of agent pairs '
            '(permuted, mirrored), cell sizes, agent numberings, wall orders '
            'and node orders.  Non-trivial: some pair exerts a force.')
    quick_runs = 900
    thorough_runs = 30000
    assumptions = ('the cell grid yields every pair within sight exactly '
                   'once',)
    NODES = ['adjust', 'pairs', 'walls', 'noise']

    def generate(self, rng):
        n = rng.choice([2, 2, 3, 5, 8])
        w = rng.choice([.6, 1.2, 2.5, 5, 9])
        edge = []
        if rng.random() < .4:
            n = rng.choice([0, 1])
            edge = [[round(12 * k + rng.uniform(0, 4), 4),
                     round(rng.uniform(-4, 4), 4),
                     rng.choice([0, 1.5708, 3.1416, 4.7124, round(
                         rng.uniform(0, 6.28), 4)]),
                     round(rng.uniform(2.6, 3.4), 4),
                     round(rng.uniform(.5, 2), 3),
                     round(rng.uniform(-.1, .1), 3)]
                    for k in range(rng.choice([1, 2, 3]))]
            w = 0.1
        return {'edge': edge, 'three': int(rng.random() < .5), 'equal': rng.random() < .5,
                'still': rng.random() < .1,
                'agents': [[round(rng.uniform(0, w), 4),
                            round(rng.uniform(0, w), 4),
                            round(rng.uniform(-2, 2), 4),
                            round(rng.uniform(-2, 2), 4),
                            round(rng.uniform(-3.1, 3.1), 4),
                            round(rng.uniform(.1, 1), 3)] for _ in range(n)],
                'walls': [[[round(rng.uniform(-.5, w), 3),
                            round(rng.uniform(-.5, w), 3)],
                           [round(rng.uniform(-.5, w), 3),
                            round(rng.uniform(-.5, w), 3)]]
                          for _ in range(rng.randrange(4))],
                'pre': rng.random() < .5,
                'variants': [[rng.choice(['reverse', 'flip', 'shuffle',
                                          'mix', 'both']),
                              rng.randrange(1 << 20),
                              rng.choice(['plain', 'number', 'cell', 'order',
                                          'walls', 'hidden', 'shift'])]
                             for _ in range(3)],
                'noise': rng.randrange(1 << 30)}

    def crowd(self, plan):
        three = plan['three']
        rows = []
        members = list(plan['agents'])
        for e in plan.get('edge', []):
            x, y, phi, d, speed, jitter = (list(e) + [0.0] * 6)[:6]
            # two agents that just see each other, on collision course
            d = max(2.2, min(3.4, d))
            ux, uy = math.cos(phi), math.sin(phi)
            phi = math.atan2(uy, ux)
            members.append([x, y, speed * ux, speed * uy + jitter, phi,
                            .5])
            members.append([x + d * ux, y + d * uy, -speed * ux,
                            -speed * uy, phi, .5])
        for x, y, vx, vy, phi, k in members:
            k = max(.05, min(1, k))
            if plan['still']:
                vx = vy = 0.0
            kw = dict(radius=.25, mass=75.0, target_velocity=1.2,
                      position=(x, y), velocity=(vx, vy),
                      target_direction=(math.cos(phi), math.sin(phi)))
            if three:
                kw.update(orientation=phi, r_t=.15, r_s=.1, r_ts=.15,
                          inertia_rot=4.0, target_orientation=-phi,
                          target_angular_velocity=3.0)
            if not plan['equal']:
                kw.update(mass=50 + 40 * k, mu=1e5 * k, kappa=3e4 * k,
                          damping=500 * k, k_soc=1 + k, tau_0=2 + k,
                          radius=.2 + .1 * k)
            rows.append(self.row(three, **kw))
        if not rows:
            raise BadPlan()
        return np.concatenate(rows)

    @staticmethod
    def move(array, three, d):
        for name in ['position'] + ['position_ls', 'position_rs'] * three:
            array[name] += d

    def evaluate(self, array, three, walls, order, names, cell=None):
        sim = self.bare_sim(array, three, obstacles=self.lines(walls))
        lg = self.logic
        for name in names:
            if name == 'pairs':
                node = lg.AgentAgentInteractions(sim)
                if cell is not None:
                    node.cell_size = cell
            elif name == 'walls':
                node = lg.AgentObstacleInteractions(sim)
            elif name == 'noise':
                node = lg.Fluctuation(sim)
                np.random.seed(self.noise)
            else:
                node = lg.Adjusting(sim)
            self.cells.PAIR_SCHEDULE = order
            node.update()
            self.cells.PAIR_SCHEDULE = None
        return sim.agents.array

    def execute(self, plan, ctx):
        three = bool(plan['three'])
        self.noise = int(plan.get('noise', 1)) % (1 << 32)
        base = self.crowd(plan)
        n = len(base)
        if n == 0:
            raise BadPlan()
        walls = [w for w in plan['walls'] if math.dist(*w) > .05]
        fields = ['force', 'torque'] if three else ['force']
        f0 = np.zeros((n, 2))
        if plan['pre']:
            f0 = np.arange(2 * n).reshape(n, 2) * 1.5
            base['force'] = f0
        ref = self.evaluate(base.copy(), three, walls, None, self.NODES)
        quiet = self.evaluate(base.copy(), three, walls, None,
                              self.NODES[:3])
        # nothing but force and torque changes
        for name in base.dtype.names:
            if name not in ('force', 'torque'):
                ctx.check(ref[name].tobytes() == base[name].tobytes(),
                          'side-effect', lambda: 'computing forces changed '
                          '%s' % name)
        pairs = self.evaluate(base.copy(), three, walls, None, ['pairs'])
        delta = pairs['force'] - f0
        scale = 1.0 + np.abs(ref['force']).max()
        if three:
            scale_t = 1.0 + np.abs(ref['torque']).max()
        if np.abs(delta).max() > 0:
            ctx.nontrivial = True
            ctx.probe('pair force')
        if plan['equal']:
            ctx.check(np.abs(delta.sum(axis=0)).max() < 1e-7 * scale,
                      'reaction', lambda: 'forces between equal agents do '
                      'not cancel: %r' % delta.tolist())
        # agents out of everybody's sight feel nothing
        for i in range(n):
            d = [math.dist(base['position'][i], base['position'][j])
                 for j in range(n) if j != i]
            if d and min(d) > 4.2:
                ctx.probe('out of sight')
                ctx.check(not delta[i].any(), 'range', lambda: 'agent %d '
                          'is %g away from everybody and feels %r' % (
                              i, min(d), delta[i].tolist()))
        for kind, seed, what in plan['variants']:
            order = order_of(kind, seed)
            if what in ('cell', 'shift'):
                # small forces count as well
                cell = random.Random(seed).choice([3.8, 5.1, 50.0])
                moved = base.copy()
                if what == 'shift':
                    self.move(moved, three, random.Random(seed).choice(
                        [-2.5, -1.75, .75, 1.25, 2.25, 40.5]))
                    cell = None
                alone = self.evaluate(moved, three, [], order, ['pairs'],
                                      cell)
                for name in fields:
                    got, want = alone[name], pairs[name]
                    tol = 1e-6 * np.abs(want).max() + 1e-9
                    ctx.check(np.abs(got - want).max() <= tol, 'schedule',
                              lambda: 'pair %s differs with cell size %r '
                              '(%s): %r instead of %r' % (
                                  name, cell, what, got.tolist(), want.tolist()))
            arr, w, names, cell = base.copy(), list(walls), self.NODES, None
            perm = np.arange(n)
            r = random.Random(seed)
            if what == 'number':
                perm = np.array(r.sample(range(n), n))
                arr = arr[perm].copy()
            elif what == 'cell':
                cell = r.choice([3.8, 4.7, 10.0, 1000.0])
            elif what == 'order':
                names = r.sample(self.NODES, len(self.NODES))
            elif what == 'walls':
                r.shuffle(w)
                w = [[q, p] if r.random() < .5 else [p, q] for p, q in w]
            elif what == 'shift':
                d = r.choice([-2.5, -1.75, .75, 1.25, 2.25])
                self.move(arr, three, d)
                w = [[[c + d for c in q] for q in e] for e in w]
            elif what == 'hidden':
                # a crowd far away changes nothing here
                far = arr.copy()
                self.move(far, three, 40.0)
                arr = np.concatenate((arr, far))
            goal = ref
            if what in ('hidden', 'number'):
                # the noise is drawn for the whole array of agents
                names = [x for x in names if x != 'noise']
                goal = quiet
            out = self.evaluate(arr, three, w, order, names, cell)
            ctx.fault('schedule-' + kind)
            ctx.ev(kind, what)
            for name in fields:
                tol = 1e-7 * (scale if name == 'force' else scale_t)
                got = out[name][:n]
                want = goal[name][perm]
                ctx.check(np.abs(got - want).max() < tol, 'schedule', lambda:
                          '%s differs under pair schedule %s / %s: %r '
                          'instead of %r' % (name, kind, what, got.tolist(),
                                             want.tolist()))
        ctx.state('A03', three, plan['equal'], n, len(walls),
                  int(np.count_nonzero(delta)))


class Frame(World):
    id = 'A04'
    title = 'Each logic node changes only the state it is responsible for'
    rule = ('Complete simulations with random parts; before and after every '
            'node evaluation the crowd is compared field by field; pair '
            'schedules vary; the simulator kicks, turns, moves and '
            'reassigns agents between iterations and aborts iterations at '
            'any node, and the run goes on; every force node is evaluated '
            'a second time on top of other forces.  Non-trivial: a '
            'fault or more than one agent.')
    quick_runs = 500
    thorough_runs = 12000
    assumptions = ('the crowd is placed without overlap',)
    MAY = {
        'Reset': {'force', 'torque'},
        'Integrator': {'position', 'velocity', 'force_prev', 'torque_prev',
                       'orientation', 'angular_velocity', 'position_ls',
                       'position_rs'},
        'Fluctuation': {'force', 'torque'},
        'Adjusting': {'force', 'torque'},
        'AgentAgentInteractions': {'force', 'torque'},
        'AgentObstacleInteractions': {'force', 'torque'},
        'Navigation': {'target_direction'},
        'LeaderFollower': {'target_direction', 'target', 'index_leader'},
        'LeaderFollowerWithHerding': {'target_direction', 'target',
                                      'index_leader'},
        'ExitDetection': {'target', 'is_follower'},
        'Orientation': {'target_orientation'},
        'SaveSimulationData': set(),
        'InsideDomain': {'active'},
        'TargetReached': {'target_reached'},
        'Bomb': set()}

    def generate(self, rng):
        return {'sim': build.gen_sim(rng),
                'steps': rng.choice([1, 3, 6, 12]),
                'sched': [rng.choice(['mix', 'reverse', 'none']),
                          rng.randrange(1 << 20)],
                'bombs': [[rng.randrange(12), rng.randrange(14)]
                          for _ in range(rng.choice([0, 0, 1, 3]))],
                'kicks': [[rng.randrange(7), rng.randrange(7),
                           rng.choice(self.KICKS),
                           round(rng.uniform(-1, 1), 3)]
                          for _ in range(rng.choice([0, 2, 4, 8]))]}

    KICKS = ['speed', 'outside', 'inactive', 'spin', 'target', 'role',
             'still', 'lost']

    def kick(self, p, agents, k, kind, a):
        """Something else in the simulation changes the crowd."""
        k = k % len(agents)
        row = agents[k:k + 1]
        if kind == 'speed':
            row['velocity'] = (4 * a, -2 * a)
        elif kind == 'outside':
            row['position'] = (-4.0 - 2 * k, 3 * a)
            if p['type'] % 2:
                self.agents_mod.shoulders(row)
        elif kind == 'inactive':
            row['active'] = False
        elif kind == 'spin' and p['type'] % 2:
            row['angular_velocity'] = 300 * a
        elif kind == 'target':
            row['target'] = int(2 * abs(a)) if a > -.5 else -1
        elif kind == 'role':
            row['is_follower'] = a > 0
            row['is_leader'] = a < -.6
        elif kind == 'still':
            row['velocity'] = 0
            row['target_direction'] = 0
        elif kind == 'lost':
            row['index_leader'] = -1
            row['target'] = -1

    FORCES = ('Fluctuation', 'Adjusting', 'AgentAgentInteractions',
              'AgentObstacleInteractions')

    @staticmethod
    def concerned(name, before, sim):
        """The agents a node steers (None: all of them)."""
        if name == 'Navigation':
            return (before['target'] >= 0) & (
                before['target'] < len(sim.field.targets))
        if name in ('LeaderFollower', 'LeaderFollowerWithHerding',
                    'ExitDetection'):
            return before['is_follower'].copy()
        return None

    def additive(self, ctx, node, orig, sim, before, stream):
        """What a force node adds does not depend on what was there."""
        arr = sim.agents.array
        first, after = arr.copy(), np.random.get_state()
        fields = [n for n in ('force', 'torque') if n in arr.dtype.names]
        arr[:] = before
        for n in fields:
            arr[n] += 17.5
        np.random.set_state(stream)
        orig()
        for n in fields:
            got, want = arr[n] - first[n], 17.5
            tol = 1e-9 * (1 + np.abs(first[n]).max())
            ctx.check(np.abs(got - want).max() < tol, 'additive', lambda:
                      '%s does not add to the %s that was there: with 17.5 '
                      'more before there is %r more afterwards' % (
                          type(node).__name__, n, got.tolist()))
        arr[:] = first
        np.random.set_state(after)

    def execute(self, plan, ctx):
        import os
        import tempfile
        p = plan['sim']
        with tempfile.TemporaryDirectory(prefix='dsim-a04-') as tmp:
            self.go(plan, ctx, p, tmp)

    def go(self, plan, ctx, p, tmp):
        sim = build.make_sim(p, directory=tmp)
        kind, seed = plan['sched']
        if kind != 'none':
            self.cells.PAIR_SCHEDULE = order_of(kind, seed)
        names = [type(x).__name__ for x in build.nodes(sim)]
        bombs = {(a, b % max(1, len(names))) for a, b in plan['bombs']}
        it = [0]
        k = [0]

        def wrap(node, pos):
            orig = node.update
            allowed = self.MAY[type(node).__name__]

            def update():
                if (it[0], pos) in bombs:
                    raise NodeFault()
                before = sim.agents.array.copy()
                size = len(before)
                stream = np.random.get_state()
                orig()
                arr = sim.agents.array
                if type(node).__name__ in self.FORCES:
                    self.additive(ctx, node, orig, sim, before, stream)
                rows = self.concerned(type(node).__name__, before, sim)
                if rows is not None:
                    for name in allowed:
                        ctx.check(arr[name][~rows].tobytes() ==
                                  before[name][~rows].tobytes(), 'concerned',
                                  lambda: '%s changed %s of agents it does '
                                  'not steer: %r -> %r (steers %r)' % (
                                      type(node).__name__, name,
                                      before[name].tolist(),
                                      arr[name].tolist(), rows.tolist()))
                ctx.check(len(arr) == size, 'frame', lambda: '%s changed '
                          'the number of agents' % type(node).__name__)
                for name in arr.dtype.names:
                    if name not in allowed:
                        ctx.check(arr[name].tobytes() ==
                                  before[name].tobytes(), 'frame', lambda:
                                  '%s changed %s: %r -> %r' % (
                                      type(node).__name__, name,
                                      before[name].tolist(),
                                      arr[name].tolist()))
                    elif arr[name].dtype.kind == 'f':
                        ctx.check(bool(np.isfinite(arr[name]).all()),
                                  'finite', lambda: '%s left %s=%r' % (
                                      type(node).__name__, name,
                                      arr[name].tolist()))
                if 'orientation' in allowed and p['type'] % 2:
                    ctx.check(np.abs(arr['orientation']).max() <=
                              math.pi + 1e-12, 'angle', lambda:
                              'orientation %r' % arr['orientation'].tolist())
                if type(node).__name__ == 'Reset':
                    ctx.check(not arr['force'].any(), 'reset', 'forces '
                              'left after Reset')
                    if p['type'] % 2:
                        ctx.check(not arr['torque'].any(), 'reset',
                                  'torques left after Reset')
                if 'target_direction' in allowed:
                    l = np.hypot(*arr['target_direction'].T)
                    ctx.check(bool((np.abs(l - 1) < 1e-6).__or__(
                        l < 1 - 1e-6).all()), 'direction', lambda:
                        'target directions of length %r' % l.tolist())
            node.update = update
        for pos, node in enumerate(build.nodes(sim)):
            wrap(node, pos)
        for i in range(max(1, plan['steps'])):
            it[0] = i
            for at, k, what, a in plan.get('kicks', []):
                if at == i:
                    ctx.fault('kick-' + what)
                    self.kick(p, sim.agents.array, k, what, a)
            try:
                sim.update()
            except NodeFault:
                ctx.fault('node-abort')
        if len(sim.agents.array) > 1:
            ctx.nontrivial = True
        ctx.ev('frame', sorted(names), sim.data['iterations'],
               len(sim.agents.array))
        ctx.state('A04', tuple(names), kind, len(sim.agents.array),
                  plan['steps'])


def winding(px, py, v):
    """Independent point in polygon (crossing-count by winding number)."""
    w = 0
    for k in range(len(v)):
        (x0, y0), (x1, y1) = v[k], v[(k + 1) % len(v)]
        c = (x1 - x0) * (py - y0) - (px - x0) * (y1 - y0)
        if y0 <= py < y1 and c > 0:
            w += 1
        elif y1 <= py < y0 and c < 0:
            w -= 1
    return w != 0


def edge_distance(px, py, v):
    from dsim.checks.agents import seg_distance
    return min(seg_distance((px, py), v[k], v[(k + 1) % len(v)])
               for k in range(len(v)))


def meet(a, b, c, d):
    """Do two segments meet?"""
    def side(p, q, r):
        return cross((q[0] - p[0], q[1] - p[1]), (r[0] - p[0], r[1] - p[1]))
    return side(a, b, c) * side(a, b, d) <= 0 and \
        side(c, d, a) * side(c, d, b) <= 0


def within(q, rings):
    """Inside the first ring and in no other."""
    return [bool(winding(q[0], q[1], r)) for r in rings] == \
        [True] + [False] * (len(rings) - 1)


class Bookkeeping(World):
    id = 'A05'
    title = 'Domain and target counts match where the agents are and were'
    rule = ('Histories of agents that move, leave and re-enter a random '
            'domain and cross polygon targets, with node orders, aborted '
            'iterations and evaluation gaps chosen by the seed.  '
            'Non-trivial: somebody crossed a border or a fault.')
    quick_runs = 1500
    thorough_runs = 60000
    assumptions = ('no agent stands within 1e-6 of a border',)

    def star(self, rng, cx, cy, r):
        n = rng.choice([3, 4, 5, 8])
        a0 = rng.uniform(0, 6)
        return [[round(cx + r * rng.uniform(.4, 1) *
                       math.cos(a0 + 2 * math.pi * k / n), 3),
                 round(cy + r * rng.uniform(.4, 1) *
                       math.sin(a0 + 2 * math.pi * k / n), 3)]
                for k in range(n)]

    def generate(self, rng):
        n = rng.choice([1, 2, 4, 7])
        many = rng.random() < .02
        if many:
            n = rng.choice([130, 270, 300])
        domain = self.star(rng, 0, 0, 6)
        # mirrored so that it keeps its extent
        mx = min(p[0] for p in domain) + max(p[0] for p in domain)
        return {'three': rng.randrange(2), 'n': n,
                'domain': domain,
                'holes': [rng.choice([0, 0, 0, .3, .6]) for _ in range(5)],
                'targets': [[rng.choice(['poly', 'poly', 'line']),
                             self.star(rng, rng.uniform(-5, 5),
                                       rng.uniform(-5, 5),
                                       rng.choice([.5, 2, 5]))]
                            for _ in range(rng.choice([0, 1, 2, 4]))],
                'start': [[round(rng.uniform(-7, 7), 3),
                           round(rng.uniform(-7, 7), 3)] for _ in range(n)],
                'inactive': [rng.randrange(n) for _ in range(
                    rng.choice([0, 0, 1, 2]))],
                'order': [rng.randrange(3) for _ in range(3)],
                'nodes': rng.choice(['id', 'i', 'd', 'di']),
                'steps': [{'moves': [[rng.randrange(n),
                                      round(rng.uniform(-7, 7), 3),
                                      round(rng.uniform(-7, 7), 3)]
                                     for _ in range(rng.randrange(n + 1))],
                           'abort': rng.choice([None, None, None, None, 0, 1,
                                                2]),
                           'domain': rng.choice([
                               self.star(rng, 0, 0, 6),
                               [[-x, y] for x, y in domain],
                               [[round(mx - x, 6), y] for x, y in domain],
                               [[round(mx - x, 6), y] for x, y in domain],
                               [[y, x] for x, y in domain], domain])
                           if rng.random() < .15 else None,
                           'field': rng.randrange(2)}
                          for _ in range(2 if many else
                                         rng.choice([1, 3, 8, 16]))]}

    def execute(self, plan, ctx):
        sg = self.sg
        n = max(1, plan['n'])
        dom = [tuple(p) for p in plan['domain']]
        if len(dom) < 3 or len(set(dom)) != len(dom):
            raise BadPlan()
        targets, polys = [], {}
        holes = (list(plan['holes']) + [0] * 5)[:5]

        def rings(pts, f):
            # the hole is a smaller copy of the shell, seen from its middle
            cx, cy = (sum(c) / len(pts) for c in zip(*pts))
            hole = [(cx + f * (x - cx), cy + f * (y - cy)) for x, y in pts]
            edges = list(zip(pts, pts[1:] + pts[:1]))
            ok = f and all(winding(x, y, pts) for x, y in hole) and not any(
                meet(a, b, c, d) for c, d in edges
                for a, b in zip(hole, hole[1:] + hole[:1]))
            return [pts, hole] if ok else [pts]
        dom = rings(dom, holes[0])
        for k, (kind, pts) in enumerate(plan['targets']):
            pts = [tuple(p) for p in pts]
            if len(pts) < 3 or len(set(pts)) != len(pts):
                raise BadPlan()
            if kind == 'poly':
                polys[k] = rings(pts, holes[1 + k % 4])
                targets.append(sg.Polygon(polys[k][0], polys[k][1:]))
            else:
                targets.append(sg.LineString(pts[:2]))
        start = [tuple(plan['start'][i % len(plan['start'])])
                 for i in range(n)] if plan['start'] else [(0., 0.)] * n
        every = [r for v in polys.values() for r in v]
        cur = dict(abort=None, at=0, moves=(), dom=dom)

        def ok(q):
            return min(edge_distance(q[0], q[1], v)
                       for v in every + cur['dom']) > 1e-6
        if not all(ok(q) for q in start):
            raise BadPlan()
        arr = np.concatenate([self.row(plan['three'], radius=.2, mass=70.0,
                                       position=q) for q in start])
        for i in plan['inactive']:
            arr['active'][i % n] = False
        sim = self.bare_sim(arr, plan['three'], domain=sg.Polygon(dom[0], dom[1:]),
                            targets=targets)
        lg = self.logic
        seen = {k: set() for k in polys}
        pos = list(start)
        state = dict(inside=0, targets=0)

        class Mover(lg.LogicNode):
            def update(self):
                a = self.simulation.agents.array
                for i, x, y in cur['moves']:
                    if ok((x, y)):
                        a['position'][i % n] = (x, y)
                        pos[i % n] = (x, y)

        class Bomb(lg.LogicNode):
            where = 0

            def update(self):
                if cur['abort'] == self.where:
                    raise NodeFault()
        chain = [Mover(sim)]
        inside = reach = None
        if 'i' in plan['nodes']:
            inside = lg.InsideDomain(sim)
            chain.append(inside)
            ctx.check(sim.data['inactive'] == 0, 'count', 'starts nonzero')
        if 'd' in plan['nodes']:
            reach = lg.TargetReached(sim)
            chain.append(reach)
        keys = sorted(k for k in sim.data if k.startswith('target_'))
        if reach is not None:
            ctx.check(keys == sorted('target_%d' % k for k in polys),
                      'names', lambda: 'counters %r for polygon targets %r' %
                      (keys, sorted(polys)))
        # a random order of evaluation
        r = list(chain)
        chain = []
        for o in plan['order']:
            if r:
                chain.append(r.pop(o % len(r)))
        chain += r
        done = Counter()

        def hook(node, orig):
            def update():
                orig()
                if node is inside:
                    self.judge_inside(ctx, sim, pos, cur['dom'], n)
                elif node is reach:
                    for k, v in polys.items():
                        for i, q in enumerate(pos):
                            if within(q, v):
                                seen[k].add(i)
                    self.judge_targets(ctx, sim, seen)
            node.update = update
        for node in chain:
            hook(node, node.update)
        root = lg.Reset(sim)
        for k, node in enumerate(chain):
            b = Bomb(sim)
            b.where = k
            root << b
            root << node
        sim.logic = root
        last = None
        for s, step in enumerate(plan['steps']):
            cur.update(abort=step['abort'], moves=step['moves'])
            if step.get('domain'):
                self.exchange(ctx, sim, step, cur, rings, ok, pos, holes)
            try:
                sim.update()
            except NodeFault:
                ctx.fault('iteration-abort')
            ins = tuple(within(q, cur['dom']) for q in pos)
            if last is not None and ins != last:
                ctx.nontrivial = True
                ctx.probe('border crossed')
            last = ins
            ctx.ev('step', s, ins, sorted((k, len(v)) for k, v in
                                          seen.items()))
            ctx.state('A05', n, ins, tuple(sorted(
                len(v) for v in seen.values())), plan['nodes'])
        # the final word: what the counters say after a full iteration
        cur.update(abort=None, moves=())
        sim.update()
        if inside is not None:
            self.judge_inside(ctx, sim, pos, cur['dom'], n)
        if reach is not None:
            self.judge_targets(ctx, sim, seen)

    def exchange(self, ctx, sim, step, cur, rings, ok, pos, holes):
        """Another domain, in the same field or in a new one."""
        pts = [tuple(q) for q in step['domain']]
        if len(pts) < 3 or len(set(pts)) != len(pts):
            raise BadPlan()
        keep, cur['dom'] = cur['dom'], rings(pts, holes[0])
        if not all(ok(q) for q in pos):
            cur['dom'] = keep
            return
        domain = self.sg.Polygon(cur['dom'][0], cur['dom'][1:])
        if step.get('field'):
            field = self.b['Field']()
            field.targets = sim.field.targets
            field.domain = domain
            sim.field = field
        else:
            sim.field.domain = domain
        ctx.fault('other domain')

    def judge_inside(self, ctx, sim, pos, dom, n):
        want = [within(q, dom) for q in pos]
        got = [bool(v) for v in sim.agents.array['active']]
        ctx.check(got == want, 'active', lambda: 'agents at %r are active '
                  '%r, inside the domain %r' % (pos, got, want))
        ctx.check(int(sim.data['inactive']) == want.count(False), 'count',
                  lambda: '%d agents are outside the domain, the count of '
                  'inactive agents is %r' % (want.count(False),
                                             sim.data['inactive']))

    def judge_targets(self, ctx, sim, seen):
        for k, who in seen.items():
            got = sim.data['target_%d' % k]
            ctx.check(int(got) == len(who), 'reached', lambda: 'target %d '
                      'was reached by agents %r, its count is %r' % (
                          k, sorted(who), got))


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def blocked(p, q, walls):
    """Line of sight; None when too close to call."""
    p, q = np.asarray(p, float), np.asarray(q, float)
    u = q - p
    out = False
    for a, b in walls:
        a, b = np.asarray(a, float), np.asarray(b, float)
        v = b - a
        d = cross(u, v)
        if abs(d) < 1e-9 * (1 + np.hypot(*u) * np.hypot(*v)):
            return None
        t = cross(a - p, v) / d
        s = cross(a - p, u) / d
        for z in (t, s):
            if abs(z) < 1e-7 or abs(z - 1) < 1e-7:
                return None
        if 0 < t < 1 and 0 < s < 1:
            out = True
    return out


def between(w, e):
    """Distance from the segment w of the ends of e, roughly."""
    return min(math.dist((w[0][0] + (w[1][0] - w[0][0]) * k / 50,
                          w[0][1] + (w[1][1] - w[0][1]) * k / 50), p)
               for k in range(51) for p in e)


def unit(v):
    l = math.hypot(v[0], v[1])
    return (v[0] / l, v[1] / l) if l > 0 else (0.0, 0.0)


class Steering(World):
    id = 'A06'
    title = 'Followers follow visible leaders, remember them, find exits'
    rule = ('Histories of leaders, followers and others that move, hide '
            'behind walls and change targets between evaluations of the '
            'steering nodes, judged by a small model with memory; pair '
            'schedules vary for herding.  Non-trivial: somebody followed, '
            'lost or remembered a leader or found an exit.')
    quick_runs = 800
    thorough_runs = 40000
    assumptions = ('leaders are not followers',)

    def generate(self, rng):
        n = rng.choice([2, 3, 4, 6])
        w = 10.0
        x = rng.random()
        if x < .2:
            return self.corridor(rng, n)
        if x < .3:
            return self.hide(rng)
        return self.generate_free(rng, n, w)

    def hide(self, rng):
        """Many leaders on both sides of a wall, few followers near it."""
        n = rng.choice([5, 6, 8])
        plan = self.generate_free(rng, n, 10.0)
        plan['kind'] = rng.choice(['leader', 'leader', 'leader', 'herd'])
        plan['agents'] = [['leader', rng.randrange(-1, 3), 0]
                          for _ in range(n)]
        for _ in range(rng.choice([1, 1, 2])):
            plan['agents'][rng.randrange(n)] = [
                'follower', -1, rng.randrange(-1, 3)]
        plan['walls'] = [[[5.0, 2.5], [5.0, 7.5]]]
        plan['sight'] = rng.choice([20, 6, 4])

        def place(i):
            if plan['agents'][i][0] == 'follower':
                return [round(rng.uniform(5.2, 5.8), 3),
                        round(rng.uniform(4, 6), 3),
                        round(rng.uniform(-1, 1), 3),
                        round(rng.uniform(-1, 1), 3)]
            if rng.random() < .5:
                return [round(rng.uniform(3.5, 4.8), 3),
                        round(rng.uniform(4, 6), 3),
                        round(rng.uniform(-2, 0), 3),
                        round(rng.uniform(-1, 1), 3)]
            return [round(rng.uniform(6.2, 9.8), 3),
                    round(rng.uniform(3, 7), 3),
                    round(rng.uniform(-1, 2), 3),
                    round(rng.uniform(-1, 1), 3)]
        plan['pos'] = [place(i) for i in range(n)]
        for step in plan['steps']:
            step['moves'] = [[i] + place(i) for i in
                             (rng.randrange(n) for _ in range(n // 2))]
        return plan

    def corridor(self, rng, n):
        """Everybody on one line, walking along it."""
        plan = self.generate_free(rng, n, 10.0)
        y, axis = round(rng.uniform(1, 9), 3), rng.randrange(2)

        def place():
            x, v = round(rng.uniform(.2, 9.8), 3), rng.choice(
                [-1.5, -1.0, -.3, .3, 1.0, 1.5])
            return [x, y, v, 0.0] if axis else [y, x, 0.0, v]
        plan['pos'] = [place() for _ in plan['pos']]
        for step in plan['steps']:
            step['moves'] = [[m[0]] + place() for m in step['moves']]
        return plan

    @staticmethod
    def close_call(rng, sight):
        """A place nearly as far from one exit as from another one, or
        nearly at the limit of the sight."""
        mids = [(0, 3.5), (10, 5.5), (4.5, 10)]
        while True:
            (ax, ay), (bx, by) = rng.sample(mids, 2)
            off = rng.choice([-1, 1]) * rng.choice([1e-6, 1e-3, 4e-3, .02])
            d = math.hypot(bx - ax, by - ay)
            ex, ey = (bx - ax) / d, (by - ay) / d
            if rng.random() < .6:
                t = rng.uniform(-5, 5)
                q = ((ax + bx) / 2 + off * ex - t * ey,
                     (ay + by) / 2 + off * ey + t * ex)
            else:
                t = rng.uniform(0, 2 * math.pi)
                q = (ax + (sight + off) * math.cos(t),
                     ay + (sight + off) * math.sin(t))
            if all(.2 < c < 9.8 for c in q):
                return [round(c, 9) for c in q]
            if rng.random() < .05:
                return [5.0, 5.0]

    def generate_free(self, rng, n, w):
        plan = self.generate_any(rng, n, w)
        if 'exit' in plan['kind'] and rng.random() < .5:
            plan['walls'] = plan['walls'][:rng.randrange(2)]
            for q in plan['pos']:
                q[:2] = self.close_call(rng, plan['sight'])
            for step in plan['steps']:
                for m in step['moves']:
                    if rng.random() < .5:
                        m[1:3] = self.close_call(rng, plan['sight'])
        return plan

    def generate_any(self, rng, n, w):
        exits = [[[0, 3], [0, 4]], [[10, 5], [10, 6]], [[4, 10], [5, 10]]]
        rng.shuffle(exits)
        return {'three': rng.randrange(2), 'n': n,
                'open': rng.random() < .1,
                'kind': rng.choice(['leader', 'leader', 'herd', 'exit',
                                    'nav', 'exit+leader']),
                'agents': [[rng.choice(['leader', 'follower', 'follower',
                                        'other']),
                            rng.randrange(-1, 3), rng.randrange(-1, 3)]
                           for _ in range(n)],
                'walls': [[[round(rng.uniform(0, w), 3),
                            round(rng.uniform(0, w), 3)],
                           [round(rng.uniform(0, w), 3),
                            round(rng.uniform(0, w), 3)]]
                          for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                'exits': exits,
                'sight': rng.choice([20, 6, 3, 1.5]), 'near': rng.choice([1, 2,
                                                                     5]),
                'pos': [[round(rng.uniform(.2, w - .2), 3),
                         round(rng.uniform(.2, w - .2), 3),
                         round(rng.uniform(-2, 2), 3),
                         round(rng.uniform(-2, 2), 3)] for _ in range(n)],
                'sched': [rng.choice(['mix', 'reverse', 'flip']),
                          rng.randrange(1 << 20)],
                'steps': [{'moves': [[rng.randrange(n),
                                      round(rng.uniform(.2, w - .2), 3),
                                      round(rng.uniform(.2, w - .2), 3),
                                      round(rng.uniform(-2, 2), 3),
                                      round(rng.uniform(-2, 2), 3)]
                                     for _ in range(rng.randrange(n + 1))],
                           'targets': [[rng.randrange(n),
                                        rng.randrange(-1, 3)]
                                       for _ in range(rng.choice([0, 0, 1]))],
                           'out': rng.random() < .05,
                           'scene': {
                               'walls': [[[round(rng.uniform(0, w), 3),
                                           round(rng.uniform(0, w), 3)]
                                          for _ in range(2)]
                                         for _ in range(rng.randrange(3))]
                               if rng.random() < .6 else None,
                               'turn': rng.randrange(3)}
                           if rng.random() < .15 else None}
                          for _ in range(rng.choice([1, 3, 6]))]}

    @staticmethod
    def usable_walls(plan, walls):
        walls = [w for w in walls if math.dist(*w) > .05]
        if 'nav' in plan['kind']:
            # navigation needs exits that are not blocked
            walls = [w for w in walls if all(
                between(w, e) > 1.5 for e in plan['exits'])]
        if not walls and not plan.get('open'):
            walls = [[[3.0, 3.1], [3.0, 5.2]]]
        return walls

    def execute(self, plan, ctx):
        n = max(1, plan['n'])
        three = plan['three']
        walls = self.usable_walls(plan, plan['walls'])
        rows = []
        for i in range(n):
            role, target, familiar = plan['agents'][i % len(plan['agents'])]
            x, y, vx, vy = plan['pos'][i % len(plan['pos'])]
            rows.append(self.row(
                three, radius=.2, mass=70.0, position=(x, y),
                velocity=(vx, vy), is_leader=role == 'leader',
                is_follower=role == 'follower', target=max(-1, target),
                familiar_exit=max(-1, familiar),
                target_direction=unit((vx, vy)) if (vx, vy) != (0, 0)
                else (1.0, 0.0)))
        arr = np.concatenate(rows)
        lines = [self.sg.LineString([tuple(p) for p in e])
                 for e in plan['exits']]
        sim = self.bare_sim(
            arr, three, domain=self.sg.Polygon([(0, 0), (10, 0), (10, 10),
                                                (0, 10)]),
            obstacles=self.lines(walls), targets=lines)
        lg = self.logic
        todo = plan['kind'].split('+')
        nodes = []
        for kind in todo:
            if kind == 'leader':
                nodes.append((kind, lg.LeaderFollower(
                    sim, sight=float(plan['sight']))))
            elif kind == 'herd':
                nodes.append((kind, lg.LeaderFollowerWithHerding(
                    sim, sight_follower=float(plan['sight']),
                    size_nearest_other=max(1, plan['near']))))
            elif kind == 'exit':
                nodes.append((kind, lg.ExitDetection(
                    sim, detection_range=float(plan['sight']))))
            elif kind == 'nav':
                nodes.append((kind, lg.Navigation(sim, step=.5)))
        for s, step in enumerate(plan['steps']):
            scene = step.get('scene')
            if scene:       # the building changes while the nodes live on
                turn = scene['turn'] % len(plan['exits'])
                plan = dict(plan, exits=plan['exits'][turn:] +
                            plan['exits'][:turn])
                sim.field.targets = [
                    self.sg.LineString([tuple(p) for p in e])
                    for e in plan['exits']]
                if scene['walls'] is not None:
                    walls = self.usable_walls(plan, scene['walls'])
                    sim.field.obstacles = self.lines(walls)
                ctx.probe('building changed')
            for i, x, y, vx, vy in step['moves']:
                arr['position'][i % n] = (x, y)
                arr['velocity'][i % n] = (vx, vy)
            for i, t in step['targets']:
                if arr['is_leader'][i % n]:
                    arr['target'][i % n] = max(-1, min(2, t))
            if step['out']:
                arr['position'][0] = (14.0, 15.0)
            for kind, node in nodes:
                before = arr.copy()
                node.update()
                ctx.ev(s, kind, arr['target'].tolist(),
                       arr['index_leader'].tolist(),
                       np.round(arr['target_direction'], 6).tolist())
                getattr(self, 'judge_' + kind)(ctx, plan, before, arr,
                                               walls, 'step %d' % s)
                ctx.state('A06', kind, tuple(arr['target'].tolist()),
                          tuple(arr['index_leader'].tolist()),
                          tuple(arr['is_follower'].tolist()))
                if kind == 'herd':
                    again = before.copy()
                    sim.agents.array = again
                    self.cells.PAIR_SCHEDULE = order_of(*plan['sched'])
                    node.update()
                    self.cells.PAIR_SCHEDULE = None
                    sim.agents.array = arr
                    ctx.fault('schedule-' + plan['sched'][0])
                    if not self.ties(before, plan):
                        for name in ('target', 'index_leader',
                                     'target_direction'):
                            ctx.check(np.allclose(again[name], arr[name],
                                                  atol=1e-6), 'schedule',
                                      lambda: 'step %d: %s depends on the '
                                      'pair schedule: %r or %r' % (
                                          s, name, arr[name].tolist(),
                                          again[name].tolist()))

    @staticmethod
    def ties(a, plan):
        """Equal distances: the nearest neighbours are ambiguous."""
        for i in range(len(a)):
            d = sorted(math.dist(a['position'][i], a['position'][j])
                       for j in range(len(a)) if j != i)
            if any(y - x < 1e-9 for x, y in zip(d, d[1:])) or \
                    any(abs(x - plan['sight']) < 1e-9 for x in d):
                return True
        return False

    # -- oracles ----------------------------------------------------------
    def others_unchanged(self, ctx, before, arr, who, where):
        for name in ('target', 'target_direction', 'index_leader',
                     'is_follower'):
            for i in range(len(arr)):
                if not who[i]:
                    ctx.check(arr[name][i].tobytes() ==
                              before[name][i].tobytes(), 'bystander',
                              lambda: '%s: agent %d is not concerned and its '
                              '%s changed from %r to %r' % (
                                  where, i, name, before[name][i],
                                  arr[name][i]))

    def judge_exit(self, ctx, plan, before, arr, walls, where):
        rng_ = float(plan['sight'])
        for i in range(len(arr)):
            p = before['position'][i]
            best, amb = None, False
            for c, (a, b) in enumerate(plan['exits']):
                m = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
                d = math.dist(p, m)
                if abs(d - rng_) < 1e-9:
                    amb = True
                if d >= rng_:
                    continue
                h = blocked(p, m, walls)
                if h is None:
                    amb = True
                if h is False:
                    if best is not None and abs(d - best[0]) < 1e-9:
                        amb = True
                    if best is None or d < best[0]:
                        best = (d, c)
            if amb:
                continue
            if before['is_follower'][i] and best is not None:
                ctx.nontrivial = True
                ctx.probe('exit found')
                ctx.check(int(arr['target'][i]) == best[1] and
                          not arr['is_follower'][i], 'exit', lambda: '%s: '
                          'agent %d sees exit %d first, has target %d and '
                          'is_follower=%r' % (where, i, best[1],
                                              arr['target'][i],
                                              arr['is_follower'][i]))
            else:
                ctx.check(arr['target'][i] == before['target'][i] and
                          arr['is_follower'][i] == before['is_follower'][i],
                          'exit', lambda: '%s: agent %d (follower: %r) sees '
                          'no exit and got target %d' % (
                              where, i, before['is_follower'][i],
                              arr['target'][i]))
        for name in ('target_direction', 'index_leader', 'is_leader',
                     'familiar_exit'):
            ctx.check(arr[name].tobytes() == before[name].tobytes(),
                      'bystander', '%s: exit detection changed %s' % (
                          where, name))

    def judge_nav(self, ctx, plan, before, arr, walls, where):
        for i in range(len(arr)):
            t = int(before['target'][i])
            p = before['position'][i]
            inside = 0 <= p[0] <= 10 and 0 <= p[1] <= 10
            if t < 0 or p[0] > 11 or p[1] > 11:
                ctx.check(arr['target_direction'][i].tobytes() ==
                          before['target_direction'][i].tobytes(),
                          'navigation', lambda: '%s: agent %d (target %d at '
                          '%r) got a new direction' % (where, i, t,
                                                       p.tolist()))
            elif inside:
                ctx.nontrivial = True
                got = arr['target_direction'][i]
                ctx.check(abs(math.hypot(*got) - 1) < 1e-6 or
                          got.tobytes() ==
                          before['target_direction'][i].tobytes(),
                          'navigation', lambda: '%s: agent %d at %r heads '
                          '%r for target %d' % (where, i, p.tolist(),
                                                got.tolist(), t))
        for name in ('target', 'index_leader', 'is_follower'):
            ctx.check(arr[name].tobytes() == before[name].tobytes(),
                      'bystander', '%s: navigation changed %s' % (where,
                                                                  name))

    def away(self, a, i, j):
        """Does j head away from i, or not come towards it? (None: close)"""
        v1, v2 = a['velocity'][i], a['velocity'][j]
        if not v1.any() or not v2.any():
            return False
        e = unit(a['position'][j] - a['position'][i])
        if e == (0.0, 0.0):
            return None
        u1, u2 = unit(v1), unit(v2)
        ci = e[0] * u1[0] + e[1] * u1[1]
        cj = -(e[0] * u2[0] + e[1] * u2[1])
        cos = math.cos(.45 * math.pi)
        if abs(ci - cos) < 1e-9 or abs(cj - cos) < 1e-9:
            return None
        return not cj > cos

    def model_leader(self, a, i, walls, sight):
        """-> strategy of follower i: (what, leader) or None (close call)."""
        d = sorted((math.dist(a['position'][i], a['position'][j]), j)
                   for j in range(len(a)) if a['is_leader'][j])
        for (x, _), (y, _) in zip(d, d[1:]):
            if y - x < 1e-9:
                return None
        memory = int(a['index_leader'][i])
        for dist, j in d:
            if abs(dist - sight) < 1e-9:
                return None
            if dist > sight:
                continue
            h = blocked(a['position'][i], a['position'][j], walls)
            if h is None:
                return None
            if h:
                if memory == j:
                    return ('behind', j)
                continue
            w = self.away(a, i, j)
            if w is None:
                return None
            if w:
                return ('follow', j)
        if memory != -1:
            return ('remember', memory)
        return ('lost', None)

    def judge_leader(self, ctx, plan, before, arr, walls, where,
                     sight=None, herd=None):
        sight = float(plan['sight']) if sight is None else sight
        self.others_unchanged(ctx, before, arr, before['is_follower'], where)
        for i in range(len(arr)):
            if not before['is_follower'][i]:
                continue
            ctx.check(int(arr['index_leader'][i]) in [-1] + [
                j for j in range(len(arr)) if arr['is_leader'][j]],
                'memory', lambda: '%s: follower %d remembers agent %d, who '
                'is no leader' % (where, i, arr['index_leader'][i]))
            got = self.model_leader(before, i, walls, sight)
            if got is None:
                continue
            what, j = got
            ctx.probe(what)
            t, mem = int(arr['target'][i]), int(arr['index_leader'][i])
            old = int(before['index_leader'][i])
            e = arr['target_direction'][i]
            if what == 'follow':
                ctx.nontrivial = True
                ctx.check(t == -1 and mem == j, 'follow', lambda: '%s: '
                          'follower %d sees leader %d ahead, has target %d '
                          'and remembers %d' % (where, i, j, t, mem))
                x = unit(before['position'][j] - before['position'][i])
                v = unit(before['velocity'][j])
                lead = unit((.4 * x[0] + .6 * v[0], .4 * x[1] + .6 * v[1]))
                if herd is None:
                    ctx.check(math.hypot(e[0] - lead[0], e[1] - lead[1])
                              < 1e-6, 'follow', lambda: '%s: follower %d '
                              'heads %r, following leader %d means %r' % (
                                  where, i, e.tolist(), j, lead))
            elif what in ('behind', 'remember'):
                ctx.nontrivial = True
                ctx.check(mem == old and t == int(before['target'][j]),
                          'memory', lambda: '%s: follower %d lost sight of '
                          'leader %d (target %d), has target %d and '
                          'remembers %d' % (where, i, j,
                                            before['target'][j], t, mem))
            elif herd is None:
                ctx.nontrivial = True
                ctx.check(mem == -1 and t == int(
                    before['familiar_exit'][i]), 'lost', lambda: '%s: '
                    'follower %d knows no leader, familiar exit %d, has '
                    'target %d' % (where, i, before['familiar_exit'][i], t))
            ctx.check(old == -1 or mem != -1, 'memory', lambda: '%s: '
                      'follower %d forgot leader %d' % (where, i, old))

    def judge_herd(self, ctx, plan, before, arr, walls, where):
        self.judge_leader(ctx, plan, before, arr, walls, where, sight=20.0,
                          herd=True)
        if self.ties(before, plan):
            return
        sight, k = float(plan['sight']), max(1, plan['near'])
        n = len(arr)
        for i in range(n):
            if not before['is_follower'][i]:
                continue
            near, close = [], False
            for j in range(n):
                if j == i:
                    continue
                d = math.dist(before['position'][i], before['position'][j])
                if d >= sight:
                    continue
                h = blocked(before['position'][i], before['position'][j],
                            walls)
                if h is None:
                    close = True
                if h is False:
                    near.append((d, j))
            near = [j for _, j in sorted(near)[:k]]
            group = []
            for j in near:
                w = self.away(before, i, j)
                if w is None:
                    close = True
                if w:
                    group.append(j)
            lead = self.model_leader(before, i, walls, 20.0)
            if close or lead is None:
                continue
            herd = (0.0, 0.0)
            if group:
                ctx.probe('herding')
                ctx.nontrivial = True
                mp = np.mean(before['position'][group], axis=0)
                mv = np.sum(before['velocity'][group], axis=0)
                if np.hypot(*mv) < 1e-6:
                    continue
                x, v = unit(mp - before['position'][i]), unit(mv)
                herd = (.15 * x[0] + .85 * v[0], .15 * x[1] + .85 * v[1])
                if math.hypot(*herd) < 1e-6:
                    continue
                herd = unit(herd)
            follow = (0.0, 0.0)
            if lead[0] == 'follow':
                j = lead[1]
                x = unit(before['position'][j] - before['position'][i])
                v = unit(before['velocity'][j])
                follow = (.4 * x[0] + .6 * v[0], .4 * x[1] + .6 * v[1])
                if math.hypot(*follow) < 1e-6:
                    continue
                follow = unit(follow)
            want = (.65 * follow[0] + .35 * herd[0],
                    .65 * follow[1] + .35 * herd[1])
            if 0 < math.hypot(*want) < 1e-6:
                continue
            want = unit(want)
            e = arr['target_direction'][i]
            ctx.check(math.hypot(e[0] - want[0], e[1] - want[1]) < 1e-6,
                      'herd', lambda: '%s: follower %d heads %r; neighbours '
                      '%r and leader strategy %r mean %r' % (
                          where, i, e.tolist(), group, lead, want))
            if lead[0] == 'lost':
                t = -1 if group else int(before['familiar_exit'][i])
                ctx.check(int(arr['target'][i]) == t, 'lost', lambda:
                          '%s: follower %d has target %d instead of %d' % (
                              where, i, arr['target'][i], t))


class Sampling(World):
    id = 'N01'
    title = 'Sampled points lie in their region and cover it evenly'
    rule = ('Several samplers over random convex polygons and polylines, '
            'interleaved on one random stream, abandoned and restarted; '
            'every point is tested, the counts of each run are tested '
            'against the area or length (6 sigma).  Non-trivial: two '
            'samplers interleaved.')
    quick_runs = 400
    thorough_runs = 8000
    real = ('core.sampling', 'core.rand', 'Field.sample_spawn')
    stub = ('numba, Delaunay stand-ins',)

    def prepare(self):
        World.prepare(self)
        from crowddynamics.core import sampling
        self.s = sampling

    def points(self, rng):
        if rng.random() < .06:      # a round region
            n, r = rng.choice([66, 90]), rng.uniform(2, 5)
            return [[round(r * math.cos(2 * math.pi * k / n), 3),
                     round(r * math.sin(2 * math.pi * k / n), 3)]
                    for k in range(n)]
        while True:
            pts = [[round(rng.uniform(-5, 5), 3),
                    round(rng.uniform(-5, 5), 3)]
                   for _ in range(rng.choice([3, 4, 6, 9]))]
            if self.usable('line', pts) and self.usable('poly', pts):
                return pts

    def usable(self, kind, pts):
        if kind == 'line':
            return len(pts) > 1 and not any(
                math.dist(a, b) < .05 for a, b in zip(pts, pts[1:]))
        h = self.hull(pts)
        return len(h) > 2 and abs(sum(
            a[0] * b[1] - a[1] * b[0]
            for a, b in zip(h, h[1:] + h[:1]))) > 1

    def sampler(self, rng):
        while True:
            p = {'kind': rng.choice(['line', 'poly', 'poly', 'spawn', 'free',
                                     'free']),
                 'pts': self.points(rng),
                 'walls': [[[round(rng.uniform(-5, 5), 2),
                             round(rng.uniform(-5, 5), 2)] for _ in range(2)]
                           for _ in range(rng.choice([0, 1, 1, 3]))],
                 'pillar': rng.choice([0, 0, .5, 1]),
                 'clear': rng.choice([-1, -1, -1, .1, .1, .3, .3, .6, 1.3]),
                 'share': rng.choice([1, 1, 3])}
            if p['kind'] != 'free' or self.free_cells(
                    p, self.star(p['pts']))[1] >= 1:
                return p

    def generate(self, rng):
        return {'samplers': [
            self.sampler(rng)
            for _ in range(rng.choice([1, 2, 3]))],
            'draws': rng.choice([50, 300, 600, 600, 3000]),
            'order': rng.randrange(1 << 30),
            'restart': rng.random() < .5}

    @staticmethod
    def hull(pts):
        pts = sorted(set(map(tuple, pts)))
        if len(pts) < 3:
            return pts

        def half(ps):
            out = []
            for p in ps:
                while len(out) > 1 and (out[-1][0] - out[-2][0]) * (
                        p[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (
                        p[0] - out[-2][0]) <= 0:
                    out.pop()
                out.append(p)
            return out[:-1]
        return half(pts) + half(pts[::-1])

    @staticmethod
    def star(pts):
        """A polygon, mostly not convex, with these corners."""
        c = np.mean(pts, axis=0)
        return sorted(map(tuple, pts), key=lambda q: math.atan2(
            q[1] - c[1], q[0] - c[0]))

    @staticmethod
    def obstacles(p):
        """Walls, corners of the pillar."""
        walls = [[tuple(a), tuple(b)] for a, b in p['walls']
                 if math.dist(a, b) > .05]
        r = float(p['pillar'])
        x, y = np.mean(p['pts'], axis=0)
        return walls, [(x - r, y - r), (x + r, y - r), (x + r, y + r),
                       (x - r, y + r)] if r > 0 else []

    @staticmethod
    def clearance(q, walls, pillar):
        from dsim.checks.agents import seg_distance
        if pillar and winding(q[0], q[1], pillar):
            return 0.0
        return min([seg_distance(q, a, b) for a, b in walls + list(
            zip(pillar, pillar[1:] + pillar[:1]))] or [math.inf])

    def free_cells(self, p, star):
        """Middle points of small cells of the free part, their area."""
        obst = self.obstacles(p)
        clear = .3 if p['clear'] < 0 else p['clear']
        xs, ys = zip(*star)
        n = 60
        hx, hy = (max(xs) - min(xs)) / n, (max(ys) - min(ys)) / n
        cells = []
        for i in range(n):
            for j in range(n):
                q = (min(xs) + hx * (i + .5), min(ys) + hy * (j + .5))
                if winding(q[0], q[1], star) and self.clearance(
                        q, *obst) > clear:
                    cells.append(q)
        return cells, len(cells) * hx * hy

    def judge_free(self, ctx, p, star, got):
        clear = .3 if p['clear'] < 0 else p['clear']
        obst = self.obstacles(p)
        for q in got:
            ctx.check(winding(q[0], q[1], star) or
                      edge_distance(q[0], q[1], star) < 1e-9, 'outside',
                      lambda: 'point %r is outside the spawn %r' % (q, star))
            d = self.clearance(q, *obst)
            ctx.check(d > .99 * clear - 1e-9, 'outside', lambda: 'point %r '
                      'is %g away from the obstacles %r, expected %g' % (
                          q, d, obst, clear))
        cells, area = self.free_cells(p, star)
        if any(obst):
            ctx.probe('obstacles')
        if len(cells) < 150:
            return      # too coarse to tell the shares
        # split between two columns of cells, between two rows
        xs, ys = zip(*star)
        mx = sorted(q[0] for q in cells)[len(cells) // 2] + (
            max(xs) - min(xs)) / 120
        my = sorted(q[1] for q in cells)[len(cells) // 2] + (
            max(ys) - min(ys)) / 120
        for k in range(4):
            def here(q):
                return (q[0] > mx, q[1] > my) == (bool(k & 1), bool(k & 2))
            want = sum(map(here, cells)) / len(cells)
            c = sum(map(here, got))
            n = len(got)
            ctx.check(abs(c - n * want) <= 7 * math.sqrt(
                n * want * (1 - want)) + .06 * n + 3, 'uneven', lambda:
                'quadrant %d around (%g, %g) of %r got %d of %d points, its '
                'share is %.3f' % (k, mx, my, star, c, n, want))

    def execute(self, plan, ctx):
        from dsim.checks.agents import seg_distance
        live = []
        for p in plan['samplers']:
            pts = [tuple(map(float, q)) for q in p['pts']]
            if not self.usable(p['kind'], pts):
                raise BadPlan()
            if p['kind'] == 'line':
                a = np.array(pts)
                live.append([p, lambda a=a: self.s.linestring_sample(a), pts,
                             [], a])
            else:
                h = self.hull(pts)
                a = np.array(h)
                if p['kind'] == 'poly':
                    live.append([p, lambda a=a: self.s.polygon_sample(a), h,
                                 [], a])
                elif p['kind'] == 'free':
                    star = self.star(pts)
                    walls, pillar = self.obstacles(p)
                    if self.free_cells(p, star)[1] < 1:
                        raise BadPlan()
                    f = self.b['Field']()
                    f.spawns = [self.sg.Polygon([(7, 7), (8, 7), (8, 8)]),
                                self.sg.Polygon(star)]
                    obst = self.lines(walls)
                    if pillar:
                        pillar = self.sg.Polygon(pillar)
                        obst = pillar if obst is None else obst | pillar
                    f.obstacles = obst
                    a = np.array(star)
                    args = () if p['clear'] < 0 else (p['clear'],)
                    live.append([p, lambda f=f, args=args: f.sample_spawn(
                        1, *args), star, [], a])
                else:
                    f = self.b['Field']()
                    f.spawns = [self.sg.Polygon(h)]
                    live.append([p, lambda f=f: f.sample_spawn(0), h, [], a])
        if not live:
            return
        makers = [l[1] for l in live]
        for l in live:
            l[1] = l[1]()
        r = random.Random(plan['order'])
        bag = [k for k, l in enumerate(live) for _ in range(max(
            1, l[0]['share']))]
        for _ in range(max(1, plan['draws']) * len(live)):
            k = r.choice(bag)
            if plan.get('restart') and r.random() < .01:
                # abandoned, another one takes its place
                ctx.fault('restart')
                live[k][1] = makers[k]()
            q = next(live[k][1])
            live[k][3].append((float(q[0]), float(q[1])))
        if len(live) > 1:
            ctx.nontrivial = True
        for k, (p, _, v, got, a) in enumerate(live):
            ctx.check(a.tolist() == [list(q) for q in v], 'side-effect',
                      lambda: 'sampling changed the vertices to %r' %
                      a.tolist())
            ctx.ev('sampler', k, p['kind'], len(got), np.round(
                np.sum(got or [(0, 0)], axis=0), 6).tolist())
            ctx.sim_time += len(got)
            if p['kind'] == 'line':
                segs = list(zip(v, v[1:]))
                total = sum(math.dist(a, b) for a, b in segs)
                counts = [0.0] * len(segs)
                for q in got:
                    ds = [seg_distance(q, a, b) for a, b in segs]
                    ctx.check(min(ds) < 1e-9, 'outside', lambda: 'point %r '
                              'is %g off the line %r' % (q, min(ds), v))
                    counts[ds.index(min(ds))] += 1
                for s, (a, b) in enumerate(segs):
                    self.share(ctx, counts[s], len(got),
                               math.dist(a, b) / total, 'segment %d of %r' %
                               (s, v))
                    part = [0] * 4
                    for q in got:
                        if seg_distance(q, a, b) < 1e-9:
                            part[min(3, int(4 * math.dist(q, a) /
                                            math.dist(a, b)))] += 1
                    for z, c in enumerate(part):
                        self.share(ctx, c, sum(part), .25, 'quarter %d of '
                                   'segment %d of %r' % (z, s, v))
            elif p['kind'] == 'free':
                self.judge_free(ctx, p, v, got)
            else:
                for q in got:
                    if not winding(q[0], q[1], v):
                        ctx.check(edge_distance(q[0], q[1], v) < 1e-9,
                                  'outside', lambda: 'point %r is outside '
                                  '%r' % (q, v))
                # areas of the fan triangles and of its halves
                area = [abs(cross((v[i][0] - v[0][0], v[i][1] - v[0][1]),
                                  (v[i + 1][0] - v[0][0],
                                   v[i + 1][1] - v[0][1]))) / 2
                        for i in range(1, len(v) - 1)]
                for i in range(1, len(v) - 1):
                    tri = [v[0], v[i], v[i + 1]]
                    c = sum(1 for q in got if winding(q[0], q[1], tri))
                    self.share(ctx, c, len(got), area[i - 1] / sum(area),
                               'triangle %d of %r' % (i, v))
                    # coordinates in which an even cover of the triangle
                    # is an even cover of the unit square
                    cells = Counter()
                    (ax, ay), (bx, by), (cx, cy) = tri
                    det = (bx - ax) * (cy - ay) - (cx - ax) * (by - ay)
                    for q in got:
                        if not winding(q[0], q[1], tri):
                            continue
                        lb = ((q[0] - ax) * (cy - ay) -
                              (cx - ax) * (q[1] - ay)) / det
                        lc = ((bx - ax) * (q[1] - ay) -
                              (q[0] - ax) * (by - ay)) / det
                        s = lb + lc
                        cells[(min(3, int(4 * s * s)), min(3, int(
                            4 * lc / s)) if s > 0 else 0)] += 1
                    if c >= 160:
                        for x in range(4):
                            for y in range(4):
                                self.share(ctx, cells[(x, y)], c, 1 / 16,
                                           'part %d,%d of triangle %d of %r'
                                           % (x, y, i, v))
                    row = Counter()
                    for (x, y), z in cells.items():
                        row['along', x // 2] += z
                        row['across', y // 2] += z
                    for key in [(d, z) for d in ('along', 'across')
                                for z in (0, 1)]:
                        self.share(ctx, row[key], c, .5, 'half %r of '
                                   'triangle %d of %r' % (key, i, v))
            ctx.state('N01', p['kind'], len(v), len(got))

    def share(self, ctx, count, total, p, what):
        if total < 20 or p * total < 5 or (1 - p) * total < 5:
            return
        sd = math.sqrt(total * p * (1 - p))
        ctx.check(abs(count - total * p) < 7 * sd + 1, 'uneven', lambda:
                  '%s received %d of %d points, expected %.1f +- %.1f' % (
                      what, count, total, total * p, sd))


class PoissonClock(World):
    id = 'N02'
    title = 'Poisson update times are ordered, in the window, free of effects'
    rule = ('Clients run Poisson clocks and update queues for groups of '
            'players on one shared random stream, interleaved step by step '
            'or abandoned; the exponential draws are recorded and the '
            'order of updates is rebuilt from them; some runs judge the '
            'distribution of thousands of windows (7 sigma).  Non-trivial: some '
            'update happened.')
    quick_runs = 4000
    thorough_runs = 60000
    real = ('core.rand.poisson_clock, poisson_timings',)
    stub = ('numba stand-in', 'exponential draws (recorded)')

    def prepare(self):
        from crowddynamics.core import rand
        self.rand = rand

    def generate(self, rng):
        return {'clients': [{
            'kind': rng.choice(['clock', 'timings', 'timings']),
            'players': [rng.randrange(50) for _ in range(
                rng.choice([1, 1, 3, 8]))],
            'interval': rng.choice([.01, .1, 1, 5]),
            'dt': rng.choice([.001, .1, 1, 2]),
            'take': rng.choice([999, 999, 999, 1, 0])}
            for _ in range(rng.choice([1, 1, 2, 4]))],
            'order': rng.randrange(1 << 30),
            'many': [rng.choice([500, 2000]), rng.choice([1, 2, 3, 5]),
                     rng.choice([.05, .3, 1, 3])]
            if rng.random() < .06 else None,
            'interleave': rng.random() < .5}

    def many(self, plan, ctx):
        """The distribution of very many windows."""
        rounds, n, ratio = plan['many']
        rounds = max(1, min(4000, int(rounds)))
        n, ratio = max(1, min(6, int(n))), max(.02, min(4, ratio))
        dt = float(max(.001, plan['clients'][0]['dt'])) \
            if plan['clients'] else 1.0
        interval = dt / ratio
        ctx.nontrivial = True
        ctx.sim_time += rounds * dt

        def moments(counts, mean, what):
            k = len(counts)
            got = float(np.mean(counts))
            ctx.check(abs(got - mean) < 7 * math.sqrt(mean / k) + 3 / k,
                      'rate',
                      lambda: '%s: %.4f updates per window on average, '
                      'expected %.4f' % (what, got, mean))
            var = float(np.var(counts))
            ctx.check(abs(var - mean) < 7 * math.sqrt(
                (mean + 2 * mean ** 2) / k) + 9 / k, 'spread', lambda: '%s: the '
                'number of updates varies by %.4f, expected %.4f' % (
                    what, var, mean))
        counts, times = [], []
        for _ in range(rounds):
            out = [float(t) for t in self.rand.poisson_clock(interval, dt)]
            ctx.check(all(a < b for a, b in zip(out, out[1:])) and all(
                0 < t < dt for t in out), 'window', lambda: 'times %r '
                'outside (0, %g) or not increasing' % (out[:20], dt))
            counts.append(len(out))
            times.extend(out)
        moments(counts, ratio, 'clock')
        if len(times) > 100:
            x = np.sort(times) / dt
            grid = np.arange(len(x)) / len(x)
            gap = float(np.abs(x - grid).max())
            ctx.check(gap < 3.6 / math.sqrt(len(x)), 'uniform', lambda:
                      'the times of %d updates are not spread evenly over '
                      'the window (distance %.4f)' % (len(x), gap))
        players = np.array([3 * k + 1 for k in range(n)], dtype=np.int64)
        counts, each, pairs, first, total = [], Counter(), Counter(), \
            Counter(), 0
        npairs = nfirst = 0
        for _ in range(rounds // 2):
            out = [int(v) for v in self.rand.poisson_timings(
                players, interval, dt)]
            counts.append(len(out))
            each.update(out)
            total += len(out)
            pairs.update(zip(out, out[1:]))
            npairs += max(0, len(out) - 1)
            if out:
                nfirst += 1
                first[out[0]] += 1
        if not counts:
            return
        moments(counts, n * ratio, '%d players' % n)

        def share(c, of, p, what):
            if p * of >= 8 and (1 - p) * of >= 8:
                sd = math.sqrt(of * p * (1 - p))
                ctx.check(abs(c - of * p) < 7 * sd + 1, 'order', lambda:
                          '%s: %d of %d, expected %.1f +- %.1f' % (
                              what, c, of, of * p, sd))
        for a in players.tolist():
            share(each[a], total, 1 / n, 'updates of player %d' % a)
            share(first[a], nfirst, 1 / n, 'player %d comes first' % a)
            for b in players.tolist():
                share(pairs[(a, b)], npairs, 1 / n ** 2, 'player %d right '
                      'after player %d' % (b, a))
        ctx.ev('many', sum(counts), len(times))
        ctx.state('N02m', n, ratio)

    def execute(self, plan, ctx):
        if plan.get('many'):
            self.many(plan, ctx)
            return
        draws = []
        orig = np.random.exponential

        def exponential(scale=1.0, size=None):
            out = orig(scale, size)
            draws.append((scale, size, out))
            return out
        np.random.exponential = exponential
        try:
            self.go(plan, ctx, draws)
        finally:
            np.random.exponential = orig

    def go(self, plan, ctx, draws):
        live = []
        solo = not plan['interleave']
        total = Counter()
        expect = 0.0
        for k, c in enumerate(plan['clients']):
            interval, dt = float(c['interval']), float(c['dt'])
            if not (interval > 0 and dt > 0 and dt / interval < 300):
                raise BadPlan()
            players = sorted(set(int(p) for p in c['players']))
            if not players:
                raise BadPlan()
            arr = np.array(players, dtype=np.int64)
            if c['kind'] == 'clock':
                gen = self.rand.poisson_clock(interval, dt)
            else:
                gen = self.rand.poisson_timings(arr, interval, dt)
            live.append(dict(c=c, gen=gen, players=players, arr=arr, out=[],
                             k=k, dt=dt, interval=interval, done=False))
        r = random.Random(plan['order'])
        queue = list(live)
        while queue:
            l = queue[0] if solo else r.choice(queue)
            n0 = len(draws)
            if len(l['out']) >= max(0, l['c']['take']):
                queue.remove(l)
                l['gen'].close()
                ctx.fault('abandoned')
                continue
            try:
                v = next(l['gen'])
            except StopIteration:
                queue.remove(l)
                l['done'] = True
                v = None
            l.setdefault('draws', []).extend(draws[n0:])
            if v is not None:
                l['out'].append(v)
                ctx.nontrivial = True
                ctx.check(len(l['out']) < 100000, 'endless', 'no end')
        for l in live:
            self.judge(ctx, l)

    def judge(self, ctx, l):
        c, out = l['c'], l['out']
        ctx.ev(l['k'], c['kind'], len(out), [round(float(v), 9) for v in
                                             out[:50]])
        ctx.check(l['arr'].tolist() == l['players'], 'side-effect', lambda:
                  'the array of players became %r' % l['arr'].tolist())
        n = 1 if c['kind'] == 'clock' else len(l['players'])
        if c['kind'] == 'clock':
            ctx.check(all(a < b for a, b in zip(out, out[1:])), 'order',
                      lambda: 'times %r' % out[:20])
            ctx.check(all(0 < v < l['dt'] for v in out), 'window', lambda:
                      'times %r outside (0, %g)' % (out[:20], l['dt']))
        else:
            ctx.check(all(int(v) in l['players'] for v in out), 'player',
                      lambda: 'update of unknown players: %r' % out[:20])
        if not l['done']:
            return
        mean = n * l['dt'] / l['interval']
        ctx.check(abs(len(out) - mean) < 8 * math.sqrt(mean) + 12, 'rate',
                  lambda: '%d updates, expected %.1f' % (len(out), mean))
        # rebuild the clocks from the recorded draws
        flat = []
        for scale, size, v in l.get('draws', ()):
            if size is not None or scale != l['interval']:
                return
            flat.append(float(v))
        clocks, cur, t = [], [], 0.0
        for v in flat:
            t += v
            if t < l['dt']:
                cur.append(t)
            else:
                clocks.append(cur)
                cur, t = [], 0.0
        if cur or t or len(clocks) != n or sum(map(len, clocks)) != len(out):
            ctx.probe('draws not rebuilt')
            return
        ctx.probe('draws rebuilt')
        if c['kind'] == 'clock':
            ctx.check(np.allclose(out, clocks[0]), 'times', lambda: 'times '
                      '%r, draws add up to %r' % (out[:9], clocks[0][:9]))
            return
        order = [i for _, i in sorted((t, i) for i, ts in enumerate(clocks)
                                      for t in ts)]
        owner = {}
        for i, p in zip(order, out):
            owner.setdefault(i, set()).add(int(p))
        ctx.check(all(len(s) == 1 for s in owner.values()) and len(
            set().union(*owner.values()) if owner else ()) == len(owner),
            'order', lambda: 'updates %r do not follow the order of the '
            'clocks %r' % ([int(v) for v in out[:30]], order[:30]))
        ctx.state('N02', tuple(order[:30]))


class FluctuationNoise(World):
    id = 'N03'
    title = 'Fluctuation is bounded, directionless and per agent'
    rule = ('Many evaluations of the fluctuation of crowds with mixed '
            'masses and noise levels, on random streams of the seed: '
            'magnitude bound for every draw, direction and independence '
            'over the run (7 sigma).  Non-trivial: always.')
    quick_runs = 700
    thorough_runs = 15000

    def generate(self, rng):
        n = rng.choice([1, 2, 5, 9, 9, 30])
        return {'three': rng.randrange(2),
                'agents': [[rng.choice([1.0, 40.0, 75.0]),
                            rng.choice([0.0, .1, .1, 1.0])]
                           for _ in range(n)],
                'steps': rng.choice([20, 100, 300, 300, 1000])}

    def pooled(self, ctx, fs, lim, ts=None, tl=None):
        """All agents of the run taken together."""
        who = [i for i in range(len(lim)) if lim[i] > 0]
        if not who or len(fs) < 20 or len(fs) * len(who) < 200:
            return
        f = fs[:, who]
        phi = np.arctan2(f[:, :, 1], f[:, :, 0])
        mag = np.hypot(f[:, :, 0], f[:, :, 1]) / lim[who] * 3

        def ks(values, cdf, what):
            x = np.sort(values.ravel())
            n = len(x)
            c = cdf(x)
            # Kuiper: the same for every choice of the zero direction
            gap = (c - np.arange(n) / n).max() + (
                np.arange(1, n + 1) / n - c).max()
            ctx.check(gap < 4 / math.sqrt(n), 'distribution', lambda:
                      '%s of %d fluctuations does not follow its '
                      'distribution (distance %.4f)' % (what, n, gap))

        def alike(a, b, what):
            if a.size < 1000:
                return
            z = float(np.sum(a * b)) / math.sqrt(a.size or 1)
            ctx.check(abs(z) < 7, 'shared', lambda: '%s are correlated '
                      '(z=%.1f)' % (what, z))
        phi_of = np.vectorize(lambda x: .5 * (1 + math.erf(x / math.sqrt(2))))
        top = float(phi_of(3.0))
        ks(phi, lambda x: (x + math.pi) / 2 / math.pi, 'direction')
        ks(mag, lambda x: (phi_of(x) - .5) / (top - .5), 'size')
        c, s = np.cos(phi) * math.sqrt(2), np.sin(phi) * math.sqrt(2)
        m = (mag - .79155) / .59359       # mean, deviation of N(0..3)
        for name, v in (('directions', c), ('directions', s), ('sizes', m)):
            alike(v[1:], v[:-1], name + ' of successive fluctuations')
            if len(who) > 1:
                alike(v[:, 1:], v[:, :-1], name + ' of different agents')
        alike(c, m, 'direction and size')
        alike(s, m, 'direction and size')
        if ts is None:
            return
        who = [i for i in range(len(tl)) if tl[i] > 0 and lim[i] > 0]
        if not who:
            return
        t = ts[:, who] / tl[who] * 3
        ks(t, lambda x: (phi_of(x) - 1 + top) / (2 * top - 1), 'torque')
        u = t / .98658
        alike(u[1:], u[:-1], 'successive torques')
        if len(who) > 1:
            alike(u[:, 1:], u[:, :-1], 'torques of different agents')
        f = fs[:, who] / lim[who][None, :, None] * 3
        alike(u, f[:, :, 0] * 1.43, 'force and torque')
        alike(u, f[:, :, 1] * 1.43, 'force and torque')

    def execute(self, plan, ctx):
        three = plan['three']
        rows = []
        for mass, std in plan['agents']:
            kw = dict(radius=.2, mass=max(.1, mass),
                      std_rand_force=max(0, std))
            if three:
                kw.update(inertia_rot=4.0, std_rand_torque=max(0, std))
            rows.append(self.row(three, **kw))
        if not rows:
            raise BadPlan()
        arr = np.concatenate(rows)
        n = len(arr)
        sim = self.bare_sim(arr, three)
        node = self.logic.Fluctuation(sim)
        fs, ts = [], []
        pre = np.arange(2 * n).reshape(n, 2) * .25
        for _ in range(max(1, plan['steps'])):
            arr['force'] = pre
            if three:
                arr['torque'] = 1.0
            node.update()
            fs.append(arr['force'] - pre)
            if three:
                ts.append(arr['torque'] - 1.0)
        fs = np.array(fs)
        ctx.nontrivial = True
        ctx.ev(np.round(fs.sum(axis=0), 6).tolist())
        lim = 3 * arr['mass'] * arr['std_rand_force']
        mag = np.hypot(fs[:, :, 0], fs[:, :, 1])
        ctx.check(bool((mag <= lim + 1e-9).all()), 'bound', lambda:
                  'fluctuation of %r, limits %r' % (
                      mag.max(axis=0).tolist(), lim.tolist()))
        steps = len(fs)
        for i in range(n):
            if lim[i] == 0:
                continue
            ctx.check(mag[:, i].max() > 0, 'dead', lambda: 'agent %d with '
                      'noise level %g never fluctuates' % (
                          i, arr['std_rand_force'][i]))
            if steps >= 100:
                for k in (0, 1):
                    z = fs[:, i, k].sum() / (lim[i] / 3 * math.sqrt(steps))
                    ctx.check(abs(z) < 7, 'drift', lambda: 'fluctuation '
                              'of agent %d drifts (z=%.1f)' % (i, z))
                    up = int((fs[:, i, k] > 0).sum())
                    ctx.check(abs(up - steps / 2) < 3.5 * math.sqrt(steps) +
                              1, 'drift', lambda: '%d of %d fluctuations '
                              'point one way' % (up, steps))
            for j in range(i):
                if lim[j] and steps >= 20:
                    a, b = fs[:, i] / lim[i], fs[:, j] / lim[j]
                    ctx.check(not np.allclose(a, b), 'shared', lambda:
                              'agents %d and %d fluctuate alike' % (i, j))
        if three:
            ts = np.array(ts)
            tl = 3 * arr['inertia_rot'] * arr['std_rand_torque']
            ctx.check(bool((np.abs(ts) <= tl + 1e-9).all()), 'bound',
                      lambda: 'torque fluctuation %r, limits %r' % (
                          np.abs(ts).max(axis=0).tolist(), tl.tolist()))
            if steps >= 100:
                for i in range(n):
                    if tl[i]:
                        up = int((ts[:, i] > 0).sum())
                        ctx.check(abs(up - steps / 2) < 3.5 * math.sqrt(
                            steps) + 1, 'drift', lambda: '%d of %d torque '
                            'fluctuations point one way' % (up, steps))
        self.pooled(ctx, fs, lim, *((ts, tl) if three else ()))
        ctx.state('N03', three, n, steps, len(set(lim.tolist())))


SCENARIOS = [ForceSchedule, Frame, Bookkeeping, Steering, Sampling,
             PoissonClock, FluctuationNoise]
