"""Motion: forces against a reference model while crowds are disturbed, and
how crowds settle once nobody disturbs them any more."""
import math
import random

import numpy as np

from dsim import build
from dsim.checks.world import NodeFault, World, cross, order_of
from dsim.core import BadPlan

SIGHT = 3.0         # of the social force, skin to skin
LARGEST = 2000.0    # of the social force of a pair


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def parts(a, three):
    """The discs of an agent: (dx, dy, r) from its position."""
    if not three:
        return [(0.0, 0.0, float(a['radius']))]
    phi, d = float(a['orientation']), float(a['r_ts'])
    x, y, r = d * math.sin(phi), -d * math.cos(phi), float(a['r_s'])
    return [(0.0, 0.0, float(a['r_t'])), (x, y, r), (-x, -y, r)]


def nearest(pairs):
    """(distance, n, k) of the closest of (dx, dy, reach); None if two are
    equally close or the direction is not defined."""
    best = []
    for k, (dx, dy, r) in enumerate(pairs):
        d = math.hypot(dx, dy)
        best.append((d - r, (dx / d, dy / d) if d > 1e-9 else None, k))
    best.sort(key=lambda b: b[0])
    if best[0][1] is None:
        return best[0][0], None, None
    if len(best) > 1 and best[1][0] - best[0][0] < 1e-7:
        return best[0][0], best[0][1] if best[1][1] is not None and \
            math.dist(best[0][1], best[1][1]) < 1e-6 else None, None
    return best[0]


def first_contact(x, y, vx, vy, pp, qq):
    """When two bodies at relative position and velocity first touch; 0 if
    they do now, None if never."""
    a = vx * vx + vy * vy
    first = None
    for px, py, r in pp:
        for qx, qy, s in qq:
            dx, dy, reach = x + px - qx, y + py - qy, r + s
            c = dx * dx + dy * dy - reach * reach
            if c <= 0:
                return 0.0
            b = dx * vx + dy * vy
            d = b * b - a * c
            if a == 0 or b >= 0 or d <= 0:
                continue
            t = c / (-b + math.sqrt(d))
            if first is None or t < first:
                first = t
    return first


class Forces(World):
    id = 'A10'
    title = 'Agents are driven, avoid collisions and collide as modelled'
    rule = ('Crowds of different agents that evolve, are pushed, moved, '
            'turned, stopped and sent elsewhere, under schedules of pairs '
            'and with iterations aborted at any node; after every '
            'evaluation of a force node what it added is compared with a '
            'small reference model (collision times by definition, '
            'gradients by differences).  Non-trivial: a pair is on collision '
            'course or touches.')
    quick_runs = 5000
    thorough_runs = 60000
    assumptions = ('no pair grazes or stands exactly at the limit of sight',)
    FAULTS = ['push', 'move', 'turn', 'stop', 'send', 'meet', 'meet', 'pass',
              'press', 'wall', 'resize']

    def generate(self, rng):
        n = rng.choice([1, 2, 2, 2, 3, 4])
        steps = rng.choice([1, 3, 6, 12])
        return {'three': rng.randrange(2), 'n': n, 'like': rng.randrange(3),
                'agents': [rng.randrange(1 << 30) for _ in range(n)],
                'w': rng.choice([1.5, 3, 6]),
                'walls': [rng.randrange(1 << 30)
                          for _ in range(rng.choice([0, 0, 1, 2]))],
                'solid': [rng.randrange(1 << 30)
                          for _ in range(rng.choice([0, 0, 0, 1]))],
                'sched': [rng.choice(['none', 'reverse', 'mix', 'flip']),
                          rng.randrange(1 << 20)],
                'dt': rng.randrange(3),
                'steps': steps,
                'faults': [[rng.randrange(steps), rng.choice(self.FAULTS),
                            rng.randrange(n), rng.randrange(1 << 30)]
                           for _ in range(rng.choice([1, 3, 6, 10]))],
                'bombs': [[rng.randrange(steps), rng.randrange(8)]
                          for _ in range(rng.choice([0, 0, 1, 2]))]}

    def member(self, plan, three, seed):
        r = random.Random(seed)
        w = plan['w']
        phi = r.uniform(-3.1, 3.1)
        a = r.uniform(-3.1, 3.1)
        speed = r.choice([0, .3, 1.2, 1.2, 3])
        kw = dict(position=(r.uniform(0, w), r.uniform(0, w)),
                  velocity=(speed * math.cos(a), speed * math.sin(a)),
                  target_direction=(math.cos(phi), math.sin(phi)))
        if plan['like'] == 0:
            kw['body_type'] = r.choice(['adult', 'child', 'male'])
        else:
            kw.update(radius=r.uniform(.15, .35), mass=r.uniform(40, 120),
                      target_velocity=r.uniform(.5, 2))
        if three:
            kw.update(orientation=r.uniform(-3.1, 3.1),
                      target_orientation=r.uniform(-3.1, 3.1))
            if plan['like']:
                rt = r.uniform(.1, .2)
                kw.update(r_t=rt, r_s=r.uniform(.05, .12),
                          r_ts=r.uniform(.05, .25),
                          inertia_rot=r.uniform(1, 6),
                          target_angular_velocity=r.uniform(1, 9))
        if plan['like'] == 2:
            kw.update(mu=r.uniform(2e4, 2e5), kappa=r.uniform(0, 6e4),
                      damping=r.choice([0, r.uniform(50, 900)]),
                      k_soc=r.uniform(0, 4), tau_0=r.uniform(.5, 5),
                      tau_adj=r.uniform(.2, 2))
            if three:
                kw['tau_rot'] = r.uniform(.1, .6)
        return self.row(three, **kw)

    def setting(self, plan):
        walls = []
        geom = None
        for s in plan['walls']:
            r = random.Random(s)
            p, q = [(round(r.uniform(-1, plan['w'] + 1), 4),
                     round(r.uniform(-1, plan['w'] + 1), 4))
                    for _ in range(2)]
            if math.dist(p, q) < .3:
                continue
            walls.append((p, q))
            g = self.sg.LineString([p, q])
            geom = g if geom is None else geom | g
        for s in plan['solid']:
            r = random.Random(s)
            x, y, d = (r.uniform(-1, plan['w'] + 1),
                       r.uniform(-1, plan['w'] + 1), r.uniform(.3, 1))
            ring = [(x - d, y - d), (x + d, y - d), (x + d, y + d),
                    (x - d, y + d)]
            walls += list(zip(ring, ring[1:] + ring[:1]))
            g = self.sg.Polygon(ring)
            geom = g if geom is None else geom | g
        return walls, geom

    def disturb(self, arr, three, walls, kind, k, seed, ctx):
        r = random.Random(seed)
        n = len(arr)
        k = k % n
        row = arr[k]
        other = arr[(k + 1 + r.randrange(max(1, n - 1))) % n]
        a = r.uniform(-math.pi, math.pi)
        u = np.array((math.cos(a), math.sin(a)))
        size = 2 * (row['r_ts'] + row['r_s']) if three else \
            row['radius'] + other['radius']
        if kind == 'push':
            row['velocity'][:] = u * r.choice([.5, 2, 5])
        elif kind == 'move':
            row['position'][:] = other['position'] + u * r.uniform(.3, 5)
        elif kind == 'turn' and three:
            row['orientation'] = a
            row['angular_velocity'] = r.uniform(-9, 9)
        elif kind == 'stop':
            row['velocity'][:] = 0
            if r.random() < .5:
                other['velocity'][:] = 0
        elif kind == 'send':
            row['target_direction'][:] = u * r.choice([0, 1, 1])
        elif kind == 'meet':        # on collision course
            d = size + r.choice([.2, 1, 2.4, SIGHT - .1, SIGHT + .05])
            row['position'][:] = other['position'] - u * d
            row['velocity'][:] = u * r.choice([.1, .8, 2]) + (
                -u[1] * (v := r.uniform(-.3, .3)), u[0] * v)
            other['velocity'][:] = -u * r.choice([0, 0, 1, 2])
        elif kind == 'pass':        # past each other, or in file
            side = r.uniform(-1.4, 1.4) * size
            row['position'][:] = other['position'] - u * r.uniform(.5, 2.5) \
                + (-u[1] * side, u[0] * side)
            v = u * r.choice([.5, 1.5])
            row['velocity'][:] = v
            other['velocity'][:] = v * r.choice([1, 1, .8, -1, -1])
        elif kind == 'press':       # into each other
            row['position'][:] = other['position'] + u * size * \
                r.uniform(.55, 1.05)
        elif kind == 'wall' and walls:
            p, q = walls[r.randrange(len(walls))]
            t = r.uniform(-.15, 1.15)
            row['position'][:] = (
                p[0] + (q[0] - p[0]) * t + u[0] * r.uniform(.02, .45),
                p[1] + (q[1] - p[1]) * t + u[1] * r.uniform(.02, .45))
        elif kind == 'resize':
            row['radius'] *= r.uniform(.7, 1.3)
            if three:
                row['r_ts'] *= r.uniform(.7, 1.3)
        else:
            return
        ctx.fault(kind)
        if three:
            self.agents_mod.shoulders(arr[k:k + 1])

    # -- the model --------------------------------------------------------
    @staticmethod
    def push(h, n, v, a):
        """Contact: repulsion, friction along the skin, damping."""
        t = (-n[1], n[0])
        vn = v[0] * n[0] + v[1] * n[1]
        vt = v[0] * t[0] + v[1] * t[1]
        mu, kappa, c = (float(a[k]) for k in ('mu', 'kappa', 'damping'))
        return [-h * mu * n[d] - abs(h) * kappa * vt * t[d] - c * vn * n[d]
                for d in (0, 1)]

    def social(self, a, b, three):
        """-> force on a, force on b; None where it is not well defined."""
        x, y = (float(v) for v in a['position'] - b['position'])
        vx, vy = (float(v) for v in a['velocity'] - b['velocity'])
        pp, qq = parts(a, three), parts(b, three)

        def tau(dx, dy):
            return first_contact(x + dx, y + dy, vx, vy, pp, qq)
        e = 1e-6
        t0 = tau(0, 0)
        around = [tau(e, 0), tau(-e, 0), tau(0, e), tau(0, -e)]
        if t0 is None and not any(t is not None for t in around):
            return (0.0, 0.0), (0.0, 0.0)
        if t0 is None or None in around or 0.0 in around + [t0]:
            return None
        g = [(around[0] - around[1]) / (2 * e),
             (around[2] - around[3]) / (2 * e)]
        size = math.hypot(*g)
        for k in (0, 2):
            if abs(around[k] + around[k + 1] - 2 * t0) > 1e-3 * e * (
                    1e-3 + size):
                return None             # grazing, or two parts at once
        if t0 > 25:
            return None
        out = []
        for agent, sign in ((a, 1), (b, -1)):
            t1 = float(agent['tau_0'])
            f = sign * float(agent['mass']) * float(agent['k_soc']) * (
                2 / t0 + 1 / t1) * math.exp(-t0 / t1) / t0 ** 2
            f = [f * g[0], f * g[1]]
            l = math.hypot(*f)
            if l > LARGEST:
                f = [v * LARGEST / l for v in f]
            out.append(f)
        return out

    def pair(self, a, b, three, ctx):
        """-> [(force, torque), (force, torque)] with None for unknown."""
        pp, qq = parts(a, three), parts(b, three)
        x, y = (float(v) for v in a['position'] - b['position'])
        combos = [(p, q) for p in pp for q in qq]
        h, n, k = nearest([(x + p[0] - q[0], y + p[1] - q[1], p[2] + q[2])
                           for p, q in combos])
        if abs(h - SIGHT) < 1e-6 or abs(h) < 1e-9:
            return None
        if h > SIGHT:
            return [((0.0, 0.0), 0.0)] * 2
        if h > 0:
            force = self.social(a, b, three)
            if force is None:
                return None
            if any(force[0]):
                ctx.probe('avoids')
                ctx.nontrivial = True
        else:
            ctx.probe('touches')
            ctx.nontrivial = True
            if n is None:
                return None
            v = a['velocity'] - b['velocity']
            fa, fb = self.push(h, n, v, a), self.push(h, n, v, b)
            force = [fa, [-c for c in fb]]
            if three:
                # parts that do not touch yet may still be avoided: the
                # time to the first contact is over, so not modelled
                if self.later(x, y, v, pp, qq):
                    return None
        out = []
        for f, part, sign in zip(force, (0, 1), (-1, 1)):
            torque = 0.0
            if three:
                if k is None or n is None:
                    torque = None
                else:
                    c = combos[k][part]
                    torque = cross((c[0] + sign * c[2] * n[0],
                                    c[1] + sign * c[2] * n[1]), f)
            out.append((f, torque))
        return out

    @staticmethod
    def later(x, y, v, pp, qq):
        for p in pp:
            for q in qq:
                dx, dy, reach = x + p[0] - q[0], y + p[1] - q[1], p[2] + q[2]
                c = dx * dx + dy * dy - reach * reach
                b = dx * v[0] + dy * v[1]
                a = v[0] ** 2 + v[1] ** 2
                if c > -1e-9 and b < 0 and b * b - a * c > -1e-9:
                    return True
        return False

    def model_pairs(self, arr, three, ctx):
        n = len(arr)
        out = [[0.0, 0.0, 0.0, 0.0] for _ in range(n)]  # fx, fy, M, size
        for i in range(n):
            for j in range(i + 1, n):
                res = self.pair(arr[i], arr[j], three, ctx)
                for k, which in ((i, 0), (j, 1)):
                    if res is None:
                        out[k] = None
                    elif out[k] is not None:
                        self.add(out[k], *res[which])
                if out[i] is None:
                    pass
        return out

    @staticmethod
    def add(acc, f, torque):
        acc[0] += f[0]
        acc[1] += f[1]
        acc[3] += math.hypot(*f)
        if torque is None or acc[2] is None:
            acc[2] = None
        else:
            acc[2] += torque

    def model_walls(self, arr, three, walls, ctx):
        out = []
        for a in arr:
            acc = [0.0, 0.0, 0.0, 0.0]
            pp = parts(a, three)
            at = [float(v) for v in a['position']]
            for p, q in walls:
                near = []
                for dx, dy, r in pp:
                    x, y = at[0] + dx, at[1] + dy
                    ux, uy = q[0] - p[0], q[1] - p[1]
                    t = max(0.0, min(1.0, ((x - p[0]) * ux + (y - p[1]) * uy)
                                     / (ux * ux + uy * uy)))
                    near.append((x - p[0] - t * ux, y - p[1] - t * uy, r))
                h, n, k = nearest(near)
                if h > 1e-9:
                    continue
                if n is None or h > -1e-9:
                    acc = None
                    break
                ctx.probe('touches a wall')
                ctx.nontrivial = True
                f = self.push(h, n, a['velocity'], a)
                torque = 0.0
                if three:
                    torque = None
                    if k is not None:
                        torque = cross((pp[k][0] - pp[k][2] * n[0],
                                        pp[k][1] - pp[k][2] * n[1]), f)
                self.add(acc, f, torque)
            out.append(acc)
        return out

    def model_adjust(self, arr, three, ctx):
        out = []
        for a in arr:
            s = float(a['mass']) / float(a['tau_adj'])
            f = [s * float(a['target_velocity'] * a['target_direction'][d] -
                           a['velocity'][d]) for d in (0, 1)]
            torque, m = 0.0, 0.0
            if three:
                m = float(a['inertia_rot']) / float(a['tau_rot'])
                turn = wrap(float(a['target_orientation'] -
                                  a['orientation']))
                if abs(abs(turn) - math.pi) < 1e-7:
                    torque = None
                else:
                    torque = m * (turn / math.pi * float(
                        a['target_angular_velocity']) - float(
                        a['angular_velocity']))
            out.append([f[0], f[1], torque, s * (math.hypot(
                *a['velocity']) + a['target_velocity'])])
        return out

    # -- the run ----------------------------------------------------------
    def execute(self, plan, ctx):
        three = bool(plan['three'])
        if not plan['agents']:
            raise BadPlan()
        arr = np.concatenate([self.member(plan, three, s)
                              for s in plan['agents']])
        walls, geom = self.setting(plan)
        sim = self.bare_sim(arr, three, obstacles=geom)
        arr = sim.agents.array
        lg = self.logic
        integ = lg.Integrator(sim)
        integ.dt_min, integ.dt_max = [(.01, .01), (.001, .01), (.002, .03)][
            plan['dt'] % 3]
        adj = lg.Adjusting(sim)
        pairs = lg.AgentAgentInteractions(sim)
        contact = lg.AgentObstacleInteractions(sim)
        integ << (adj << lg.Orientation(sim), pairs, contact)
        sim.logic = lg.Reset(sim) << integ
        kind, seed = plan['sched']
        if kind != 'none':
            self.cells.PAIR_SCHEDULE = order_of(kind, seed)
        state = dict(it=0, pos=0)
        bombs = {(a, b) for a, b in plan['bombs']}

        def judged(node, model, what):
            orig = node.update

            def update():
                before = arr.copy()
                orig()
                if np.abs(before['position']).max() > 1e5:
                    return
                self.judge(ctx, before, arr, three, model(before), what)
            node.update = update
        judged(adj, lambda a: self.model_adjust(a, three, ctx), 'drive')
        judged(pairs, lambda a: self.model_pairs(a, three, ctx), 'pairs')
        judged(contact, lambda a: self.model_walls(a, three, walls, ctx),
               'walls')

        def maybe(node):
            if (state['it'], state['pos']) in bombs:
                state['pos'] += 1
                raise NodeFault()
            state['pos'] += 1
        build.hook_nodes(sim, maybe)
        for it in range(max(1, plan['steps'])):
            state.update(it=it, pos=0)
            for at, what, k, s in plan['faults']:
                if at == it:
                    self.disturb(arr, three, walls, what, k, s, ctx)
            if np.abs(arr['position']).max() > 100 or \
                    np.abs(arr['velocity']).max() > 100:
                break
            try:
                sim.update()
                ctx.sim_time += float(sim.data['dt'])
            except NodeFault:
                ctx.fault('abort')
        ctx.ev('end', sim.data['iterations'], repr(arr['position'].tolist()))

    def judge(self, ctx, before, after, three, model, what):
        for i, m in enumerate(model):
            if m is None:
                ctx.probe('ambiguous')
                continue
            got = after['force'][i] - before['force'][i]
            tol = 1e-2 + 1e-4 * m[3] + 1e-9 * float(
                np.abs(before['force'][i]).max())
            ctx.check(math.dist(got, m[:2]) <= tol, what, lambda:
                      'agent %d: force %r instead of %r; %s' % (
                          i, got.tolist(), m[:2], self.show(before)))
            if three and m[2] is not None:
                got = float(after['torque'][i] - before['torque'][i])
                tol += 1e-9 * abs(float(before['torque'][i]))
                ctx.check(abs(got - m[2]) <= tol, what + '-torque', lambda:
                          'agent %d: torque %r instead of %r; %s' % (
                              i, got, m[2], self.show(before)))
            ctx.probe(what)
            ctx.state(what, three, i, round(m[3], -1) if m[3] < 3000 else 1)

    @staticmethod
    def show(arr):
        return '; '.join('at %r moving %r' % (
            [round(float(v), 4) for v in a['position']],
            [round(float(v), 4) for v in a['velocity']]) for a in arr)


class Settle(World):
    id = 'A11'
    title = 'Disturbed agents recover, separate and come to rest'
    rule = ('Lone walkers, squeezed crowds, crowds pressed against walls and '
            'each other, colliding bodies and crowds in closed rooms that are '
            'pushed, turned, sent elsewhere, stepped differently and aborted '
            'at any node for a while and then left alone: within a bounded '
            'number of steps they move and face where they want, stand apart '
            'and come to rest; collisions never add energy and nobody leaves '
            'through a wall.  Non-trivial: a fault or a contact.')
    quick_runs = 160
    thorough_runs = 12000
    assumptions = ('pushes of at most 3 m/s', 'nobody stands exactly on '
                   'somebody else')
    MODES = ['lone', 'lone', 'squeeze', 'press', 'press', 'billiard',
             'billiard', 'room', 'room']
    DTS = [(.01, .01), (.005, .01), (.008, .008), (.004, .01)]

    def generate(self, rng):
        mode = rng.choice(self.MODES)
        n = {'lone': rng.choice([1, 2, 3]), 'squeeze': rng.choice([2, 2, 3, 4]),
             'press': rng.choice([1, 2, 3]), 'billiard': rng.choice(
                 [2, 2, 3]), 'room': rng.choice([1, 2, 3, 4])}[mode]
        busy = rng.choice([0, 5, 20, 60])
        return {'mode': mode, 'three': rng.randrange(2), 'n': n,
                'seed': rng.randrange(1 << 30), 'busy': busy,
                'dt': rng.randrange(4),
                'sched': [rng.choice(['none', 'mix', 'flip']),
                          rng.randrange(1 << 20)],
                'faults': [[rng.randrange(busy), rng.choice(
                    ['push', 'turn', 'send', 'dt', 'abort', 'abort']),
                    rng.randrange(n), rng.randrange(1 << 30)]
                    for _ in range(rng.choice([0, 2, 6])) if busy]}

    def execute(self, plan, ctx):
        three = bool(plan['three'])
        r = random.Random(plan['seed'])
        n = max(1, plan['n'])
        kind, seed = (list(plan['sched']) + ['none', 0])[:2]
        if kind != 'none':
            self.cells.PAIR_SCHEDULE = order_of(kind, seed)
        mode = plan['mode'] if plan['mode'] in self.MODES else 'lone'
        getattr(self, mode)(plan, ctx, three, r, n)

    def person(self, r, three, **kw):
        kw.setdefault('body_type', r.choice(
            ['adult', 'male', 'female', 'child', 'eldery']))
        if three:
            kw.setdefault('orientation', r.uniform(-3.1, 3.1))
            kw.setdefault('target_orientation', kw['orientation'])
        return self.row(three, **kw)

    def build(self, plan, rows, three, walls=(), parts=('drive', 'pairs',
                                                        'walls'),
              obstacles=None):
        sim = self.bare_sim(np.concatenate(rows), three,
                            obstacles=obstacles or self.lines(walls))
        lg = self.logic
        integ = lg.Integrator(sim)
        integ.dt_min, integ.dt_max = self.DTS[plan['dt'] % 4]
        nodes = []
        if 'drive' in parts:
            nodes.append(lg.Adjusting(sim) << lg.Orientation(sim)
                         if r_orient(plan) else lg.Adjusting(sim))
        if 'pairs' in parts:
            nodes.append(lg.AgentAgentInteractions(sim))
        if 'walls' in parts:
            nodes.append(lg.AgentObstacleInteractions(sim))
        integ << tuple(nodes)
        sim.logic = lg.Reset(sim) << integ
        return sim, integ

    def disturbed(self, plan, ctx, sim, integ, three, each=None,
                  allowed=('push', 'turn', 'send', 'dt', 'abort')):
        """The time of faults."""
        arr = sim.agents.array
        state = dict(at=None)

        def maybe(node):
            if state['at'] is not None:
                state['at'] -= 1
                if state['at'] < 0:
                    state['at'] = None
                    raise NodeFault()
        build.hook_nodes(sim, maybe)
        for it in range(max(0, plan['busy'])):
            for at, what, k, s in plan['faults']:
                if at != it or what not in allowed:
                    continue
                r = random.Random(s)
                a = r.uniform(-3.1, 3.1)
                row = arr[k % len(arr)]
                if what == 'push':
                    v = r.uniform(.5, 3)
                    row['velocity'][:] = (v * math.cos(a), v * math.sin(a))
                elif what == 'turn':
                    if three:
                        row['orientation'] = a
                        row['angular_velocity'] = r.uniform(-12, 12)
                        self.agents_mod.shoulders(arr)
                elif what == 'send':
                    row['target_direction'][:] = (math.cos(a), math.sin(a))
                elif what == 'dt':
                    integ.dt_min, integ.dt_max = r.choice(self.DTS)
                else:
                    state['at'] = r.randrange(5)
                ctx.fault(what)
            self.step(ctx, sim)
            if each:
                each()
        state['at'] = None

    def step(self, ctx, sim):
        try:
            t = sim.data['time_tot']
            sim.update()
            ctx.sim_time += float(sim.data['dt'])
            return float(sim.data['time_tot'] - t)
        except NodeFault:
            ctx.fault('abort at a node')
            return 0.0

    def calm(self, ctx, sim, seconds, each=None):
        t = 0.0
        while t < seconds:
            dt = self.step(ctx, sim)
            if dt <= 0:
                ctx.fail('time', 'an undisturbed iteration took no time')
            t += dt
            if each:
                each(t)
        return t

    @staticmethod
    def speed(arr):
        return np.hypot(*arr['velocity'].T)

    # -- modes ------------------------------------------------------------
    def lone(self, plan, ctx, three, r, n):
        """Far from each other: everybody gets to the wanted motion."""
        rows = []
        for k in range(n):
            a = r.uniform(-3.1, 3.1)
            e = r.choice([0, 1, 1, 1])
            rows.append(self.person(
                r, three, position=(30.0 * k, 0.0),
                velocity=(r.uniform(-2, 2), r.uniform(-2, 2)),
                target_direction=(e * math.cos(a), e * math.sin(a)),
                tau_adj=r.uniform(.3, 1.0)))
            if three:
                rows[-1]['target_orientation'] = r.uniform(-3.1, 3.1)
                rows[-1]['target_angular_velocity'] = r.uniform(4, 13)
        sim, integ = self.build(plan, rows, three)
        arr = sim.agents.array
        self.disturbed(plan, ctx, sim, integ, three)
        self.step(ctx, sim)         # the forces of the last fault are over
        want = arr['target_velocity'][:, None] * arr['target_direction']
        off = arr['velocity'] - want
        tau = arr['tau_adj'].copy()
        ahead = arr['position'].copy()

        def each(t):
            left = np.exp(-t / tau)
            err = arr['velocity'] - want - off * left[:, None]
            size = np.hypot(*off.T)
            bad = np.hypot(*err.T) > .04 * size + 1e-6
            ctx.check(not bad.any(), 'relax', lambda: '%.2f s after the '
                      'faults the velocity is %r, wanted %r, it was off by '
                      '%r, characteristic time %r' % (
                          t, arr['velocity'].tolist(), want.tolist(),
                          off.tolist(), tau.tolist()))
            # and the way is the integral of the velocity
            way = want * t + off * (tau * (1 - left))[:, None]
            err = arr['position'] - ahead - way
            bad = np.hypot(*err.T) > .04 * size * tau + 1e-6 + .02 * size * \
                .01 + 2e-2 * (size + 1)
            ctx.check(not bad.any(), 'way', lambda: 'after %.2f s agents '
                      'moved %r instead of %r' % (
                          t, (arr['position'] - ahead).tolist(),
                          way.tolist()))
        seconds = 5.0
        t = self.calm(ctx, sim, seconds, each)
        if three:
            goal = arr['target_orientation']
            turn = np.array([wrap(v) for v in arr['orientation'] - goal])
            ctx.check(np.abs(turn).max() < .01, 'facing', lambda:
                      '%.2f s after the faults agents face %r, wanted %r' % (
                          t, arr['orientation'].tolist(), goal.tolist()))
            ctx.check(np.abs(arr['angular_velocity']).max() < .05,
                      'spinning', lambda: '%.2f s after the faults agents '
                      'turn at %r' % (t, arr['angular_velocity'].tolist()))
        ctx.ev('lone', repr(arr['position'].tolist()))
        ctx.state('lone', n, three, round(float(np.abs(off).max()), 1),
                  plan['dt'])

    def bodies_gap(self, a, b, three):
        x, y = (float(v) for v in a['position'] - b['position'])
        return min(math.hypot(x + p[0] - q[0], y + p[1] - q[1]) - p[2] - q[2]
                   for p in parts(a, three) for q in parts(b, three))

    def gaps(self, arr, three):
        return [self.bodies_gap(arr[i], arr[j], three)
                for i in range(len(arr)) for j in range(i + 1, len(arr))]

    def squeeze(self, plan, ctx, three, r, n):
        """On top of each other, without a wish: they come apart and stop."""
        rows, places = [], []
        while len(places) < n:
            q = (r.uniform(0, .35 * math.sqrt(n)),
                 r.uniform(0, .35 * math.sqrt(n)))
            if all(math.dist(q, p) > .1 for p in places):
                places.append(q)
        for q in places:
            rows.append(self.person(r, three, position=q,
                                    target_direction=(0.0, 0.0)))
        sim, integ = self.build(plan, rows, three)
        arr = sim.agents.array
        before = min(self.gaps(arr, three), default=1)
        if before < 0:
            ctx.nontrivial = True
            ctx.probe('overlap')
        self.disturbed(plan, ctx, sim, integ, three,
                       allowed=('turn', 'dt', 'abort'))
        self.calm(ctx, sim, 5.0)
        worst = min(self.gaps(arr, three), default=1)
        ctx.check(worst > -.005, 'apart', lambda: 'agents still overlap by '
                  '%g m after 5 s, they started with %g m' % (
                      -worst, -before))
        ctx.check(self.speed(arr).max() < .02, 'rest', lambda: 'agents that '
                  'want to stand still move at %r after 5 s' %
                  self.speed(arr).tolist())
        ctx.check(np.abs(arr['position']).max() < 15, 'apart', lambda:
                  'agents were thrown to %r' % arr['position'].tolist())
        ctx.ev('squeeze', repr(arr['position'].tolist()))
        ctx.state('squeeze', n, three, round(before, 1), plan['dt'])

    def press(self, plan, ctx, three, r, n):
        """Against a wall, or head-on: they come to rest in contact."""
        axis = r.randrange(2)
        sign = r.choice([-1.0, 1.0])
        chain = n > 1 and r.random() < .5
        rows, walls = [], []

        def at(u, v):
            return (u, v) if axis == 0 else (v, u)
        for k in range(n):
            d = sign if not chain or k < n - 1 else -sign
            u = -sign * r.uniform(.5, 1.5) if not chain else \
                sign * (1.2 * k - 1)
            v = 0.0 if chain else 40.0 * k
            kw = dict(position=at(u, v), target_direction=at(d, 0.0),
                      velocity=at(d * r.uniform(0, 2), 0.0))
            if three:
                # straight ahead, so that nothing turns them
                kw['orientation'] = math.atan2(*at(d, 0.0)[::-1])
                kw['target_orientation'] = kw['orientation']
            if chain:
                # avoidance makes them hesitate in front of each other
                kw.update(body_type='adult', k_soc=0.0)
            rows.append(self.person(r, three, **kw))
            if not chain:
                walls.append([at(0.0, v - 3), at(0.0, v + 3)])
        sim, integ = self.build(plan, rows, three, walls)
        arr = sim.agents.array
        self.disturbed(plan, ctx, sim, integ, three, allowed=('dt', 'abort'))
        self.calm(ctx, sim, 5.0)
        late = [arr['position'].copy()]
        fast = [0.0]

        def each(t):
            late.append(arr['position'].copy())
            if chain:
                v = arr['velocity'][:, axis]
                fast[0] = max(fast[0], float(v.max() - v.min()))
            else:
                fast[0] = max(fast[0], float(np.abs(
                    arr['velocity'][:, axis]).max()))
        self.calm(ctx, sim, 1.0, each)
        ctx.probe('pressed')
        ctx.nontrivial = True
        ctx.check(fast[0] < .03, 'rest', lambda: 'agents pressed %s still '
                  'move at %.3f m/s after 5 s' % (
                      'together' if chain else 'against a wall', fast[0]))
        for k, a in enumerate(arr):
            if chain:
                gaps = [self.bodies_gap(arr[i], arr[i + 1], three)
                        for i in range(n - 1)]
                deep, loose = min(gaps), max(gaps)
            else:
                deep = loose = min(
                    abs(float(a['position'][axis]) + p[axis]) - p[2]
                    for p in parts(a, three))
            ctx.check(-.02 < deep <= loose < .1, 'contact', lambda: 'agents '
                      'that are pressed together rest at a distance of '
                      '%r to %r' % (deep, loose))
        if not chain:
            ctx.check(bool((arr['position'][:, axis] * -sign > 0).all()),
                      'through', lambda: 'agents went through the wall: %r' %
                      arr['position'].tolist())
        ctx.ev('press', repr(arr['position'].tolist()))
        ctx.state('press', n, three, chain, axis, sign, plan['dt'])

    def billiard(self, plan, ctx, three, r, n):
        """Equal bodies that only collide: no energy and no momentum out of
        nothing."""
        kw = dict(body_type='adult')
        proto = self.person(r, three, **kw)
        rows = []
        c = r.uniform(-.4, .4)
        for k in range(n):
            a = 2 * math.pi * k / n + r.uniform(-.2, .2)
            v = r.uniform(.3, 1.5)
            row = proto.copy()
            row['position'] = (1.0 * math.cos(a) + c, 1.0 * math.sin(a))
            row['velocity'] = (-v * math.cos(a), -v * math.sin(a))
            row['target_direction'] = 0
            row['k_soc'] = 0
            if three:
                row['orientation'] = r.uniform(-3.1, 3.1)
                self.agents_mod.shoulders(row)
            rows.append(row)
        plan = dict(plan, dt=plan['dt'] if plan['dt'] % 4 else 2)
        sim, integ = self.build(plan, rows, three, parts=('pairs',))
        # fine steps: what is judged is the force, not the integration
        integ.dt_min = integ.dt_max = .002
        arr = sim.agents.array
        m = float(arr['mass'][0])
        i = float(arr['inertia_rot'][0]) if three else 0.0

        def energy():
            e = .5 * m * float((arr['velocity'] ** 2).sum())
            if three:
                e += .5 * i * float((arr['angular_velocity'] ** 2).sum())
            return e
        self.disturbed(plan, ctx, sim, integ, three, allowed=('abort',))
        mom = m * arr['velocity'].sum(axis=0)
        e0 = last = energy()
        # spin takes no part in the contact model's velocity, so only the
        # energy of the way is bounded for three circles
        ctx.probe('energy')
        touched = [False]

        def each(t):
            if not touched[0] and min(self.gaps(arr, three), default=1) < 0:
                touched[0] = True
            p = m * arr['velocity'].sum(axis=0)
            ctx.check(math.dist(p, mom) < 1e-6 * (1 + m * 3), 'momentum',
                      lambda: 'momentum %r became %r' % (
                          mom.tolist(), p.tolist()))
        self.calm(ctx, sim, 1.6, each)
        if touched[0]:
            ctx.nontrivial = True
            ctx.probe('collision')
        e = .5 * m * float((arr['velocity'] ** 2).sum())
        ctx.check(e <= e0 * (1 + 1e-3) + 1e-6, 'energy', lambda: 'colliding '
                  'bodies went from %g J to %g J' % (e0, e))
        if touched[0] and min(self.gaps(arr, three)) > 0:
            ctx.check(e < e0, 'energy', lambda: 'a damped collision lost no '
                      'energy: %r J, then %r J' % (e0, e))
        ctx.ev('billiard', repr(arr['position'].tolist()))
        ctx.state('billiard', n, three, touched[0], round(e / e0, 1))

    def room(self, plan, ctx, three, r, n):
        """A closed room: nobody gets out, nobody is left overlapping."""
        w, h = r.uniform(2.5, 6), r.uniform(2.5, 6)
        ox, oy = r.choice([(0, 0), (-4, 3), (-9, -11)])
        corners = [(ox, oy), (ox + w, oy), (ox + w, oy + h), (ox, oy + h)]
        walls = [list(e) for e in zip(corners, corners[1:] + corners[:1])]
        cols = max(1, int((w - .4) / .8))
        n = min(n, cols * max(1, int((h - .4) / .8)))
        rows = []
        for k in range(n):
            a = r.uniform(-3.1, 3.1)
            rows.append(self.person(
                r, three, position=(ox + .6 + .8 * (k % cols),
                                    oy + .6 + .8 * (k // cols)),
                velocity=(r.uniform(-1, 1), r.uniform(-1, 1)),
                target_direction=(math.cos(a), math.sin(a))))
        thick = None
        if plan['seed'] % 3 == 0:
            # the hole of a polygon
            d = r.uniform(.3, 2)
            ring = [(ox - d, oy - d), (ox + w + d, oy - d),
                    (ox + w + d, oy + h + d), (ox - d, oy + h + d)]
            thick = self.sg.Polygon(ring, [corners])
        sim, integ = self.build(plan, rows, three, walls, obstacles=thick)
        arr = sim.agents.array

        def each(*_):
            x, y = arr['position'].T
            ok = (x > ox) & (x < ox + w) & (y > oy) & (y < oy + h)
            ctx.check(bool(ok.all()), 'out', lambda: 'agents left a closed '
                      'room (%g, %g)-(%g, %g): %r' % (
                          ox, oy, ox + w, oy + h, arr['position'].tolist()))
        self.disturbed(plan, ctx, sim, integ, three, each)
        self.calm(ctx, sim, 3.0, each)
        worst = min(self.gaps(arr, three), default=1)
        ctx.check(worst > -.06, 'apart', lambda: 'agents overlap by %g m '
                  '3 s after the last push' % -worst)
        top = float(arr['target_velocity'].max())
        ctx.check(self.speed(arr).max() < 1.3 * top, 'speed', lambda:
                  'undisturbed agents move at %r, they want %r' % (
                      self.speed(arr).tolist(),
                      arr['target_velocity'].tolist()))
        ctx.ev('room', repr(arr['position'].tolist()))
        ctx.state('room', n, three, round(w), round(h), plan['dt'])


def r_orient(plan):
    """Do agents turn to where they go?"""
    return plan['mode'] == 'room' and plan['seed'] % 2 == 0


SCENARIOS = (Forces, Settle)
