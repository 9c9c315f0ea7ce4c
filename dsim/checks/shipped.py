"""The simulations and fields shipped with the package: built with any
options, run under faults, changed while they run."""
import math
import random
from zlib import crc32

import numpy as np

from dsim import build, clock
from dsim.checks.agents import discs, seg_distance
from dsim.checks.nav import touch
from dsim.checks.world import NodeFault, World, order_of, winding
from dsim.core import BadPlan


def flat(geom):
    """Segments of any geometry."""
    if geom is None:
        return []
    if hasattr(geom, 'geoms'):
        return [s for g in geom.geoms for s in flat(g)]
    if hasattr(geom, 'exterior'):
        rings = [geom.exterior] + list(geom.interiors)
        return [s for r in rings for s in flat(r)]
    c = [tuple(map(float, q)) for q in geom.coords]
    return list(zip(c, c[1:]))


def ring(geom):
    return [tuple(map(float, q)) for q in geom.exterior.coords][:-1]


def same(a, b, tol=1e-9):
    return abs(a - b) <= tol * (1 + abs(b))


class Shipped(World):
    id = 'E02'
    title = 'The shipped simulations start and run as configured'
    rule = ('Every shipped simulation with generated options, run for some '
            'seconds while agents are shoved and moved back, iterations '
            'aborted at any node, the clock jumped, pairs permuted, other '
            'shipped simulations built in between, fields resized and types '
            'of agents exchanged.  Non-trivial: something disturbed them.')
    cpu_limit = 100
    quick_runs = 240
    thorough_runs = 6000
    real = ('examples.simulations, collective_motion, validation, fields',
            ) + tuple(build.REAL)
    KINDS = ('outdoor', 'hallway', 'room', 'four', 'herd-outdoor', 'rounding',
             'avoid', 'closed', 'herd-four', 'fixed-four', 'movement', 'pair')
    FAULTS = ('shove', 'back', 'stop', 'turn', 'abort', 'clock', 'schedule',
              'hull', 'resize', 'resize', 'other', 'type', 'retarget')

    def prepare(self):
        super().prepare()
        from crowddynamics.examples import collective_motion, fields, \
            simulations, validation
        self.fields = fields
        self.classes = {
            'outdoor': simulations.Outdoor, 'hallway': simulations.Hallway,
            'room': simulations.RoomWithOneExit,
            'four': simulations.FourExitsRandomPlacing,
            'herd-outdoor': collective_motion.Outdoor,
            'rounding': collective_motion.Rounding,
            'avoid': collective_motion.AvoidObstacle,
            'closed': collective_motion.ClosedRoom,
            'herd-four': collective_motion.FourExitsRandomPlacing,
            'fixed-four': collective_motion.FourExitsFixedPlacing,
            'movement': validation.TestMovement,
            'pair': validation.TestAgentInteraction}

    def options(self, rng):
        return {'kind': rng.choice(self.KINDS), 'three': rng.randrange(2),
                'n': rng.choice([0, 1, 2, 3, 5]),
                'leaders': rng.choice([0, 1, 1, 2]),
                'w': rng.randrange(40), 'h': rng.randrange(40),
                'ratio': rng.randrange(8), 'exit': rng.randrange(5)}

    def generate(self, rng):
        iters = rng.choice([2, 10, 30])
        p = self.options(rng)
        p.update(seed=rng.randrange(1 << 30), iters=iters,
                 others=[self.options(rng) for _ in range(rng.choice(
                     [0, 1, 2]))],
                 faults=sorted([rng.randrange(iters), rng.choice(
                     self.FAULTS), rng.randrange(8), rng.randrange(1 << 30)]
                     for _ in range(rng.choice([0, 2, 5]))))
        return p

    # -- what was asked for -------------------------------------------------
    def build(self, p):
        """(simulation, what is expected of it)"""
        kind = p['kind']
        if kind not in self.classes:
            raise BadPlan()
        ag = self.agents_mod
        cls = ag.ThreeCircle if p['three'] else ag.Circular
        w = 7.0 + p['w'] % 40 * .25
        h = 6.0 + p['h'] % 40 * .2
        e = (1.5, 1.7, 2.0, 2.3, 3.0)[p['exit'] % 5]
        r = p['ratio'] % 8 / 8
        n, lead = max(0, p['n']), max(0, p['leaders'])
        kw = dict(agent_type=cls)
        x = dict(kind=kind, cls=cls, w=w, h=h, e=e, lead=0, follow=0)
        if kind in ('outdoor', 'hallway', 'room'):
            n = max(n, 2 if kind == 'hallway' else 1)
            kw.update(size=n, width=w, height=h)
            x['n'] = n
            if kind == 'hallway':
                x['n'] = n // 2 * 2
                x['ratio'] = kw['ratio'] = .2 + r / 3
            if kind == 'room':
                x['hall'] = 1.0 + r
                kw.update(exit_width=e, exit_hall_width=x['hall'])
        elif kind == 'four':
            e = x['e'] = e + 3
            kw.update(size=n, exit_width=e)
            x['n'] = n
        elif kind in ('movement', 'pair'):
            x['n'] = 1 if kind == 'movement' else 2
            x.update(w=20.0, h=10.0)
        else:
            kw['size_herding'] = n
            if kind == 'fixed-four':
                lead = 4
                kw['size_leaders'] = 4
            else:
                if kind == 'herd-outdoor':
                    lead = min(lead, 1)
                kw['size_leaders'] = lead
            if kind in ('herd-four', 'fixed-four'):
                e = x['e'] = e + 3
                kw['exit_width'] = e
            else:
                kw.update(width=w, height=h)
            if kind == 'avoid':
                x['ratio'] = .4 + r / 3
                kw.update(exit_width=e, ratio_obs=x['ratio'])
            if kind == 'herd-outdoor':
                x['spot'] = (p['exit'] % 5 / 2 - .5) * w, (2 * r - .5) * h
                kw.update(horizontal_ratio=p['exit'] % 5 / 2 - .5,
                          vertical_ratio=2 * r - .5)
            x.update(n=n + lead, lead=lead, follow=n)
        sim = self.classes[kind](**kw)
        return sim, x

    # -- how it starts ------------------------------------------------------
    def field(self, ctx, sim, x, when):
        """The field has the dimensions asked for."""
        kind, f, w, h, e = x['kind'], sim.field, x['w'], x['h'], x['e']
        if 'four' in kind:
            w, h = 100.0, 80.0
        full = w + x['hall'] if kind == 'room' else w
        d = ring(f.domain)
        box = (min(a for a, _ in d), min(b for _, b in d),
               max(a for a, _ in d), max(b for _, b in d))
        ctx.check(all(same(a, b) for a, b in zip(box, (0, 0, full, h))),
                  'field', lambda: '%s: the domain of %s reaches over %r, '
                  'asked for were %g x %g' % (when, kind, box, full, h))
        goals = [flat(t) for t in f.targets]
        count = {'hallway': 2, 'room': 1, 'rounding': 1, 'avoid': 1}.get(
            kind, 4 if 'four' in kind else 0)
        ctx.check(len(goals) == count, 'field', lambda: '%s: %s has %d exits'
                  % (when, kind, len(goals)))
        wide = {'hallway': h, 'rounding': h / 2}.get(kind, e)
        walls = flat(f.obstacles)
        for g in goals:
            length = sum(math.dist(a, b) for a, b in g)
            ctx.check(same(length, wide), 'field', lambda: '%s: an exit of '
                      '%s is %g wide, not %g' % (when, kind, length, wide))
            for a, b in g:
                m = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
                near = min(seg_distance(m, *s) for s in walls)
                ctx.check(same(near, wide / 2), 'field', lambda: '%s: an '
                          'exit of %s at %r is %g from the walls, it is %g '
                          'wide' % (when, kind, m, near, wide))
                ctx.check(min(seg_distance(m, *s) for s in zip(
                    d, d[1:] + d[:1])) < 1e-6, 'field', lambda: '%s: an exit '
                    'of %s at %r is not at the edge' % (when, kind, m))
        if kind == 'hallway':
            left, right = (ring(s) for s in f.spawns)
            ctx.check(
                same(max(a for a, _ in left), x['ratio'] * w) and
                same(min(a for a, _ in right), (1 - x['ratio']) * w) and
                same(min(a for a, _ in left), 0) and
                same(max(a for a, _ in right), w),
                'field', lambda: '%s: spawns of the hallway are %r and %r' % (
                    when, left, right))
        for k, s in enumerate(f.spawns):
            gen = f.sample_spawn(k)
            for _ in range(2):
                q = [float(v) for v in next(gen)]
                ctx.check(-1e-9 <= q[0] <= full + 1e-9 and
                          -1e-9 <= q[1] <= h + 1e-9 and winding(
                              q[0], q[1], ring(s)), 'spawn', lambda: '%s: '
                          '%r is not in spawn %d of %s' % (when, q, k, kind))

    def start(self, ctx, sim, x):
        kind, f = x['kind'], sim.field
        arr = sim.agents.array
        ctx.check(len(arr) == x['n'], 'size', lambda: '%s has %d agents, '
                  'asked for were %d' % (kind, len(arr), x['n']))
        ctx.check(sim.agents.agent_type is x['cls'] and arr.dtype == x[
            'cls'].dtype(), 'type', lambda: '%s has agents %r' % (
                kind, arr.dtype.names))
        self.field(ctx, sim, x, 'at the start')
        walls = flat(f.obstacles)
        for k, a in enumerate(arr):
            q = [float(v) for v in a['position']]
            for s in walls:
                ctx.check(seg_distance(q, *s) >= .3 - 1e-9, 'wall', lambda:
                          'agent %d of %s starts %g from a wall' % (
                              k, kind, seg_distance(q, *s)))
            spots = self.spots(f, x, k)
            ctx.check(spots is None or winding(q[0], q[1], spots), 'spawn',
                      lambda: 'agent %d of %s starts at %r, outside of its '
                      'spawn %r' % (k, kind, q, spots))
            for b in arr[:k]:
                for u, v, r in discs(a, x['cls'] is not
                                     self.agents_mod.Circular):
                    for s, t, o in discs(b, x['cls'] is not
                                         self.agents_mod.Circular):
                        ctx.check(math.hypot(u - s, v - t) >= r + o - 1e-9,
                                  'overlap', lambda: 'agent %d of %s '
                                  'overlaps another one' % (k, kind))
        if kind == 'herd-outdoor' and x['lead']:
            ctx.check(all(same(a, b) for a, b in zip(
                arr['position'][0].tolist(), x['spot'])), 'spot', lambda:
                'the leader is at %r, asked for was %r' % (
                    arr['position'][0].tolist(), x['spot']))
        self.roles(ctx, sim, x)

    def spots(self, f, x, k):
        """Where agent k may start."""
        kind = x['kind']
        if kind in ('movement', 'pair'):
            return None
        if kind == 'hallway':
            return ring(f.spawns[k >= x['n'] // 2])
        if kind == 'avoid':
            return ring(f.spawns[k >= x['lead']])
        if kind == 'herd-outdoor' and k < x['lead']:
            return None
        if kind == 'fixed-four' and k < 4:
            a, b = ((25, 45), (80, 65), (75, 35), (35, 5))[k]
            return [(a, b), (a + 10, b), (a + 10, b + 10), (a, b + 10)]
        return ring(f.spawns[0])

    def roles(self, ctx, sim, x):
        """Leaders lead, followers follow, all have the targets they need."""
        arr, kind, goals = sim.agents.array, x['kind'], len(sim.field.targets)
        for k, a in enumerate(arr):
            t, leads, follows = int(a['target']), bool(a['is_leader']), \
                bool(a['is_follower'])
            if x['lead'] + x['follow']:
                ok = (leads, follows) == (k < x['lead'], k >= x['lead'])
            else:
                ok = not leads and not follows
            if kind == 'hallway':
                ok = ok and t == (1 if k < x['n'] // 2 else 0)
            elif kind == 'fixed-four' and k < 4:
                ok = ok and t == k
            elif kind in ('room', 'four') or goals and k < x['lead']:
                ok = ok and 0 <= t < goals
            else:
                ok = ok and t == -1
            if 'four' in kind:
                ok = ok and 0 <= int(a['familiar_exit']) < 4
            ctx.check(ok, 'role', lambda: 'agent %d of %s (%d leaders): '
                      'leader %r, follower %r, target %d' % (
                          k, kind, x['lead'], leads, follows, t))

    # -- one run ------------------------------------------------------------
    def execute(self, plan, ctx):
        p = dict(plan)
        np.random.seed(p['seed'] % (1 << 32))
        sim, x = self.build(p)
        self.start(ctx, sim, x)
        if 'four' in p['kind']:
            sim.logic['Navigation'].step = 1.0
            sim.logic['Navigation'].radius = .5
        elif p['kind'] in ('hallway', 'rounding', 'avoid', 'room'):
            # exits of 1.5 m are wide enough to be seen
            sim.logic['Navigation'].step = .125
            sim.logic['Navigation'].radius = .3
        st = dict(bad=None, last=None)

        def abort(node):
            if st['bad'] is not None:
                st['bad'] -= 1
                if st['bad'] < 0:
                    st['bad'] = None
                    raise NodeFault()
        build.hook_nodes(sim, abort)
        faults = list(p['faults'])
        walls = flat(sim.field.obstacles)
        for k in range(max(1, p['iters'])):
            while faults and faults[0][0] <= k:
                _, what, who, s = faults.pop(0)
                self.disturb(p, ctx, sim, x, st, what, who, s)
                walls = flat(sim.field.obstacles)
                ctx.nontrivial = True
            arr = sim.agents.array
            before = arr['position'].copy()
            tot = float(sim.data['time_tot'])
            done = sim.data['iterations']
            try:
                sim.update()
            except NodeFault:
                ctx.fault('abort at a node')
                continue
            self.after(ctx, sim, x, before, walls, tot, done)
        ctx.ev(p['kind'], sim.agents.array.tobytes().hex()[:4000])
        ctx.sim_time += float(sim.data['time_tot'])
        ctx.state(p['kind'], bool(p['three']), x['n'],
                  crc32(sim.agents.array.tobytes()))

    def after(self, ctx, sim, x, before, walls, tot, done):
        """One iteration was completed."""
        arr, kind = sim.agents.array, x['kind']
        ctx.check(len(arr) == x['n'], 'size', lambda: '%s has %d agents, not '
                  '%d any more' % (kind, len(arr), x['n']))
        for f in arr.dtype.names:
            if arr[f].dtype.kind == 'f':
                ctx.check(bool(np.isfinite(arr[f]).all()), 'finite', lambda:
                          '%s of %s is %r' % (f, kind, arr[f].tolist()))
        ctx.check(sim.data['iterations'] == done + 1, 'count', lambda:
                  '%s: %r iterations after %r' % (
                      kind, sim.data['iterations'], done))
        dt = float(sim.data['dt'])
        ctx.check(dt > 0 and same(float(sim.data['time_tot']), tot + dt),
                  'time', lambda: '%s: %r s after %r s and a step of %r' % (
                      kind, sim.data['time_tot'], tot, dt))
        for a, b in zip(before, arr['position']):
            for s in walls:
                if min(seg_distance(a, *s), seg_distance(b, *s)) < .5 and \
                        touch(a, b, *s):
                    ctx.fail('wall', '%s: an agent went from %r to %r, '
                             'through the wall %r' % (kind, list(a), list(b),
                                                      s))
        d = ring(sim.field.domain)
        if 'inactive' in sim.data:
            out = [not winding(float(q[0]), float(q[1]), d)
                   for q in arr['position']]
            ctx.check(sim.data['inactive'] == sum(out) and
                      [not v for v in arr['active']] == out, 'counted',
                      lambda: '%s: %r are counted as inactive, %r are outside'
                      % (kind, sim.data['inactive'], out))
        elif kind in ('hallway', 'room', 'four', 'rounding', 'avoid',
                      'herd-four', 'fixed-four'):
            ctx.fail('counted', '%s counts nobody' % kind)
        length = np.hypot(arr['target_direction'][:, 0],
                          arr['target_direction'][:, 1])
        ctx.check(bool((length <= 1 + 1e-6).all()), 'direction', lambda:
                  '%s: directions %r' % (kind, length.tolist()))
        if 'target_orientation' in arr.dtype.names:
            for k in range(len(arr)):
                e = arr['target_direction'][k]
                if length[k] < 1e-3:
                    continue
                a = float(arr['target_orientation'][k]) - math.atan2(
                    e[1], e[0])
                ctx.check(abs(math.sin(a / 2)) < 1e-6, 'facing', lambda:
                          '%s: agent %d heads %r and turns to %r' % (
                              kind, k, e.tolist(),
                              float(arr['target_orientation'][k])))

    def hull(self, ctx, r):
        """The hull of a field encloses all of it, also after changes."""
        sg = self.sg

        def spot():
            return round(r.uniform(-20, 20), 2), round(r.uniform(-20, 20), 2)

        def box():
            x, y = spot()
            return sg.Polygon([(x, y), (x + 2, y), (x + 1, y + 3)])
        f = self.b['Field']()
        for _ in range(3):
            if r.random() < .6:
                f.obstacles = self.lines([(spot(), spot())
                                          for _ in range(r.choice([1, 2]))])
            if r.random() < .6:
                f.targets = [sg.LineString([spot(), spot()]) if
                             r.random() < .5 else box()
                             for _ in range(r.choice([0, 1, 2]))]
            if r.random() < .6 or not f.spawns:
                f.spawns = [box() for _ in range(r.choice([1, 1, 2]))]
            pts = [q for g in list(f.targets) + list(f.spawns) + (
                [] if f.obstacles is None else [f.obstacles])
                for e in flat(g) for q in e]
            edge = ring(f.convex_hull())
            ctx.check(all(winding(q[0], q[1], edge) or min(
                seg_distance(q, *e) for e in zip(edge, edge[1:] + edge[:1]))
                < 1e-6 for q in pts) and all(min(
                    math.dist(q, v) for q in pts) < 1e-6 for v in edge),
                'hull', lambda: 'the hull %r of a field is not that of %r' % (
                    edge, pts))

    # -- faults -------------------------------------------------------------
    def disturb(self, p, ctx, sim, x, st, what, who, seed):
        r = random.Random(seed)
        arr = sim.agents.array
        kind = x['kind']
        a = r.uniform(-3.1, 3.1)
        if what == 'abort':
            st['bad'] = r.randrange(9)
            return
        if what == 'hull':
            self.hull(ctx, r)
        elif what == 'clock':
            clock.clock.jump(r.choice([-1e6, 3600.0, 1e7]))
        elif what == 'schedule':
            self.cells.PAIR_SCHEDULE = order_of('mix', seed)
        elif what == 'other':
            if not p['others']:
                return
            o = dict(p['others'][who % len(p['others'])])
            other, y = self.build(o)
            self.start(ctx, other, y)
            if kind not in ('four', 'herd-four', 'fixed-four') and \
                    'four' not in o['kind']:
                if 'inactive' in sim.data and o['kind'] not in (
                        'outdoor', 'herd-outdoor', 'closed', 'movement',
                        'pair'):
                    other.logic['Navigation'].step = .25
                    other.logic['Navigation'].radius = .3
                    other.update()
        elif what == 'resize':
            if kind not in ('outdoor', 'herd-outdoor', 'hallway', 'movement',
                            'pair'):
                return
            for name in r.sample(['w', 'h', 'ratio'], r.choice([1, 2])):
                if name == 'w':
                    x['w'] = sim.field.width = r.uniform(6, 15)
                elif name == 'h':
                    x['h'] = sim.field.height = r.uniform(5, 12)
                elif kind == 'hallway':
                    x['ratio'] = sim.field.ratio = r.uniform(.2, .5)
                self.field(ctx, sim, x, 'resized')
        elif what == 'type':
            if kind not in ('movement', 'pair'):
                return
            ag = self.agents_mod
            x['cls'] = ag.Circular if x['cls'] is ag.ThreeCircle else \
                ag.ThreeCircle
            sim.agent_type = x['cls']
            self.start(ctx, sim, x)
        elif not len(arr):
            return
        elif what == 'shove':
            v = r.uniform(.5, 2.5)
            arr[who % len(arr)]['velocity'][:] = (v * math.cos(a),
                                                  v * math.sin(a))
        elif what == 'stop':
            arr[who % len(arr)]['velocity'][:] = 0
        elif what == 'turn':
            arr[who % len(arr)]['target_direction'][:] = (math.cos(a),
                                                          math.sin(a))
        elif what == 'retarget':
            if int(arr['target'][who % len(arr)]) < 0:
                return
            arr['target'][who % len(arr)] = r.randrange(
                len(sim.field.targets))
        elif what == 'back':
            if not len(sim.field.spawns):
                return
            gen = sim.field.sample_spawn(r.randrange(len(sim.field.spawns)))
            for _ in range(30):
                q = next(gen)
                if all(math.dist(q, o['position']) > .7 for o in arr):
                    row = arr[who % len(arr)]
                    row['position'][:] = q
                    row['velocity'][:] = 0
                    if 'orientation' in arr.dtype.names:
                        self.agents_mod.shoulders(arr)
                    break
        ctx.fault(what)


SCENARIOS = (Shipped,)
