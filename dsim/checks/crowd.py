"""Whole crowds: complete simulations, spawned by the field and steered out of
their rooms while people are shoved, moved back, held up and sent round, doors
are shut and opened again, iterations are aborted and runs are continued from
their records."""
import math
import random

import numpy as np

from dsim import build, clock
from dsim.checks.nav import touch
from dsim.checks.agents import seg_distance
from dsim.checks.world import NodeFault, World, winding
from dsim.core import BadPlan


NEAR = 1.0  # m, in front of a target


class Evacuation(World):
    id = 'E01'
    title = 'Crowds leave their rooms once nothing holds them up'
    rule = ('Shipped and generated rooms with exits, halls, inner walls; '
            'crowds spawned in them walk out under fluctuation, steering, '
            'avoidance and contact, while seeded faults shove, move back, '
            'stop and turn agents, run them into walls, shut doors in front of '
            'them and open them again, abort iterations at '
            'any node, jump the clock and continue a run from its last '
            'frame in a new simulation.  Non-trivial: agents leave.')
    cpu_limit = 100
    quick_runs = 96
    thorough_runs = 900
    assumptions = ('exits are at least six steps of the map wider than the radius that navigation keeps on both sides',)
    KINDS = ('room', 'hallway', 'rounding', 'avoid', 'own')
    FAULTS = ('shove', 'ram', 'back', 'stop', 'turn', 'door', 'abort', 'clock',
              'restart', 'retarget', 'schedule')

    def prepare(self):
        super().prepare()
        from crowddynamics.examples import simulations, fields
        self.ex, self.fields = simulations, fields
        import cell_lists
        self.cells = cell_lists

    def generate(self, rng):
        busy = rng.choice([0, 60, 150])
        kind = rng.choice(self.KINDS + ('room',))
        kinds = self.FAULTS + ('door',) * (12 if kind == 'room' else 0)
        return {'kind': kind, 'three': rng.randrange(2),
                'n': rng.choice([1, 2, 3, 4]),
                'seed': rng.randrange(1 << 30),
                'w': rng.randrange(6), 'h': rng.randrange(6),
                'exit': rng.randrange(5),
                'steer': rng.choice(['plain', 'plain', 'guided', 'detect', 'herd']),
                'busy': busy,
                'faults': sorted([rng.randrange(busy), rng.choice(
                    kinds), rng.randrange(8), rng.randrange(1 << 30)]
                    for _ in range(rng.choice([0, 2, 5])) if busy)}

    # -- the place ----------------------------------------------------------
    def place(self, p):
        """(field, free walls of the building, doors: one line per exit)"""
        kind = p['kind'] if p['kind'] in self.KINDS else 'room'
        w, h = 4.0 + p['w'] % 6 * .7, 4.0 + p['h'] % 6 * .7
        e = (1.6, 1.8, 2.0, 2.5, 3.0)[p['exit'] % 5]
        if kind == 'room':
            hall = (1.0, 1.5, 2.0)[p['w'] % 3]
            f = self.fields.RoomWithOneExit(
                width=w, height=h, exit_width=e, exit_hall_width=hall)
            doors = [((w, (h - e) / 2), (w, (h + e) / 2))]
        elif kind == 'hallway':
            w, h = w + 4, h - 1
            f = self.fields.HallwayField(width=w, height=h)
            doors = []
        elif kind == 'rounding':
            w, h = w + 2, h + 2
            f = self.fields.Rounding(width=w, height=h, ratio=.5)
            doors = [((0, h / 2), (0, h))]
        elif kind == 'avoid':
            w, h, e = w + 3, h + 2, max(e, 1.6)
            f = self.fields.AvoidObstacle(width=w, height=h, exit_width=e,
                                          ratio_obs=.5)
            doors = [((w, 0), (w, e))]
        else:
            sg = self.sg
            ox, oy = ((0, 0), (-3, 2), (-9.5, -7.3))[p['h'] % 3]
            w, h = w + 1, h + 1
            lo, hi = (h - e) / 2, (h + e) / 2
            walls = [((0, 0), (w, 0)), ((0, h), (w, h)), ((0, 0), (0, lo)),
                     ((0, hi), (0, h)), ((w, 0), (w, lo)), ((w, hi), (w, h))]
            walls = [[(x + ox, y + oy) for x, y in s] for s in walls]
            doors = [tuple((x + ox, y + oy) for x, y in s)
                     for s in (((0, lo), (0, hi)), ((w, lo), (w, hi)))]
            f = self.b['Field'](
                domain=sg.Polygon([(ox, oy), (ox + w, oy),
                                   (ox + w, oy + h), (ox, oy + h)]),
                obstacles=self.lines(walls),
                targets=[sg.LineString(list(d)) for d in doors],
                spawns=[sg.Polygon([(ox + .2, oy + .2), (ox + w - .2, oy + .2),
                                    (ox + w - .2, oy + h - .2),
                                    (ox + .2, oy + h - .2)])])
        walls = [tuple(map(tuple, s)) for s in self.segments(f.obstacles)]
        return f, walls, doors

    def segments(self, geom):
        from crowddynamics.core.geometry import geom_to_linesegment
        return list(geom_to_linesegment(geom))

    # -- the crowd ----------------------------------------------------------
    def crowd(self, p, f, steer):
        ag = self.agents_mod
        cls = ag.ThreeCircle if p['three'] else ag.Circular
        out = ag.Agents(agent_type=cls)
        count = [0]

        def attributes():
            k = count[0]
            count[0] += 1
            phi = np.random.uniform(-np.pi, np.pi)
            target = k % len(f.targets)
            follower = steer != 'plain' and k > 0
            d = dict(body_type='adult', velocity=np.zeros(2),
                     target_direction=self.b['unit'](phi),
                     target=-1 if follower else target,
                     is_follower=follower, is_leader=not follower,
                     familiar_exit=target)
            if p['three']:
                d.update(orientation=phi, target_orientation=phi)
            return d
        group = ag.AgentGroup(size=max(1, p['n']), agent_type=cls,
                              attributes=attributes)
        out.add_non_overlapping_group(
            group, position_gen=f.sample_spawn(0))
        return out

    def simulation(self, p, f, agents, steer):
        lg = self.logic
        sim = self.b['multi'].MultiAgentSimulation(name='crowd')
        sim.field, sim.agents = f, agents
        nav = lg.Navigation(sim)
        if steer == 'guided':
            nav << lg.LeaderFollower(sim)
        elif steer == 'herd':
            nav << lg.LeaderFollowerWithHerding(sim)
        elif steer == 'detect':
            nav << lg.ExitDetection(sim) << lg.LeaderFollower(sim)
        steering = [nav]
        if p['three']:
            steering.append(lg.Orientation(sim))
        integ = lg.Integrator(sim)
        integ.dt_min, integ.dt_max = .005, .025
        sim.logic = lg.Reset(sim) << (
            lg.InsideDomain(sim) << (
                integ << (lg.Fluctuation(sim),
                          lg.Adjusting(sim) << steering,
                          lg.AgentAgentInteractions(sim),
                          lg.AgentObstacleInteractions(sim))))
        return sim

    # -- one run ------------------------------------------------------------
    def execute(self, plan, ctx):
        p = dict(plan)
        np.random.seed(p['seed'] % (1 << 32))
        steer = p['steer']
        f, walls, doors = self.place(p)
        agents = self.crowd(p, f, steer)
        arr = agents.array
        if not len(arr):
            raise BadPlan()
        for a in arr:
            gap = min(seg_distance(a['position'], *s) for s in walls)
            ctx.check(gap >= .3 - 1e-9, 'spawned', lambda: 'an agent was '
                      'spawned %g m from a wall' % gap)
        sim = self.simulation(p, f, agents, steer)
        self.run(p, ctx, sim, f, walls, doors, steer)

    def run(self, p, ctx, sim, f, walls, doors, steer):
        domain = [tuple(q) for q in f.domain.exterior.coords][:-1]
        faults = list(p['faults'])
        st = dict(k=0, calm=None, done=None, there=set(), bad=None, last=None, shut=None,
                  until=-1, wait=None)
        size = len(sim.agents.array)
        goals = [tuple(map(tuple, t)) for g in f.targets
                 for t in self.segments(g)]
        speed = float(sim.agents.array['target_velocity'].min())
        far = sum(math.dist(a, b) for a, b in zip(domain, domain[1:])) + 4
        bound = 8.0 + 3.0 * size + 1.5 * far / speed

        def abort(node):
            if st['bad'] is not None:
                st['bad'] -= 1
                if st['bad'] < 0:
                    st['bad'] = None
                    raise NodeFault()

        def outside(q):
            return not winding(float(q[0]), float(q[1]), domain)

        def observe():
            arr = sim.agents.array
            ctx.check(bool(np.isfinite(arr['position']).all()), 'finite',
                      lambda: 'positions are %r' % arr['position'].tolist())
            if st['last'] is not None:
                closed = walls + ([doors[st['shut']]] if st['shut']
                                  is not None else [])
                for k, (a, b) in enumerate(zip(st['last'], arr['position'])):
                    if a[0] == b[0] and a[1] == b[1]:
                        continue
                    for s in closed:
                        if min(seg_distance(a, *s), seg_distance(b, *s)) < 1 \
                                and touch(a, b, *s):
                            ctx.fail('wall', 'agent %d went from %r to %r, '
                                     'through the wall %r' % (
                                         k, list(a), list(b), s))
            st['last'] = arr['position'].copy()

        def met(simulation):
            """Checks and faults between iterations; is everybody out?"""
            arr = sim.agents.array
            observe()
            k = st['k']
            st['k'] += 1
            if st['shut'] is not None and k >= st['until']:
                self.open(f, st)
                ctx.probe('opened')
            while faults and faults[0][0] <= k:
                _, what, who, s = faults.pop(0)
                self.disturb(p, ctx, sim, f, walls, doors, st, what, who, s)
                if what == 'restart':
                    return True
            if st['wait'] is not None and st['shut'] is None:
                if k > st['wait']:
                    st['wait'] = None
                else:
                    self.disturb(p, ctx, sim, f, walls, doors, st, 'door', 0,
                                 st['door'])
            out = [outside(q) for q in arr['position']]
            if not faults and st['shut'] is None and st['wait'] is None:
                t = float(sim.data['time_tot'])
                if st['calm'] is None:
                    st['calm'] = t
                # Side by side in front of a target people may get into each
                # other's way; they have found their way to it, though.
                for i, q in enumerate(arr['position']):
                    if out[i] or min(seg_distance(q, *g)
                                     for g in goals) < NEAR:
                        st['there'].add(i)
                if t - st['calm'] >= bound:
                    left = [i for i in range(size) if i not in st['there']]
                    ctx.check(not left, 'stuck', lambda: '%.1f s after the '
                              'last disturbance agents %r have not been to '
                              'an exit; positions %r, directions %r, '
                              'targets %r' % (
                                  bound, left, arr['position'].tolist(),
                                  arr['target_direction'].tolist(),
                                  arr['target'].tolist()))
                    ctx.probe('waiting')
                    return True
                if len(st['there']) == size and st['done'] is None:
                    st['done'] = t
                return k > 0 and all(out) or (
                    st['done'] is not None and t - st['done'] > 15)
            return False
        build.hook_nodes(sim, abort)
        sim.exit_condition = met
        while True:
            try:
                t = float(sim.data['time_tot'])
                sim.run()
            except NodeFault:
                ctx.fault('abort at a node')
                st['last'] = None
                continue
            finally:
                ctx.sim_time += float(sim.data['time_tot']) - t
            if not st.get('restart'):
                break
            st['restart'] = False
            sim = self.again(p, sim, f, steer)
            build.hook_nodes(sim, abort)
            sim.exit_condition = met
        st['bad'] = None
        sim.update()
        arr = sim.agents.array
        count = sum(outside(q) for q in arr['position'])
        ctx.check(sim.data['inactive'] == count, 'counted', lambda: '%r '
                  'agents are counted as inactive, %d are outside' % (
                      sim.data['inactive'], count))
        ctx.nontrivial = True
        ctx.ev('out', repr(arr['position'].tolist()))
        ctx.state(p['kind'], p['steer'], bool(p['three']), size,
                  int(sim.data['time_tot']))

    def again(self, p, old, f, steer):
        """The last frame of a run in a new simulation."""
        ag = self.agents_mod
        agents = ag.Agents(agent_type=old.agents.agent_type)
        agents.array = np.array(old.agents.array)
        agents.index = len(agents.array)
        sim = self.simulation(p, f, agents, steer)
        return sim

    def disturb(self, p, ctx, sim, f, walls, doors, st, what, who, seed):
        r = random.Random(seed)
        arr = sim.agents.array
        row = arr[who % len(arr)]
        a = r.uniform(-3.1, 3.1)
        if what == 'shove':
            v = r.uniform(.5, 2.5)
            row['velocity'][:] = (v * math.cos(a), v * math.sin(a))
        elif what == 'stop':
            row['velocity'][:] = 0
        elif what == 'turn':
            row['target_direction'][:] = (math.cos(a), math.sin(a))
            if p['three']:
                row['orientation'] = a
                self.agents_mod.shoulders(arr)
        elif what == 'back':
            gen = f.sample_spawn(0)
            for _ in range(50):
                q = next(gen)
                if all(math.dist(q, o['position']) > .7 for o in arr):
                    row['position'][:] = q
                    row['velocity'][:] = 0
                    st['last'] = None
                    if p['three']:
                        self.agents_mod.shoulders(arr)
                    break
        elif what == 'door':
            if st['shut'] is not None or not doors:
                return
            k = r.randrange(len(doors))
            if p['kind'] != 'room':
                return
            if st['wait'] is None:
                # when somebody comes to it, at the latest after a while
                st['wait'] = st['k'] + r.choice([0, 200, 400, 400])
                st['door'] = seed
            near = min(seg_distance(q, *doors[k]) for q in arr['position'])
            coming = any(seg_distance(q, *doors[k]) < .9 and
                         q[0] < doors[k][0][0] for q in arr['position'])
            if near < .6 or not coming and st['k'] < st['wait']:
                return
            st['wait'] = None
            st['shut'], st['open'] = k, f.obstacles
            st['until'] = st['k'] + r.choice([20, 100, 200, 400])
            f.obstacles = f.obstacles | self.sg.LineString(list(doors[k]))
            if r.random() < .7:
                for row in arr:     # who comes runs into it
                    self.ram(row, [doors[k]], r.uniform(1.5, 2.5))
        elif what == 'ram':
            self.ram(row, walls, r.uniform(1, 2.5))
        elif what == 'abort':
            st['bad'] = r.randrange(9)
            return
        elif what == 'clock':
            clock.clock.jump(r.choice([-1e6, 3600.0, 1e7]))
        elif what == 'restart':
            st['restart'] = True
        elif what == 'retarget':
            if arr['target'][who % len(arr)] >= 0:
                row['target'] = r.randrange(len(f.targets))
        elif what == 'schedule':
            from dsim.checks.world import order_of
            self.cells.PAIR_SCHEDULE = order_of('mix', seed)
        ctx.fault(what)

    @staticmethod
    def ram(row, walls, v):
        """Pushed against the nearest wall, if there is one close by."""
        q = row['position']
        d, (a, b) = min((seg_distance(q, *s), s) for s in walls)
        if not .3 < d < 1.5:
            return
        n = [(b[0] - a[0]), (b[1] - a[1])]
        t = ((q[0] - a[0]) * n[0] + (q[1] - a[1]) * n[1]) / (
            n[0] ** 2 + n[1] ** 2)
        t = min(max(t, 0), 1)
        row['velocity'][:] = [v * (a[k] + t * n[k] - q[k]) / d
                              for k in (0, 1)]

    def open(self, f, st):
        f.obstacles = st['open']
        st['shut'] = None


SCENARIOS = (Evacuation,)
