"""Population: placement, groups, shoulders, body measures."""
import math

import numpy as np

from dsim.core import BadPlan, Scenario

EPS = 1e-9
FAMILIES = ['adult', 'male', 'female', 'child', 'eldery']


class PositionFault(Exception):
    pass


class AttributeFault(Exception):
    pass


def seg_distance(p, a, b):
    (px, py), (ax, ay), (bx, by) = p, a, b
    dx, dy = bx - ax, by - ay
    l2 = dx * dx + dy * dy
    t = 0.0 if l2 == 0 else max(0.0, min(1.0, (
        (px - ax) * dx + (py - ay) * dy) / l2))
    return math.hypot(px - ax - t * dx, py - ay - t * dy)


def discs(row, three):
    """The discs of one stored agent as (x, y, r)."""
    x, y = (float(v) for v in row['position'])
    if not three:
        return [(x, y, float(row['radius']))]
    out = [(x, y, float(row['r_t']))]
    tx, ty = math.sin(float(row['orientation'])), \
        -math.cos(float(row['orientation']))
    for s in (-1, 1):
        out.append((x + s * float(row['r_ts']) * tx,
                    y + s * float(row['r_ts']) * ty, float(row['r_s'])))
    return out


def gap(a, b):
    return min(math.hypot(p[0] - q[0], p[1] - q[1]) - p[2] - q[2]
               for p in a for q in b)


def gap_obstacles(a, obstacles):
    out = float('inf')
    for d in a:
        for p0, p1 in obstacles:
            out = min(out, seg_distance(d[:2], p0, p1) - d[2])
    return out


class Population(Scenario):
    real = ('Agents', 'AgentGroup', 'agent types', 'MutableBlockList',
            'overlap tests and distances', 'body type configuration')
    stub = ('numba, scipy.stats stand-ins', 'position and attribute sources '
            '(scripted, faulty)')
    strict = False      # attribute sources hold exactly one group

    def prepare(self):
        from crowddynamics.core import structures
        from crowddynamics.exceptions import CrowdDynamicsException
        from crowddynamics.simulation import agents
        self.m = agents
        self.obstacle_type = structures.obstacle_type_linear
        self.base_error = CrowdDynamicsException

    # -- plans ------------------------------------------------------------
    def gen_member(self, rng, three):
        d = {'k': rng.choice(['body', 'radius', 'radius']),
             'body': rng.choice(FAMILIES),
             'r': rng.choice([.05, .2, .25, .3, .5, .8]),
             'phi': round(rng.uniform(-3.1, 3.1), 3),
             'mark': rng.randrange(1, 10 ** 6)}
        if self.strict and rng.random() < .1:
            d['k'] = 'point'
        if self.strict and rng.random() < .6:
            d['rich'] = rng.randrange(1, 1 << 30)
        return d

    def gen_positions(self, rng, n):
        """A reproducible stream of candidate positions."""
        return {'kind': rng.choice(['box', 'box', 'tight', 'line', 'same',
                                    'cells', 'far', 'zero']),
                'w': rng.choice([.5, 1.5, 3, 6, 12]),
                'x0': rng.choice([0, 0, -3, -1.5, 100, -1000]),
                'y0': rng.choice([0, 0, -3, 2.2, -77]),
                'seed': rng.randrange(1 << 30)}

    def positions(self, p, cell):
        import random
        r = random.Random(p['seed'])
        w = max(.01, p['w'])
        k = 0
        while True:
            if p['kind'] == 'same':
                q = (.1, .1)
            elif p['kind'] == 'zero':
                q = r.choice([(0.0, 0.0), (-0.0, 0.0), (0.0, cell),
                              (cell, cell), (-cell, 0.0)])
            elif p['kind'] == 'tight':
                q = (r.uniform(0, w / 8), r.uniform(0, w / 8))
            elif p['kind'] == 'line':
                q = (.09 * k, 0.0)
            elif p['kind'] == 'cells':
                q = (cell * r.randrange(-4, 5) + r.choice([0, 1e-12, -1e-12]),
                     cell * r.randrange(-4, 5))
            elif p['kind'] == 'far':
                q = (r.uniform(-50, 50) * w, r.uniform(-50, 50) * w)
            else:
                q = (r.uniform(0, w), r.uniform(0, w))
            k += 1
            yield (q[0] + p['x0'], q[1] + p['y0'])

    def rich(self, seed, three):
        """Distinct values for everything else an agent carries."""
        import random
        r = random.Random(seed)
        out = {n: r.randrange(1, 4096) / 64 for n in (
            'tau_adj', 'k_soc', 'tau_0', 'kappa', 'damping',
            'std_rand_force', 'target_velocity', 'target_angular_velocity',
            'inertia_rot')}
        for n in ('velocity', 'force', 'force_prev'):
            out[n] = np.array((r.randrange(-999, 999) / 8,
                               r.randrange(-999, 999) / 8))
        a = r.uniform(-3, 3)
        out['target_direction'] = np.array((math.cos(a), math.sin(a))) * \
            r.choice([0, 1, 1])
        out.update(target=r.randrange(-1, 9),
                   familiar_exit=r.randrange(-1, 9),
                   index_leader=r.randrange(-1, 9),
                   is_leader=r.random() < .5, is_follower=r.random() < .5,
                   active=r.random() < .5, target_reached=r.random() < .5)
        if three:
            out.update({n: r.randrange(-999, 999) / 512 for n in (
                'angular_velocity', 'target_orientation', 'torque',
                'torque_prev')})
            out.update({n: r.randrange(1, 999) / 512 for n in (
                'tau_rot', 'std_rand_torque')})
        keep = [n for n in sorted(out) if r.random() < .8]
        return {n: out[n] for n in keep}

    def attributes(self, d, three):
        out = self.rich(d['rich'], three) if d.get('rich') else {}
        out['mu'] = float(d['mark'])
        if d['k'] == 'body':
            out['body_type'] = d['body'] if d['body'] in FAMILIES else 'adult'
        elif d['k'] != 'point':
            out['radius'] = max(.01, d['r'])
            if three:
                out.update(ratio_rt=.5882, ratio_rs=.3725, ratio_ts=.6275)
            out['mass'] = 70.0
        if three:
            out['orientation'] = float(max(-3.14, min(3.14, d['phi'])))
        return out

    def type_of(self, three):
        return self.m.ThreeCircle if three else self.m.Circular

    def obstacle_array(self, obstacles):
        a = np.zeros(len(obstacles), dtype=self.obstacle_type)
        for k, (p0, p1) in enumerate(obstacles):
            a[k]['p0'], a[k]['p1'] = p0, p1
        return a

    def gen(self, rng):
        three = int(rng.random() < .4)
        groups = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            n = rng.choice([0, 1, 2, 3, 4, 6, 9])
            groups.append({
                'members': [self.gen_member(rng, three) for _ in range(n)],
                'src': rng.choice(['list', 'call', 'gen', 'gen', 'tuple']),
                'build': [rng.randrange(3) for _ in range(3)]
                if rng.random() < .5 else None,
                'pos': self.gen_positions(rng, n),
                'call': rng.random() < .4,
                'fault': rng.choice(['none', 'none', 'none', 'raise', 'stop',
                                     'bad']),
                'at': rng.randrange(8),
                'walls': rng.choice([0, 0, 1, 2, 5]),
                'foreign': self.strict and rng.random() < .15,
                'nosize': self.strict and rng.random() < .2,
                'surplus': rng.choice([1, 3]) if self.strict and
                rng.random() < .15 else 0,
                'retype': self.strict and rng.random() < .3,
                'retry': rng.random() < .3})
        if rng.random() < .15:
            # a few large agents, and then many small ones among them
            for k, g in enumerate(groups):
                g['pos'].update(kind='box', x0=0, y0=0, w=6)
                size = (1, 2) if k == 0 else (9, 14)
                g['members'] = [dict(
                    self.gen_member(rng, three), k='radius',
                    r=rng.choice([1.4, 1.9] if k == 0 else [.05, .2]))
                    for _ in range(rng.randint(*size))]
        if rng.random() < .12:
            # nearly every position is refused because of the walls
            for g in groups:
                g['pos'].update(kind='tight', w=rng.choice([1.5, 6]))
                g['walls'] = 6
                g['fault'] = 'none'
                g['members'] = g['members'][:rng.choice([1, 2])]
        obst = []
        for _ in range(6):
            x, y = rng.uniform(-4, 8), rng.uniform(-4, 8)
            obst.append([[round(x, 2), round(y, 2)],
                         [round(x + rng.choice([0, 1, -3, .2]), 2),
                          round(y + rng.choice([0, 2, -.5, .3]), 2)]])
        if rng.random() < .2:
            # long walls, far from both ends of which agents are placed
            for k in range(rng.choice([1, 2, 6])):
                a = rng.choice([0, 1.571, rng.uniform(0, 3.1)])
                x, y = rng.uniform(-2, 6), rng.uniform(-2, 6)
                t, u = rng.uniform(6, 40), rng.uniform(-40, -6)
                obst[k] = [[round(x + z * math.cos(a), 2),
                            round(y + z * math.sin(a), 2)] for z in (t, u)]
        if groups and groups[0]['walls'] == 6:
            q = groups[0]['pos']
            for k in range(5):
                obst[k] = [[q['x0'] + .2 * k, q['y0'] - 1],
                           [q['x0'] + .2 * k, q['y0'] + 2]]
        return {'three': three, 'cell': rng.choice([.6, .6, .6, .4, 1, 2.5, .2]),
                'groups': groups, 'obstacles': obst,
                'members_last': rng.random() < .3}

    def foreign(self, ctx, agents, three):
        """A group of another agent type has no place in the crowd."""
        ctx.fault('foreign group')
        kind = self.type_of(not three)
        group = self.m.AgentGroup(size=2, agent_type=kind, attributes=[
            dict(radius=.2, mass=1.0)] * 2)
        before = agents.array.copy()
        try:
            agents.add_non_overlapping_group(
                group, (np.array((1e6 + k, 1e6)) for k in range(20)))
        except Exception:
            pass
        else:
            ctx.fail('foreign', 'a group of %s was added to a crowd of '
                     'others' % kind.__name__)
        ctx.check(agents.array.dtype == before.dtype and
                  agents.array.tobytes() == before.tobytes(), 'foreign',
                  'a rejected group changed the crowd')

    # -- driving ----------------------------------------------------------
    def make_group(self, ctx, plan, g, log):
        three = bool(plan['three'])
        size = len(g['members'])
        made = [self.attributes(d, three) for d in g['members']]
        it = iter(made)

        def take():
            log['taken'] += 1
            try:
                return dict(next(it))
            except StopIteration:
                if not self.strict:
                    return dict(made[log['taken'] % size])
                raise AttributeFault('attribute source called %d times for '
                                     'a group of %d' % (log['taken'], size))

        def source():
            for _ in range(size):
                yield take()
            while made and not self.strict:
                yield take()
        more = []
        if g.get('surplus') and not g.get('nosize') and \
                g['src'] in ('list', 'tuple') and made:
            # more attributes than the group is asked to have agents
            ctx.probe('surplus attributes')
            more = [dict(made[k % size], mu=1e6 + k)
                    for k in range(g['surplus'])]
        src = {'list': lambda: [dict(a) for a in made + more],
               'tuple': lambda: tuple(dict(a) for a in made + more),
               'call': lambda: take,
               'gen': source}.get(g['src'], lambda: source())()
        kw = dict(size=size, agent_type=self.type_of(three), attributes=src)
        if g.get('nosize') and g['src'] in ('list', 'tuple') and made:
            # the size of a collection is known
            del kw['size']
            group = self.m.AgentGroup(**kw)
        elif not g['build']:
            group = self.m.AgentGroup(**kw)
        else:
            group = self.m.AgentGroup()
            names = ['size', 'agent_type', 'attributes']
            order = ['agent_type']
            if g.get('retype') and not three and g['src'] in ('list',
                                                              'tuple'):
                # first meant to be a group of another type
                ctx.probe('group of another type first')
                group.agent_type = self.type_of(True)
                order = []
            for b in list(g['build']) + [0, 1, 2]:
                n = names[b % 3]
                if n not in order:
                    order.append(n)
            for n in order:
                setattr(group, n, kw[n])
        return group, made

    def drive(self, plan, ctx, after):
        """Runs the history; after(...) judges each add."""
        three = bool(plan['three'])
        cell = float(plan['cell'])
        if not cell > 0:
            raise BadPlan()
        cls = self.type_of(three)
        agents = self.m.Agents(agent_type=cls, cell_size=cell)
        for gi, g in enumerate(plan['groups']):
            log = dict(taken=0, offered=[], fault=None)
            try:
                group, made = self.make_group(ctx, plan, g, log)
            except Exception as exc:
                if not self.strict:
                    raise
                ctx.fail('attribute-source', 'a group of %d asks its source '
                         '(%s) %d times: %r' % (len(g['members']), g['src'],
                                                log['taken'], exc))
            ctx.check(group.size == len(made), 'group-size', lambda: 'group '
                      'of %d members has size %d' % (len(made), group.size))
            log['members'] = [np.array(m)[0].copy()
                              for m in group.members[:len(made)]]
            obstacles = [o for o in plan['obstacles'][:max(0, g['walls'])]
                         if math.dist(*o) > .05]
            if g.get('foreign'):
                self.foreign(ctx, agents, three)
            for attempt in range(2 if g['retry'] else 1):
                del log['offered'][:]
                log['fault'] = None
                stream = self.positions(g['pos'], cell)
                budget = 400 + 60 * len(made)

                def draw():
                    if len(log['offered']) >= budget:
                        raise AttributeFault('position source drained')
                    if g['fault'] != 'none' and attempt == 0 and \
                            len(log['offered']) == g['at']:
                        log['fault'] = g['fault']
                        ctx.fault('position-' + g['fault'])
                        if g['fault'] == 'raise':
                            raise PositionFault()
                        if g['fault'] == 'stop':
                            raise StopIteration
                        log['offered'].append(None)
                        return np.zeros(3)      # malformed position
                    q = next(stream)
                    log['offered'].append(q)
                    return np.array(q)

                class Source(object):
                    def __iter__(self):
                        return self

                    def __next__(self):
                        return draw()
                src = draw if g['call'] else Source()
                if g['call'] is False and g['fault'] in ('none', 'raise',
                                                        'bad'):
                    src = (draw() for _ in iter(int, 1))
                before = agents.array.copy()
                error = None
                try:
                    if obstacles or attempt:
                        agents.add_non_overlapping_group(
                            group, src, self.obstacle_array(obstacles)
                            if obstacles else None)
                    else:
                        agents.add_non_overlapping_group(group, src)
                except AttributeFault as exc:
                    ctx.fail('placement-hangs', str(exc))
                except Exception as exc:
                    if log['fault'] is None:
                        raise
                    error = exc
                ctx.ev('group', gi, attempt, len(made), len(log['offered']),
                       agents.array.size, type(error).__name__)
                after(agents, g, group, made, obstacles, log, before, error,
                      attempt)
                ctx.nontrivial = ctx.nontrivial or agents.array.size > 1
        return agents


class NonOverlap(Population):
    id = 'A01'
    title = 'Placed agents never overlap each other or the given obstacles'
    rule = ('1-4 groups added one after another to one crowd, circular and '
            'three-circle agents of mixed sizes, any cell size, position '
            'sources that crowd, repeat, sit on cell borders, raise, end or '
            'deliver malformed points midway.  Non-trivial: at least two '
            'agents placed or a fault.')
    quick_runs = 1200
    thorough_runs = 60000
    assumptions = ('the disc of `radius` around a three-circle agent covers '
                   'its torso and shoulders',)

    def generate(self, rng):
        return self.gen(rng)

    def execute(self, plan, ctx):
        three = bool(plan['three'])

        def after(agents, g, group, made, obstacles, log, before, error,
                  attempt):
            arr = agents.array
            ds = [discs(r, three) for r in arr]
            for i in range(before.size, len(ds)):
                for j in range(i):
                    h = gap(ds[i], ds[j])
                    ctx.check(h > -EPS, 'overlap', lambda: 'agents %d and %d '
                              'overlap by %g (cell size %g): %r %r' % (
                                  j, i, -h, plan['cell'], ds[j], ds[i]))
                if obstacles:
                    h = gap_obstacles(ds[i], obstacles)
                    ctx.check(h > -EPS, 'overlap-obstacle', lambda: 'agent '
                              '%d overlaps an obstacle by %g: %r' % (
                                  i, -h, ds[i]))
            ctx.state('A01', plan['three'], plan['cell'], g['pos']['kind'],
                      len(made), arr.size, len(log['offered']),
                      log['fault'])
        self.drive(plan, ctx, after)


class Integrity(Population):
    id = 'A02'
    strict = True
    title = 'A crowd holds exactly the agents that were placed, unchanged'
    rule = ('Same histories as A01, judged against a model of greedy '
            'placement: which offered position fits, what each agent '
            'carries, how often the attribute source is asked; with '
            'attribute sources that are lists, callables or generators of '
            'exactly the right length.  Non-trivial: two agents or a fault.')
    quick_runs = 1200
    thorough_runs = 60000
    assumptions = NonOverlap.assumptions

    def generate(self, rng):
        return self.gen(rng)

    def execute(self, plan, ctx):
        three = bool(plan['three'])
        bodies = []
        fresh = self.type_of(three)()
        measures = ('radius', 'r_t', 'r_s', 'r_ts', 'mass', 'inertia_rot',
                    'target_velocity', 'target_angular_velocity')
        defaults = {n: np.array(getattr(fresh, n))
                    for n in fresh.dtype().names if n not in measures and
                    not n.startswith('position')}

        def after(agents, g, group, made, obstacles, log, before, error,
                  attempt):
            arr = agents.array
            if g['src'] in ('call', 'gen'):
                ctx.check(log['taken'] <= len(made), 'attribute-source',
                          lambda: 'a group of %d asked its attribute source '
                          '%d times' % (len(made), log['taken']))
            ctx.check(len(group.members) == len(made) or
                      g.get('surplus') and len(group.members) > len(made),
                      'group-size', lambda: 'group of %d has %d members' % (
                          len(made), len(group.members)))
            n0 = before.size
            ctx.check(arr.size >= n0 and
                      arr[:n0].tobytes() == before.tobytes(), 'changed',
                      lambda: 'adding a group changed the agents placed '
                      'before')
            # every new record is a member of the group, in order
            new = arr[n0:]
            ctx.check(len(new) <= len(made), 'phantom', lambda:
                      '%d agents added for a group of %d' % (
                          len(new), len(made)))
            offered = log['offered']
            k = 0
            ds = [discs(r, three) for r in before]
            for i, row in enumerate(new):
                ctx.check(float(row['mu']) == made[i]['mu'], 'phantom',
                          lambda: 'record %d of the crowd is not member %d '
                          'of its group: mu=%r, position %r (%d offered, %d '
                          'of %d members stored)' % (
                              n0 + i, i, float(row['mu']),
                              row['position'].tolist(), len(offered),
                              len(new), len(made)))
                for name, v in made[i].items():
                    if name in row.dtype.names:
                        ctx.check(bool(np.all(row[name] == v)), 'attribute',
                                  lambda: 'agent %d has %s=%r instead of %r'
                                  % (n0 + i, name, row[name], v))
                for name in row.dtype.names:
                    if not name.startswith('position'):
                        v = log['members'][i][name]
                        ctx.check(bool(np.all(row[name] == v)), 'attribute',
                                  lambda: 'agent %d has %s=%r, the member '
                                  'of its group %r' % (n0 + i, name,
                                                       row[name], v))
                        if name not in made[i] and name in defaults:
                            ctx.check(bool(np.all(
                                row[name] == defaults[name])), 'attribute',
                                lambda: 'agent %d has %s=%r, nobody gave '
                                'it' % (n0 + i, name, row[name]))
                ctx.check(g['members'][i]['k'] == 'point' or
                          float(row['radius']) > 0 and
                          float(row['mass']) > 0, 'attribute', lambda:
                          'agent %d has no body' % (n0 + i))
                # greedy: the first offered position that fits
                pos = tuple(float(v) for v in row['position'])
                hit = None
                probe = row.copy()
                while k < len(offered):
                    q = offered[k]
                    k += 1
                    if q is None:
                        continue
                    if q == pos:
                        hit = k
                        break
                    probe['position'] = q
                    d = discs(probe, three)
                    free = min([gap(d, e) for e in ds] + [
                        gap_obstacles(d, obstacles)])
                    ctx.check(free < EPS, 'skipped', lambda: 'position %r '
                              'fitted agent %d (gap %g) and was rejected' % (
                                  q, n0 + i, free))
                ctx.check(hit is not None, 'position', lambda: 'agent %d '
                          'stands at %r, which was never offered for it' % (
                              n0 + i, pos))
                ds.append(discs(row, three))
            if len(new) < len(made):
                ctx.probe('not all fit')
                if log['fault'] is None:
                    # nothing that was left over would have fitted
                    probe = np.array(group.members[len(new)])[0]
                    for q in offered[k:]:
                        probe['position'] = q
                        d = discs(probe, three)
                        free = min([gap(d, e) for e in ds] + [
                            gap_obstacles(d, obstacles)])
                        ctx.check(free < EPS, 'skipped', lambda: 'position '
                                  '%r fitted (gap %g) and was rejected' % (
                                      q, free))
                    refused = len(offered) - len(new)
                    ctx.check(refused >= 10 * len(made), 'gave-up', lambda:
                              'gave up a group of %d after %d refused '
                              'positions' % (len(made), refused))
            bodies.extend(m['k'] == 'point' for m in
                          g['members'][:len(new)])
            ctx.check([bool(r == 0) for r in arr['radius']] == bodies,
                      'phantom', lambda: 'the crowd contains %d agents '
                      'without a body' % int(np.sum(arr['radius'] == 0)))
            ctx.state('A02', plan['three'], g['pos']['kind'], g['src'],
                      len(made), arr.size, len(offered), log['fault'])
        self.drive(plan, ctx, after)


class Shoulders(Population):
    id = 'A07'
    title = 'Shoulders of a three-circle agent follow its body'
    rule = ('Random histories of one three-circle agent: construction with '
            'any subset of attributes, moves, turns, resizing, reads at any '
            'point, array round trips, rejected assignments.  Then a crowd '
            'placed from such agents is stepped by a random sequence of '
            'integrators under random forces and torques, other rows being '
            'touched in between.  Non-trivial: two changes with a read '
            'between them or two integration steps.')
    quick_runs = 2400
    thorough_runs = 60000

    OPS = ['position', 'orientation', 'r_ts', 'radius', 'read', 'array',
           'overlap', 'copy', 'bad', 'body']

    def gen_op(self, rng):
        return [rng.choice(self.OPS), round(rng.uniform(-5, 5), 3),
                round(rng.uniform(-3.1, 3.1), 3)]

    def generate(self, rng):
        return {'start': [self.gen_op(rng) for _ in range(rng.randrange(5))],
                'ops': [self.gen_op(rng) for _ in range(rng.choice(
                    [2, 4, 8, 14]))],
                'crowd': rng.choice([0, 1, 1, 2, 4]),
                'left': [rng.randrange(4)] if rng.random() < .2 else [],
                'steps': [[rng.choice(['euler', 'verlet', 'init', 'verlet',
                                       'move']),
                           round(rng.uniform(-500, 500), 2),
                           round(rng.choice([0, 1, 1, 1]) *
                                 rng.uniform(-80, 80), 3),
                           round(rng.choice([0, 1]) *
                                 rng.uniform(-12, 12), 3)]
                          for _ in range(rng.choice([1, 2, 5]))]}

    def crowd(self, plan, ctx):
        from crowddynamics.core import integrator
        n = max(0, min(6, int(plan.get('crowd', 0))))
        steps = plan.get('steps', [])
        if not n or not steps:
            return
        agents = self.m.Agents(agent_type=self.m.ThreeCircle)
        seq = iter(range(n))
        agents.add_non_overlapping_group(self.m.AgentGroup(
            size=n, agent_type=self.m.ThreeCircle,
            attributes=[dict(body_type=FAMILIES[k % 5],
                             orientation=(.7 * k + .2) % 3.0)
                        for k in range(n)]),
            ((1.7 * k, .3 * k) for k in seq))
        arr = agents.array
        ctx.check(arr.size == n, 'placed', lambda: '%d of %d placed' % (
            arr.size, n))

        def judge(where):
            for k, row in enumerate(arr):
                phi = float(row['orientation'])
                t = np.array((math.sin(phi), -math.cos(phi))) * row['r_ts']
                for name, want in (('position_ls', row['position'] - t),
                                   ('position_rs', row['position'] + t)):
                    ctx.check(np.allclose(row[name], want, rtol=0,
                                          atol=1e-9), 'shoulder',
                              lambda: '%s: %s of agent %d is %r, its body '
                              'has it at %r' % (where, name, k,
                                                row[name].tolist(),
                                                want.tolist()))
        judge('after placement')
        for k in plan.get('left', []):
            arr['active'][k % n] = False
        for i, (kind, f, t, w) in enumerate(steps):
            ctx.ev('step', i, kind)
            for k, row in enumerate(arr):
                row['force'] = f / (k + 1), -f
                row['torque'] = t * (1 if k % 2 else -1)
                if w:
                    row['angular_velocity'] = w
            before = arr.copy()
            if kind == 'move':
                arr['position'] += .25
                arr['orientation'][:1] = max(-3, min(3, w))
                self.m.shoulders(arr)
                judge('after moving, step %d' % i)
                continue
            fun = {'euler': integrator.euler_integrator,
                   'init': integrator.velocity_verlet_integrator_init
                   }.get(kind, integrator.velocity_verlet_integrator)
            dt = fun(arr, .001, .01)
            ctx.check(.001 <= dt <= .01, 'step', lambda: '%s stepped by %r'
                      % (kind, dt))
            judge('after %s, step %d' % (kind, i))
            # the new state solves the equation of motion to first order
            for k in range(n):
                b, a = before[k], arr[k]
                if not b['active']:
                    continue
                turn = float(a['orientation'] - b['orientation'])
                turn = (turn + math.pi) % (2 * math.pi) - math.pi
                dw = float(a['angular_velocity'] - b['angular_velocity'])
                alpha = max(abs(float(b['torque'])), abs(float(
                    b['torque_prev']))) / float(b['inertia_rot'])
                ctx.check(abs(turn - dt * float(b['angular_velocity'])) <=
                          1.6 * alpha * dt ** 2 + 1e-9, 'turn', lambda:
                          '%s: agent %d with angular velocity %r turned by '
                          '%r in %r s' % (kind, k, float(
                              b['angular_velocity']), turn, dt))
                ctx.check(abs(dw) <= alpha * dt + 1e-9 and (
                    kind == 'verlet' or abs(dw - dt * float(
                        b['torque'] / b['inertia_rot'])) < 1e-9), 'turn',
                          lambda: '%s: agent %d changed its angular velocity '
                          'by %r' % (kind, k, dw))
        ctx.nontrivial = ctx.nontrivial or len(steps) > 1
        ctx.state('A07c', n, tuple(s[0] for s in steps))

    def judge(self, ctx, agent, where):
        t = np.array((math.sin(agent.orientation),
                      -math.cos(agent.orientation))) * agent.r_ts
        for name, want in (('position_ls', agent.position - t),
                           ('position_rs', agent.position + t)):
            got = np.asarray(getattr(agent, name))
            ctx.check(np.allclose(got, want, rtol=0, atol=1e-9), 'shoulder',
                      lambda: '%s: %s is %r, the body at %r turned to %r has '
                      'it at %r' % (where, name, got.tolist(),
                                    agent.position.tolist(),
                                    agent.orientation, want.tolist()))

    def execute(self, plan, ctx):
        cls = self.m.ThreeCircle
        kw = {}
        for name, a, b in plan['start']:
            if name == 'position':
                kw['position'] = (a, b)
            elif name == 'orientation':
                kw['orientation'] = b
            elif name == 'r_ts':
                kw['r_ts'] = abs(a)
            elif name == 'radius':
                kw.update(radius=abs(a) + .1, ratio_ts=.6275, ratio_rt=.5882,
                          ratio_rs=.3725)
            elif name == 'body':
                kw['body_type'] = 'adult'
        agent = cls(**kw)
        reads = changes = 0
        for i, (name, a, b) in enumerate(plan['ops']):
            ctx.ev(i, name)
            if name == 'position':
                agent.position = np.array((a, b))
            elif name == 'orientation':
                agent.orientation = b
            elif name == 'r_ts':
                agent.r_ts = abs(a)
            elif name == 'radius':
                agent.radius = abs(a) + .1
            elif name == 'body':
                if agent.body_type == '':
                    agent.body_type = 'child'
            elif name == 'bad':
                ctx.fault('rejected assignment')
                try:
                    agent.position = np.zeros(3)
                except Exception:
                    pass
                try:
                    agent.orientation = 99.0
                except Exception:
                    pass
            elif name == 'copy':
                other = cls()
                other.from_array(np.array(agent))
                self.judge(ctx, other, 'copy after op %d' % i)
                agent = other
            elif name == 'array':
                row = np.array(agent)
                ctx.check(np.allclose(row['position_ls'][0],
                                      agent.position_ls) and
                          np.allclose(row['position'][0], agent.position),
                          'shoulder', 'array and attributes disagree')
                back = row.copy()
                self.m.shoulders(back)
                ctx.check(np.allclose(back['position_ls'],
                                      row['position_ls']) and
                          np.allclose(back['position_rs'],
                                      row['position_rs']), 'shoulder',
                          lambda: 'op %d: stored shoulders differ from '
                          'the recomputed ones' % i)
            elif name == 'overlap':
                other = cls(position=(a / 4, b / 4), orientation=b, r_t=.15,
                            r_s=.1, r_ts=.16)
                row = np.array(other)
                h = gap(discs(np.array(agent)[0], True),
                        discs(row[0], True))
                if abs(h) > 1e-6:
                    ctx.check(bool(agent.overlapping(row)) == (h < 0),
                              'overlap', lambda: 'op %d: overlapping() is '
                              '%r at a gap of %g' % (i, not h < 0, h))
            if name in ('read', 'array', 'copy'):
                self.judge(ctx, agent, 'after op %d (%s)' % (i, name))
                reads += 1
            elif name not in ('overlap', 'bad'):
                changes += 1
        self.judge(ctx, agent, 'at the end')
        if reads and changes > 1:
            ctx.nontrivial = True
        self.crowd(plan, ctx)
        ctx.state('A07', tuple(o[0] for o in plan['ops']))


class BodyMeasures(Population):
    id = 'A08'
    title = 'A body type sets plausible, consistent measures once'
    rule = ('Random construction histories of agents of every body type '
            'with explicit overrides in any order and later attempts to set '
            'another (or an unknown) body type; random numbers come from '
            'the seed; sometimes many agents of one type are compared with '
            'its mean (6 sigma).  Non-trivial: a body type applied.')
    quick_runs = 2400
    thorough_runs = 60000
    NAMES = FAMILIES

    def generate(self, rng):
        return {'agents': [{
            'three': rng.randrange(2), 'body': rng.choice(self.NAMES),
            'late': rng.random() < .4, 'over': rng.choice(
                [[], [], ['radius'], ['mass'], ['target_velocity'],
                 ['inertia_rot'], ['mass', 'radius'],
                 ['target_velocity', 'mass'], ['inertia_rot', 'radius'],
                 ['radius', 'mass', 'target_velocity', 'inertia_rot']]),
            'value': round(rng.choice([rng.uniform(.05, 3),
                                       rng.uniform(20, 200)]), 3),
            'again': rng.choice([None, None, 'same', 'other', 'unknown',
                                 'radius'])}
            for _ in range(rng.choice([1, 2, 5]))],
            'types': [self.gen_type(rng) for _ in range(
                rng.choice([0, 0, 1, 2]))],
            'many': 60 if rng.random() < .04 else 0}

    def spread(self, ctx, n, make, c, body):
        """Many agents of one type lie around its means (6 sigma)."""
        crowd = [make() for _ in range(n)]
        ctx.probe('many of one type')
        for name in ('radius', 'mass', 'target_velocity'):
            got = [getattr(a, name) for a in crowd]
            mean, scale = c[name + '_mean'], c[name + '_scale']
            off = abs(sum(got) / n - mean)
            ctx.check(off <= 6 * scale / 3 / math.sqrt(n) and
                      max(got) - min(got) > .3 * scale, 'spread', lambda:
                      '%s of %d agents of type %s: mean %g, from %g to %g, '
                      'expected %g +- %g' % (name, n, body, sum(got) / n,
                                             min(got), max(got), mean, scale))

    @staticmethod
    def gen_type(rng):
        """Measures of a body type of a user."""
        d = {k: round(rng.uniform(.1, 1), 3)
             for k in ('ratio_rt', 'ratio_rs', 'ratio_ts')}
        for name, lo, hi in (('radius', .05, .9),
                             ('target_velocity', .2, 4),
                             ('mass', .5, 150)):
            mean = round(rng.uniform(lo, hi), 3)
            d[name + '_mean'] = mean
            d[name + '_scale'] = round(mean * rng.choice(
                [.002, .05, .3, .9]), 5)
        return d

    def execute(self, plan, ctx):
        from configobj import ConfigObj
        from crowddynamics.config import BODY_TYPES_CFG
        conf = ConfigObj(BODY_TYPES_CFG)
        for i, p in enumerate(plan['agents']):
            cls = self.type_of(p['three'])
            body = p['body'] if p['body'] in conf else 'adult'
            own = None
            if plan.get('types'):
                # body types of the user, one of them with a known name
                own = ConfigObj()
                for k, d in enumerate(plan['types']):
                    own['kind%d' % k] = own['male'] = dict(d)
                body = ('kind0', 'male')[i % 2]
                conf = own
                ctx.probe('own-types')
            c = {k: float(v) for k, v in conf[body].items()}
            n = max(0, min(200, int(plan.get('many', 0))))
            if n > 20 and i == 0:
                self.spread(ctx, n, lambda: cls(
                    body_type=body, **({} if own is None else
                                       {'body_types': own})), c, body)
            kw = {}
            over = [o for o in p['over'] if o in (
                'radius', 'mass', 'target_velocity', 'inertia_rot')]
            for k, o in enumerate(over):
                kw[o] = max(.05, p['value']) + .125 * k
            if p['late']:
                a = cls(**kw)
                if own is not None:
                    a.body_types = own
                a.body_type = body
            elif own is not None:
                a = cls(body_type=body, body_types=own, **kw)
            else:
                a = cls(body_type=body, **kw)
            ctx.nontrivial = True
            ctx.ev(i, body, '+'.join(over), p['late'], p['again'])

            def judge(where):
                for name in ('radius', 'mass', 'target_velocity'):
                    got = getattr(a, name)
                    if name in over:
                        ctx.check(got == kw[name], 'override', lambda:
                                  '%s: %s=%r was replaced by %r' % (
                                      where, name, kw[name], got))
                        continue
                    lo = c[name + '_mean'] - c[name + '_scale'] - 1e-9
                    hi = c[name + '_mean'] + c[name + '_scale'] + 1e-9
                    ctx.check(lo <= got <= hi, 'range', lambda: '%s: %s of '
                              'body type %s is %r, not within [%g, %g]' % (
                                  where, name, body, got, lo, hi))
                for name, ratio in (('r_t', 'ratio_rt'), ('r_s', 'ratio_rs'),
                                    ('r_ts', 'ratio_ts')):
                    want = a.radius * c[ratio]
                    ctx.check(abs(getattr(a, name) - want) < 1e-9, 'ratio',
                              lambda: '%s: %s is %r, radius * %s is %r' % (
                                  where, name, getattr(a, name), ratio,
                                  want))
                want = 4 * math.pi * (a.mass / 80.0) * (a.radius / .27) ** 2
                if 'inertia_rot' in over:
                    ctx.check(a.inertia_rot == kw['inertia_rot'],
                              'override', lambda: '%s: inertia_rot=%r was '
                              'replaced by %r' % (
                                  where, kw['inertia_rot'], a.inertia_rot))
                elif grown is None:
                    ctx.check(abs(a.inertia_rot - want) < 1e-9 * want,
                              'inertia', lambda: '%s: rotational inertia '
                              '%r instead of %r' % (where, a.inertia_rot,
                                                    want))
            grown = None
            judge('agent %d' % i)
            row = np.array(a)[0]
            for name in ('radius', 'mass', 'target_velocity', 'r_t', 'r_s',
                         'r_ts', 'inertia_rot'):
                ctx.check(float(row[name]) == getattr(a, name), 'stored',
                          lambda: '%s is stored as %r instead of %r' % (
                              name, float(row[name]), getattr(a, name)))
            before = {n: getattr(a, n) for n in a.dtype().names
                      if not hasattr(getattr(a, n), 'shape')}
            if p['again'] in ('same', 'other', 'unknown'):
                name = {'same': body, 'unknown': 'martian'}.get(
                    p['again']) or [n for n in list(conf) + ['kind7']
                                    if n != body][0]
                error = None
                try:
                    a.body_type = name
                except Exception as exc:
                    error = exc
                if p['again'] != 'same':
                    ctx.fault('second body type')
                    ctx.check(error is not None, 'set-twice', lambda: 'body '
                              'type changed from %s to %s without an error' %
                              (body, name))
                now = {n: getattr(a, n) for n in before}
                ctx.check(now == before, 'set-twice', lambda: 'a rejected '
                          'body type changed %r' % {
                              n: (before[n], now[n]) for n in now
                              if now[n] != before[n]})
            elif p['again'] == 'radius' and over in ([], ['radius']):
                over = ['radius']
                grown = kw['radius'] = max(.05, p['value'])
                a.radius = grown
                judge('agent %d resized' % i)
            ctx.state('A08', body, '+'.join(over), p['late'], p['again'])


SCENARIOS = [NonOverlap, Integrity, Shoulders, BodyMeasures]
