"""Navigation: walkers and crowds that follow direction maps through rooms
with walls, while they are moved about, lose direction or change targets."""
import heapq
import math

import numpy as np

from dsim import build
from dsim.checks.agents import seg_distance
from dsim.checks.world import NodeFault, World, meet as touch, winding
from dsim.core import BadPlan

GRID = .25          # of the reference distances
THICK = .75         # walls that are not lines
ROOM = 2.6          # every passage is at least this wide


def between(a, b, c, d):
    """Distance of two segments."""
    if touch(a, b, c, d):
        return 0.0
    return min(seg_distance(a, c, d), seg_distance(b, c, d),
               seg_distance(c, a, b), seg_distance(d, a, b))


class Place(object):
    """A rectangular room with exits in its sides, inner walls and pillars."""

    def __init__(self, p):
        self.w, self.h = w, h = float(p['w']), float(p['h'])
        self.ox, self.oy = ox, oy = p['origin']
        self.around, self.known = 0.0, {}
        corners = [(ox, oy), (ox + w, oy), (ox + w, oy + h), (ox, oy + h)]
        self.exits, self.outer = [], []
        sides = list(zip(corners, corners[1:] + corners[:1]))
        for k, (a, b) in enumerate(sides):
            n = math.dist(a, b)
            at = 0.0
            for side, mid, width in sorted(p['exits'], key=lambda e: e[1]):
                if side % 4 != k:
                    continue
                if width < 1.5 or n < width:
                    raise BadPlan()
                lo = max(0.0, min(n - width, mid * n - width / 2))
                if lo < at + 1.5 and at > 0:
                    raise BadPlan()

                def on(t):
                    return (a[0] + (b[0] - a[0]) * t / n,
                            a[1] + (b[1] - a[1]) * t / n)
                self.exits.append((on(lo), on(lo + width)))
                if lo > at:
                    self.outer.append((on(at), on(lo)))
                at = lo + width
            if at < n - 1e-9:
                self.outer.append(((a[0] + (b[0] - a[0]) * at / n,
                                    a[1] + (b[1] - a[1]) * at / n), b))
        self.thick = bool(p.get('thick'))
        self.joined = bool(p.get('joined'))
        if self.thick:
            # a closed room in a thick wall: one polygon with a hole
            self.exits = []
            self.outer = sides
        elif not self.exits:
            raise BadPlan()
        self.inner = []
        for x1, y1, x2, y2 in p['walls']:
            a, b = (ox + x1 * w, oy + y1 * h), (ox + x2 * w, oy + y2 * h)
            self.fits(a, b, True)
            self.inner.append((a, b))
        self.pillars = []
        for x, y, r in p['pillars']:
            x, y = ox + x * w, oy + y * h
            ring = [(x - r, y - r), (x + r, y - r), (x + r, y + r),
                    (x - r, y + r)]
            for a, b in zip(ring, ring[1:] + ring[:1]):
                self.fits(a, b, False)
            self.pillars.append(ring)
        self.walls = self.outer + self.inner + [
            e for r in self.pillars for e in zip(r, r[1:] + r[:1])]
        self.goals = [('line', e) for e in self.exits]
        for x, y, r in p['zones']:
            x, y = ox + x * w, oy + y * h
            ring = [(x - r, y - r), (x + r, y - r), (x + r, y + r),
                    (x - r, y + r)]
            for a, b in zip(ring, ring[1:] + ring[:1]):
                self.fits(a, b, False, 1.4)
            self.goals.append(('zone', ring))
        if self.thick:
            if p.get('open') or not self.goals:
                raise BadPlan()
            self.around = THICK
        if p.get('open'):
            if self.inner or self.pillars:
                raise BadPlan()
            self.outer = self.walls = []
            self.around = 1.0       # the domain goes on behind the targets
        elif not self.walls:
            raise BadPlan()
        self.order = [k % len(self.goals) for k in p['order']]

    def fits(self, a, b, may_touch, room=ROOM):
        """Every passage stays wide enough."""
        if math.dist(a, b) < .5:
            raise BadPlan()
        for c, d in [(p, q) for p, q in self.outer] + self.exits + \
                self.inner + [e for r in getattr(self, 'pillars', ())
                              for e in zip(r, r[1:] + r[:1])]:
            gap = between(a, b, c, d)
            if gap < 1e-9 and may_touch and (c, d) in self.outer and \
                    self.square(a, b, c, d):
                continue
            if gap < room:
                raise BadPlan()

    @staticmethod
    def square(a, b, c, d):
        """Does the wall a-b start on c-d, at a right angle, away from its
        ends?"""
        end = a if seg_distance(a, c, d) < 1e-9 else b
        flat = (b[0] - a[0]) * (d[0] - c[0]) + (b[1] - a[1]) * (d[1] - c[1])
        return seg_distance(end, c, d) < 1e-9 and abs(flat) < 1e-9 and \
            min(math.dist(end, c), math.dist(end, d)) > ROOM

    def geometry(self, sg):
        lines = [[a, b] for a, b in
                 ([] if self.thick else self.outer) + self.inner]
        if self.joined:         # walls around a corner are one line
            for k in range(len(lines) - 1, 0, -1):
                if lines[k - 1][-1] == lines[k][0]:
                    lines[k - 1:k + 1] = [lines[k - 1] + lines[k][1:]]
        parts = [sg.LineString(l) for l in lines]
        parts += [sg.Polygon(r) for r in self.pillars]
        if self.thick:
            m = self.around
            ring = [a for a, b in self.outer]
            (x0, y0), (x1, y1) = ring[0], ring[2]
            parts.append(sg.Polygon(
                [(x0 - m, y0 - m), (x1 + m, y0 - m), (x1 + m, y1 + m),
                 (x0 - m, y1 + m)], [ring]))
            if len(self.inner) + len(self.pillars) > 1:
                parts = [parts[-1]] + parts[:-1]
        geom = None
        for g in parts:
            geom = g if geom is None else geom | g
        targets = [sg.LineString(list(g)) if kind == 'line' else sg.Polygon(g)
                   for kind, g in self.goals]
        m = self.around
        x, y = self.ox - m, self.oy - m
        w, h = self.w + 2 * m, self.h + 2 * m
        return dict(domain=sg.Polygon([(x, y), (x + w, y), (x + w, y + h),
                                       (x, y + h)]),
                    obstacles=geom, targets=[targets[k] for k in self.order])

    def clearance(self, p):
        if any(winding(p[0], p[1], r) for r in self.pillars):
            return 0.0
        if self.thick and not (0 <= p[0] - self.ox <= self.w and
                               0 <= p[1] - self.oy <= self.h):
            return 0.0
        return min((seg_distance(p, a, b) for a, b in self.walls),
                   default=math.inf)

    def band(self, p):
        """Inside of a thick wall."""
        return self.thick and self.inside(p, .7) and not (
            0 < p[0] - self.ox < self.w and 0 < p[1] - self.oy < self.h)

    def inside(self, p, margin=0.0):
        margin += self.around
        return -margin < p[0] - self.ox < self.w + margin and \
            -margin < p[1] - self.oy < self.h + margin

    def goal_distance(self, k, p):
        kind, g = self.goals[self.order[k]]
        if kind == 'line':
            return seg_distance(p, *g)
        if winding(p[0], p[1], g):
            return 0.0
        return min(seg_distance(p, a, b) for a, b in zip(g, g[1:] + g[:1]))

    def crossed(self, p, q):
        return any(touch(p, q, a, b) for a, b in self.walls)

    def ways(self, k):
        if k not in self.known:
            self.known[k] = self.find_ways(k)
        return self.known[k]

    def find_ways(self, k):
        """Length of the shortest way to target k that keeps its distance
        from the walls, from the nodes of a fine grid."""
        ks = range(len(self.order)) if k == 'closest' else (k,)
        n, m = int(self.w / GRID) + 1, int(self.h / GRID) + 1
        free = {(i, j) for i in range(n) for j in range(m)
                if self.clearance((self.ox + i * GRID, self.oy + j * GRID)) >
                .55}
        dist, heap = {}, []
        for c in free:
            d = min(self.goal_distance(k, (self.ox + c[0] * GRID,
                                           self.oy + c[1] * GRID))
                    for k in ks)
            if d < .6:
                dist[c] = d
                heapq.heappush(heap, (d, c))
        while heap:
            d, c = heapq.heappop(heap)
            if d > dist[c]:
                continue
            for x in (-1, 0, 1):
                for y in (-1, 0, 1):
                    e = (c[0] + x, c[1] + y)
                    if e in free and d + GRID * math.hypot(x, y) < dist.get(
                            e, math.inf):
                        dist[e] = d + GRID * math.hypot(x, y)
                        heapq.heappush(heap, (dist[e], e))

        def way(p):
            i = math.floor((p[0] - self.ox) / GRID)
            j = math.floor((p[1] - self.oy) / GRID)
            return min(dist.get((i + x, j + y), math.inf)
                       for x in (0, 1) for y in (0, 1))
        return way


def gen_place(rng):
    while True:
        p = {'w': rng.choice([6, 9, 12, 14.5]),
             'h': rng.choice([6, 9, 12]),
             'origin': rng.choice([[0, 0], [-4, 2.5], [30, -7.3]]),
             'exits': [[rng.randrange(4), round(rng.uniform(.1, .9), 2),
                        rng.choice([2, 2, 3, 5])]
                       for _ in range(rng.choice([1, 1, 2, 3]))],
             'walls': [], 'pillars': [], 'zones': [],
             'order': []}
        try:
            Place(p)
            break
        except BadPlan:
            pass
    for _ in range(rng.choice([0, 4, 10, 20])):
        q = dict(p)
        kind = rng.choice(['attached', 'attached', 'free', 'pillar', 'zone'])
        x, y = round(rng.uniform(.1, .9), 2), round(rng.uniform(.1, .9), 2)
        if kind == 'attached':
            z = round(rng.uniform(.2, .75), 2)
            q['walls'] = p['walls'] + [rng.choice(
                [[x, 0, x, z], [x, 1, x, 1 - z], [0, y, z, y],
                 [1, y, 1 - z, y]])]
        elif kind == 'free':
            q['walls'] = p['walls'] + [[x, y, round(
                x + rng.uniform(-.4, .4), 2), round(
                y + rng.uniform(-.4, .4), 2)]]
        elif kind == 'pillar':
            q['pillars'] = p['pillars'] + [[x, y, rng.choice([.4, .7, 1])]]
        else:
            q['zones'] = p['zones'] + [[x, y, rng.choice([.5, .8])]]
        try:
            Place(q)
            p = q
        except BadPlan:
            pass
    if not p['walls'] and not p['pillars'] and rng.random() < .3:
        p['open'] = 1
    k = len(p['exits']) + len(p['zones'])
    if p['zones'] and rng.random() < .3:
        p['thick'], k = 1, len(p['zones'])
        p.pop('open', None)
    p['order'] = rng.sample(range(k), k)
    p['joined'] = rng.random() < .3
    return p


class Navigate(World):
    id = 'A09'
    title = 'Agents with a target find their way to it'
    rule = ('Rooms with exits, walls, pillars and target areas; walkers that '
            'follow the directions given by the navigation node of 1-2 '
            'simulations, evaluated in turns, or crowds moved by the full '
            'logic; they are displaced, pushed, stopped, disoriented and '
            'sent to other targets, iterations are aborted.  Once that '
            'stops everybody must arrive within a bounded way or time.  '
            'Non-trivial: something disturbed them.')
    quick_runs = 180
    thorough_runs = 15000
    real = ('core.steering.navigation, quickest_path, obstacle_handling',
            'Field, core.geometry', 'logic.Navigation') + tuple(build.REAL)
    assumptions = ('passages are at least 2.6 m wide and grids fine enough to see '
                   'them',)

    def generate(self, rng):
        mode = 'walk' if rng.random() < .75 else 'crowd'
        n = rng.choice([3, 8]) if mode == 'walk' else rng.choice([1, 1, 2])
        steps = rng.choice([6, 15])
        return {'mode': mode, 'n': n, 'three': int(rng.random() < .5),
                'places': [gen_place(rng) for _ in range(
                    rng.choice([1, 1, 2]) if mode == 'walk' else 1)],
                'others': [gen_place(rng) for _ in range(
                    rng.choice([0, 1, 1]) if mode == 'walk' else 0)],
                'grids': [rng.choice([[.2, .4], [.2, .65], [.25, .5], [.2, .65]]) +
                          [rng.choice([.1, .3, .5])] for _ in range(2)],
                'dt': rng.choice([.02, .05]),
                'late': rng.choice([0, 0, 0, 1]),
                'start': rng.randrange(1 << 30),
                'faults': [[rng.randrange(60),
                            rng.choice(['move', 'target', 'abort', 'lost',
                                        'idle', 'outside', 'push', 'stop',
                                        'pressed', 'rebuild', 'rebuild',
                                        'left']),
                            rng.randrange(n), rng.randrange(1 << 20)]
                           for _ in range(rng.choice([0, 3, 10]))]}

    def execute(self, plan, ctx):
        places = [Place(p) for p in plan['places']]
        if not places:
            raise BadPlan()
        for p, q in zip(places, plan['places']):
            if not p.order:
                raise BadPlan()
        r = np.random.RandomState(plan['start'] % (1 << 30))
        sims = [self.make(ctx, plan, k, p, r) for k, p in enumerate(places)]
        others = [Place(p) for p in plan['others']]
        for s in sims:
            s['others'] = others + [s['place']]
            s['ways'] = [s['place'].ways(k)
                         for k in range(len(s['place'].order))]
            if plan['mode'] == 'walk':
                self.maps(ctx, s)
        faults = sorted(plan['faults'])
        if plan['mode'] == 'walk':
            self.walk(plan, ctx, sims, faults, r)
        else:
            self.crowd(plan, ctx, sims[0], faults, r)

    def spot(self, place, r, room=.6):
        for _ in range(2000):
            p = (place.ox + r.uniform(0, place.w),
                 place.oy + r.uniform(0, place.h))
            if place.clearance(p) > room:
                return p
        raise BadPlan()

    def make(self, ctx, plan, k, place, r):
        n = max(1, plan['n'])
        three = plan['three']
        rows, spots = [], []
        for i in range(n):
            for _ in range(200):
                p = self.spot(place, r)
                if all(math.dist(p, q) > .7 for q in spots):
                    break
            spots.append(p)
            phi = r.uniform(-np.pi, np.pi)
            kw = dict(orientation=phi, target_orientation=phi) if three \
                else {}
            rows.append(self.row(
                three, body_type='adult', position=p, target=int(r.randint(
                    len(place.order))), target_direction=(
                        math.cos(phi), math.sin(phi)), **kw))
        arr = np.concatenate(rows)
        given = place.geometry(self.sg)
        sim = self.bare_sim(arr, three, **given)
        step, radius, strength = plan['grids'][k % len(plan['grids'])]
        lg = self.logic
        nav = lg.Navigation(sim, step=step, radius=radius, strength=strength)
        out = dict(place=place, sim=sim, arr=arr, nav=nav, n=n, step=step,
                   grid=(step, radius, strength))
        if plan.get('late') and given.get('obstacles') is not None:
            # the way has been asked for before there were walls
            ctx.probe('late-walls')
            sim.field.obstacles = None
            for t in range(len(place.order)):
                sim.field.navigation_to_target(t, step, radius, strength)
            sim.field.obstacles = given['obstacles']
        if plan['mode'] != 'walk':
            integ = lg.Integrator(sim)
            integ.dt_min, integ.dt_max = .001, plan['dt']
            integ << (lg.Adjusting(sim) << (nav, lg.Orientation(sim)),
                      lg.AgentAgentInteractions(sim),
                      lg.AgentObstacleInteractions(sim))
            sim.logic = lg.Reset(sim) << integ
        return out

    # -- maps --------------------------------------------------------------
    def maps(self, ctx, s):
        """Which places the distance maps let agents pass."""
        from crowddynamics.core.steering.navigation import static_potential
        place, field = s['place'], s['sim'].field
        step, radius, strength = s['grid']
        for k in list(range(len(place.order))) + ['closest']:
            mgrid, dmap, dirs = field.navigation_to_target(k, step, radius,
                                                           strength)
            shut = np.ma.getmaskarray(dmap)
            if k == 0:
                again = static_potential(field.domain, field.targets[k],
                                         field.obstacles, *s['grid'])
                ctx.check(all(np.array_equal(
                    np.ma.filled(a, 0), np.ma.filled(b, 0), equal_nan=True)
                    for a, b in zip((dmap,) + tuple(dirs),
                                    (again[1],) + tuple(again[2]))),
                    'static potential', 'map to target %r differs from the '
                    'static potential' % k)
            way = s['ways'][k] if k != 'closest' else place.ways(k)
            if k == 'closest':
                s['closest'] = way, mgrid, dirs
            if s.get('cells') is None:
                s['cells'] = self.cells_of(place, step, shut.shape)
            clear, inner = s['cells']
            bad = inner & ~shut & (clear < radius - 1.5 * step)
            for i, j in np.argwhere(bad)[:1]:
                ctx.fail('passable', 'target %r: the way may pass (row %d, '
                         'column %d), which is %.2f from a wall, for radius '
                         '%g' % (k, i, j, clear[i, j], radius))
            if place.outer and not place.thick:
                # nobody gets around the walls of the building outside of it
                col, row = np.meshgrid(np.arange(shut.shape[1]),
                                       np.arange(shut.shape[0]))
                out = (col * step > place.w + 1e-3 * step) | \
                    (row * step > place.h + 1e-3 * step)
                for i, j in np.argwhere(out & ~shut & (clear < 2 * step)):
                    c = (place.ox + (j + .5) * step,
                         place.oy + (i + .5) * step)
                    ctx.check(min(seg_distance(c, *e) for e in place.exits)
                              < radius + 2 * step, 'around', lambda: 'target '
                              '%r: the way may pass (row %d, column %d), '
                              'outside of the building, next to its wall' % (
                                  k, i, j))
            bad = inner & shut & (clear > radius + 1.5 * step)
            for i, j in np.argwhere(bad):
                if way((place.ox - place.around + (j + .5) * step,
                        place.oy - place.around + (i + .5) * step)) < \
                        math.inf:
                    ctx.fail('impassable', 'target %r: the way must not pass '
                             '(row %d, column %d), which is %.2f from the '
                             'walls, for radius %g' % (k, i, j, clear[i, j],
                                                       radius))

            self.continuous(ctx, s, k, dirs, shut)
            if radius >= 2 * step:
                self.shy(ctx, place, dirs, k, step)

    def continuous(self, ctx, s, k, dirs, shut):
        """Directions that are combined for each agent and not for each cell
        are the same."""
        from crowddynamics.core.steering.obstacle_handling import \
            obstacle_handling_continuous
        field, (step, radius, strength) = s['sim'].field, s['grid']
        if field.obstacles is None:
            return
        (u, v), _ = field.shortest_path_target(step, k, radius)
        dir_obs, dmap_obs = field.direction_map_obstacles(step)
        n, m = shut.shape
        r = np.random.RandomState(n * m)
        cells = np.stack([r.randint(n, size=12), r.randint(m, size=12)], 1)
        want = np.array([(u[i, j], v[i, j]) for i, j in cells], float)
        cells = np.concatenate([cells, [[n, 0], [0, m], [-1, 2], [2, -1]]])
        want = np.concatenate([want, [[.6, .8]] * 4])
        mixed = r.permutation(len(cells))
        cells, want = cells[mixed], want[mixed]
        keep = want.copy()
        got = obstacle_handling_continuous(dmap_obs, dir_obs, want, cells,
                                           radius, strength)
        for c, (i, j) in enumerate(cells):
            if 0 <= i < n and 0 <= j < m:
                to = (float(dirs[0][i, j]), float(dirs[1][i, j]))
            else:
                to = keep[c]
            if not np.isfinite(to).all() or not np.isfinite(keep[c]).all():
                continue
            ctx.check(np.allclose(got[c], to, atol=1e-6), 'continuous',
                      lambda: 'target %r, cell (%d, %d): directed %r by the '
                      'map and %r continuously' % (k, i, j, to,
                                                   got[c].tolist()))
        ctx.check(want.tobytes() == keep.tobytes(), 'continuous',
                  'obstacle_handling_continuous changed its argument')

    @staticmethod
    def shy(ctx, place, dirs, k, step):
        """Next to a wall the way leads away from it: there the influence of
        the wall is over one half."""
        for a, b in place.outer + place.inner:
            axis = 0 if a[0] == b[0] else 1 if a[1] == b[1] else None
            if axis is None:
                continue
            o = (place.ox - place.around, place.oy - place.around)
            at = (a[axis] - o[axis]) / step
            if abs(at - round(at)) < 1e-6 and at != 0:
                continue
            other = [e for e in place.walls if e != (a, b)]
            for t in (.3, .5, .7):
                z = a[1 - axis] + t * (b[1 - axis] - a[1 - axis])
                m = int((z - o[1 - axis]) / step)
                if min(abs(z - a[1 - axis]), abs(z - b[1 - axis])) < 1.2:
                    continue
                for side in (-1, 1):
                    n = int(at) + side
                    p = [0, 0]
                    p[axis], p[1 - axis] = o[axis] + (n + .5) * step, z
                    if not place.inside(p) or place.band(p) or any(
                            seg_distance(p, *e) < 1.2 for e in other):
                        continue
                    cell = (m, n) if axis == 0 else (n, m)
                    d = side * float(dirs[axis][cell])
                    ctx.check(d > 0, 'towards wall', lambda: 'target %r: at '
                              '%r, next to a wall, the way leads towards it '
                              '(%.3f away)' % (k, p, d))
                    ctx.probe('next to a wall')

    @staticmethod
    def cells_of(place, step, shape):
        """Distance of the cells of a map from the walls, and which cells
        are inside."""
        x = place.ox - place.around + (np.arange(shape[1]) + .5) * step
        y = place.oy - place.around + (np.arange(shape[0]) + .5) * step
        x, y = np.meshgrid(x, y)
        clear = np.full(shape, np.inf)
        for (ax, ay), (bx, by) in place.walls:
            n = (bx - ax) ** 2 + (by - ay) ** 2
            t = np.clip(((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / n,
                        0, 1)
            clear = np.minimum(clear, np.hypot(ax + t * (bx - ax) - x,
                                               ay + t * (by - ay) - y))
        inner = (x < place.ox + place.w + place.around) & \
            (y < place.oy + place.h + place.around)
        for r in place.pillars:
            (x0, y0), _, (x1, y1) = r[:3]
            clear[(x > x0) & (x < x1) & (y > y0) & (y < y1)] = 0
        if place.thick:
            inner &= (x > place.ox) & (y > place.oy) & \
                (x < place.ox + place.w) & (y < place.oy + place.h)
        return clear, inner

    def closest(self, ctx, s, r):
        """Follows the map to the closest target from somewhere."""
        from crowddynamics.core.steering.navigation import getdefault
        place = s['place']
        way, mgrid, dirs = s['closest']
        start = p = self.spot(place, r)
        total, gone, delta = way(p), 0.0, s['step'] / 2
        each = sorted(w(p) for w in s['ways'])
        if total == math.inf or len(each) > 1 and each[1] - each[0] < 1.0:
            return      # undecided between two targets
        e = np.array([[1.0, 0.0]])
        while min(place.goal_distance(k, p) for k in range(len(
                place.order))) > 1.5 * s['step']:
            e = getdefault(np.fliplr(mgrid.indicer(np.array([p]))), dirs, e)
            q = (p[0] + delta * float(e[0][0]), p[1] + delta * float(e[0][1]))
            ctx.check(not place.crossed(p, q), 'wall', lambda: 'the way from '
                      '%r to the closest target leads through a wall at %r'
                      % (start, q))
            gone += delta
            p = q
            ctx.check(gone <= 1.25 * total + 2.5, 'detour', lambda: '%.2f '
                      'from %r without arriving at the closest target (now '
                      'at %r), the way is %.2f long' % (gone, start, q,
                                                       total))
        ctx.probe('closest')

    # -- directions --------------------------------------------------------
    def look(self, ctx, s, where):
        """Evaluates navigation and judges what it did."""
        arr = s['arr']
        before = arr.copy()
        s['nav'].update()
        self.judge(ctx, s, before, arr, where)

    def judge(self, ctx, s, before, arr, where):
        place = s['place']
        for f in arr.dtype.names:
            if f != 'target_direction':
                ctx.check(arr[f].tobytes() == before[f].tobytes(),
                          'bystander', lambda: '%s: navigation changed %s' % (
                              where, f))
        for i in range(len(arr)):
            e, t = arr['target_direction'][i], int(before['target'][i])
            p = before['position'][i]
            far = not place.inside(p, 2 * s['step'])
            if place.band(p) or not before['active'][i]:
                continue
            if far or not 0 <= t < len(place.order):
                ctx.check(e.tobytes() ==
                          before['target_direction'][i].tobytes(),
                          'bystander', lambda: '%s: agent %d at %r with '
                          'target %d was given a direction' % (
                              where, i, p.tolist(), t))
            elif place.inside(p) or e.tobytes() != before[
                    'target_direction'][i].tobytes():
                ctx.check(abs(math.hypot(*e) - 1) < 1e-6, 'direction',
                          lambda: '%s: agent %d at %r heads %r' % (
                              where, i, p.tolist(), e.tolist()))
                self.mapped(ctx, s, t, p, e, before['target_direction'][i],
                            '%s: agent %d' % (where, i))

    @staticmethod
    def mapped(ctx, s, t, p, e, before, who):
        """The direction is the one of the map at the place of the agent."""
        place, step = s['place'], s['step']
        c = (np.asarray(p) - (place.ox - place.around,
                              place.oy - place.around)) / step
        j, i = (int(k) for k in np.floor(c))
        _, _, (u, v) = s['sim'].field.navigation_to_target(t, *s['grid'])
        if np.abs(c - np.round(c)).min() < .02 or not (
                0 <= i < u.shape[0] and 0 <= j < u.shape[1]):
            return
        u, v = (float(np.ma.filled(d[i:i + 1, j:j + 1].astype(float), np.nan))
                for d in (u, v))
        if math.isfinite(u) and math.isfinite(v):
            ctx.check(u * e[0] + v * e[1] > .999 * math.hypot(u, v), 'map',
                      lambda: '%s at %r heads %r, the way to target %d leads '
                      '%r' % (who, list(p), e.tolist(), t, (u, v)))
            if min(i, j) == 0:
                ctx.probe('first row')
        else:
            ctx.check(e.tobytes() == before.tobytes(), 'map', lambda: '%s at '
                      '%r was given the direction %r' % (who, list(p),
                                                         e.tolist()))

    # -- walkers -----------------------------------------------------------
    def walk(self, plan, ctx, sims, faults, r):
        n = max(1, plan['n'])
        total = 40
        for s in sims:
            s['left'] = [0.0] * n
            s['since'] = [None] * n
            s['done'] = [False] * n
            s['out'] = set()
        t = 0
        while True:
            while faults and faults[0][0] <= t:
                self.disturb(ctx, sims, faults.pop(0), r)
            busy = False
            for k, s in enumerate(sims):
                if t % 2 and k == 0 and faults:
                    continue        # uneven turns
                arr = s['arr']
                self.look(ctx, s, 'step %d' % t)
                for i in range(n):
                    p = tuple(arr['position'][i].tolist())
                    target = int(arr['target'][i])
                    if i in s['out'] or not 0 <= target < len(
                            s['place'].order):
                        continue
                    d = s['place'].goal_distance(target, p)
                    if d <= 1.5 * s['step']:
                        s['done'][i] = True
                        continue
                    if s['done'][i] and not faults:
                        continue
                    s['done'][i] = False
                    if s['since'][i] is None:
                        s['since'][i] = (p, 0.0, s['ways'][target](p), target)
                    start, gone, way, goal = s['since'][i]
                    delta = s['step'] / 2
                    e = arr['target_direction'][i]
                    a = r.uniform(-.05, .05)      # nobody walks straight
                    e = (e[0] * math.cos(a) - e[1] * math.sin(a),
                         e[0] * math.sin(a) + e[1] * math.cos(a))
                    q = (p[0] + delta * e[0], p[1] + delta * e[1])
                    where = 'walker %d of %d from %r to target %d' % (
                        i, k, tuple(round(x, 3) for x in start), target)
                    ctx.check(not s['place'].crossed(p, q), 'wall', lambda:
                              '%s walks through a wall at %r' % (where, q))
                    arr['position'][i] = q
                    gone += delta
                    s['since'][i] = (start, gone, way, goal)
                    ctx.sim_time += delta
                    if way < math.inf:
                        if gone > 1.25 * way + 2.5 and self.ridge(
                                s['ways'][target], q, 1.5 * s['step']):
                            # Two ways are equally short: the map may leave
                            # open which of them it is.
                            ctx.probe('ridge')
                            s['out'].add(i)
                            continue
                        ctx.check(gone <= 1.25 * way + 2.5, 'detour', lambda:
                                  '%s has walked %.2f without arriving (now '
                                  'at %r), the way is %.2f long' % (
                                      where, gone, q, way))
                        busy = True
            t += 1
            if not busy and not faults:
                break
            if t > 4000:
                ctx.fail('detour', 'walkers did not arrive')
        for k, s in enumerate(sims):
            self.closest(ctx, s, r)
            ctx.ev('sim', k, np.round(s['arr']['position'], 6).tolist())
            ctx.state('A09', len(s['place'].walls), len(s['place'].goals),
                      tuple(np.round(s['arr']['position'].ravel(), 1)))
            for i in range(n):
                if s['done'][i]:
                    ctx.probe('arrived')

    @staticmethod
    def ridge(way, p, h):
        """Both sides of a place are nearer to the target than it is."""
        for k in range(8):
            a = math.pi * k / 8
            dx, dy = h * math.cos(a), h * math.sin(a)
            if max(way((p[0] + dx, p[1] + dy)),
                   way((p[0] - dx, p[1] - dy))) < way(p) - .25 * h:
                return True
        return False

    def disturb(self, ctx, sims, fault, r):
        _, kind, i, seed = fault
        s = sims[seed % len(sims)]
        arr, place = s['arr'], s['place']
        i %= s['n']
        rr = np.random.RandomState(seed)
        ctx.fault(kind)
        if kind == 'move':
            arr['position'][i] = self.spot(place, rr)
            if arr['active'][i]:
                s['out'].discard(i)
        elif kind == 'target':
            arr['target'][i] = rr.randint(-1, len(place.order) + 1)
        elif kind == 'lost':
            phi = rr.uniform(-np.pi, np.pi)
            arr['target_direction'][i] = (math.cos(phi), math.sin(phi))
            return
        elif kind == 'idle':
            arr['target'][i] = -1
        elif kind == 'pressed':
            # onto a wall or into the middle of a target and back
            keep = arr['position'][i].copy()
            lines = place.walls + place.exits
            a, b = lines[rr.randint(len(lines))]
            u = rr.uniform()
            p = [a[0] + u * (b[0] - a[0]), a[1] + u * (b[1] - a[1])]
            if rr.uniform() < .5:
                # just off the map or not quite
                m = place.around + rr.uniform(-1.5, 2) * s['step']
                p = [(place.ox - m, place.ox + place.w + m)[rr.randint(2)],
                     place.oy + u * place.h]
                if rr.uniform() < .5:
                    p = [place.ox + u * place.w,
                         (place.oy - m, place.oy + place.h + m)[
                             rr.randint(2)]]
            zones = [g for how, g in place.goals if how == 'zone']
            if zones and rr.uniform() < .3:
                p = np.mean(zones[rr.randint(len(zones))], axis=0)
            arr['position'][i] = p
            self.look(ctx, s, 'walker %d pressed' % i)
            arr['position'][i] = keep
            self.look(ctx, s, 'walker %d is back' % i)
            return
        elif kind == 'rebuild':
            # the field of the simulation changes, all of it or parts
            s['place'] = place = s['others'][rr.randint(len(s['others']))]
            field = s['sim'].field
            traits = list(place.geometry(self.sg).items())
            for j in rr.permutation(len(traits)):
                setattr(field, *traits[j])
            s['ways'] = [place.ways(k) for k in range(len(place.order))]
            s['cells'] = None
            for j in range(s['n']):
                arr['position'][j] = self.spot(place, rr)
                s['since'][j] = None
            s['out'] = {j for j in s['out'] if not arr['active'][j]}
            self.maps(ctx, s)
            return
        elif kind == 'left':
            # this agent takes no part any more, the others go on
            arr['active'][i] = False
            s['out'].add(i)
            return
        elif kind == 'outside':
            arr['position'][i] = (place.ox + place.w + 3, place.oy - 4)
            s['out'].add(i)
        else:
            return
        s['since'][i] = None

    # -- crowds ------------------------------------------------------------
    def crowd(self, plan, ctx, s, faults, r):
        place, arr, sim, n = s['place'], s['arr'], s['sim'], s['n']
        scn = self
        box = {'push': {}, 'abort': False}

        class Pushes(self.logic.LogicNode):
            def update(self):
                for i, f in box['push'].items():
                    arr['force'][i] += f
                if box['abort']:
                    raise NodeFault()
        orig = s['nav'].update

        def watched():
            before = arr.copy()
            orig()
            scn.judge(ctx, s, before, arr, 'iteration %d' % box['t'])
        s['nav'].update = watched
        sim.logic['Integrator'] << Pushes(sim)
        done = [False] * n
        since = [None] * n
        t = 0
        while not all(done):
            box.update(push={}, abort=False, t=t)
            while faults and faults[0][0] <= t:
                _, kind, i, seed = faults.pop(0)
                i %= n
                rr = np.random.RandomState(seed)
                phi = rr.uniform(-np.pi, np.pi)
                ctx.fault(kind)
                if kind in ('push', 'outside'):
                    box['push'][i] = rr.uniform(100, 1500) * np.array(
                        (math.cos(phi), math.sin(phi)))
                elif kind == 'abort':
                    box['abort'] = True
                elif kind == 'target':
                    arr['target'][i] = rr.randint(len(place.order))
                elif kind == 'lost':
                    arr['target_direction'][i] = (math.cos(phi),
                                                  math.sin(phi))
                else:
                    arr['velocity'][i] = 0
                since = [None] * n
            try:
                sim.update()
            except NodeFault:
                pass
            t += 1
            dt = float(sim.data['dt']) if 'dt' in sim.data else 0.0
            ctx.sim_time += dt
            for i in range(n):
                if done[i]:
                    continue
                p = tuple(arr['position'][i].tolist())
                ctx.check(all(map(math.isfinite, p)), 'finite', lambda:
                          'agent %d is at %r' % (i, p))
                k = int(arr['target'][i])
                if place.goal_distance(k, p) <= .5:
                    if not faults:
                        # taken away, so that it does not block the others
                        done[i] = True
                        arr['position'][i] = (-50 - 5 * i, -90)
                        arr['target'][i] = -1
                        arr['velocity'][i] = 0
                        ctx.probe('arrived')
                    continue
                if not place.inside(p):
                    # pushed out of another exit: nobody leads it back
                    ctx.probe('left')
                    if not faults:
                        done[i] = True
                    since[i] = None
                    continue
                if since[i] is None:
                    way = s['ways'][k](p)
                    since[i] = (0.0, way, p)
                time, way, start = since[i]
                since[i] = (time + dt, way, start)
                if way < math.inf:
                    limit = 1.6 * way / float(arr['target_velocity'][i]) + 8
                    ctx.check(time <= limit, 'late', lambda: 'agent %d from '
                              '%r (way %.2f) has not reached target %d after '
                              '%.1f s, now at %r' % (i, start, way, k, time,
                                                     p))
                elif not faults:
                    done[i] = True
        ctx.ev('crowd', t, np.round(arr['position'], 6).tolist())
        ctx.state('A09', t, n, len(place.walls))


SCENARIOS = [Navigate]
