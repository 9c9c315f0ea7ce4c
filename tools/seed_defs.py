"""Definitions of the planted bugs; mkseeds.py writes them to seeded/."""

PRE = '''
import os, shutil, sys, tempfile, warnings
warnings.simplefilter('ignore')
import numpy as np
if not hasattr(np, 'asscalar'):
    np.asscalar = lambda a: np.asarray(a).item()
'''

SIM = PRE + '''
import shapely.geometry as sg
from crowddynamics.simulation import agents as ag, field as fl, logic as lg, \\
    multiagent as ma


def simulation(kind=ag.Circular, n=3, targets=(), name='crowd', **kw):
    sim = ma.MultiAgentSimulation(name=name)
    sim.field = fl.Field()
    sim.field.domain = sg.Polygon([(0, 0), (20, 0), (20, 20), (0, 20)])
    sim.field.targets = list(targets)
    sim.agents = ag.Agents(agent_type=kind)
    spots = iter([(2. + 3 * k, 5.) for k in range(n)])
    base = dict(radius=.25, r_t=.15, r_s=.1, r_ts=.12, mass=80.,
                inertia_rot=4.)
    if kind is ag.Circular:
        base.pop('inertia_rot')
    base.update(target_velocity=1.2)
    base.update(kw)
    group = ag.AgentGroup(agent_type=kind, size=n,
                          attributes=lambda: dict(base))
    sim.agents.add_non_overlapping_group(group, spots)
    return sim
'''

S = []


def seed(**kw):
    S.append(kw)


seed(id='r01-pending-frames', property='R01', file='io.py', edits=[
    ("    buffer = []\n", "    # Frames of a series that were not dumped yet\n"
     "    buffer = _PENDING.setdefault(basename, [])\n"),
    ("# NPY : Array data\n",
     "# NPY : Array data\n\n_PENDING = {}\n")],
    needs='two writers of the same series name in different directories '
          'that are open at the same time',
    what='frames that wait for a dump are shared by writers with the same '
         'name, so frames of one simulation are stored by the other',
    demo=PRE + '''
from crowddynamics.io import save_npy, load_npy_concatenated
tmp = tempfile.mkdtemp()
try:
    a, b = os.path.join(tmp, 'a'), os.path.join(tmp, 'b')
    os.mkdir(a), os.mkdir(b)
    one, two = save_npy(a, 'agents'), save_npy(b, 'agents')
    one.send(None), two.send(None)
    for k in range(3):
        one.send(np.full(4, k)), two.send(np.full(4, 10 + k))
        one.send(k == 2), two.send(k == 2)
    assert load_npy_concatenated(a, 'agents').tolist() == [[k] * 4 for k in range(3)]
    assert load_npy_concatenated(b, 'agents').tolist() == [[10 + k] * 4 for k in range(3)]
finally:
    shutil.rmtree(tmp)
''')

seed(id='r05-skip-unreadable', property='R05', file='io.py', edits=[
    ("        yield np.load(filepath)\n",
     "        try:\n            data = np.load(filepath)\n"
     "        except (OSError, ValueError):\n"
     "            continue  # not a data file\n        yield data\n")],
    needs='a chunk file that was truncated, or a read error',
    what='a truncated chunk or a failing read silently drops frames out of '
         'the middle of the recording',
    demo=PRE + '''
from crowddynamics.io import save_npy, load_npy
tmp = tempfile.mkdtemp()
try:
    w = save_npy(tmp, 'x')
    w.send(None)
    for k in range(3):
        w.send(np.full(4, k))
        w.send(True)
    p = os.path.join(tmp, 'x_1.npy')
    with open(p, 'r+b') as fp:
        fp.truncate(os.path.getsize(p) - 8)
    try:
        got = list(load_npy(tmp, 'x'))
    except Exception:
        pass
    else:
        raise AssertionError('loaded %d chunks of a damaged series' % len(got))
finally:
    shutil.rmtree(tmp)
''')

seed(id='r03-path-order', property='R03', file='io.py', edits=[
    ("sorted(values, key=lambda x: x[0])",
     "sorted(values, key=lambda x: (len(x[1]), x[1]))")],
    needs='chunks that were moved into subdirectories (or names with leading '
          'zeros), so that the length of the path does not follow the number',
    what='chunks are ordered by the length and text of their path instead of '
         'their number',
    demo=PRE + '''
from crowddynamics.io import load_npy
tmp = tempfile.mkdtemp()
try:
    os.mkdir(os.path.join(tmp, 'first'))
    for k in range(6):
        np.save(os.path.join(tmp, 'first' if k < 3 else '.', 'x_%d.npy' % k),
                np.array([[k]]))
    assert [int(a[0, 0]) for a in load_npy(tmp, 'x')] == list(range(6))
finally:
    shutil.rmtree(tmp)
''')

seed(id='r04-new-session', property='R04', file='io.py', edits=[
    ("    filepath = os.path.join(directory, basename + '.csv')\n",
     "    filepath = os.path.join(directory, basename + '.csv')\n"
     "    mode = 'w'\n"),
    ("            with open(filepath, 'a') as fp:\n",
     "            nonlocal mode\n            with open(filepath, mode) as fp:\n"),
    ("                buffer.seek(0)\n",
     "                buffer.seek(0)\n            mode = 'a'\n")],
    needs='a second recording session into the same directory',
    what='the first dump of a session replaces the rows of earlier sessions',
    demo=PRE + '''
from crowddynamics.io import save_csv
tmp = tempfile.mkdtemp()
try:
    for s in range(2):
        w = save_csv(tmp, 'data')
        w.send(None)
        for k in range(4):
            w.send({'s': s, 'k': k})
            w.send(k % 2 == 1)
        w.close()
    rows = open(os.path.join(tmp, 'data.csv')).read().split()
    for s in range(2):
        for k in range(4):
            assert rows.count('%d,%d' % (s, k)) == 1, rows
finally:
    shutil.rmtree(tmp)
''')


seed(id='r06-missing-values', property='R06', file='io.py', edits=[
    ("        obj = {name: geometry_mapping(geom) for name, geom in\n"
     "               geometries.items()}\n",
     "        obj = {name: geometry_mapping(geom) for name, geom in\n"
     "               geometries.items() if geom}\n")],
    stubs=True, needs='a field without obstacles (None) or an empty list',
    what='missing values and empty lists are not stored, so the loaded '
         'mapping lacks their names',
    demo=PRE + '''
import shapely.geometry as sg
from crowddynamics.io import save_geometry_json, load_geometry_json
tmp = tempfile.mkdtemp()
try:
    p = os.path.join(tmp, 'g.json')
    g = {'domain': sg.Polygon([(0, 0), (2, 0), (2, 2)]), 'obstacles': None,
         'targets': []}
    save_geometry_json(p, g)
    got = load_geometry_json(p)
    assert set(got) == set(g), got
    assert got['obstacles'] is None and got['targets'] == []
finally:
    shutil.rmtree(tmp)
''')

seed(id='r07-frame-after-row', property='R07', file='simulation/logic.py',
     edits=[
    ("        save = self.save_condition(self.simulation)\n\n"
     "        self.save_agent_npy.send(self.simulation.agents.array)\n"
     "        self.save_agent_npy.send(save)\n\n"
     "        self.save_data_csv.send(self.simulation.data)\n"
     "        self.save_data_csv.send(save)\n",
     "        self.save_agent_npy.send(self.simulation.agents.array)\n"
     "        self.save_agent_npy.send(self.save_condition(self.simulation))\n"
     "\n"
     "        self.save_data_csv.send(self.simulation.data)\n"
     "        self.save_data_csv.send(self.save_condition(self.simulation))\n"
     )], stubs=True,
    needs='a save condition that is not a pure function of the simulation '
          '(a counter, a stop watch)',
    what='the save condition is asked twice per iteration, so frames and '
         'rows are dumped at different iterations',
    demo=SIM + '''
from crowddynamics.io import load_npy
tmp = tempfile.mkdtemp()
try:
    calls = []

    def every_third(_):
        calls.append(0)
        return len(calls) % 3 == 0
    sim = simulation()
    sim.logic = lg.Reset(sim)
    node = lg.SaveSimulationData(sim, save_condition=every_third,
                                 base_directory=tmp, save_directory='r')
    node.add_to_simulation_logic()
    for k in range(9):
        sim.update()
    assert len(calls) == 9, calls
    frames = sum(len(a) for a in load_npy(os.path.join(tmp, 'r'), 'agents'))
    rows = open(os.path.join(tmp, 'r', 'data.csv')).read().split()[1:]
    assert frames == len(rows) == 9, (frames, len(rows))
finally:
    shutil.rmtree(tmp)
''')

seed(id='s01-not-from-root', property='S01',
     file='simulation/multiagent.py', edits=[
    ("PostOrderIter(self.logic.root)", "PostOrderIter(self.logic)")],
    stubs=True, needs='a node injected before the node that the simulation '
                      'holds as its logic',
    what='nodes above the one held by the simulation (a recorder added to '
         'the logic) are never evaluated',
    demo=SIM + '''
class N(lg.LogicNode):
    def update(self):
        seen.append(self.name)
seen = []
sim = simulation(n=1)
sim.logic = N(sim, name='a') << (N(sim, name='b'), N(sim, name='c'))
sim.logic['a'].inject_before(N(sim, name='top'))
sim.update()
assert seen == ['b', 'c', 'a', 'top'], seen
''')

seed(id='s02-inject-order', property='S02', file='simulation/base.py', edits=[
    ("        for child in self.children:\n            child.parent = node\n",
     "        # Children are removed while iterating\n"
     "        for child in reversed(self.children):\n"
     "            child.parent = node\n")],
    needs='injecting a node after a node with more than one child',
    what='the children of the injected node are evaluated in reverse order',
    demo=PRE + """
from crowddynamics.simulation.base import LogicNodeBase
a, b, c, d = [LogicNodeBase(name=n) for n in 'abcd']
a << (b, c)
a.inject_after(d)
assert a.children == (d,) and d.children == (b, c), (a.children, d.children)
""")

seed(id='s02-lookup-below', property='S02', file='simulation/base.py', edits=[
    ("        for node in PreOrderIter(self.root):\n",
     "        for node in PreOrderIter(self):\n")],
    needs='a lookup through a node that is not the root, for example after '
          'a node was injected before the one the simulation holds',
    what='nodes outside of the subtree are not found',
    demo=PRE + """
from crowddynamics.simulation.base import LogicNodeBase
a, b, c, d = [LogicNodeBase(name=n) for n in 'abcd']
a << (b, c)
a.inject_before(d)
assert a['d'] is d and b['c'] is c
""")

seed(id='s03-condition-once', property='S03', file='simulation/base.py',
     edits=[
    ("        while self.exit_condition is None or not "
     "self.exit_condition(self):\n            self.update()",
     "        done = self.exit_condition\n"
     "        while done is None or not done(self):\n"
     "            self.update()")],
    needs='an exit condition that is set or replaced while the simulation '
          'runs',
    what='a run goes on with the condition it was started with',
    demo=PRE + '''
from crowddynamics.simulation.base import SimulationBase


class Sim(SimulationBase):
    n = 0

    def update(self):
        self.n += 1
        if self.n == 3:
            self.exit_condition = lambda s: True
        assert self.n < 10, 'did not stop'
sim = Sim()
sim.exit_condition = lambda s: False
sim.run()
assert sim.n == 3
''')

seed(id='s04-stop-before-start', property='S04',
     file='simulation/multiagent.py', edits=[
    ("        self.simulation.exit_condition = lambda _: self.exit.is_set()\n",
     "        self.exit.clear()  # The process may be restarted\n"
     "        self.simulation.exit_condition = lambda _: self.exit.is_set()\n")
    ], stubs=True, needs='a stop request between the creation and the first '
                         'iteration of the background process',
    what='a stop request that comes before the process runs is lost',
    demo=SIM + '''
import queue
class N(lg.LogicNode):
    def update(self):
        n.append(0)
        if len(n) > 20:
            raise ma.CrowdDynamicsException('still running')
n = []
sim = simulation(n=1)
sim.logic = N(sim)
p = ma.MultiAgentProcess(sim, queue.Queue())
p.stop()
p.run()
assert len(n) <= 1, len(n)
''')

seed(id='s05-total-time', property='S05', file='simulation/logic.py', edits=[
    ("        self.simulation.data['time_tot'] += dt\n",
     "        self.simulation.data['time_tot'] = \\\n"
     "            dt * (self.simulation.data['iterations'] + 1)\n")],
    stubs=True, needs='time steps of different length (dt_min < dt_max)',
    what='the total time is the last step times the number of iterations '
         'instead of the sum of the steps',
    demo=SIM + '''
sim = simulation(n=1)
node = lg.Integrator(sim, dt_min=.001, dt_max=.05)
sim.logic = lg.Reset(sim) << node
total = 0
for k in range(5):
    sim.agents.array['velocity'] = (3. * k, 0)
    sim.update()
    total += sim.data['dt']
assert abs(sim.data['time_tot'] - total) < 1e-12
''')

seed(id='s08-wall-clock-zone', property='S08', file='simulation/base.py',
     edits=[("        return datetime.now(tz=tzutc())\n",
             "        return datetime.now().replace(tzinfo=tzutc())\n")],
     needs='a local time zone other than UTC',
     what='the stamp shows local time labelled as UTC',
     demo=PRE + '''
os.environ['TZ'] = 'XST-9'
import time
time.tzset()
from datetime import datetime, timezone
from crowddynamics.simulation.base import SimulationBase
now = datetime.now(timezone.utc)
stamp = SimulationBase().timestamp
assert abs((stamp - now).total_seconds()) < 60, (stamp, now)
''')

seed(id='a01-last-neighbours', property='A01', file='simulation/agents.py',
     edits=[
    ("            self._neighbours[new_agent.position] = self.index\n"
     "            self.index += 1\n            index += 1\n",
     "            self.index += 1\n            index += 1\n\n"
     "        # Agents of the group are found by the overlapping checks\n"
     "        for k in range(self.index - index, self.index):\n"
     "            self._neighbours[self.array[k]['position']] = k\n"),
    ("            if new_agent.overlapping(self.array[neighbours]):\n",
     "            start = self.index - index\n"
     "            if new_agent.overlapping(self.array[neighbours]) or \\\n"
     "                    new_agent.overlapping(self.array[start:self.index]):\n"
     )],
    stubs=True, needs='a source of positions that fails in the middle of a '
                      'group, then another group',
    what='agents of a group whose positions ran out are not registered for '
         'later overlap checks',
    demo=SIM + '''
sim = simulation(n=1)
agents = sim.agents


def add(n, spots):
    group = ag.AgentGroup(agent_type=ag.Circular, size=n,
                          attributes=lambda: dict(radius=.25, mass=80.))
    try:
        agents.add_non_overlapping_group(group, iter(spots))
    except StopIteration:
        pass
add(3, [(1., 1.), (4., 1.)])
add(2, [(1.1, 1.), (8., 1.)])
x = agents.array['position']
for i in range(len(x)):
    for j in range(i):
        assert np.hypot(*(x[i] - x[j])) >= .5, (x[i], x[j])
''')

seed(id='a05-shared-reached', property='A05', file='simulation/logic.py',
     edits=[
    ("        self.reached_by = []\n",
     "        self.reached_by = []\n"
     "        reached_by = np.zeros(size, dtype=np.bool_)\n"),
    ("self.reached_by.append(np.zeros(size, dtype=np.bool_))",
     "self.reached_by.append(reached_by)")],
    stubs=True, needs='two polygon targets reached by different agents',
    what='the targets share one record of who reached them',
    demo=SIM + '''
box = lambda x: sg.Polygon([(x, 4), (x + 1, 4), (x + 1, 6), (x, 6)])
sim = simulation(n=3, targets=[box(1.5), box(4.5)])
sim.logic = lg.TargetReached(sim)
for k in range(2):
    sim.update()
assert sim.data['target_0'] == 1 and sim.data['target_1'] == 1, sim.data
''')

seed(id='a06-forget-leader', property='A06',
     file='core/steering/collective_motion.py', edits=[
    ("                    index_leader[i] = j\n",
     "                    if index_leader[i] == NO_LEADER:\n"
     "                        index_leader[i] = j\n")],
    stubs=True, needs='a follower that follows one leader, then another '
                      'one, and then loses sight of both',
    what='a follower remembers the first leader it ever saw instead of the '
         'last one',
    demo=SIM + '''
sim = simulation(n=3)
a = sim.agents.array
a['is_leader'] = [False, True, True]
a['is_follower'] = [True, False, False]
a['target'] = [-1, 0, 1]
a['familiar_exit'] = 2
a['velocity'] = (1., 0)
sim.field.obstacles = sg.LineString([(0, 50), (20, 50)])
sim.logic = lg.LeaderFollower(sim)
a['position'] = [(0, 0), (2, 0), (90, 0)]
sim.update()
assert a['index_leader'][0] == 1
a['position'] = [(0, 0), (90, 0), (2, 0)]
sim.update()
a['position'] = [(0, 0), (90, 0), (90, 5)]
sim.update()
assert a['target'][0] == 1, a['target']
''')


seed(id='a08-mean-again', property='A08', file='simulation/agents.py', edits=[
    ("        if self.mass == 0 and self.mass_mean > 0 and "
     "self.mass_scale > 0:\n",
     "        if self.mass_mean > 0 and self.mass_scale > 0:\n")],
    stubs=True, needs='a body type together with an explicit mass',
    what='an explicitly given mass is replaced by a drawn one',
    demo=SIM + '''
for k in range(5):
    a = ag.Circular(body_type='adult', mass=61.5)
    assert a.mass == 61.5, a.mass
''')

seed(id='b01-towards-zero', property='B01', file='core/block_list.py', edits=[
    ("            return tuple(elem // cell_size for elem in value)\n",
     "            return tuple(int(elem / cell_size) for elem in value)\n")],
    needs='coordinates of both signs around zero',
    what='the blocks on both sides of zero are merged, so a lookup returns '
         'values of a neighbouring block',
    demo=PRE + '''
from crowddynamics.core.block_list import MutableBlockList
b = MutableBlockList(1.)
b[(.5, .5)] = 'p'
b[(-.5, .5)] = 'n'
assert b[(.2, .2)] == ['p'] and b[(-.2, .2)] == ['n'], b[(.2, .2)]
''')

seed(id='b01-alias', property='B01', file='core/block_list.py', edits=[
    ("        return sum((self._blocks[key] for key in\n"
     "                    self._nearest_blocks(index, radius)), self._list())\n",
     "        blocks = [self._blocks[key] for key in\n"
     "                  self._nearest_blocks(index, radius)\n"
     "                  if self._blocks[key]]\n"
     "        if len(blocks) == 1:\n"
     "            return blocks[0]\n"
     "        return sum(blocks, self._list())\n")],
    needs='a query with exactly one occupied block, and a caller that edits '
          'the result',
    what='the result is the internal list of the block',
    demo=PRE + '''
from crowddynamics.core.block_list import MutableBlockList
b = MutableBlockList(1.)
b[(.5, .5)] = 1
r = b.nearest((.5, .5))
r.append(99)
assert list(b.nearest((.5, .5))) == [1]
''')

seed(id='u01-only-exceptions', property='U01', file='utils.py', edits=[
    ("    try:\n        os.chdir(directory)\n        yield\n    finally:\n"
     "        os.chdir(curdir)\n",
     "    os.chdir(directory)\n    try:\n        yield\n"
     "    except Exception:\n        os.chdir(curdir)\n        raise\n"
     "    os.chdir(curdir)\n")],
    needs='an interrupt (KeyboardInterrupt, SystemExit, GeneratorExit) '
          'inside the scope',
    what='an interrupt leaves the caller in the other directory',
    demo=PRE + '''
from crowddynamics.utils import remember_cwd
tmp = tempfile.mkdtemp()
here = os.getcwd()
try:
    try:
        with remember_cwd(tmp):
            raise KeyboardInterrupt
    except KeyboardInterrupt:
        pass
    assert os.getcwd() == here
finally:
    os.chdir(here)
    shutil.rmtree(tmp)
''')

seed(id='u03-already-imported', property='U03', file='utils.py', edits=[
    ("import os\nfrom collections", "import os\nimport sys\nfrom collections"),
    ("    _, name = os.path.split(base)\n",
     "    _, name = os.path.split(base)\n"
     "    if name in sys.modules:\n        return sys.modules[name]\n")],
    needs='a simulation file with the name of a module that is already '
          'imported',
    what='the loaded module is used instead of the file, so its simulations '
         'are not found',
    demo=PRE + '''
import json
from crowddynamics.utils import import_subclasses
tmp = tempfile.mkdtemp()
try:
    p = os.path.join(tmp, 'json.py')
    with open(p, 'w') as fp:
        fp.write('class A(dict): pass\\n')
    assert list(import_subclasses(p, dict)) == ['A']
finally:
    shutil.rmtree(tmp)
''')

seed(id='n02-window', property='N02', file='core/rand.py', edits=[
    ("    t_tot = np.random.exponential(scale=interval)\n"
     "    while t_tot < dt:\n        yield t_tot\n"
     "        t_tot += np.random.exponential(scale=interval)\n",
     "    t_tot = np.random.exponential(scale=interval)\n"
     "    while t_tot < dt:\n        yield t_tot\n"
     "        t_tot += min(np.random.exponential(scale=interval), interval)\n"
     )], stubs=True, needs='several updates inside one window',
    what='the intervals after the first are cut at their mean, so agents '
         'update too often',
    demo=SIM + '''
from crowddynamics.core.rand import poisson_clock
np.random.seed(1)
n = [len(list(poisson_clock(1., 50.))) for _ in range(400)]
assert 47 < np.mean(n) < 53, np.mean(n)
''')

S[:] = [s for s in S if s]


seed(id='a10-deepest-wall', property='A10', file='core/interactions.py', edits=[
    ("    for i in range(len(agents)):\n"
     "        for w in range(len(obstacles)):\n"
     "            interaction_agent_circular_obstacle(i, w, agents, obstacles)\n",
     "    for i in range(len(agents)):\n"
     "        # Only the deepest contact matters\n"
     "        deepest, h_min = -1, 0.0\n"
     "        for w in range(len(obstacles)):\n"
     "            h, n = distance_circle_line(\n"
     "                agents[i]['position'], agents[i]['radius'],\n"
     "                obstacles[w]['p0'], obstacles[w]['p1'])\n"
     "            if h < h_min:\n"
     "                deepest, h_min = w, h\n"
     "        if deepest >= 0:\n"
     "            interaction_agent_circular_obstacle(i, deepest, agents,\n"
     "                                                obstacles)\n")],
    stubs=True, needs='a circular agent that touches two walls at once',
    what='only one of the walls pushes an agent in a corner',
    demo=SIM + '''
sim = simulation(n=1)
sim.field.obstacles = sg.LineString([(0, 0), (20, 0)]) | sg.LineString(
    [(0, 0), (0, 20)])
a = sim.agents.array
a['position'] = (.2, .22)
sim.logic = lg.AgentObstacleInteractions(sim)
sim.update()
fx, fy = a['force'][0]
assert fx > 1000 and fy > 1000, (fx, fy)
''')


seed(id='a04-inactive-force', property='A04', file='simulation/logic.py', edits=[
    ("        agents['force'] = 0\n",
     "        agents['force'][agents['active']] = 0\n")],
    stubs=True, needs='an agent that became inactive, over several iterations',
    what='the forces on inactive agents pile up from iteration to iteration',
    demo=SIM + '''
sim = simulation(n=2)
a = sim.agents.array
a['active'] = [True, False]
a['force'] = 7.
sim.logic = lg.Reset(sim)
sim.update()
assert not a['force'].any(), a['force']
''')


seed(id='a03-grid-cache', property='A03', file='core/interactions.py', edits=[
    ("    neigh_cells = neighboring_cells(grid_shape)\n",
     "    # Neighbours depend on the grid only\n"
     "    if len(cells_count) not in _NEIGH_CELLS:\n"
     "        _NEIGH_CELLS[len(cells_count)] = neighboring_cells(grid_shape)\n"
     "    neigh_cells = _NEIGH_CELLS[len(cells_count)]\n"),
    ("# Higher level API\n", "# Higher level API\n\n_NEIGH_CELLS = {}\n\n")],
    stubs=True, needs='crowds, at another time or in another simulation, '
                      'that span grids of another shape with the same number '
                      'of cells',
    what='neighbouring cells of the earlier grid are used, so agents pass '
         'through each other',
    demo=SIM + '''
for spots in ([(1., 1.), (1., 1.45), (9, 5)], [(1., 1.), (1.45, 1.), (5, 9)]):
    sim = simulation(n=3)
    a = sim.agents.array
    a['position'] = spots
    node = lg.AgentAgentInteractions(sim)
    node.cell_size = .44
    sim.logic = node
    sim.update()
    assert abs(a['force'][:2]).max() > 100, a['force']
''')


seed(id='s07-time-limit', property='S07', file='simulation/agents.py', edits=[
    ("import numba\n", "import time\n\nimport numba\n"),
    ("        overlaps_max = 10 * group.size\n",
     "        overlaps_max = 10 * group.size\n"
     "        deadline = time.time() + 60.0\n"),
    ("        while index < group.size and overlaps < overlaps_max:\n",
     "        while index < group.size and overlaps < overlaps_max and \\\n"
     "                time.time() < deadline:\n")],
    needs='a clock that is set forward while agents are placed',
    what='the number of agents depends on the wall clock',
    stubs=True, demo=SIM + '''
import time
real, late = time.time, []
time.time = lambda: real() + 86400 * len(late)
sim = simulation(n=3)
assert len(sim.agents.array) == 3


def spots():
    for k in range(9):
        late.append(k)
        yield 2. + 3 * k, 15.


group = ag.AgentGroup(agent_type=ag.Circular, size=3,
                      attributes=lambda: dict(radius=.25, mass=80.))
sim.agents.add_non_overlapping_group(group, spots())
assert len(sim.agents.array) == 6, len(sim.agents.array)
''')


seed(id='n03-half-plane', property='N03', file='core/motion/fluctuation.py',
     edits=[
    ("    phi = np.random.uniform(0.0, 2.0 * np.pi, size=size)\n",
     "    phi = np.random.uniform(0.0, np.pi, size=size)\n")],
    stubs=True, needs='many draws',
    what='the fluctuation pushes agents to one side',
    demo=SIM + '''
from crowddynamics.core.motion.fluctuation import force_fluctuation
np.random.seed(3)
f = force_fluctuation(np.ones(4000), np.ones(4000))
assert (f[:, 1] < 0).sum() > 1000, (f[:, 1] < 0).sum()
''')


seed(id='n01-no-root', property='N01', file='core/sampling.py', edits=[
    ("    return (1 - np.sqrt(r1)) * a + \\\n"
     "           np.sqrt(r1) * (1 - r2) * b + \\\n"
     "           r2 * np.sqrt(r1) * c\n",
     "    return (1 - r1) * a + r1 * (1 - r2) * b + r2 * r1 * c\n")],
    stubs=True, needs='many draws from one region',
    what='points crowd around one corner of every triangle',
    demo=SIM + '''
from crowddynamics.core.sampling import random_sample_triangle
np.random.seed(3)
a, b, c = np.array([0., 0]), np.array([1., 0]), np.array([0., 1])
p = np.array([random_sample_triangle(a, b, c) for _ in range(4000)])
n = (p.sum(axis=1) < .5).sum()
assert 800 < n < 1200, n
''')


seed(id='a09-first-row', property='A09', file='core/steering/navigation.py',
     edits=[
    ("        if not (l <= i < u):\n", "        if not (l < i < u):\n")],
    stubs=True, needs='an agent in the first row or column of the map that '
                      'does not head to its target yet',
    what='agents along the lower and the left border are not directed',
    demo=SIM + '''
sim = simulation(n=1, targets=[sg.LineString([(15, 5), (15, 15)])])
sim.field.domain = sg.Polygon([(0, 0), (16, 0), (16, 20), (0, 20)])
a = sim.agents.array
a['target'] = 0
a['target_direction'] = (-1, 0)
a['position'] = (.05, 10)
sim.logic = lg.Navigation(sim)
sim.update()
assert a['target_direction'][0][0] > .9, a['target_direction']
''')


seed(id='a09-shared-maps', property='A09', file='simulation/logic.py', edits=[
    ("    strength = Float(\n"
     "        default_value=0.3,\n"
     "        min=0, max=1,\n"
     "        help='')\n\n"
     "    def update(self):\n"
     "        agents = self.simulation.agents.array\n"
     "        field = self.simulation.field\n\n"
     "        for target in",
     "    strength = Float(\n"
     "        default_value=0.3,\n"
     "        min=0, max=1,\n"
     "        help='')\n\n"
     "    # Maps are expensive to compute\n"
     "    maps = {}\n\n"
     "    def update(self):\n"
     "        agents = self.simulation.agents.array\n"
     "        field = self.simulation.field\n\n"
     "        for target in"),
    ("            mgrid, distance_map, direction_map = field.navigation_to_target(\n"
     "                target, self.step, self.radius, self.strength)\n",
     "            key = field.domain.bounds, target, self.step, self.radius, \\\n"
     "                self.strength\n"
     "            if key not in self.maps:\n"
     "                self.maps[key] = field.navigation_to_target(\n"
     "                    target, self.step, self.radius, self.strength)\n"
     "            mgrid, distance_map, direction_map = self.maps[key]\n")],
    stubs=True, needs='a second simulation, or a changed field, whose domain '
                      'has the same bounds',
    what='agents are directed to where the target of the first field was',
    demo=SIM + '''
for x, sign in ((15, 1), (5, -1)):
    sim = simulation(n=1, targets=[sg.LineString([(x, 5), (x, 15)])])
    a = sim.agents.array
    a['target'] = 0
    a['position'] = (10.05, 10)
    sim.logic = lg.Navigation(sim)
    sim.update()
    assert a['target_direction'][0][0] * sign > .9, a['target_direction']
''')


seed(id='a10-own-stiffness', property='A10', file='core/interactions.py', edits=[
    ("    # Positions: center, left, right\n",
     "    # Bodies in contact share their properties\n"
     "    mu, kappa = agents[i]['mu'], agents[i]['kappa']\n\n"
     "    # Positions: center, left, right\n"),
    ("        agents[i]['force'][:] += force_i\n"
     "        agents[j]['force'][:] += force_j\n\n"
     "        agents[i]['torque']",
     "            if agents[i]['mu'] != agents[j]['mu']:\n"
     "                force_j += force_contact(\n"
     "                    h, n, v, t, agents[j]['mu'] - mu,\n"
     "                    agents[j]['kappa'] - kappa, 0.0)\n\n"
     "        agents[i]['force'][:] += force_i\n"
     "        agents[j]['force'][:] += force_j\n\n"
     "        agents[i]['torque']")],
    stubs=True, needs='three-circle agents of different stiffness in contact',
    what='the stiffness of the other body is used, so the force depends on '
         'the numbering of the agents',
    demo=SIM + '''
got = []
for order in ((0, 1), (1, 0)):
    sim = simulation(ag.ThreeCircle, n=2, damping=0., k_soc=0.)
    a = sim.agents.array
    a['mu'] = np.array([1e5, 5e4])[list(order)]
    a['position'] = np.array([(5., 5.), (5.2, 5.)])[list(order)]
    a['orientation'] = np.pi / 2
    ag.shoulders(a)
    sim.logic = lg.AgentAgentInteractions(sim)
    sim.update()
    got.append(a['force'][list(order)].copy())
assert np.allclose(*got), got
''')


seed(id='s05-first-speed', property='S05', file='core/integrator.py', edits=[
    ("    dx_max = c * np.max(agents[:]['target_velocity']) * dt_max\n",
     "    dx_max = c * agents[0]['target_velocity'] * dt_max\n")],
    stubs=True, needs='agents of different speeds, the slowest of them first, '
                      'and an adaptive time step',
    what='the time step is bound by the first agent instead of the fastest',
    demo=SIM + '''
from crowddynamics.core.integrator import velocity_verlet_integrator
sim = simulation(n=2)
a = sim.agents.array
a['target_velocity'] = [.4, 1.5]
a['velocity'] = [(.4, 0), (1.5, 0)]
dt = velocity_verlet_integrator(a, .001, .02)
assert dt == .02, dt
''')


seed(id='e01-walls-once', property='E01', file='simulation/logic.py', edits=[
    ("        if self.simulation.field.obstacles is None:\n"
     "            obstacles = np.zeros(shape=0, dtype=obstacle_type_linear)\n"
     "        else:\n"
     "            obstacles = geom_to_linear_obstacles(\n"
     "                self.simulation.field.obstacles)\n"
     "        agent_obstacle(agents, obstacles)\n",
     "        if self.obstacles is None:\n"
     "            # Converting the geometry on every iteration is slow\n"
     "            if self.simulation.field.obstacles is None:\n"
     "                self.obstacles = np.zeros(shape=0,\n"
     "                                          dtype=obstacle_type_linear)\n"
     "            else:\n"
     "                self.obstacles = geom_to_linear_obstacles(\n"
     "                    self.simulation.field.obstacles)\n"
     "        agent_obstacle(agents, self.obstacles)\n"),
    ("class AgentObstacleInteractions(LogicNode):\n",
     "class AgentObstacleInteractions(LogicNode):\n    obstacles = None\n\n")],
    stubs=True, needs='a door that is shut after the first iteration',
    what='agents walk through walls that were not there at the beginning',
    demo=SIM + '''
sim = simulation(n=1)
a = sim.agents.array
a['position'] = (5, 5)
a['target_direction'] = (1, 0)
sim.logic = lg.Reset(sim) << (lg.Integrator(sim) << (
    lg.Adjusting(sim), lg.AgentObstacleInteractions(sim)))
sim.update()
sim.field.obstacles = sg.LineString([(6, 0), (6, 20)])
for _ in range(400):
    sim.update()
assert a['position'][0][0] < 6, a['position']
''')

seed(id='r02-rotate', property='R02', file='io.py', edits=[
    ("            index += 1\n", "            index = (index + 1) % 1000\n")],
    needs='a series with a thousand chunks',
    what='the numbers of the chunks start over and earlier frames are '
         'overwritten',
    demo=PRE + '''
from crowddynamics.io import save_npy, load_npy_concatenated
tmp = tempfile.mkdtemp()
try:
    for k in range(998):
        np.save(os.path.join(tmp, 'x_%d.npy' % k), np.array([[k]]))
    w = save_npy(tmp, 'x')
    w.send(None)
    for k in range(998, 1005):
        w.send(np.array([k]))
        w.send(True)
    got = load_npy_concatenated(tmp, 'x').ravel().tolist()
    assert got == list(range(1005)), (len(got), got[:8])
finally:
    shutil.rmtree(tmp)
''')

seed(id='a02-other-member', property='A02', file='simulation/agents.py',
     edits=[
    ("            new_agent = group.members[index]\n",
     "            # Another member may fit better if the last one overlapped\n"
     "            new_agent = group.members[(index + overlaps) % group.size]\n"
     )], stubs=True,
    needs='a group whose members differ and a position that is refused',
    what='some members are placed twice and others never',
    demo=SIM + '''
agents = ag.Agents(agent_type=ag.Circular)
sizes = [.2, .25, .3, .35]
group = ag.AgentGroup(agent_type=ag.Circular, attributes=[
    dict(radius=r, mass=80., target_velocity=1.) for r in sizes])
spots = iter([(0., 0.), (.1, 0.), (2., 0.), (4., 0.), (6., 0.)])
agents.add_non_overlapping_group(group, spots)
assert agents.array['radius'].tolist() == sizes, agents.array['radius']
''')

seed(id='a07-at-rest', property='A07', file='simulation/agents.py', edits=[
    ("        tangent = rotate270(unit_vector(agent['orientation']))\n",
     "        if agent['angular_velocity'] == 0.0 and \\\n"
     "                agent['velocity'][0] == 0.0 and "
     "agent['velocity'][1] == 0.0:\n"
     "            continue  # does not move\n"
     "        tangent = rotate270(unit_vector(agent['orientation']))\n")],
    stubs=True,
    needs='an agent at rest that is put somewhere else or turned',
    what='the shoulders of an agent at rest stay where they were',
    demo=SIM + '''
from crowddynamics.core.integrator import velocity_verlet_integrator
a = simulation(ag.ThreeCircle, n=1).agents.array
a['orientation'] = 1.
a['position'] = (7., 7.)
velocity_verlet_integrator(a, .01, .01)
want = a['position'][0] + .12 * np.array([np.sin(1.), -np.cos(1.)])
assert np.allclose(a['position_rs'][0], want), (a['position_rs'], want)
''')

seed(id='a11-drift', property='A11', file='core/motion/adjusting.py', edits=[
    ("    for agent in agents:\n"
     "        agent['force'][:] += force_adjust(agent['mass'],\n"
     "                                          agent['tau_adj'],\n",
     "    for agent in agents:\n"
     "        if agent['target_direction'][0] == 0.0 and \\\n"
     "                agent['target_direction'][1] == 0.0:\n"
     "            continue  # nowhere to go\n"
     "        agent['force'][:] += force_adjust(agent['mass'],\n"
     "                                          agent['tau_adj'],\n")],
    stubs=True, needs='an agent without a target direction that was pushed',
    what='agents that do not want to go anywhere never stop once pushed',
    demo=SIM + '''
sim = simulation(n=1)
a = sim.agents.array
a['target_direction'] = 0
a['velocity'] = (1., 0)
sim.logic = lg.Reset(sim) << (lg.Integrator(sim) << lg.Adjusting(sim))
for _ in range(1000):
    sim.update()
assert abs(a['velocity']).max() < 1e-3, a['velocity']
''')

seed(id='s06-same-bounds', property='S06', file='core/geometry.py', edits=[
    ("def geom_to_linear_obstacles(geom):\n",
     "_OBSTACLES = {}\n\n\ndef geom_to_linear_obstacles(geom):\n"),
    ("    return np.array(segments, dtype=obstacle_type_linear)\n",
     "    # Nodes ask for the same obstacles on every iteration, share the array\n"
     "    key = len(segments), None if geom is None else geom.bounds\n"
     "    if key not in _OBSTACLES:\n"
     "        _OBSTACLES[key] = np.array(segments, dtype=obstacle_type_linear)\n"
     "    return _OBSTACLES[key]\n")], stubs=True,
    needs='two simulations whose obstacles have the same number of segments '
          'and the same bounds but lie elsewhere',
    what='agents of one simulation meet the walls of another one',
    demo=SIM + '''
def run(walls):
    sim = simulation(n=1)
    sim.field.obstacles = sg.MultiLineString(walls)
    a = sim.agents.array
    a['position'] = (5, 5)
    a['target_direction'] = (1, 0)
    sim.logic = lg.Reset(sim) << (lg.Integrator(sim) << (
        lg.Adjusting(sim), lg.AgentObstacleInteractions(sim)))
    for _ in range(300):
        sim.update()
    return a['position'][0][0]

def walls(x):
    return [((0, 0), (20, 0)), ((x, 0), (x, 20)), ((0, 20), (20, 20))]

assert run(walls(10)) > 7
assert run(walls(6)) < 6
''')

seed(id='s07-spare', property='S07', file='core/rand.py', edits=[
    ("    tn = scipy.stats.truncnorm.rvs(\n"
     "        start, end, loc=loc, scale=_scale, size=size, "
     "random_state=random_state\n    )\n    return tn\n",
     "    if size == 1 and random_state is None:\n"
     "        # Drawing single values is slow, keep some in store\n"
     "        spare = _SPARE.setdefault((start, end), [])\n"
     "        if not spare:\n"
     "            spare.extend(scipy.stats.truncnorm.rvs(start, end, size=16))\n"
     "        return loc + _scale * np.array([spare.pop()])\n"
     "    tn = scipy.stats.truncnorm.rvs(\n"
     "        start, end, loc=loc, scale=_scale, size=size, "
     "random_state=random_state\n    )\n    return tn\n"),
    ("def truncnorm(", "_SPARE = {}\n\n\ndef truncnorm(")], stubs=True,
    needs='a second run in a process that has drawn body measures before',
    what='values that were drawn before the seed was set are used after it',
    demo=SIM + '''
def people():
    np.random.seed(7)
    return [(p.radius, p.mass) for p in
            [ag.Circular(body_type='adult') for _ in range(3)]]

one, two = people(), people()
assert one == two, (one, two)
''')

seed(id='u02-cached', property='U02', file='config.py', edits=[
    ("    config = ConfigObj(infile=infile, configspec=configspec)\n",
     "    # Every agent loads the same file, read it once\n"
     "    key = str(infile), str(configspec)\n"
     "    config = _LOADED.get(key)\n"
     "    if config is None:\n"
     "        config = _LOADED[key] = ConfigObj(infile=infile,\n"
     "                                          configspec=configspec)\n"),
    ("def load_config(", "_LOADED = {}\n\n\ndef load_config(")],
    needs='a file that was changed after it had been loaded, or a caller '
          'that changes what it loaded',
    what='the values of an earlier load are returned for a file that has '
         'changed',
    demo=PRE + '''
from crowddynamics.config import load_config
tmp = tempfile.mkdtemp()
try:
    p = os.path.join(tmp, 'c.cfg')
    for value in ('1', '2'):
        with open(p, 'w') as fp:
            fp.write('[a]\\nx = %s\\n' % value)
        assert load_config(p)['a']['x'] == value, load_config(p)
finally:
    shutil.rmtree(tmp)
''')

seed(id='s01-cached-order', property='S01', file='simulation/multiagent.py',
     edits=[
    ("        for node in PostOrderIter(self.logic.root):\n",
     "        root = self.logic.root\n"
     "        if self._order is None or self._order[-1] is not root:\n"
     "            # Walking the tree is slow, the order does not change\n"
     "            self._order = tuple(PostOrderIter(root))\n"
     "        for node in self._order:\n"),
    ("        self.data['dt'] = 0.0\n",
     "        self.data['dt'] = 0.0\n        self._order = None\n")],
    stubs=True, needs='a node that is attached below the root during a run',
    what='nodes attached below the root during a run are never evaluated and '
         'removed ones still are',
    demo=SIM + '''
sim = simulation(n=1)
done = []

class Node(lg.LogicNode):
    def update(self):
        done.append(self.name)

sim.logic = Node(sim, name='root') << Node(sim, name='a')
sim.update()
sim.logic.add_children(Node(sim, name='b'))
sim.update()
assert done == ['a', 'root', 'a', 'b', 'root'], done
''')
