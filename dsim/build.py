"""Complete simulations out of the repository's own parts."""
import numpy as np

REAL = ('MultiAgentSimulation and logic tree', 'agents, groups, placement, '
        'block list', 'integrator, adjusting, fluctuation, contact and '
        'power-law forces, interactions', 'steering (navigation maps, leader-follower, '
        'herding, exit detection, orientation)', 'SaveSimulationData, io',
        'sampling, field')
STUB = ('numba (plain Python instead of compiled code)',
        'cell_lists (pair iteration stand-in)', 'shapely, scipy, skimage, '
        'skfmm, matplotlib.path stand-ins', 'raw file layer', 'wall clock')

_m = {}


def prepare():
    if _m:
        return
    import shapely.geometry as sg
    from anytree import PreOrderIter
    from crowddynamics.core.vector2D import unit_vector
    from crowddynamics.simulation import agents, field, logic, multiagent

    _m.update(sg=sg, Field=field.Field, agents=agents, field=field, logic=logic,
              multi=multiagent, unit=unit_vector, iter=PreOrderIter)


def gen_sim(rng, fluctuation=None, record=None):
    return {'type': rng.randrange(2), 'n': rng.choice([1, 2, 4, 7]),
            'seed': rng.randrange(1 << 30),
            'fluct': bool(rng.random() < .6) if fluctuation is None
            else bool(fluctuation),
            'walls': rng.randrange(5), 'shift': rng.randrange(3),
            'steer': rng.choice(['none', 'none', 'leader', 'herd', 'exit',
                                 'nav']),
            'inside': rng.random() < .5,
            'reach': rng.random() < .4,
            'small': rng.random() < .5,
            'record': bool(rng.random() < .7) if record is None
            else bool(record),
            'freq': rng.choice([1, 2, 3])}


def relative(rng, base):
    """A simulation that differs from base in one or two respects only."""
    other = dict(base)
    fresh = gen_sim(rng, fluctuation=base['fluct'], record=base['record'])
    for k in rng.sample(['small', 'small', 'shift', 'shift', 'walls',
                         'reach', 'seed', 'n',
                         'type', 'steer', 'inside'], rng.randint(1, 2)):
        other[k] = (not base[k]) if isinstance(base[k], bool) else fresh[k]
    return other


def make_field(p):
    sg = _m['sg']
    w = 6.0 if p['small'] else 12.0
    f = _m['Field']()
    # Fields that differ in shift only have equal extents and areas
    shift = p.get('shift', 2) % 3
    x = w * (.3 + .2 * shift)
    corner = [[(w, w - 1), (w - 1, w), (0, w)], [(w, w), (1, w), (0, w - 1)],
              [(w, w), (0, w)]][shift]
    f.domain = sg.Polygon([(0, 0), (w, 0)] + corner)
    walls = [None,
             sg.LineString([(0, 0), (w, 0)]),
             sg.LineString([(0, 0), (w, 0)]) | sg.LineString([(0, w), (w, w)]),
             sg.LineString([(w / 2, 0), (w / 2, w / 3)]) |
             sg.LineString([(0, w), (w, w)]),
             sg.LineString([(0, 0), (w, 0)]) |
             sg.LineString([(x, w / 3), (x, w / 2)]) |
             sg.LineString([(0, w), (w, w)])]
    obst = walls[p['walls'] % 5]
    if p['steer'] in ('leader', 'herd', 'exit', 'nav') and obst is None:
        obst = walls[1]
    if obst is not None:
        f.obstacles = obst
    if p['reach']:
        f.targets = [sg.Polygon([(w - 1, 0), (w, 0), (w, w), (w - 1, w)]),
                     sg.Polygon([(0, 0), (1, 0), (1, w), (0, w)])]
    else:
        f.targets = [sg.LineString([(w, x - .3), (w, x + 1)]),
                     sg.LineString([(0, w / 3), (0, w / 2)])]
    f.spawns = [sg.Polygon([(.5, .5), (w - .5, .5), (w - .5, w - .5),
                            (.5, w - .5)])]
    return f


def agent_type(p):
    return _m['agents'].ThreeCircle if p['type'] % 2 else \
        _m['agents'].Circular


def make_agents(p, field):
    ag = _m['agents']
    cls = agent_type(p)
    out = ag.Agents(agent_type=cls)
    k = [0]

    def attributes():
        k[0] += 1
        phi = np.random.uniform(-np.pi, np.pi)
        d = dict(body_type='adult', velocity=1.0 * _m['unit'](phi),
                 target_direction=_m['unit'](phi), target=k[0] % 2)
        if p['type'] % 2:
            d.update(orientation=phi, target_orientation=phi)
        if p['steer'] in ('leader', 'herd', 'exit'):
            d.update(is_leader=k[0] % 3 == 0, is_follower=k[0] % 3 != 0,
                     familiar_exit=k[0] % 2, target=k[0] % 2
                     if k[0] % 3 == 0 else -1)
        return d
    group = ag.AgentGroup(size=max(1, p['n']), agent_type=cls,
                          attributes=attributes)
    out.add_non_overlapping_group(group, field.sample_spawn(0))
    return out


def make_sim(p, directory=None, reseed=True, name='crowd'):
    lg = _m['logic']
    if reseed:
        np.random.seed(p['seed'] % (2 ** 32))
    sim = _m['multi'].MultiAgentSimulation(name=name)
    sim.field = make_field(p)
    sim.agents = make_agents(p, sim.field)
    adj = lg.Adjusting(sim) << lg.Orientation(sim)
    steer = {'leader': lg.LeaderFollower,
             'herd': lg.LeaderFollowerWithHerding,
             'exit': lg.ExitDetection, 'nav': lg.Navigation}.get(p['steer'])
    if p['steer'] == 'exit' and p['reach']:
        steer = None            # exit detection knows line targets only
    if steer is not None:
        adj << (steer(sim, step=.5) if p['steer'] == 'nav' else steer(sim))
    integ = lg.Integrator(sim)
    if p['steer'] == 'exit':
        integ.dt_min, integ.dt_max = .001, .05
    kids = [adj, lg.AgentAgentInteractions(sim),
            lg.AgentObstacleInteractions(sim)]
    if p['fluct']:
        kids.insert(0, lg.Fluctuation(sim))
    sim.logic = lg.Reset(sim) << (integ << tuple(kids))
    if p['inside']:
        sim.logic['Reset'].inject_before(lg.InsideDomain(sim))
    if p['reach']:
        sim.logic['Reset'].inject_before(lg.TargetReached(sim))
    if p['record'] and directory is not None:
        freq = max(1, p['freq'])
        rec = lg.SaveSimulationData(
            sim, save_condition=lambda s: (s.data['iterations'] + 1) % freq
            == 0, base_directory=directory, save_directory='rec')
        rec.add_to_simulation_logic()
    return sim


def nodes(sim):
    return list(_m['iter'](sim.logic.root))


def hook_nodes(sim, fn):
    """fn(node) is called before every evaluation of every node."""
    def wrap(node):
        orig = node.update

        def update():
            fn(node)
            return orig()
        node.update = update
    for node in nodes(sim):
        wrap(node)
