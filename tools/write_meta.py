#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json (run after editing PROPS)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

IO = 'crowddynamics/io.py'
BASE = 'crowddynamics/simulation/base.py'
MULTI = 'crowddynamics/simulation/multiagent.py'
LOGIC = 'crowddynamics/simulation/logic.py'
AGENTS = 'crowddynamics/simulation/agents.py'

# id, title, statement, over, quantifier, why tests cannot, files, mechanisms,
# level note
PROPS = [
 ('R01', 'Recorded frames are snapshots',
  'Every frame handed to the chunk writer is stored with the values it had at '
  'the moment it was handed over, even when the caller goes on modifying the '
  'same array in place before the buffer is dumped.  Writers of different '
  'series, also in the same directory, never mix their frames.',
  ['schedules', 'histories'],
  'Every interleaving of hand-overs, in-place mutations and dumps of one to '
  'four writers, every buffer and short-read/short-write pattern.',
  'test_io writes fresh random arrays once; nothing mutates an array between '
  'hand-over and dump, and only one writer exists.',
  [IO], [('save_npy buffers frames between dumps', IO)],
  'seeded search over interleavings; frames are compared bit for bit'),
 ('R02', 'Dumped frames survive crashes, failed writes and restarts',
  'A chunk whose dump was acknowledged is loaded back in full, in recording '
  'order, after any later process crash, write error, restarted recording '
  'into the same directory or deletion of older chunks.  Nothing that was not recorded, no torn chunk and '
  'no chunk of another series is ever loaded, and the series always stays '
  'loadable.',
  ['crash_points', 'fault_sequences', 'histories'],
  'Every sequence of recording sessions with a crash (before, inside or after '
  'any I/O step), ENOSPC, EIO or EMFILE at any I/O step.',
  'test_io records one session into an empty directory without any fault.',
  [IO], [('numbered chunk files, written and then renamed into place', IO)],
  'process-crash model: data handed to the file system survives'),
 ('R03', 'Loading a series returns exactly its own chunks in numeric order',
  'Loading a series by name from a directory returns exactly the chunks of '
  'that series lying in or below the directory, in numeric order of their '
  'numbers, whatever other files and similarly named series are there and in '
  'whatever order the file system lists them.  Concatenating returns their '
  'rows in the same order, also through the command line.',
  ['inputs', 'schedules', 'histories'],
  'Every directory of several series with related names, gaps and different '
  'digit counts, every listing order, writers adding chunks meanwhile.',
  'test_io loads one series of a few chunks from a directory that holds '
  'nothing else, in the order the file system happens to give.',
  [IO, 'crowddynamics/cli.py'],
  [('find_npy_files matches and sorts names', IO)],
  'series names from a fixed family of adversarial names'),
 ('R04', 'Dumped rows appear once, complete and in order',
  'Every row whose dump was acknowledged appears in the row file exactly '
  'once, complete, and in the order of hand-over, across sessions and '
  'whatever write errors or crashes happen to other rows.  An interrupted '
  'dump leaves at most one damaged line, and rows of different streams never '
  'mix.',
  ['crash_points', 'fault_sequences', 'schedules'],
  'Every interleaving of one to three streams over several sessions with '
  'crashes and write errors at any I/O step (rows without line breaks).',
  'test_io does not write rows at all.',
  [IO], [('save_csv keeps undumped rows and appends to the file', IO)],
  'rows without embedded line breaks when faults fire'),
 ('R05', 'A storage call that returns has done its work',
  'A dump, save or load that returns normally has stored or returned all of '
  'the data; if the disk failed it raises instead.  A truncated chunk file is '
  'never returned as data, and no call fails when the disk did not.',
  ['fault_sequences', 'inputs'],
  'Every placement of ENOSPC, EIO, EMFILE on open, write, close, rename, '
  'read, and every truncation of a chunk.',
  'No test injects an I/O error.',
  [IO], [('errors of the file layer propagate', IO)],
  'errors are injected below Python\'s buffered layer'),
 ('R06', 'Saved geometry loads back, the last save wins',
  'Points, lines, polygons with holes, multi-part geometries, lists, named '
  'groups and missing values that were saved load back equal.  Saving again '
  'replaces what was there, and a crash or failed save leaves nothing but the '
  'old geometry, the new one, or a file that raises when it is loaded.',
  ['histories', 'inputs', 'crash_points'],
  'Every history of saves and loads with crashes and I/O errors over '
  'generated geometries.',
  'No test covers geometry files.',
  [IO], [('save_geometry_json / load_geometry_json', IO)],
  'shapely is a stand-in implementing mapping/shape'),
 ('R07', 'Recorder keeps frames and rows aligned, one per iteration',
  'The recording node stores exactly one agent frame and one data row for '
  'each iteration in which it is evaluated, all from that iteration, and asks '
  'whether to dump once per iteration.  After any dump frames and rows cover '
  'the same iterations in order, next to the metadata and geometry of the '
  'simulation, also after write errors, crashes and restarts.  Adding itself '
  'to the logic makes it the last node to be evaluated; unless told otherwise '
  'it records into a directory named after the run.',
  ['crash_points', 'fault_sequences', 'histories'],
  'Every run of a simulation with recorders under crashes, write errors, '
  'restarts and changes of working directory.',
  'No stable test runs the recorder.',
  [LOGIC, IO], [('SaveSimulationData drives the two writers', LOGIC)],
  'agents object holds a scripted array; io and the node are real'),
 ('S01', 'Each iteration evaluates every logic node once, children first',
  'Each iteration evaluates every node of the logic tree exactly once, '
  'children before their parent and siblings in the order they were attached, '
  'whichever node of the tree the simulation holds.  The iteration count '
  'grows by one only when all of them succeeded; an error of a node reaches '
  'the caller unchanged and the nodes after it are not evaluated.',
  ['inputs', 'schedules', 'fault_sequences'],
  'Every tree shape, every failing evaluation, every interleaving with other '
  'simulations.',
  'test_base only instantiates the classes.',
  [MULTI, BASE], [('post-order iteration over the root', MULTI)],
  'trees up to 12 nodes'),
 ('S02', 'Edits of the logic tree do what they say, at any point of a run',
  'Attaching children (one, or any iterable in order), injecting a node '
  'before or after another and detaching change exactly the named links: '
  'injecting before puts the node between a node and its former parent, '
  'injecting after puts it between a node and all its former children, and '
  'subtrees move along.  Later iterations and lookups by name (first match '
  'from the root, error when absent) see the edited tree.',
  ['histories', 'schedules', 'fault_sequences'],
  'Every history of edits by interleaved clients between iterations and '
  'during iterations of other simulations, iterables failing half way.',
  'test_base makes no edit and checks no structure.',
  [BASE], [('parent links of anytree', BASE)],
  'edits that would create cycles are not generated'),
 ('S03', 'Running stops exactly when the exit condition says so',
  'A run checks the current exit condition with the simulation before every '
  'iteration and ends right at the first check that is met, without an extra '
  'iteration; with no condition it goes on until a node fails.  Errors of the '
  'condition or of a node end the run and reach the caller unchanged, and a '
  'later run continues from there.',
  ['schedules', 'histories', 'fault_sequences'],
  'Every point at which a condition turns, is replaced, removed or fails, and '
  'every interleaving of one to three runs.',
  'test_base never calls run.',
  [BASE, MULTI], [('run loop', BASE)], 'conditions return truthy or falsy values of any type'),
 ('S04', 'A background simulation always ends with exactly one end marker',
  'A simulation run in a background process puts everything it produces and '
  'then exactly one end marker into the queue, as the last item, however it '
  'ends: a stop request or an error of any kind.  A stop '
  'request at any time, also before the start or repeatedly, ends it within '
  'one further iteration, and running processes do not affect each other.',
  ['schedules', 'fault_sequences'],
  'Every interleaving of processes, slow or absent consumers, bounded queues '
  'and stop requests, every failing node.',
  'No stable test starts a process.',
  [MULTI], [('MultiAgentProcess.run', MULTI), ('stop event', MULTI)],
  'multiprocessing is simulated; the OS does not kill the process'),
 ('S05', 'Simulated time and motion advance together, one step at a time',
  'Every successful integration adds exactly its time step to the simulated '
  'time and moves every agent by that step; nothing else moves agents or the '
  'simulated time, in particular not the wall clock.  The step always lies '
  'between the minimum and the maximum step and fast crowds are stepped so '
  'that nobody moves further than the documented bound.',
  ['histories', 'fault_sequences', 'inputs'],
  'Every history of forces, speeds, step limits, node failures and wall clock '
  'jumps.',
  'Integrator tests need numba (not stable here) and evaluate single steps.',
  [LOGIC, 'crowddynamics/core/integrator.py'],
  [('Integrator', LOGIC), ('adaptive_timestep, velocity_verlet_integrator',
                           'crowddynamics/core/integrator.py')],
  'uncompiled numerical code'),
 ('S06', 'Simulations in one process do not affect each other',
  'A simulation that shares its process with others, advancing in any '
  'interleaving at the boundaries of its logic nodes, produces bit for bit '
  'the trajectory, data and files it produces alone.  This holds also when '
  'another one crashes in the middle of an iteration.',
  ['schedules', 'fault_sequences'],
  'Every interleaving of two to four complete simulations, every crash of a '
  'co-hosted one.',
  'No test runs two simulations.',
  [MULTI, LOGIC, AGENTS, IO], [('no shared mutable state', LOGIC)],
  'reference runs in processes of their own; each simulation gets its own random stream at every switch'),
 ('S07', 'The random seed alone decides a run',
  'Two runs of the same simulation with the same random seed give identical '
  'trajectories and identical recorded files.  Wall clock, time zone, listing '
  'order, I/O sizes and earlier activity in the process do not matter.',
  ['schedules', 'configurations', 'histories'],
  'Every combination of environment differences over generated simulations.',
  'No test runs a simulation twice.',
  [LOGIC, AGENTS, 'crowddynamics/core'], [('numpy random stream', LOGIC)],
  'each run in a process of its own; time stamps themselves are excluded'),
 ('S08', 'A simulation is stamped once, in UTC, when it is created',
  'The time stamp of a simulation is the UTC time of its creation, never '
  'changes afterwards, and is the one found in its metadata and in its run '
  'name (the name, an underscore, and the stamp with spaces replaced by '
  'underscores).  Clock jumps and time zones after creation have no effect.',
  ['histories', 'configurations'],
  'Every wall clock history and time zone, every order of reads and runs.',
  'test_base creates the object under the real clock only.',
  [BASE], [('timestamp default', BASE)], 'the clock is simulated'),
 ('A01', 'Placed agents never overlap each other or the given obstacles',
  'After any sequence of additions of groups, no two agents of the crowd '
  'overlap and no agent overlaps an obstacle given for its addition.  This '
  'holds for circular and three-circle agents of any size and any cell size, '
  'also when a source of positions fails midway.',
  ['inputs', 'histories', 'fault_sequences'],
  'Every sequence of groups and offered positions, including ones that crowd, '
  'repeat, sit on cell borders, raise or end early.',
  'Agent tests need numba (not stable here) and place a handful of agents.',
  [AGENTS, 'crowddynamics/core/block_list.py'],
  [('overlapping check in the neighbourhood grid', AGENTS)],
  'radius of a three-circle agent encloses its parts; proper obstacles'),
 ('A02', 'A crowd holds exactly the agents that were placed, unchanged',
  'The crowd array holds exactly the agents that were placed, each once, with '
  'every attribute its source gave and a position that was offered for it; '
  'agents that found no place leave no trace and earlier agents stay as they '
  'are.  An offered position that fits is taken, a group is given up only '
  'after ten refused positions per agent, and a source of attributes is asked '
  'at most once per agent of the group.',
  ['inputs', 'histories', 'fault_sequences'],
  'Every sequence of groups, offers and failing sources, against a model of '
  'greedy placement.',
  'Agent tests place a handful of agents and check no content.',
  [AGENTS], [('Agents.add_non_overlapping_group', AGENTS)],
  'positions within 1e-9 of touching are not judged'),
 ('A03', 'Forces do not depend on the order in which pairs are processed',
  'The forces and torques of one instant do not depend on the order in which '
  'pairs of agents, walls or force-generating nodes are processed, on the '
  'cell size of the neighbour search, or on how agents are numbered.  '
  'Computing them changes nothing else, forces between equal agents cancel, '
  'and agents far from everybody feel none.',
  ['schedules', 'inputs'],
  'Every pair schedule of generated crowds, sparse to compressed, circular '
  'and three-circle.',
  'Interaction tests need numba (not stable here) and check one order.',
  ['crowddynamics/core/interactions.py', 'crowddynamics/core/motion'],
  [('agent_agent_block_list, interaction functions',
    'crowddynamics/core/interactions.py')],
  'the pair iteration of the missing C extension is a stand-in that yields '
  'every pair in sight exactly once in a seeded order'),
 ('A04', 'Each logic node changes only the state it is responsible for',
  'Evaluating a logic node changes only the agent attributes it is '
  'responsible for: integration moves and turns, force nodes add force and '
  'torque, steering sets directions and targets, recording and bookkeeping '
  'change no motion.  Values stay finite, angles stay within half a turn, '
  'directions have at most unit length and resetting clears all forces, also '
  'after iterations aborted at any node.',
  ['histories', 'schedules', 'fault_sequences'],
  'Every composition of nodes, every aborted iteration, generated crowds.',
  'No test evaluates a complete tree.',
  [LOGIC, 'crowddynamics/core'], [('node update methods', LOGIC)],
  'crowds placed without overlap'),
 ('A05', 'Domain and target counts match where the agents are and were',
  'After each evaluation an agent is active exactly if it is inside the '
  'domain and the count of inactive agents is the number outside, also when '
  'agents return.  For each polygon target the count is the number of '
  'different agents that have been seen inside it at any evaluation.',
  ['histories', 'schedules', 'fault_sequences'],
  'Every movement history, evaluation gap, node order and aborted iteration.',
  'No test evaluates these nodes.',
  [LOGIC], [('InsideDomain, TargetReached', LOGIC)],
  'nobody within 1e-6 of a border'),
 ('A06', 'Followers follow visible leaders, remember them, find exits',
  'A follower that sees a leader that does not come towards it follows it; one that lost sight of the '
  'leader it remembers takes over that leader\'s target, and one that never '
  'saw any uses its familiar exit.  A follower that sees an exit within '
  'its detection range takes the nearest exit in view and stops following; agents not concerned keep their '
  'targets and directions.',
  ['histories', 'schedules', 'inputs'],
  'Every movement history of leaders, followers and walls; every pair '
  'schedule for herding.',
  'Steering tests need numba (not stable here) and check single calls.',
  ['crowddynamics/core/steering/collective_motion.py',
   'crowddynamics/core/evacuation.py', LOGIC],
  [('leader_follower_interaction, exit_detection', LOGIC)],
  'leaders are not followers; visibility margins of 1e-6 are not judged'),
 ('A07', 'Shoulders of a three-circle agent follow its body',
  'At every moment the shoulders of a three-circle agent lie at the shoulder '
  'distance from its position, perpendicular to its orientation, whatever '
  'sequence of construction, moves, turns, resizing, reads and integration steps came before.  '
  'The stored record agrees with the object, and a rejected assignment '
  'changes nothing.',
  ['histories', 'inputs'],
  'Every sequence of operations on an agent.',
  'Agent tests read shoulders once after construction.',
  [AGENTS], [('shoulder update on change of position or orientation',
              AGENTS)], 'tolerance 1e-9'),
 ('A08', 'A body type sets plausible, consistent measures once',
  'Naming a body type gives the agent mass, radius, speed and proportions '
  'within the ranges of that type, spread around its mean, and consistent with '
  'each other, except for '
  'a radius, mass, speed or inertia given explicitly, which is kept.  The body type of an '
  'agent cannot be changed afterwards, and a rejected attempt leaves all '
  'measures as they are.',
  ['histories', 'inputs'],
  'Every construction order, body type (shipped or of the user), override '
  'and random stream generated.',
  'Agent tests construct one body type.',
  [AGENTS, 'crowddynamics/conf/body_types.cfg'],
  [('body type observer', AGENTS)],
  'truncated normal draws come from a scipy stand-in'),
 ('A09', 'Agents with a target find their way to it',
  'Agents that follow the directions navigation gives them reach their '
  'target on a way not much longer than the shortest one that keeps clear of '
  'the obstacles, without walking through a wall, from wherever they are '
  'moved, turned or sent on the way, also after the field of the simulation '
  'has changed or iterations were aborted.  Next to a wall they head away '
  'from it.  Directions have unit length; agents without a target, outside '
  'of the map or where no direction is defined keep theirs, and navigation '
  'changes nothing else.  All routes to a map (field, static potential, '
  'continuous obstacle handling) agree, and no obstacles are needed.',
  ['histories', 'inputs', 'fault_sequences'],
  'Every generated room with exits, walls, pillars and target areas, every '
  'sequence of displacements, changes of target and of the field, aborted '
  'iterations, one or two simulations in turns.',
  'Navigation tests need scikit-fmm (not stable here) and follow no agent.',
  ['crowddynamics/core/steering/navigation.py',
   'crowddynamics/core/steering/quickest_path.py',
   'crowddynamics/core/steering/obstacle_handling.py',
   'crowddynamics/simulation/field.py', LOGIC],
  [('static_potential, getdefault',
    'crowddynamics/core/steering/navigation.py'),
   ('Field.navigation_to_target', 'crowddynamics/simulation/field.py')],
  'passages at least 2.6 m wide, fast marching and image drawing by '
  'stand-ins'),
 ('A10', 'Agents are driven, avoid collisions and collide as modelled',
  'At every moment of a run each agent is driven towards its target velocity '
  'and target orientation.  Two agents within sight of each other that will '
  'touch if both go on as they do repel each other along the gradient of the '
  'anticipation energy of the time to the first contact of their bodies, '
  'limited to the documented maximum; agents that will not touch exert no '
  'force.  Bodies in contact with each other or with a wall are pushed apart, '
  'slowed along and against the contact, and turned by the torque of these '
  'forces at the point of contact, each with its own parameters.',
  ['histories', 'inputs', 'fault_sequences', 'schedules'],
  'Every generated crowd of different circular or three-circle agents, every '
  'sequence of pushes, displacements, turns and aborted iterations, every '
  'order of pairs.',
  'Tests only check that values are finite, for two random agents at rest in '
  'no context; most are not stable here.',
  ['crowddynamics/core/motion/power_law.py',
   'crowddynamics/core/motion/contact.py',
   'crowddynamics/core/motion/adjusting.py',
   'crowddynamics/core/distance.py', 'crowddynamics/core/interactions.py'],
  [('interaction_agent_agent_*, interaction_agent_*_obstacle',
    'crowddynamics/core/interactions.py'),
   ('force_social_*', 'crowddynamics/core/motion/power_law.py')],
  'pairs that graze, tie or stand exactly at the limit of sight are not '
  'judged; overlapping three-circle bodies whose other parts still approach '
  'are not judged'),
 ('A11', 'Disturbed agents recover, separate and come to rest',
  'Once nothing disturbs them any more, agents recover within a bounded time: '
  'a lone agent approaches its target velocity at its characteristic time and '
  'faces its target orientation, overlapping agents separate and stop, and '
  'agents pressed against a wall or each other come to rest in contact.  '
  'Collisions of equal bodies keep momentum and never add energy, and nobody '
  'passes through the walls of a closed room.',
  ['histories', 'fault_sequences', 'schedules'],
  'Every generated situation, every sequence of pushes, turns, changes of '
  'direction and of time step, iterations aborted at any node, every order of '
  'pairs.',
  'No test runs agents over time.',
  ['crowddynamics/core/integrator.py', 'crowddynamics/core/motion/contact.py',
   'crowddynamics/core/motion/adjusting.py',
   'crowddynamics/core/interactions.py'],
  [('velocity_verlet_integrator', 'crowddynamics/core/integrator.py'),
   ('force_contact', 'crowddynamics/core/motion/contact.py')],
  'time steps of at most 0.01 s, pushes of at most 3 m/s'),
 ('E01', 'Crowds leave their rooms once nothing holds them up',
  'Agents spawned in a field start clear of its walls, and a complete '
  'simulation brings every one of them to an exit within a bounded time after '
  'the last disturbance, whoever navigates (each agent itself, a leader, the '
  'herd, or the nearest exit).  Shoves, agents moved back, held or turned, '
  'doors shut and opened again, new targets, aborted iterations and runs '
  'continued from their last frame only delay it.  No agent ever passes '
  'through a wall or a shut door, positions stay finite, and at the end the '
  'agents outside the domain are those counted as inactive.',
  ['histories', 'fault_sequences', 'schedules'],
  'Every generated building, crowd and way of steering, every sequence of '
  'disturbances at any iteration, aborts at any node, every order of pairs.',
  'No test runs a simulation for more than a few iterations, none looks at '
  'where the agents go.',
  ['crowddynamics/simulation/logic.py', 'crowddynamics/simulation/multiagent.py',
   'crowddynamics/simulation/field.py', 'crowddynamics/core/steering/navigation.py',
   'crowddynamics/core/interactions.py', 'crowddynamics/core/integrator.py'],
  [('Navigation, LeaderFollower, ExitDetection, Adjusting, interactions, '
    'Integrator, InsideDomain', 'crowddynamics/simulation/logic.py'),
   ('MultiAgentSimulation.run', 'crowddynamics/simulation/multiagent.py')],
  'up to four agents, exits of 1.6 m and more; arrival is judged within 1 m '
  'of an exit'),
 ('E02', 'The shipped simulations start and run as configured',
  'Every shipped simulation starts as its options say: with as many agents as '
  'asked for, of the type asked for, at the places meant for them and clear of '
  'walls and each other, leaders marked as leaders with a target and followers '
  'as followers, in a field of the dimensions asked for, with its exits open.  '
  'It keeps running whatever is done to its agents: values stay finite, time '
  'and iterations advance, nobody passes a wall, the inactive agents are those '
  'outside the domain, and three-circle agents turn to where they head.  '
  'Resizing the field or changing the type of its agents at any point of the '
  'run leaves the field and crowd that were asked for, and simulations built '
  'in between change nothing.  The hull of a field encloses everything in it.',
  ['histories', 'fault_sequences', 'schedules'],
  'Every shipped class, option and seed, every sequence of disturbances, '
  'resizes and other simulations between its iterations.',
  'The tests build one of the shipped simulations with its defaults.',
  ['crowddynamics/examples/simulations.py',
   'crowddynamics/examples/collective_motion.py',
   'crowddynamics/examples/validation.py', 'crowddynamics/examples/fields.py',
   'crowddynamics/simulation/field.py', 'crowddynamics/simulation/logic.py',
   'crowddynamics/simulation/agents.py'],
  [('Outdoor, Hallway, RoomWithOneExit, FourExitsRandomPlacing',
    'crowddynamics/examples/simulations.py'),
   ('Outdoor, Rounding, AvoidObstacle, ClosedRoom, FourExits*',
    'crowddynamics/examples/collective_motion.py'),
   ('InsideDomain', 'crowddynamics/simulation/logic.py'),
   ('OutdoorField, HallwayField, RoomWithOneExit, FourExitsField',
    'crowddynamics/examples/fields.py')],
  'up to seven agents, exits of 1.5 m and more; AroundCircle and AvoidPillar '
  'are shipped without agents'),
 ('N01', 'Sampled points lie in their region and cover it evenly',
  'Every point drawn by the polygon, spawn and line samplers lies in its '
  'region, clear of the obstacles in a spawn, and the points cover it in '
  'proportion to area or length.  Samplers '
  'that share a random stream or are abandoned and restarted do not disturb '
  'each other.',
  ['inputs', 'schedules'],
  'Every generated polygon (convex ones for the sampler itself), obstacle and polyline, every interleaving of '
  'samplers on one stream.',
  'Sampling tests need numba (not stable here) and draw a few points.',
  ['crowddynamics/core/sampling.py'], [('polygon_sample, linestring',
                                        'crowddynamics/core/sampling.py')],
  'statistical thresholds of 6-7 sigma per run'),
 ('N02', 'Poisson update times are ordered, in the window, free of effects',
  'A Poisson clock gives increasing times strictly inside its window, and the '
  'update sequence of a group names its players in the order of their own '
  'independent clocks with the expected rate.  Drawing updates leaves the '
  'caller\'s array of players untouched and does not depend on how several '
  'clocks on one random stream are interleaved.',
  ['schedules', 'inputs'],
  'Every interleaving of clocks and queues on one stream.',
  'Random tests need numba (not stable here) and check one sequence.',
  ['crowddynamics/core/rand.py'], [('poisson_clock, poisson_timings',
                                    'crowddynamics/core/rand.py')],
  'statistical threshold of 8 sigma for the rate'),
 ('N03', 'Fluctuation is bounded, directionless and per agent',
  'The random fluctuation of an agent never exceeds three times its mass '
  'times its noise level, favours no direction, and is independent between '
  'agents.  An agent with zero noise gets none; the same holds for the '
  'fluctuation of torque.',
  ['inputs', 'histories'],
  'Every crowd and random stream generated.',
  'No stable test covers it; single draws cannot show a drift.',
  ['crowddynamics/core/motion/fluctuation.py', LOGIC],
  [('force_fluctuation, torque_fluctuation',
    'crowddynamics/core/motion/fluctuation.py')],
  'statistical thresholds of 7 sigma'),
 ('B01', 'The block list returns exactly the values of the blocks asked',
  'A lookup returns exactly the values inserted under keys of the same block, '
  'and a neighbourhood query exactly those of all blocks within the radius, '
  'for any dimension, cell size, sign of coordinates and list type.  An '
  'insertion whose key cannot be read raises a key error and changes nothing, '
  'an insertion that returned is seen by every later query, and the result '
  'of a neighbourhood query belongs to the caller.',
  ['histories', 'schedules', 'fault_sequences', 'inputs'],
  'Every history of insertions and queries by one to four interleaved '
  'clients, keys that fail while being read, appends that fail.',
  'test_block_list inserts 100 points and makes one radius-1 query.',
  ['crowddynamics/core/block_list.py'],
  [('MutableBlockList', 'crowddynamics/core/block_list.py')],
  'keys are kept away from rounding at cell borders for cells that are not '
  'representable'),
 ('U01', 'The working directory of the caller is left as it was',
  'A scope entered in another working directory runs its body there and '
  'always returns to the directory it came from, whatever error leaves the '
  'body or whether the directory could be entered at all, and passes errors '
  'on unchanged.  Importing the configured simulation callables executes each '
  'module in the directory of the configuration file, yields exactly the '
  'functions that exist in configuration order (skipping modules that cannot '
  'import something), and never moves the caller, at any step of the '
  'iteration.',
  ['histories', 'fault_sequences'],
  'Every nesting of scopes with failing directories and bodies, every '
  'step-wise consumption, abandonment and failing module.',
  'No test covers either.',
  ['crowddynamics/utils.py', 'crowddynamics/config.py'],
  [('remember_cwd', 'crowddynamics/utils.py'),
   ('import_simulation_callables', 'crowddynamics/config.py')],
  'single thread, as the working directory belongs to the process'),
 ('U02', 'A body type configuration is loaded exactly or refused',
  'Loading a body type configuration against the shipped specification '
  'either returns every section with every required measure as the number '
  'the file gives, within its bounds, or raises.  Missing measures, values '
  'out of bounds or not numbers, damaged lines and read errors are never '
  'passed over, and a valid file is never refused.',
  ['inputs', 'fault_sequences'],
  'Every damage (lost, repeated or changed lines, lost tail) and read fault '
  'over generated files that exist.',
  'No test loads a configuration that is wrong.',
  ['crowddynamics/config.py', 'crowddynamics/conf'],
  [('load_config validation', 'crowddynamics/config.py')],
  'files exist and are UTF-8'),
 ('U03', 'The run command executes the named simulations, as asked',
  'The simulations found in a directory are all its simulation classes, '
  'independent of the order in which the directory is listed.  The run '
  'command executes exactly the named ones, in the order named, each with the '
  'options given and defaults for the rest, and stops at the first that '
  'fails, passing on its error.  A bad option or log level is refused as a '
  'usage error before anything runs.',
  ['inputs', 'schedules', 'fault_sequences'],
  'Every generated directory, listing order and chain of commands and '
  'options, failing simulations.',
  'test_cli lists an empty directory.',
  ['crowddynamics/cli.py', 'crowddynamics/traits.py',
   'crowddynamics/utils.py'],
  [('simulation_commands', 'crowddynamics/cli.py'),
   ('trait_to_option', 'crowddynamics/traits.py')],
  'option names are lower case; scalar, text, choice and tuple options'),
 # not applicable ---------------------------------------------------------
 ('X01', 'Vector and distance formulas are geometrically correct',
  'Lengths, rotations, dot and cross products, projections and distances '
  'between circles, three-circle bodies and lines agree with their geometric '
  'definitions for every input.',
  ['inputs'], 'Every finite vector, circle and segment.',
  'The tests check a few random values; not stable here without numba.',
  ['crowddynamics/core/vector2D.py', 'crowddynamics/core/distance.py',
   'crowddynamics/core/geom2D.py', 'crowddynamics/core/geometry.py'],
  [('closed formulas', 'crowddynamics/core/distance.py')],
  'NA:pure functions of their arguments: no schedule, clock, I/O, randomness '
  'or fault to simulate (A01-A03 exercise them inside whole simulations)'),
 ('X04', 'Traits convert to array types, options and tables faithfully',
  'Every supported trait converts to the array type, option and documentation '
  'row that describes the same values.',
  ['inputs'], 'Every supported trait.',
  'test_traits checks that conversion does not raise.',
  ['crowddynamics/traits.py'], [('trait_to_dtype', 'crowddynamics/traits.py')],
  'NA:pure conversions without time, I/O or concurrency (options are '
  'exercised end to end by U03, array types by A02)'),
 ('X06', 'Measured quantities follow their definitions',
  'Densities, flow estimates and distances to exits in core/quantities equal '
  'their definitions for every state.',
  ['inputs'], 'Every finite input.',
  'The tests check a few random values; not stable here without numba.',
  ['crowddynamics/core/quantities.py'],
  [('density and capacity functions', 'crowddynamics/core/quantities.py')],
  'NA:pure functions of one snapshot that no simulation node calls; no '
  'schedule, clock, I/O or fault for them to depend on'),
 ('X05', 'Plots and visualizations show the state of the simulation',
  'Rendered frames show the positions and geometry of the simulation.',
  ['inputs'], 'Every simulation state.',
  'Needs matplotlib and bokeh; no stable test.',
  ['crowddynamics/visualizations.py'],
  [('plot functions', 'crowddynamics/visualizations.py')],
  'NA:rendering by libraries that are not installed; nothing observable '
  'remains behind stand-ins'),
]


def main():
    props, checks, na = [], [], []
    seen = set()
    for (pid, title, st, over, q, why, files, mech, note) in PROPS:
        assert pid not in seen and len(title) <= 80, pid
        seen.add(pid)
        props.append({
            'id': pid, 'title': title, 'statement': ' '.join(st.split()),
            'quantifier': {'over': over, 'text': q},
            'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [
                {'name': n, 'where': w} for n, w in mech],
                'hook_needed': None}})
        if note.startswith('NA:'):
            na.append({'property': pid, 'reason': note[3:]})
            continue
        cmd = '/opt/venv/bin/python check.py run %s --tier ' % pid
        checks.append({
            'property': pid, 'quick_cmd': cmd + 'quick',
            'thorough_cmd': cmd + 'thorough',
            'technique': 'deterministic simulation with fault injection: '
                         'seeded search over schedules and faults',
            'level': 'exploration',
            'level_note': 'Random exploration by seed, no exhaustive claim; '
                          'the Python code of the repository runs unmodified '
                          'under PyPy with stand-ins for missing libraries '
                          '(see evidence components). ' + note + '.'})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for p in props:
            fp.write(json.dumps(p) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump({'version': 1,
                   'setup_cmd': '/opt/venv/bin/python check.py list',
                   'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks in /repo: every seam is at the stdlib '
                            'or third-party boundary (see DESIGN.md).'},
                  fp, indent=1)
        fp.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
