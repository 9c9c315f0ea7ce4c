"""Background simulation process: stop, data stream, end marker."""
import queue as _queue

from dsim import simproc
from dsim.core import Scenario
from dsim.sched import Deadlock, Scheduler, StepLimit


class Boom(Exception):
    """Failure no code of the repository knows about."""


class Interrupt(KeyboardInterrupt):
    pass


class BackgroundProcess(Scenario):
    id = 'S04'
    title = 'A background simulation always ends with exactly one end marker'
    rule = ('1-3 simulation processes with their own memory, consumers that '
            'are slow, stop early or late, extra clients that call stop at '
            'any moment (before the start too, repeatedly), bounded queues, '
            'nodes failing with any exception; the seed decides every step '
            'at event, queue and node boundaries.  Non-trivial: tasks '
            'interleaved.')
    quick_runs = 3000
    thorough_runs = 150000
    real = ('MultiAgentProcess', 'MultiAgentSimulation', 'logic tree')
    stub = ('multiprocessing Process, Event, Queue (greenlet processes with '
            'private memory, pickled messages)', 'scheduler')
    assumptions = ('the operating system does not kill the process',)

    ERRORS = ['none', 'none', 'crowd', 'invalid', 'overlap', 'boom', 'value',
              'memory', 'interrupt', 'sysexit', 'oserror', 'stopiter',
              'genexit', 'keyboard', 'full']

    def prepare(self):
        from crowddynamics import exceptions as ex
        from crowddynamics.simulation import logic, multiagent
        self.multi, self.logic = multiagent, logic
        self.make_error = {
            'crowd': ex.CrowdDynamicsException, 'invalid': ex.InvalidType,
            'overlap': ex.OverlappingError, 'boom': Boom,
            'value': ValueError, 'memory': MemoryError,
            'interrupt': Interrupt, 'sysexit': SystemExit, 'oserror': OSError,
            'stopiter': StopIteration, 'genexit': GeneratorExit,
            'keyboard': KeyboardInterrupt, 'full': _queue.Full}

        class Node(logic.LogicNode):
            hook = None

            def update(self):
                self.hook(self.simulation)
        self.Node = Node

    def generate(self, rng):
        procs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            procs.append({
                'bound': rng.choice([0, 0, 1, 2, 5]),
                'error': rng.choice(self.ERRORS),
                'at': rng.choice([0, 1, 2, 5]),
                'after_put': rng.random() < .5,
                'every': rng.choice([1, 1, 2, 3]),
                'read': rng.choice([0, 1, 3, 8]),
                'lazy': rng.choice([0, 0, 5, 20]),
                'early_stop': rng.random() < .15,
                'again': rng.random() < .2,
                'stoppers': [[rng.randrange(60), rng.randint(1, 3)]
                             for _ in range(rng.choice([0, 0, 1, 2]))]})
        return {'procs': procs, 'sched': [rng.randrange(12) for _ in
                                          range(rng.choice([0, 40, 200,
                                                            400]))]}

    def execute(self, plan, ctx):
        sched = Scheduler(ctx, plan['sched'], 6000)
        simproc.SimProcess._counter = 0
        recs = []
        for i, p in enumerate(plan['procs']):
            self.setup(ctx, sched, i, p, recs)
        if not recs:
            return
        try:
            sched.run()
        except Deadlock as exc:
            ctx.fail('no-end', 'the consumers wait for ever: %s' % exc)
        except StepLimit as exc:
            ctx.fail('no-end', 'no end within the step budget: %s' % exc)
        for t in sched.tasks:
            if t.error is not None and not t.name.startswith('child'):
                raise t.error
        for r in recs:
            self.judge(ctx, sched, r)

    def setup(self, ctx, sched, i, p, recs, sim=None):
        queue = simproc.SimQueue(maxsize=max(0, p['bound']))
        if sim is None:
            sim = self.multi.MultiAgentSimulation()
        rec = dict(i=i, p=p, got=[], sent=[], starts=[], stop_at=None,
                   raised=None, queue=queue, done=False)
        step = [0]

        def tick():
            step[0] += 1
            return sched.steps

        def first(simulation):
            rec['starts'].append(tick())
            if len(rec['starts']) > 1500:
                raise RuntimeError('runaway')
            sched.point('node')

        def fail(simulation):
            if p['error'] != 'none' and \
                    simulation.data['iterations'] == p['at']:
                ctx.fault('node-' + p['error'])
                rec['raised'] = self.make_error[p['error']]('injected')
                raise rec['raised']

        def put(simulation):
            it = simulation.data['iterations']
            if it % max(1, p['every']) == 0:
                item = ('data', i, it)
                rec['sent'].append(item)
                queue.put(item)
        hooks = [first, put, fail] if p['after_put'] else [first, fail, put]
        # post order: siblings in order, then the root
        top = self.Node(sim)
        top.hook = lambda simulation: None
        for h in hooks:
            node = self.Node(sim)
            node.hook = h
            top << node
        sim.logic = top
        proc = self.multi.MultiAgentProcess(sim, queue)
        proc.name = 'child%d' % i
        rec['proc'] = proc

        def stop(who):
            ctx.ev('stop', i, who)
            ctx.probe('stop-before-start' if proc._task is None else
                      'stop-while-alive' if proc.is_alive() else
                      'stop-after-end')
            proc.stop()
            if rec['stop_at'] is None:
                rec['stop_at'] = len(rec['starts'])

        def parent():
            if p['early_stop']:
                stop('before start')
            proc.start()
            n = 0
            while True:
                for _ in range(p['lazy']):
                    sched.point('lazy')
                    if p['bound'] == 0 and len(queue.items) > 50:
                        break
                if n == p['read']:
                    stop('consumer')
                item = queue.get()
                n += 1
                rec['got'].append(item)
                if item is self.multi.MultiAgentProcess.EndProcess:
                    break
                ctx.check(n < 3000, 'no-end', 'data without end')
            proc.join()
            rec['done'] = True
            if p.get('again'):
                # the same simulation is run in another process
                ctx.probe('run-again')
                self.setup(ctx, sched, i + 10, dict(
                    p, again=False, early_stop=False, error='none',
                    read=p['read'] + 1), recs, sim)

        def stopper(delay, times):
            for _ in range(delay):
                sched.point('wait')
            for _ in range(times):
                stop('client')
        sched.spawn('parent%d' % i, parent)
        for k, (delay, times) in enumerate(p['stoppers']):
            sched.spawn('stopper%d.%d' % (i, k),
                        lambda d=delay, t=times: stopper(d, t))
        recs.append(rec)

    def judge(self, ctx, sched, rec):
        i, p = rec['i'], rec['p']
        end = self.multi.MultiAgentProcess.EndProcess
        left = [x for x in rec['queue'].items]
        ctx.ev('proc', i, len(rec['got']), len(rec['starts']), len(left),
               type(rec['raised']).__name__)
        ctx.check(rec['got'].count(end) == 1 and rec['got'][-1] is end,
                  'end-marker', lambda: 'process %d delivered %r' % (
                      i, rec['got']))
        ctx.check(not left, 'end-marker', lambda: 'process %d delivered %d '
                  'items after the end marker' % (i, len(left)))
        ctx.check(rec['got'][:-1] == rec['sent'], 'lost-data', lambda:
                  'process %d sent %r, the consumer got %r' % (
                      i, rec['sent'], rec['got'][:-1]))
        if rec['stop_at'] is not None:
            extra = len(rec['starts']) - rec['stop_at']
            ctx.check(extra <= 1, 'late-stop', lambda: 'process %d started '
                      '%d iterations after stop returned' % (i, extra))
        if p['early_stop']:
            ctx.check(not rec['starts'], 'late-stop', 'process %d was '
                      'stopped before its start and iterated all the same'
                      % i)
        elif rec['raised'] is None:
            ctx.check(rec['stop_at'] is not None, 'early-end', 'process %d '
                      'ended although nobody stopped it' % i)
        err = rec['proc']._task.error
        if rec['raised'] is not None and not isinstance(
                rec['raised'], self.make_error['crowd']):
            ctx.check(err is not None, 'failure-hidden', lambda: 'process %d '
                      'failed with %r and exited as if nothing had happened'
                      % (i, rec['raised']))
        elif rec['raised'] is None:
            ctx.check(err is None, 'spurious-failure', lambda: 'process %d '
                      'died of %r' % (i, err))
        # isolation of the parent's copy, as after a fork
        ctx.check(rec['proc'].simulation.data['iterations'] == 0,
                  'harness', 'parent copy advanced')
        ctx.state('S04', p['error'], len(rec['starts']), rec['stop_at'],
                  len(rec['got']))


SCENARIOS = [BackgroundProcess]
