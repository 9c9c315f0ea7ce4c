"""Cooperative scheduler: simulated threads and processes are greenlets, and
the plan's list of integers decides who runs at every scheduling point."""
import greenlet


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class TaskExit(greenlet.GreenletExit):
    pass


class Task(object):
    def __init__(self, sched, name, func):
        self.name = name
        self.sched = sched
        self.done = False
        self.error = None
        self.result = None
        self.wait = None            # callable: runnable when it returns True
        self.glet = greenlet.greenlet(lambda: self._main(func))

    def _main(self, func):
        try:
            self.result = func()
        except greenlet.GreenletExit:
            raise
        except BaseException as exc:  # recorded, judged by the scenario
            self.error = exc
        finally:
            self.done = True

    def runnable(self):
        return not self.done and (self.wait is None or self.wait())


class Scheduler(object):
    current = None      # the active scheduler of this process, if any

    def __init__(self, ctx, schedule, max_steps=20000):
        self.ctx = ctx
        self.schedule = list(schedule)
        self.pos = 0
        self.tasks = []
        self.task = None
        self.steps = 0
        self.max_steps = max_steps
        self.trace = []
        self.hub = None

    def spawn(self, name, func):
        task = Task(self, name, func)
        self.tasks.append(task)
        return task

    def choose(self, n):
        """A scheduling choice in range(n)."""
        if n <= 1:
            return 0
        if self.pos < len(self.schedule):
            v = self.schedule[self.pos]
            self.pos += 1
            return int(v) % n
        return self.steps % n       # fair round robin once the plan runs out

    def point(self, label=''):
        """Scheduling point: called from inside a task."""
        task = self.task
        if task is None or greenlet.getcurrent() is not task.glet:
            return
        self.trace.append((task.name, label))
        self.hub.switch()

    def block(self, cond, label=''):
        """Blocks the current task until cond() holds."""
        task = self.task
        if task is None or greenlet.getcurrent() is not task.glet:
            if not cond():
                raise Deadlock('blocked outside a task: %s' % label)
            return
        self.trace.append((task.name, label))
        task.wait = cond
        self.hub.switch()
        task.wait = None

    def run(self):
        """Runs until every task is done.  Raises Deadlock / StepLimit."""
        self.hub = greenlet.getcurrent()
        outer, Scheduler.current = Scheduler.current, self
        try:
            while True:
                live = [t for t in self.tasks if not t.done]
                if not live:
                    return
                ready = [t for t in live if t.runnable()]
                if not ready:
                    raise Deadlock('blocked: %s' % ', '.join(
                        t.name for t in live))
                self.steps += 1
                if self.steps > self.max_steps:
                    raise StepLimit('no completion within %d steps; live: %s'
                                    % (self.max_steps, ', '.join(
                                        t.name for t in live)))
                self.task = ready[self.choose(len(ready))]
                self.task.glet.parent = self.hub
                self.task.glet.switch()
                self.task = None
        finally:
            self.task = None
            Scheduler.current = outer
            for t in self.tasks:
                if not t.done:
                    try:
                        t.glet.parent = self.hub
                        t.glet.throw(TaskExit)
                    except BaseException:
                        pass
            self.ctx.interleaving(self.trace)
