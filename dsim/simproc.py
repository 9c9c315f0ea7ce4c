"""multiprocessing seam: `Process`, `Event` and `Queue` become simulated ones.

A simulated process has its own copy of the process object (as a forked child
would); only events and queues are shared, and queues pickle what they carry.
Scheduling points: every event query, every queue operation."""
import copy
import multiprocessing
import pickle
import queue

from dsim.sched import Scheduler


def _point(label):
    s = Scheduler.current
    if s is not None:
        s.point(label)


class SimEvent(object):
    def __init__(self, *args, **kwargs):
        self._flag = False

    def is_set(self):
        _point('is_set')
        return self._flag

    def set(self):
        _point('set')
        self._flag = True

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        s = Scheduler.current
        if timeout is not None:
            _point('wait')
            return self._flag
        s.block(lambda: self._flag, 'wait')
        return True

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SimQueue(object):
    """FIFO with an optional bound; every item makes a pickle round trip."""

    def __init__(self, maxsize=0, fail_at=None):
        self.items = []
        self.maxsize = maxsize
        self.puts = 0

    def put(self, item, block=True, timeout=None):
        data = pickle.dumps(item)
        _point('put')
        s = Scheduler.current
        if self.maxsize and len(self.items) >= self.maxsize:
            if not block or timeout is not None:
                raise queue.Full
            s.block(lambda: len(self.items) < self.maxsize, 'put-full')
        self.items.append(data)
        self.puts += 1

    def put_nowait(self, item):
        self.put(item, False)

    def get_nowait(self):
        return self.get(False)

    def full(self):
        _point('full')
        return bool(self.maxsize) and len(self.items) >= self.maxsize

    def get(self, block=True, timeout=None):
        s = Scheduler.current
        if not self.items:
            if not block or timeout is not None:
                _point('get')
                if not self.items:
                    raise queue.Empty
                return pickle.loads(self.items.pop(0))
            s.block(lambda: bool(self.items), 'get')
        else:
            _point('get')
        return pickle.loads(self.items.pop(0))

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)

    def close(self):
        pass

    join_thread = cancel_join_thread = close

    def __deepcopy__(self, memo):
        return self


class SimProcess(object):
    """Runs `run` as a task of the active scheduler, on a copy of itself."""
    _counter = 0

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        self._target, self._args = target, args
        self._kwargs = kwargs or {}
        SimProcess._counter += 1
        self.name = name or 'SimProcess-%d' % SimProcess._counter
        self.daemon = daemon
        self._task = None
        self.pid = None
        self.exitcode = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = Scheduler.current
        assert self._task is None, 'cannot start a process twice'
        child = copy.deepcopy(self)     # fork: private memory from here on
        self.child = child
        self._task = s.spawn(self.name, child.run)
        _point('start')

    def join(self, timeout=None):
        s = Scheduler.current
        if timeout is None:
            s.block(lambda: self._task.done, 'join')
        else:
            _point('join')

    def is_alive(self):
        return self._task is not None and not self._task.done

    def terminate(self):
        raise NotImplementedError


def install():
    multiprocessing.Process = SimProcess
    multiprocessing.Event = SimEvent
    multiprocessing.Queue = SimQueue
