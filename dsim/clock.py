"""Clock seam: wall-clock time comes from the simulator.

`datetime.datetime` is replaced by a subclass and the `time` functions by
simulated ones before the repository is imported.  Outside a run the clock is
the fixed instant EPOCH, so importing is deterministic too."""
import datetime as _dt
import time as _time

EPOCH = 1500000000.0
_real_datetime = _dt.datetime
_real_date = _dt.date
real_perf = _time.perf_counter
real_time = _time.time


class Clock(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.now = EPOCH          # wall clock, may jump either way
        self.mono = 1000.0        # monotonic clock
        self.reads = 0
        self.drift = 0.0          # advance per read
        self.local_offset = 0     # local time zone, seconds east of UTC
        self.on_read = None

    def advance(self, dt):
        self.now += dt
        self.mono += max(dt, 0.0)

    def jump(self, dt):
        self.now += dt

    def read(self):
        self.reads += 1
        v = self.now
        self.now += self.drift
        self.mono += max(self.drift, 0.0)
        if self.on_read is not None:
            self.on_read()
        return v


clock = Clock()
_UTC = _dt.timezone.utc
_E0 = _real_datetime(1970, 1, 1, tzinfo=_UTC)


class _Meta(type(_real_datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime) if isinstance(sub, type) \
            else False


class SimDatetime(_real_datetime, metaclass=_Meta):
    @classmethod
    def _at(cls, seconds, tz):
        utc = _E0 + _dt.timedelta(seconds=seconds)
        if tz is not None:
            d = utc.astimezone(tz)
        else:
            d = (utc + _dt.timedelta(seconds=clock.local_offset)).replace(
                tzinfo=None)
        return cls(d.year, d.month, d.day, d.hour, d.minute, d.second,
                   d.microsecond, d.tzinfo)

    @classmethod
    def now(cls, tz=None):
        return cls._at(clock.read(), tz)

    @classmethod
    def utcnow(cls):
        return cls._at(clock.read(), _UTC).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return cls._at(t, tz)


class SimDate(_real_date):
    @classmethod
    def today(cls):
        d = SimDatetime.now()
        return _real_date(d.year, d.month, d.day)


def _struct(seconds):
    return (_E0 + _dt.timedelta(seconds=seconds)).timetuple()


def _gmtime(secs=None):
    return _real_gmtime(clock.read() if secs is None else secs)


def _localtime(secs=None):
    return _real_gmtime((clock.read() if secs is None else secs) +
                        clock.local_offset)


_real_gmtime = _time.gmtime


def _sleep(dt):
    clock.advance(dt)


def install():
    _dt.datetime = SimDatetime
    _dt.date = SimDate
    _time.time = clock.read
    _time.time_ns = lambda: int(clock.read() * 1e9)
    _time.monotonic = lambda: clock.mono
    _time.perf_counter = lambda: clock.mono
    _time.process_time = lambda: clock.mono
    _time.gmtime = _gmtime
    _time.localtime = _localtime
    _time.sleep = _sleep
