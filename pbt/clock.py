"""
A virtual clock for the code under test: every reference to datetime.datetime, the datetime module,
the time module and asyncio.sleep in the loaded openleadr modules is replaced by a controlled one.
"""
import asyncio
import datetime as _dt
import sys
import time as _time
from contextlib import contextmanager

real_datetime = _dt.datetime
UTC = _dt.timezone.utc
EPOCH = real_datetime(1970, 1, 1, tzinfo=UTC)
_real_sleep = asyncio.sleep


class Clock:
    now_us = 0          # microseconds since the epoch
    slept = []

    @classmethod
    def now(cls, tz=None):
        t = EPOCH + _dt.timedelta(microseconds=cls.now_us)
        if tz is None:
            return t.astimezone().replace(tzinfo=None)      # naive local time
        return t.astimezone(tz)

    @classmethod
    def advance(cls, seconds=0, us=0):
        cls.now_us += int(seconds * 1000000) + us


class _Meta(type):
    def __instancecheck__(self, obj):
        return isinstance(obj, real_datetime)

    def __subclasscheck__(self, sub):
        return issubclass(sub, real_datetime)


class FakeDatetime(real_datetime, metaclass=_Meta):
    def __new__(cls, *a, **kw):
        return real_datetime.__new__(real_datetime, *a, **kw)

    @classmethod
    def now(cls, tz=None):
        return Clock.now(tz)

    @classmethod
    def utcnow(cls):
        return Clock.now(UTC).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return Clock.now()


class _Proxy:
    def __init__(self, mod, **over):
        self.__dict__.update(over)
        self.__dict__['_mod'] = mod

    def __getattr__(self, name):
        return getattr(self._mod, name)


async def fake_sleep(delay, result=None):
    """Advance the virtual clock and let everything that is ready run."""
    Clock.slept.append(delay)
    if delay and delay > 0:
        Clock.advance(delay)
    for _ in range(3):
        await _real_sleep(0)
    return result


_dt_proxy = _Proxy(_dt, datetime=FakeDatetime)
_time_proxy = _Proxy(_time, time=lambda: Clock.now_us / 1e6, time_ns=lambda: Clock.now_us * 1000)
_asyncio_proxy = _Proxy(asyncio, sleep=fake_sleep)
_REPL = [(real_datetime, FakeDatetime), (_dt, _dt_proxy), (_time, _time_proxy), (_time.time, _time_proxy.time),
         (asyncio, _asyncio_proxy), (_real_sleep, fake_sleep)]
_cache = {}


def _targets():
    mods = [(n, m) for n, m in sys.modules.items() if n == 'openleadr' or n.startswith('openleadr.')]
    if _cache.get('n') != len(mods):
        _cache['n'] = len(mods)
        _cache['t'] = [(m, k, r) for _, m in mods if m is not None for k, v in list(vars(m).items())
                       for real, r in _REPL if v is real]
        _cache['o'] = [(m, k, getattr(m, k)) for m, k, _ in _cache['t']]
    return _cache['t'], _cache['o']


@contextmanager
def virtual(now_us):
    """Run the code under test at the given virtual time."""
    import openleadr    # noqa: F401  (everything of it is loaded before the clock is replaced)
    targets, originals = _targets()
    Clock.now_us = now_us
    Clock.slept = []
    for m, k, r in targets:
        setattr(m, k, r)
    try:
        yield Clock
    finally:
        for m, k, o in originals:
            setattr(m, k, o)


@contextmanager
def timezone(name):
    import os
    old = os.environ.get('TZ')
    os.environ['TZ'] = name
    _time.tzset()
    try:
        yield
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        _time.tzset()


def at(us):
    """The timezone-aware datetime at the given number of microseconds since the epoch."""
    return EPOCH + _dt.timedelta(microseconds=us)


def us(dt):
    d = dt - EPOCH
    return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds


def secs(n):
    return _dt.timedelta(seconds=n)
