"""
Simulated standard-library modules.

`threading`, `queue`, `concurrent.futures` are executed again from the standard library's own source over a simulated
`_thread`; `time`, `uuid`, `random`, `sys` and `grpc` are proxies. Only code that is loaded through
`make_builtins(...)` (the agent, the generated host program, the plugins) sees them.
"""
import builtins
import random as _random
import secrets as _secrets
import sys
import sysconfig
import time as _time
import types
import uuid as _uuid
import _thread
import os as _os

from .kernel import SimLock, SEC

_STD = sysconfig.get_paths()['stdlib']
_CODE = {}


def _std_code(rel):
    path = _os.path.join(_STD, rel)
    if path not in _CODE:
        with open(path, encoding='utf-8') as f:
            _CODE[path] = compile(f.read(), path, 'exec')
    return _CODE[path], path


def precompile():
    for r in ('threading.py', 'queue.py', 'concurrent/futures/_base.py', 'concurrent/futures/thread.py', 'sched.py'):
        _std_code(r)


class Overlay(types.ModuleType):
    """A module that falls back to the real one."""

    def __init__(self, name, real=None):
        super().__init__(name)
        self.__dict__['_dst_real'] = real

    def __getattr__(self, item):
        real = self.__dict__['_dst_real']
        if real is None:
            raise AttributeError(item)
        return getattr(real, item)


class SimSys(Overlay):
    """`sys` with the trace hooks of the simulated process."""

    def __setattr__(self, key, value):
        setattr(sys, key, value)


class Mods:
    """All overlays of one simulated process."""

    def __init__(self, sim, world=None):
        self.sim = sim
        self.world = world
        self.direct = False
        self.map = {}
        self._threads()
        self._time()
        self._sys()
        self._misc()
        self._clones()

    # -- import hook -------------------------------------------------------------------------------------------

    def make_import(self):
        table = self.map
        real_import = builtins.__import__

        def __import__(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0:
                m = table.get(name)
                if m is not None:
                    if fromlist or '.' not in name:
                        return m
                    return table[name.split('.', 1)[0]]
            return real_import(name, globals, locals, fromlist, level)

        return __import__

    @staticmethod
    def _order(cls):
        """Sets of these iterate (and sort by id) in creation order instead of address order."""
        init = cls.__init__
        seq = [0]

        def __init__(self, *a, **k):
            seq[0] += 1
            self._dst_seq = seq[0]
            init(self, *a, **k)

        cls.__init__ = __init__
        cls.__hash__ = lambda self: getattr(self, '_dst_seq', 0)

    def make_builtins(self, **extra):
        d = dict(builtins.__dict__)
        d['__import__'] = self.make_import()
        d.update(extra)
        return d

    def _exec(self, rel, name, builtins_dict=None, package=None):
        code, path = _std_code(rel)
        m = types.ModuleType(name)
        m.__dict__['__file__'] = path
        if package:
            m.__dict__['__package__'] = package
        m.__dict__['__builtins__'] = builtins_dict or self.make_builtins()
        exec(code, m.__dict__)
        return m

    # -- modules -----------------------------------------------------------------------------------------------

    def _threads(self):
        sim = self.sim
        t = types.ModuleType('_thread')
        t.error = RuntimeError
        t.LockType = SimLock
        t.TIMEOUT_MAX = 4294967.0
        t.allocate_lock = lambda: SimLock(sim)
        t.get_ident = lambda: sim.current.ident
        t.get_native_id = lambda: sim.current.tid + 1000
        t._count = lambda: len(sim.tasks)
        t._is_main_interpreter = lambda: True
        t.daemon_threads_allowed = lambda: True
        t._local = _thread._local
        t._excepthook = _thread._excepthook
        t._ExceptHookArgs = _thread._ExceptHookArgs
        t.stack_size = lambda *a: 0

        def start_new_thread(fn, args, kwargs=None):
            name = None
            th = getattr(fn, '__self__', None)
            if th is not None:
                name = getattr(th, '_name', None)
            return sim.spawn(fn, args, kwargs, name)

        t.start_new_thread = start_new_thread

        def _set_sentinel():
            lock = SimLock(sim)
            sim.current.sentinels.append(lock)
            return lock

        t._set_sentinel = _set_sentinel
        self.map['_thread'] = t

    def _time(self):
        sim = self.sim
        t = Overlay('time', _time)
        t.time = lambda: self._read() / SEC
        t.time_ns = lambda: self._read()
        t.monotonic = lambda: sim.clock / SEC
        t.monotonic_ns = lambda: sim.clock
        t.perf_counter = lambda: sim.clock / SEC
        t.perf_counter_ns = lambda: sim.clock
        t.process_time = lambda: sim.clock / SEC

        def sleep(s):
            sim.sleep(int(s * SEC))

        t.sleep = sleep
        self.map['time'] = t

    def _read(self):
        return self.sim.read_wall()

    def _sys(self):
        sim = self.sim
        s = SimSys('sys', sys)
        d = s.__dict__

        def settrace(fn):
            sim.current.agent_trace = fn
            sim.trace_changed(fn)

        def gettrace():
            return sim.current.agent_trace

        d['settrace'] = settrace
        d['gettrace'] = gettrace
        self.map['sys'] = s

    def _misc(self):
        sim = self.sim
        o = Overlay('os', _os)
        real = _os

        class _OsNoFork(Overlay):
            def __getattr__(self, item):
                if item == 'register_at_fork':
                    raise AttributeError(item)
                return getattr(real, item)

        self._os_nofork = _OsNoFork('os', real)
        rng = _random.Random('%s/random' % sim.seed)
        r = Overlay('random', _random)
        for n in ('getrandbits', 'random', 'randint', 'randrange', 'choice', 'shuffle', 'uniform', 'sample', 'seed',
                  'choices', 'getstate', 'setstate', 'randbytes'):
            setattr(r, n, getattr(rng, n))
        count = [0]

        class Random(_random.Random):
            def __init__(self, x=None):
                count[0] += 1
                super().__init__(x if x is not None else '%s/random%d' % (sim.seed, count[0]))

            def seed(self, a=None, version=2):
                super().seed(a if a is not None else '%s/reseed%d' % (sim.seed, count[0]), version)

        srng = _random.Random('%s/system' % sim.seed)

        class SystemRandom(_random.Random):
            def random(self):
                return srng.random()

            def getrandbits(self, k):
                return srng.getrandbits(k)

            def randbytes(self, n):
                return srng.randbytes(n)

        r.Random, r.SystemRandom = Random, SystemRandom
        self.map['random'] = r
        self.host_random = rng
        o.urandom = srng.randbytes
        self._os = o
        sec = Overlay('secrets', _secrets)
        sec.token_bytes = lambda n=None: srng.randbytes(n or 32)
        sec.token_hex = lambda n=None: srng.randbytes(n or 32).hex()
        sec.randbits = srng.getrandbits
        sec.randbelow = srng.randrange
        self.map['secrets'] = sec
        urng = _random.Random('%s/uuid' % sim.seed)
        u = Overlay('uuid', _uuid)
        u.uuid4 = lambda: _uuid.UUID(int=urng.getrandbits(128), version=4)
        u.uuid1 = u.uuid4
        self.map['uuid'] = u

    def _clones(self):
        self.map['os'] = self._os_nofork
        th = self._exec('threading.py', 'threading')
        del self.map['os']
        self.map['threading'] = th
        # as if the C accelerator was not there, so that the queue is built from our locks
        b = self.make_builtins()
        imp = b['__import__']

        def no_c(name, globals=None, locals=None, fromlist=(), level=0):
            if name == '_queue':
                raise ImportError(name)
            return imp(name, globals, locals, fromlist, level)

        b['__import__'] = no_c
        self.map['queue'] = self._exec('queue.py', 'queue', b)
        b3 = self.make_builtins(id=lambda o: getattr(o, '_dst_seq', None) or id(o))
        base = self._exec('concurrent/futures/_base.py', 'concurrent.futures._base', b3)
        self._order(base.Future)
        self._order(th.Thread)
        import concurrent
        import concurrent.futures as rcf
        # one exception identity for everybody: the classes of the clone
        self.map['concurrent.futures._base'] = base
        cf = Overlay('concurrent.futures', rcf)
        for n in ('FIRST_COMPLETED', 'FIRST_EXCEPTION', 'ALL_COMPLETED', 'CancelledError', 'TimeoutError',
                  'InvalidStateError', 'BrokenExecutor', 'Future', 'Executor', 'wait', 'as_completed'):
            setattr(cf, n, getattr(base, n))
        cf._base = base
        self.map['concurrent.futures'] = cf
        c = Overlay('concurrent', concurrent)
        c.futures = cf
        self.map['concurrent'] = c
        b2 = self.make_builtins()
        self.map['os'] = self._os_nofork
        thread = self._exec('concurrent/futures/thread.py', 'concurrent.futures.thread', b2)
        self.map['os'] = self._os
        self.map['concurrent.futures.thread'] = thread
        cf.thread = thread
        cf.ThreadPoolExecutor = thread.ThreadPoolExecutor
        self.threading = th
