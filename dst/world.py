"""One simulated process: the agent, the host program, the service, the plugins, and the record of what happened."""
import importlib
import logging
import logging.config
import logging.handlers
import os
import sys
import types

from . import loader, simlog
from .kernel import Sim, SEC, MS
from .net import Net, Service
from .overlay import Mods

DST = os.path.dirname(os.path.abspath(__file__))
CONF = os.path.join(DST, 'conf')
# stdlib code that holds real locks while Python code of its own runs: a switch in there could really deadlock
REAL_LOCKS = {logging.__file__, logging.config.__file__, logging.handlers.__file__}
NOT_HOST = {os.path.join(DST, f) for f in ('kernel.py', 'net.py', 'plugins.py', 'simlog.py', 'loader.py')}


class Ev:
    """A trace event of the host program, with what was true when it happened."""
    __slots__ = ('seq', 'tid', 'kind', 'path', 'base', 'line', 'func', 'inv', 'seg', 'wall0', 'wall1', 'c0', 'c1',
                 'delivered', 'truth', 'depth', 'escaped', 'step0', 'arg', 'local', 'thread')

    def brief(self):
        return {'seq': self.seq, 'task': self.tid, 'event': self.kind, 'at': '%s:%s %s' % (self.base, self.line,
                                                                                        self.func), 'inv': self.inv}


class FrameRec:
    """The per-frame state CPython keeps in frame.f_trace, plus an identity for the invocation."""
    __slots__ = ('world', 'inv', 'local', 'seg')

    def __init__(self, world, inv):
        self.world = world
        self.inv = inv
        self.seg = 0
        self.local = None

    def trace(self, frame, event, arg):
        self.world.deliver(self, frame, event, arg)
        return self.trace


class World:
    __dict__ = property(lambda self: {})    # the agent may find us in a frame: there is nothing to see

    def __repr__(self):
        return '<World>'

    def __init__(self, plan, replay=None):
        self.plan = plan
        sc = plan.get('sched') or {}
        self.sim = Sim(plan['seed'], sc.get('policy'), replay, sc.get('tick', 1000),
                       sc.get('step_cap', 2_000_000), sc.get('vtime_cap_s', 7200) * SEC)
        self.sim.wall_jumps = [tuple(x) for x in sc.get('jumps', [])]
        self.sim.read_jumps = {int(k): v for k, v in sc.get('read_jumps', [])}
        st = plan.get('stall')
        if st:
            self.sim.stall = dict(st, who=tuple(st['who']))
        self.sim.trace_changed = self._trace_changed
        self.effects = []
        self.events = []
        self.escapes = []           # exceptions raised by the agent's trace function
        self.notes = []
        self.errors = []            # harness errors
        self.direct = bool(plan.get('direct'))
        self.trace_workers = bool(plan.get('trace_workers'))
        self.on_event = None        # fn(ev, frame, arg) called before the agent sees the event
        self.after_event = None
        self.keep = []              # objects kept alive (identity)
        self.inv_seq = 0
        self.deep = None
        self.deep_mod = None
        self.probes = {}
        self.max_events = 40000
        self.agent_root = loader.ROOT + os.sep
        self.mods = Mods(self.sim, self)
        self.net = Net(self, plan.get('net'))
        self.net.install(self.mods)
        self.service = self.net.service = Service(self)
        self.host_builtins = self.mods.make_builtins(__dst__=lambda n: None)
        self._agent_builtins()
        self.threading = self.mods.map['threading']
        self.time = self.mods.map['time']
        self._orig_spawn = self.sim.spawn
        self.sim.spawn = self._spawn
        self.sim.on_abort = self._abort
        self.result_sink = None
        self.plugin_objs = {}
        self.fault_calls = 0
        self.fault_fired = []

    # -- set-up ------------------------------------------------------------------------------------------------

    def _agent_builtins(self):
        sim = self.sim
        yield_ = sim.yield_
        entry = loader.ENTRY

        def __dst__(n):
            if sim.off:
                return None
            if sim.fault_hook is not None and n in entry:
                sim.fault_hook(n)
            yield_(n)

        def __dst2__(n, v):
            if not sim.off:
                yield_(n)
            return v

        self.agent_builtins = self.mods.make_builtins(__dst__=__dst__, __dst2__=__dst2__)

    def load_agent(self):
        """Import the whole agent with this process's environment."""
        for k in list(os.environ):
            if k.startswith('DEEP_'):
                del os.environ[k]
        for k, v in (self.plan.get('env') or {}).items():
            os.environ[k] = v
        simlog.RECORDS.clear()
        simlog.setup()
        loader.install(self.agent_builtins)
        self.deep_mod = importlib.import_module('deep')
        for m in loader.all_modules():
            try:
                importlib.import_module(m)
            except Exception:
                # an optional dependency of a plugin
                if not m.startswith('deep.api.plugin'):
                    raise
        self.api = types.SimpleNamespace()
        return self.deep_mod

    def config(self, **over):
        """Configuration given in code; every run points the agent's log at memory."""
        c = {'LOGGING_CONF': os.path.join(CONF, 'log_%s.conf' % self.plan.get('log', 'error')),
             'SERVICE_SECURE': 'False', 'APP_ROOT': '/app', 'PLUGIN_OTELPLUGIN': 'False',
             'PLUGIN_OTELMETRICS': 'False', 'PLUGIN_PROMETHEUSPLUGIN': 'False', 'PLUGIN_PYTHONPLUGIN': 'False'}
        c.update(self.plan.get('config') or {})
        c.update(over)
        for k in [k for k, v in c.items() if v == '__unset__']:
            del c[k]
        return c

    # -- record ------------------------------------------------------------------------------------------------

    def effect(self, kind, **data):
        sim = self.sim
        t = sim.current
        e = {'i': len(self.effects), 'kind': kind, 'tid': t.tid, 'tkind': t.kind, 'ev': t.cur.seq if t.cur else None,
             'clock': sim.clock, 'wall': sim.wall(), 'step': sim.step}
        e.update(data)
        self.effects.append(e)
        return e

    def of(self, *kinds):
        return [e for e in self.effects if e['kind'] in kinds]

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # -- threads -----------------------------------------------------------------------------------------------

    def _spawner_is_agent(self):
        f = sys._getframe(2)
        while f is not None:
            fn = f.f_code.co_filename
            if fn.startswith(self.agent_root):
                return True
            f = f.f_back
        return False

    def _spawn(self, fn, args, kwargs=None, name=None):
        sim = self.sim
        host = not self._spawner_is_agent()
        t = sim._new_task(name or 'task', 'host' if host else 'other')
        if (host or self.trace_workers) and not self.direct:
            t.shim = True
            inner = fn
            world = self

            def fn(*a, **k):
                sys.settrace(world.shim)
                try:
                    inner(*a, **k)
                finally:
                    sys.settrace(None)
        sim.start_task(t, fn, args, kwargs or {})
        return t.ident

    def host_call(self, fn, *args):
        """Run host code on the current task under the trace shim."""
        old = sys.gettrace()
        if not self.direct:
            sys.settrace(self.shim)
        try:
            return fn(*args)
        finally:
            sys.settrace(old)

    # -- tracing -----------------------------------------------------------------------------------------------

    def _trace_changed(self, fn):
        if self.direct:
            sys.settrace(fn)

    def shim(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(DST) or fn.startswith('<frozen') or fn in REAL_LOCKS:
            return None
        back = frame.f_back
        if back is not None and back.f_code.co_filename in NOT_HOST:
            return None     # something the simulator itself calls is not host code
        sim = self.sim
        if sim.off:
            return None
        old = frame.f_trace
        if old is not None:
            rec = old.__self__
            rec.seg += 1
        else:
            self.inv_seq += 1
            rec = FrameRec(self, self.inv_seq)
        self.deliver(rec, frame, 'call', arg)
        return rec.trace

    def deliver(self, rec, frame, event, arg):
        sim = self.sim
        if sim.off:
            return
        task = sim.current
        if len(self.events) >= self.max_events:
            return
        try:
            sim.yield_(-10)
            ev = Ev()
            ev.seq = len(self.events)
            ev.tid = task.tid
            ev.kind = event
            code = frame.f_code
            ev.path = code.co_filename
            ev.base = os.path.basename(ev.path)
            ev.line = frame.f_lineno
            ev.func = code.co_name
            ev.inv = rec.inv
            ev.seg = rec.seg
            ev.wall0 = sim.wall()
            ev.c0 = sim.clock
            ev.step0 = sim.step
            ev.delivered = False
            ev.truth = None
            ev.escaped = None
            ev.arg = None
            ev.local = rec.local is not None
            ev.thread = None
            if event == 'call':
                agent = task.agent_trace
            else:
                agent = rec.local if task.agent_trace is not None else None
            ev.delivered = agent is not None
            self.events.append(ev)
            if self.on_event is not None:
                self.on_event(ev, frame, arg)
        except BaseException as e:
            if len(self.errors) < 20:
                import traceback
                self.errors.append('recording: %s' % traceback.format_exc()[-1500:])
            return
        r = None
        if agent is not None:
            outer, outer_a = task.cur, task.cur_agent
            task.cur = ev
            task.cur_agent = True
            try:
                r = agent(frame, event, arg)
            except BaseException as e:
                ev.escaped = '%s: %s' % (type(e).__name__, str(e)[:200])
                self.escapes.append({'event': ev.brief(), 'error': ev.escaped, 'tid': task.tid,
                                     'tb': _tb(e), 'injected': getattr(e, 'dst_injected', None)})
                # what CPython does: tracing is off for this thread
                task.agent_trace = None
                rec.local = None
                r = None
            finally:
                task.cur, task.cur_agent = outer, outer_a
        if r is not None:
            rec.local = r
        ev.wall1 = sim.wall()
        ev.c1 = sim.clock
        if self.after_event is not None:
            self.after_event(ev, frame, arg)
        sim.yield_(-11)

    # -- the agent ---------------------------------------------------------------------------------------------

    def start_agent(self, **over):
        self.sim.current.data['agent_scope'] = True
        try:
            self.deep = self.deep_mod.start(self.config(**over))
        finally:
            self.sim.current.data['agent_scope'] = False
        return self.deep

    def settle(self, seconds):
        """Let the background threads run for this long (virtual)."""
        self.sim.sleep(int(seconds * SEC))

    # -- host programs -----------------------------------------------------------------------------------------

    def host_module(self, path, source, names=None):
        """Compile host source as if it was the file `path`; the module sees the simulated standard library."""
        import linecache
        m = types.ModuleType(os.path.basename(path).rsplit('.', 1)[0])
        m.__file__ = path
        m.__dict__['__builtins__'] = self.host_builtins
        m.__dict__.update(names or {})
        code = compile(source, path, 'exec')
        linecache.cache[path] = (len(source), None, source.splitlines(True), path)
        exec(code, m.__dict__)
        return m

    # -- plugins -----------------------------------------------------------------------------------------------

    def install_plugins(self, specs):
        """Create the module `dst_plugins` with one class per spec; returns the list for the PLUGINS setting."""
        from . import plugins
        return plugins.install(self, specs)

    # -- the end -----------------------------------------------------------------------------------------------

    def _abort(self, info):
        if self.result_sink is not None:
            self.result_sink(info)

    def finish(self):
        """Stop simulating: yields no longer do anything, the threads stay where they are."""
        self.sim.off = True
        sys.settrace(None)


def _tb(e):
    out = []
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(loader.ROOT):
            out.append('%s:%d' % (os.path.relpath(fn, loader.ROOT), tb.tb_lineno))
        tb = tb.tb_next
    return out[-8:]
