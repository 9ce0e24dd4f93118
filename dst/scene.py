"""A host program with tracepoints on it, run under the agent: set-up, attribution of effects to trace events, checks."""
import os

from . import objgen, plugins
from .common import pick, viol
from .hostgen import Gen, Program
from .kernel import SEC
from .truth import parse

CAPTURES = ('line_capture', 'method_capture')


def args_of(tp):
    return tp.get('args') or {}


def kinds_of(tp):
    """The actions the arguments ask for."""
    a = args_of(tp)
    out = set()
    if a.get('snapshot') != 'no_collect':
        out.add('snapshot')
        if a.get('log_msg') is not None:
            out.add('slog')
    elif a.get('log_msg') is not None:
        out.add('log')
    if tp.get('metrics'):
        out.add('metric')
    if 'span' in a:
        out.add('span')
    return out


LINE_STAGES = ('line_start', 'line_end', 'line_capture')
METHOD_STAGES = ('method_start', 'method_end', 'method_capture')


def place_of(tp):
    """'line', 'method' or None, as the stage and method arguments say."""
    a = args_of(tp)
    stage = 'method_start' if 'method_name' in a else 'line_start'
    if a.get('span') == 'method':
        stage = 'method_start'
    stage = a.get('stage', stage)
    return 'line' if stage in LINE_STAGES else 'method' if stage in METHOD_STAGES else None


class Scene:
    def __init__(self, w, plan, args=None):
        self.extra = args or {}     # arguments every tracepoint has (not part of the plan, so never minimised away)
        self.w = w
        self.plan = plan
        self.sim = w.sim
        self.deep = None
        self.out = []
        self.tps = []
        self.values = None
        self.prog = None
        self.handles = {}
        self.host_threads = []

    # -- set-up ------------------------------------------------------------------------------------------------

    def prepare(self):
        w, plan = self.w, self.plan
        if plan.get('nodes') is not None:
            self.values = objgen.build(plan['nodes'])
            w.keep.append(self.values)
        self.prog = Program(w, plan['prog'], self.values)
        self.tps = [t for t in (self.resolve(tp) for tp in plan['tps']) if t is not None]
        return self

    def resolve(self, tp):
        """Fill in path and line from the marker; None when the marker was pruned away."""
        t = dict(tp)
        t['args'] = dict(tp.get('args') or {}, **self.extra)
        r = self.prog.r
        if 'at' in t:
            a = t['args']
            if t.get('on') == 'func':
                if t['at'] not in r.funcs:
                    return None
                path, name = r.funcs[t['at']]
                t['path'] = os.path.basename(path)
                t['line'] = r.lines[t['at']][1]
                if a.get('method_name') == '*':
                    t['args']['method_name'] = name
            else:
                if t['at'] not in r.lines:
                    return None
                path, line = r.lines[t['at']]
                t['path'] = os.path.basename(path)
                t['line'] = line
        if t.get('pathx'):
            t['path'] = t['pathx']
        if t.get('dline'):
            t['line'] = t['line'] + t['dline']
        return t

    def service_tps(self):
        return [t for t in self.tps if t.get('via', 'service') == 'service']

    def start(self, specs=None, hash_='h1', **cfg):
        w = self.w
        self.specs = specs if specs is not None else [plugins.RECORDER]
        names = w.install_plugins(self.specs)
        w.service.set_config(self.service_tps(), hash_)
        self.sim.off = False
        self.deep = w.start_agent(PLUGINS=names, **cfg)
        for t in self.tps:
            if t.get('via') == 'code':
                self.register(t)
        return self.deep

    def register(self, t):
        from deep.api.tracepoint.tracepoint_config import MetricDefinition, LabelExpression
        ms = [MetricDefinition(m['name'], m.get('type', 'COUNTER'),
                               [LabelExpression(lb['key'], lb.get('static'), lb.get('expression'))
                                for lb in m.get('labels') or []],
                               m.get('expression'), m.get('namespace'), m.get('help'), m.get('unit'))
              for m in t.get('metrics') or []]
        h = self.deep.register_tracepoint(t['path'], t['line'], dict(args_of(t)), list(t.get('watches') or []), ms)
        self.handles[t['id']] = h
        return h

    def settle(self, s=2):
        self.sim.sleep(int(s * SEC))

    def run_host(self):
        """The program runs on a simulated thread of its own (so the real stack above it is not part of the picture)."""
        self.sim.arm()
        t = self.w.threading.Thread(target=self.prog.main_mod.main)
        t.start()
        t.join()

    def stop(self, drain=100):
        """Let every delivery finish, stop the agent, end the simulation."""
        self.sim.sleep(drain * SEC)
        err = None
        try:
            self.deep.shutdown()
        except BaseException as e:
            err = '%s: %s' % (type(e).__name__, e)
        self.shutdown_error = err
        self.w.finish()
        return err

    # -- reference placement -----------------------------------------------------------------------------------

    @staticmethod
    def at(tp, ev):
        """Does this event reach the tracepoint's location?"""
        p = place_of(tp)
        if p is None or ev.base != tp['path']:
            return False
        if p == 'line':
            return ev.kind == 'line' and ev.line == tp['line']
        return ev.kind == 'call' and args_of(tp).get('method_name') == ev.func

    def hits(self, tp):
        return [ev for ev in self.w.events if self.at(tp, ev)]

    # -- what happened -----------------------------------------------------------------------------------------

    def collect(self):
        """snapshots: [(message, event, send effect)]; attribution by the decoration each snapshot goes through."""
        w = self.w
        by_sid = {}
        for e in w.of('decorate'):
            by_sid.setdefault(e['snapshot'].zfill(32), e)
        self.snaps = []
        for e in w.of('send'):
            m = parse(e['data'])
            d = by_sid.get(m.ID.hex())
            ev = w.events[d['ev']] if d is not None and d['ev'] is not None else None
            self.snaps.append((m, ev, e))
        return self.snaps

    def tp(self, id_):
        """A tracepoint by its id, or by the marker watch code-registered ones carry."""
        for t in self.tps:
            if t['id'] == id_:
                return t
        return None

    def tp_of_snapshot(self, m):
        t = self.tp(m.tracepoint.ID)
        if t is not None:
            return t
        for wt in list(m.tracepoint.watches):
            if wt.startswith("'tag:"):
                return self.tp(wt[5:-1])
        return None


class Tps:
    """Generates tracepoints for a program."""

    def __init__(self, rng, spec):
        self.rng = rng
        self.stmts, self.fns = [], []
        for mod in spec['mods']:
            for f in mod['funcs']:
                self.fns.append(f)
                self.walk(f['body'])
        for late in spec.get('late') or []:
            self.walk(late['body'])
        self.n = 0

    def walk(self, body):
        for st in body:
            self.stmts.append(st)
            if st['s'] in ('inner', 'cls'):
                self.fns.append(st)
            for k in ('b', 'e', 'h', 'fin'):
                if isinstance(st.get(k), list):
                    self.walk(st[k])

    def one(self, method=0.3, **args):
        rng = self.rng
        self.n += 1
        tp = {'id': 'tp%d' % self.n, 'args': {}}
        if rng.random() < method or not self.stmts:
            f = pick(rng, self.fns)
            tp.update(at=f['m'], on='func')
            tp['args']['method_name'] = '*'
        else:
            # half of the time a statement at the top of a function, which is more likely to be reached
            tops = [st for f in self.fns for st in f.get('body') or f.get('b') or ()]
            tp['at'] = pick(rng, tops if tops and rng.random() < 0.5 else self.stmts)['m']
        tp['args'].update(args)
        return tp

    def line(self, **args):
        return self.one(0, **args)

    def method(self, **args):
        return self.one(1, **args)


UNLIMITED = {'fire_count': '-1', 'fire_period': '0'}


def small_program(rng, nobj=0, **kw):
    o = dict(modules=2, funcs=3, stmts=5, depth=2)
    o.update(kw)
    return Gen(rng, nobj, **o).program()


def escapes(w, out):
    for e in w.escapes[:3]:
        out.append(viol('escape', 'the trace function raised %s at %s (%s)' % (e['error'], e['event'], e['tb'][-3:])))


def harness(w, out):
    for e in w.errors[:1]:
        raise RuntimeError('harness: ' + e)
