"""C01: host transparency: the agent never changes what the host program does."""
import gc
import io
import itertools
import os
import sys

from .. import features, hostgen, objgen, plugins, simlog
from ..common import gen_sched, gen_stall, pick, subset, viol
from ..data import EXPRS, gen_exprs
from ..hostgen import show
from ..kernel import SEC
from ..scene import Scene, Tps, escapes, small_program

ID = 'C01'
QUICK = 320
RULE = ('generated programs over generated values (hostile ones included) and hand-written programs that use exceptions, generators, '
        'coroutines, scopes, objects with special methods, threads and the state of the interpreter; each runs without the agent and '
        'then with it, under any tracepoint configuration (also not well-formed) on any of its lines and functions, with plugins that '
        'fail, and with errors raised at any function entry inside the agent\'s event handler, in its logging, and when it starts a '
        'thread; outputs, exceptions, final data, streams and interpreter state are compared, nothing may escape the handler, and a '
        'canary tracepoint has to fire on every thread at the end; non-trivial when a tracepoint was hit and something failed inside '
        'the agent')
LEVEL_NOTE = ('Seeded search over programs, configurations, schedules and error sites; the differential oracle is the same program '
              'without the agent in the same simulator.')
ASSUMPTIONS = ['errors are raised at entries of functions the trace function calls, not before its first statement, and not in the '
               'function that it calls to report a first error',
               'the time at which the objects of the program go away is compared when no error is raised inside the agent', 'no recursion-limit exhaustion',
               'converting a value to text has no effect on the program']
OPTIONAL = ('args', 'config', 'net', 'fail', 'delay', 'watches', 'metrics', 'stall', 'faults', 'logfail', 'every', 'spawnfail', 'feats',
            'prog_on', 'threads')

EXCS = ['ValueError', 'RuntimeError', 'KeyError', 'TypeError', 'AttributeError', 'OSError', 'InjectedBase', 'KeyboardInterrupt',
        'SystemExit', 'GeneratorExit', 'StopIteration', 'MemoryError', 'RecursionError', 'BadStr']
PROBE = 'c01_probe.py'
PROBE_SRC = '''def probe(n):
    here = n
    return here
def drive(name, main, OUT, CALM, n):
    try:
        OUT(['result', main(OUT)])
    except BaseException as e:
        OUT(['raised', type(e).__name__, e])
    CALM(True)
    probe(n)
'''
MORE = ['i', 'out', 'self', 'it', 'STATE', 'k', 'e', 'x', 'a', 'v', 'spy', 'lazy', 'tree', 'dd', 'o', 'f', 'g', 'got', '__class__', 'locals()',
        'spy.nothing', 'lazy.prop if False else 1', '[s for s in "ab"]', '(a := 5)', '[(i := 7) for _ in range(2)]', 'x if x else 0',
        '(STATE := 1)', '(n := 99)', 'x + 1', 'len(a)', 'it', 'm', 'z', 'ts', 'q', 't', 'w', 'fs', 'getattr(self, "a")', 'str(e)', 'lambda: 1',
        '(_ for _ in ()).throw(StopIteration(1))', '(_ for _ in ()).throw(MemoryError())', '__import__("os")._missing', 'frame.f_back',
        'super()', 'await x', '"%d" % "x"', 'b"\\xff".decode()', 'int("x")', '[].pop()', '{}.popitem()', 'eval("1 +")', 'exec("1/0")',
        '(lambda: (yield))()', 'range(10**9)', '"\\ud800"', 'nonlocal', 'print', 'type("X", (), {"__str__": lambda s: 1/0})()',
        'type("X", (), {"__bool__": lambda s: 1/0})()', 'type("X", (), {"__str__": lambda s: 5})()', 'object.__new__(type("Y",(),{}))']
MSGS = ['plain', '{i}', '{', '}', '{}', '{a.b.c} {', '{{x}}', '{self!r}', '{n:>5}', '{x!z}', '%s %d', '', '{1/0}', 'é {v}', '{spy}', '{[}',
        '{(a:=3)}', '{' * 40, '{e} and {locals()}', None, '{print}', '{lambda: 1}', '{"}"}']
STAGES = ['line_start', 'line_end', 'line_capture', 'method_start', 'method_end', 'method_capture', 'bogus', '']


DENSE = [{'span': 'line', 'snapshot': 'no_collect'}, {'stage': 'line_capture'}, {'stage': 'method_capture'}, {'stage': 'line_capture'},
         {'log_msg': '{locals()}', 'snapshot': 'no_collect'}, {'span': 'method', 'snapshot': 'no_collect'}, {'frame_type': 'all_frame'},
         {'span': 'line', 'stage': 'line_capture'}, {'span': 'method', 'stage': 'method_capture'}, {'MAX_VAR_DEPTH': '9'}]


def gen_expr(rng):
    return pick(rng, EXPRS if rng.random() < 0.4 else MORE)


def gen_tp(rng, n, tp):
    a = tp['args']
    if rng.random() < 0.75:
        a['fire_count'] = pick(rng, ['-1', '-1', '-1', '3', '1', 'abc', ''])
        a['fire_period'] = pick(rng, ['0', '0', '0', '1', 'x'])
    if rng.random() < 0.45:
        a['stage'] = pick(rng, STAGES)
    if rng.random() < 0.35:
        a['log_msg'] = pick(rng, MSGS)
        if a['log_msg'] is None:
            a['log_msg'] = '{%s}' % gen_expr(rng)
    if rng.random() < 0.3:
        a['snapshot'] = 'no_collect'
    if rng.random() < 0.25:
        a['span'] = pick(rng, ['line', 'method', 'line', 'method', 'bogus'])
    if rng.random() < 0.3:
        a['condition'] = pick(rng, ['True', 'i', 'x', 'n > 0', '', ' ']) if rng.random() < 0.5 else gen_expr(rng)
    if rng.random() < 0.2:
        a['frame_type'] = pick(rng, ['single_frame', 'all_frame', 'no_frame', 'odd'])
    if rng.random() < 0.2:
        a['stack_type'] = pick(rng, ['frame', 'stack', 'none'])
    for k, vs in (('MAX_VARIABLES', ['1', '5', '0', '-1', 'x']), ('MAX_STRING_LENGTH', ['0', '3', '-2']), ('MAX_COLLECTION_SIZE', ['0', '2', '1000']),
                  ('MAX_VAR_DEPTH', ['0', '1', '9']), ('MAX_TP_PROCESS_TIME', ['0', '1', '100000'])):
        if rng.random() < 0.06:
            a[k] = pick(rng, vs)
    if rng.random() < 0.45:
        tp['watches'] = [gen_expr(rng) for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.25:
        tp['metrics'] = [{'name': 'm%d' % k, 'type': pick(rng, ['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY']),
                          'expression': pick(rng, [None, gen_expr(rng), '1.5']),
                          'labels': [{'key': 'l', 'expression': gen_expr(rng)}] if rng.random() < 0.5 else []}
                         for k in range(rng.randrange(1, 3))]
    return tp


def gen(rng, i, tier):
    plan = {'v': 1, 'sched': gen_sched(rng, est=6000, coop=0.2, maxp=200, tick=pick(rng, [0, 1000, 1000])), 'log': pick(rng, ['error', 'debug'])}
    big = tier != 'quick' and rng.random() < 0.3
    plan['threads'] = []
    feats = []
    for t in range(pick(rng, [1, 1, 1, 2, 3])):
        feats.append(subset(rng, sorted(features.SOURCES), pick(rng, [0.12, 0.25, 0.5] if not big else [0.5, 0.9])))
    plan['feats'] = feats
    plan['prog_on'] = 1 if rng.random() < 0.6 else 0
    tps = []
    if plan['prog_on']:
        nobj = rng.randrange(2, 10)
        plan['nodes'] = objgen.gen_nodes(rng, nobj, strange=0.25, hostile=pick(rng, [0, 0.3, 0.6]))
        plan['prog'] = small_program(rng, nobj)
        g = Tps(rng, plan['prog'])
        for k in range(rng.randrange(0, 5)):
            tp = gen_tp(rng, k, g.one(0.3))
            tp['watches'] = (tp.get('watches') or []) + gen_exprs(rng, nobj, rng.randrange(0, 2))
            tps.append(tp)
        plan['prog_tps'] = tps
    ftps = []
    used = sorted({f for fs in feats for f in fs})
    for k in range(rng.randrange(1, 9) if used else 0):
        f = pick(rng, used)
        tp = {'id': 'ft%d' % k, 'feat': f, 'args': {}}
        if rng.random() < 0.35:
            name, lo, hi = pick(rng, features.FUNCS[f])
            tp['line'] = rng.randrange(lo, hi + 1)
            if rng.random() < 0.6:
                tp['args']['method_name'] = name
            else:
                tp['args']['stage'] = pick(rng, ['method_start', 'method_end', 'method_capture'])
            gen_tp(rng, k, tp)
        else:
            tp['line'] = rng.randrange(1, features.LINES[f] + 1)
            gen_tp(rng, k, tp)
        ftps.append(tp)
    if used and rng.random() < 0.4:
        # one kind of tracepoint on most lines
        f = pick(rng, used)
        kind = pick(rng, DENSE)
        some = pick(rng, [0.15, 0.4, 0.8])
        for ln in range(1, features.LINES[f] + 1):
            if rng.random() < some:
                ftps.append({'id': 'fd%d' % ln, 'feat': f, 'line': ln,
                             'args': dict(kind, fire_count=pick(rng, ['-1', '1', '4']), fire_period='0')})
    plan['ftps'] = ftps
    if 'life' in used:
        # a new class refers to itself: this is garbage that the expression makes
        for tp in ftps + tps:
            tp['watches'] = [x for x in tp.get('watches') or [] if 'type(' not in x]
            tp['metrics'] = [] if 'type(' in str(tp.get('metrics')) else tp.get('metrics') or []
            tp['args'] = {k: x for k, x in tp['args'].items() if 'type(' not in x}
    specs = []
    for k in range(pick(rng, [0, 0, 1, 2])):
        s = {'name': 'P%d' % k, 'kinds': subset(rng, ['deco', 'span', 'metric', 'log'], 0.6), 'order': rng.randrange(-9, 9)}
        s['fail'] = {cb: {'exc': pick(rng, EXCS), 'on': pick(rng, ['all', [0], [1, 2]])}
                     for cb in subset(rng, ['decorate', 'create_span', 'span_close', 'metric', 'log'], 0.6)}
        if rng.random() < 0.2:
            s['span_none'] = 1
        specs.append(s)
    plan['specs'] = specs
    r = rng.random()
    if r < 0.6:
        lim = pick(rng, [20, 60, 600, 6000, 30000])
        plan['faults'] = sorted([rng.randrange(1, lim), pick(rng, EXCS)] for _ in range(pick(rng, [1, 2, 5, 12])))
    elif r < 0.7:
        plan['every'] = [pick(rng, [1, 2, 7, 41, 199]), pick(rng, EXCS)]
    if rng.random() < 0.25:
        plan['logfail'] = [pick(rng, [1, 2, 5]), pick(rng, EXCS)]
        plan['log'] = 'debug'
    if rng.random() < 0.15:
        plan['spawnfail'] = [0, 1]
    if 'life' in used and (rng.random() < 0.8 or any(len(fs) == 1 for fs in feats)):
        # when an error stops the agent from its work it can keep values for longer
        for k in ('faults', 'every', 'logfail', 'spawnfail'):
            plan.pop(k, None)
    else:
        plan['feats'] = [[f for f in fs if f != 'life'] for fs in feats]
        plan['ftps'] = [tp for tp in ftps if tp['feat'] != 'life']
    if rng.random() < 0.3:
        plan['net'] = {'send': [pick(rng, [{}, {'t': 'error_before'}, {'t': 'slow', 'ms': 3000}, {'t': 'exc', 'exc': 'OSError'}]) for _ in range(4)]}
    if rng.random() < 0.2:
        plan['stall'] = gen_stall(rng, ms=[5, 300], who=['ThreadPool', 'Thread-'])
    return plan


class Side:
    """One execution of everything the plan asks for."""

    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.out = {}
        self.stdout = io.StringIO()
        self.stderr = io.StringIO()
        self.values = objgen.build(plan['nodes']) if plan.get('nodes') else None
        self.scene = None
        if plan.get('prog_on') and plan.get('prog'):
            self.scene = Scene(w, dict(plan, nodes=None, tps=plan.get('prog_tps') or []))
            self.scene.values = self.values
            self.scene.prepare()
        self.probe = w.host_module('/app/' + PROBE, PROBE_SRC, {})
        self.mods = {}
        for fs in plan.get('feats') or []:
            for f in fs:
                self.mods.setdefault(f, None)
        self.tids = {}

    def load(self):
        for f in self.mods:
            self.mods[f] = self.w.host_module('/app/feat/%s.py' % f, features.SOURCES[f], {})

    def run(self):
        w = self.w
        sim = w.sim
        fake = w.mods.map['sys']
        old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = self.stdout, self.stderr
        try:
            ts = []
            for n, fs in enumerate(self.plan.get('feats') or []):
                ts.append(w.threading.Thread(target=self.thread, args=(n, fs), name='host-%d' % n))
            if self.scene is not None:
                ts.append(w.threading.Thread(target=self.program, args=(len(ts),), name='host-p'))
            # one after the other or together: the features that are shared would see each other
            for t in ts:
                t.start()
                if self.alone:
                    t.join()
            for t in ts:
                t.join()
        finally:
            sys.stdout, sys.stderr = old
        return self

    def thread(self, n, fs):
        cur = self.w.sim.current
        for k, f in enumerate(fs):
            log = self.out.setdefault('%d.%d %s' % (n, k, f), [])
            cur.data['quiet'] = False
            self.probe.drive(f, self.mods[f].main, lambda v, log=log: log.append(show(v)), lambda q: cur.data.__setitem__('quiet', q), n)
        if not fs:
            cur.data['quiet'] = True
            self.probe.probe(n)
        self.tids[n] = cur.tid

    def program(self, n):
        cur = self.w.sim.current
        cur.data['quiet'] = False
        log = self.out.setdefault('program', [])
        self.probe.drive('program', lambda OUT: self.scene.prog.main_mod.main(), lambda v: log.append(show(v)),
                         lambda q: cur.data.__setitem__('quiet', q), n)
        self.tids[n] = cur.tid

    def final(self):
        """What is left when everything is over."""
        gc.collect()
        d = {}
        for f, m in self.mods.items():
            s = m.STATE
            d[f] = show({k: v for k, v in s.items() if k != 'refs'}) if type(s) is dict else show(s)
            if type(s) is dict and 'refs' in s:
                d[f + ' alive'] = [r() is not None for r in s['refs']]
            d[f + ' names'] = sorted(m.__dict__)
        if self.scene is not None:
            d['program'] = self.scene.prog.output()
            d['globals'] = self.scene.prog.globals_state()
            d['names'] = [sorted(m.__dict__) for m in self.scene.prog.mods]
            d['values'] = [state(v) for v in self.values or []]
        d['stdout'] = sorted(self.stdout.getvalue().split('\n'))
        d['stderr'] = sorted(self.stderr.getvalue().split('\n'))
        return d


ITERS = ('list_iterator', 'list_reverseiterator', 'generator', 'map', 'zip', 'filter', 'range_iterator', 'tuple_iterator', 'enumerate',
         'dict_keyiterator', 'set_iterator', 'longrange_iterator', 'callable_iterator')


def state(v, depth=0):
    """A value without using what it defines itself; iterators are used up."""
    t = type(v)
    name = type.__getattribute__(t, '__name__') if type(t) is type else 'odd'
    try:
        if issubclass(t, dict):
            kind = [(show(k) if type(k) is str else type(k).__name__, type(x).__name__) for k, x in dict.items(v)]
        elif issubclass(t, (list, tuple)):
            b = list if issubclass(t, list) else tuple
            kind = [type(x).__name__ for x in b.__iter__(v)]
        elif issubclass(t, (set, frozenset)):
            kind = (set if issubclass(t, set) else frozenset).__len__(v)
        elif name in ITERS and t.__module__ == 'builtins':
            kind = [type(x).__name__ for x in itertools.islice(v, 200)]
        else:
            kind = show(v)
    except BaseException as e:
        kind = 'error ' + type(e).__name__
    try:
        own = sorted(str(k) for k in object.__getattribute__(v, '__dict__'))
    except BaseException:
        own = None
    return [str(name), kind, own]


def run(w, plan):
    sim = w.sim
    w.nontrivial = False
    w.load_agent()
    out = []
    w.on_event = None
    hits = Hits(w, plan)
    sim.off = False
    fs = [f for x in plan.get('feats') or [] for f in x]
    alone = len(set(fs)) != len(fs) or 'state' in fs
    sim.fault_hook = None
    rand = w.mods.host_random

    ref = Side(w, plan)
    ref.alone = alone
    ref.load()
    before = interp(w)
    rand.seed(7)
    ref.run()
    sim.sleep(SEC)
    want_rand = rand.random()
    w.events.clear()

    side = Side(w, plan)
    side.alone = alone
    side.load()
    tps = list(side.scene.tps) if side.scene is not None else []
    for tp in plan.get('ftps') or []:
        t = {k: v for k, v in tp.items() if k != 'feat'}
        t['path'] = tp['feat'] + '.py'
        tps.append(t)
    tps.append({'id': 'canary', 'path': PROBE, 'line': 2, 'args': {'fire_count': '-1', 'fire_period': '0', 'log_msg': 'canary {n}',
                                                                   'snapshot': 'no_collect'}})
    tps.append({'id': 'canary2', 'path': PROBE, 'line': PROBE_SRC.split('\n').index('    probe(n)') + 1,
                'args': {'fire_count': '-1', 'fire_period': '0', 'log_msg': 'canary', 'snapshot': 'no_collect'}})
    w.service.set_config(tps, 'h')
    specs = [plugins.RECORDER] + list(plan.get('specs') or [])
    names = w.install_plugins(specs)
    old = sys.stdout, sys.stderr
    so = io.StringIO()
    sys.stdout = sys.stderr = so
    try:
        w.start_agent(PLUGINS=names)
        sim.sleep(2 * SEC)
    finally:
        sys.stdout, sys.stderr = old
    sim.arm()
    hits.arm()
    rand.seed(7)
    side.run()
    hits.disarm()
    got_rand = rand.random()
    after = interp(w)
    sys.stdout = sys.stderr = so
    try:
        sim.sleep(60 * SEC)
        w.deep.shutdown()
    finally:
        sys.stdout, sys.stderr = old
    w.finish()
    escapes(w, out)
    compare('what the program puts out', ref.out, side.out, out)
    compare('what is left at the end', ref.final(), side.final(), out)
    if got_rand != want_rand:
        out.append(viol('state', 'the random numbers of the program are not the same'))
    compare('the state of the interpreter', before, after, out)
    if so.getvalue():
        out.append(viol('output', 'the agent wrote %r' % so.getvalue()[:300]))
    for n, tid in side.tids.items():
        # a function that is called after everything, and the function that was active while everything happened
        drives = len((plan.get('feats') or [])[n]) if n < len(plan.get('feats') or []) else 1
        for tp, need in (('canary', max(1, drives)), ('canary2', drives)):
            k = len([e for e in w.of('log') if e['tp'] == tp and e['tid'] == tid])
            if k != need:
                out.append(viol('silent', 'on thread %d of the program the last tracepoint (%s) was passed %d times and fired %d times; failures '
                                'injected before: %s' % (n, tp, need, k, hits.fired[-3:])))
    triggered = [e for e in w.of('decorate', 'log', 'metric', 'span_try') if not str(e.get('tp')).startswith('canary')]
    if triggered and (hits.fired or [e for e in w.effects if e.get('raised')]):
        w.nontrivial = True
    w.probe('triggered', len(triggered))
    w.probe('faults', len(hits.fired))
    w.probe('host_outputs', sum(len(x) for x in ref.out.values()))
    return out[:6]


class Hits:
    """Errors inside the event handler of the agent."""

    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.n = 0
        self.logs = 0
        self.spawns = 0
        self.fired = []
        self.at = {int(n): e for n, e in plan.get('faults') or []}
        self.every = plan.get('every')
        self.logfail = plan.get('logfail')

    def arm(self):
        sim = self.w.sim
        if self.at or self.every:
            sim.fault_hook = self.hook
        if self.logfail:
            simlog.HOOK = self.log
        if self.plan.get('spawnfail'):
            real = sim.spawn
            self.real = real

            def spawn(fn, args, kwargs=None, name=None):
                if name and self.handler() and not sim.current.data.get('quiet'):
                    self.spawns += 1
                    if self.spawns - 1 in self.plan['spawnfail']:
                        sim.count_fault('thread_start')
                        self.fired.append('thread start')
                        raise RuntimeError("can't start new thread")
                return real(fn, args, kwargs, name)
            sim.spawn = spawn

    def disarm(self):
        self.w.sim.fault_hook = None
        simlog.HOOK = None
        if self.plan.get('spawnfail'):
            self.w.sim.spawn = self.real

    def handler(self):
        """How deep are we in the trace function; 0 if this is not within a trace event of the program."""
        t = self.w.sim.current
        if t.kind != 'host' or t.cur is None or t.data.get('quiet') is not False:
            return 0
        root = self.w.agent_root
        n = 0
        f = sys._getframe(2)
        while f is not None:
            c = f.f_code
            if c.co_filename.startswith(root):
                n += 1
            elif c is DELIVER:
                return n
            f = f.f_back
        return 0

    def hook(self, site):
        d = self.handler()
        if d < 2 or d == 2 and sys.exc_info()[1] is not None:
            return
        self.n += 1
        exc = self.at.get(self.n)
        if exc is None and self.every and self.n % self.every[0] == 0:
            exc = self.every[1]
        if exc is None:
            return
        from .. import loader
        self.w.sim.count_fault('agent_call')
        self.fired.append('%s at %s' % (exc, loader.site_name(site)))
        raise plugins.EXC[exc]('injected inside the agent')

    def log(self, level, msg):
        if self.handler() < 1:
            return
        self.logs += 1
        if self.logs % self.logfail[0] == 0:
            self.w.sim.count_fault('logging')
            self.fired.append('logging')
            raise plugins.EXC[self.logfail[1]]('injected in the logging')


def interp(w):
    import decimal
    import logging
    import signal
    import warnings
    return {'recursion': sys.getrecursionlimit(), 'filters': [str(f) for f in warnings.filters], 'gc': [gc.isenabled(), gc.get_threshold()],
            'environ': sorted(os.environ.items()), 'cwd': os.getcwd(), 'path': list(sys.path), 'interval': sys.getswitchinterval(),
            'hooks': [sys.excepthook is sys.__excepthook__, sys.displayhook is sys.__displayhook__, sys.unraisablehook is sys.__unraisablehook__],
            'decimal': str(decimal.getcontext()), 'logging': [logging.raiseExceptions, logging.root.manager.disable],
            'signals': [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP)]}


def plain(v):
    """Only what we made ourselves takes part in a comparison."""
    t = type(v)
    if t in (list, tuple):
        return [plain(x) for x in v]
    if t is dict:
        return [[plain(k), plain(x)] for k, x in v.items()]
    return v if t in (str, int, float, bool, bytes, type(None)) else show(v)


def compare(what, a, b, out):
    for k in sorted(set(a) | set(b), key=str):
        x, y = plain(a.get(k)), plain(b.get(k))
        if x == y:
            continue
        if isinstance(x, list) and isinstance(y, list):
            n = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            x, y = ['entry %d' % n] + x[n:n + 2], y[n:n + 2]
        out.append(viol('changed', '%s differs in %r: without the agent %s, with it %s' % (what, k, str(x)[:500], str(y)[:500])))
        return


def _deliver():
    from ..world import World
    return World.deliver.__code__


DELIVER = _deliver()


def on_abort(w, plan, info):
    if info['why'] == 'step-cap':
        w.nontrivial = False
        w.probe('too_big')
        return []
    return None


__all__ = ['hostgen']
