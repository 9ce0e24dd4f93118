"""C20: plugins are optional: ordered, skipped when inactive, isolated when faulty."""
import importlib.abc
import importlib.machinery
import sys
import types

from ..common import gen_sched, gen_stall, pick, subset, viol
from ..data import on_abort
from ..kernel import SEC
from ..scene import Scene, escapes
from ..truth import parse
from .. import plugins, simlog
from .c10 import markers

ID = 'C20'
QUICK = 1600
RULE = ('any list of 0-8 configured plugins: of any kind and combination of kinds, with any declared orders, switched off in '
        'code or by the environment, that cannot be imported (no such module or name, the import itself raises), that are no '
        'plugins, that fail to construct or to say whether they are active, together with the built-in ones with and without '
        'their dependencies; any subset of the callbacks of each (resource, decorate, log, create span, close span, metric, '
        'shutdown) raises at every or at chosen calls, also exceptions that are no Exception, or takes time; 1-3 program '
        'threads pass tracepoints of every kind meanwhile; every call of every plugin and every snapshot and poll that '
        'arrives is compared with what the list asks for; non-trivial when a callback of one plugin failed while another '
        'plugin was there')
LEVEL_NOTE = ('Seeded search over plugin lists, fault placements and schedules; the real loader, the real agent and the real '
              'built-in plugins run, custom plugins record every call.')
ASSUMPTIONS = ['of several loggers the first in the declared order is the one in use, and the order of plugins that declare '
               'the same order is open',
               'a plugin that cannot declare an order may be loaded at any place, or skipped']
OPTIONAL = ('fail', 'delay', 'env', 'stall', 'config', 'missing', 'attrs', 'res', 'pname', 'bad')

BODY = '''def hit(n):
    a = n #p1
    b = [a] #p2
    return b #p3
def work(n, rounds):
    for i in range(rounds):
        DONE.append(hit(n))
'''
MARKS = markers(BODY)
PATH = 'c20_host.py'
KINDS = ['deco', 'res', 'log', 'span', 'metric']
CALLS = {'deco': ['decorate'], 'res': ['resource'], 'log': ['log'], 'span': ['create_span', 'span_close'], 'metric': ['metric']}
EXCS = ['ValueError', 'RuntimeError', 'KeyError', 'TypeError', 'AttributeError', 'OSError', 'InjectedError', 'InjectedBase',
        'KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'StopIteration', 'MemoryError', 'RecursionError', 'AssertionError',
        'NotImplementedError', 'ZeroDivisionError', 'BadStr']
BAD = ['nosuch.module.Plugin', 'dst_plugins.NoSuch', 'nodot', '', '.', 'dst_raise_ImportError.P', 'dst_raise_SystemExit.P',
       'dst_raise_KeyboardInterrupt.P', 'dst_raise_SyntaxError.P', 'dst_raise_InjectedBase.P', 'dst_lazy.P', 'builtins.dict',
       'builtins.print', 'builtins.int', 'os.getcwd', 'json.JSONDecoder', 'os.sep', 'dst_plugins.ABSTRACT', 'dst_plugins.FACTORY',
       'dst_plugins', 'deep.api.plugin.Plugin.name', None, 5, ['a.b'], 'dst_raise_BadStr.P', 'dst_raise_DidNotEnable.P']
BUILTIN = ['OTELPLUGIN', 'PYTHONPLUGIN', 'PROMETHEUSPLUGIN', 'OTELMETRICS']
OFF = ['False', 'false', '0', 'no', 'n', False, 0]
ON = ['True', 'true', '1', 'yes', True, 1, None]
UNLIMITED = {'fire_count': '-1', 'fire_period': '0'}
METRICS = [{'name': 'm_a', 'type': 'COUNTER'}, {'name': 'm_b', 'type': 'GAUGE', 'labels': [{'key': 'k', 'static': 'v'}]},
           {'name': 'm_c', 'type': 'HISTOGRAM', 'expression': 'n + 2'}, {'name': 'm_d', 'type': 'SUMMARY'}]
TPS = [{'id': 'snap', 'mark': 'p1', 'args': {'log_msg': 'S:{n}'}},
       {'id': 'logs', 'mark': 'p2', 'args': {'log_msg': 'L:{n}', 'snapshot': 'no_collect'}},
       {'id': 'span', 'mark': 'p1', 'args': {'span': 'line', 'snapshot': 'no_collect'}},
       {'id': 'mspan', 'mark': 'p1', 'args': {'span': 'method', 'method_name': 'hit', 'snapshot': 'no_collect'}},
       {'id': 'metric', 'mark': 'p2', 'args': {'snapshot': 'no_collect'}, 'metrics': METRICS},
       {'id': 'defer', 'mark': 'p1', 'args': {'stage': 'method_capture', 'method_name': 'hit'}},
       {'id': 'all', 'mark': 'p3', 'args': {'log_msg': 'A:{n}', 'span': 'line', 'stage': 'line_capture'}, 'metrics': METRICS[:1]}]


def gen(rng, i, tier):
    plan = {'v': 1, 'sched': gen_sched(rng, est=3000, hold=0.5, tick=pick(rng, [0, 1000])), 'log': pick(rng, ['error', 'debug'])}
    specs = []
    cfg, env = {}, {}
    for k in range(pick(rng, [0, 1, 2, 3, 4, 5, 6, 8])):
        s = {'name': 'P%d' % k, 'kinds': subset(rng, KINDS, pick(rng, [0.2, 0.4, 0.7])),
             'order': pick(rng, [0, 0, 1, -1, rng.randrange(-9, 9), rng.randrange(-2, 3), 10 ** 9, -10 ** 20, 2.5, True])}
        r = rng.random()
        if r < 0.1:
            s['construct'] = pick(rng, EXCS + ['didnotenable'] * 3)
        elif r < 0.16:
            s['active'] = pick(rng, [False, False, True, 'raise'])
            s['fail'] = {'is_active': {'exc': pick(rng, EXCS)}}
        elif r < 0.3:
            (cfg if rng.random() < 0.5 else env)['PLUGIN_P%d' % k] = pick(rng, OFF if rng.random() < 0.7 else ON)
        elif r < 0.34:
            s['kinds'] = [x for x in s['kinds'] if x in ('deco', 'res')]
            s['order'] = pick(rng, ['raise', None, 'high'])
        if rng.random() < 0.06:
            s['pname'] = 'NAME%d' % k
            if rng.random() < 0.6:
                cfg['PLUGIN_NAME%d' % k] = pick(rng, OFF)
        if rng.random() < 0.55:
            s.setdefault('fail', {})
            for kind in s['kinds']:
                for cb in CALLS[kind]:
                    if rng.random() < 0.5:
                        s['fail'][cb] = {'exc': pick(rng, EXCS), 'on': pick(rng, ['all', 'all', [0], [1], [0, 2], [1, 2, 3]])}
            if rng.random() < 0.4:
                s['fail']['shutdown'] = {'exc': pick(rng, EXCS), 'on': 'all'}
        if rng.random() < 0.15:
            s['delay'] = {pick(rng, ['decorate', 'log', 'create_span', 'metric', 'span_close', 'shutdown', 'resource']): pick(rng, [0.001, 0.4])}
        if 'deco' in s['kinds'] and rng.random() < 0.3:
            s['attrs'] = pick(rng, ['none', 'bad', {'extra%d' % k: pick(rng, [5, 1.5, True, 'x', ['a', 'b'], '', '\udc80'])}])
        if 'res' in s['kinds'] and rng.random() < 0.3:
            s['res'] = pick(rng, ['none', 'bad', {'own%d' % k: 'o'}])
        if 'span' in s['kinds'] and rng.random() < 0.15:
            s['span_none'] = True
        specs.append(s)
    plan['specs'] = specs
    plan['bad'] = [[rng.randrange(0, 9), pick(rng, BAD)] for _ in range(pick(rng, [0, 0, 1, 2, 5]))]
    for b in BUILTIN:
        r = rng.random()
        if r < 0.35:
            cfg['PLUGIN_' + b] = '__unset__'
            if r < 0.1:
                env['PLUGIN_' + b] = pick(rng, OFF[:5] if rng.random() < 0.5 else ON[:4])
        elif r < 0.45:
            cfg['PLUGIN_' + b] = pick(rng, [True, 'True', False])
    if rng.random() < 0.3:
        plan['missing'] = subset(rng, ['opentelemetry', 'prometheus_client'], 0.5)
    plan['env'] = {'DEEP_' + k: v if isinstance(v, str) else str(v) for k, v in env.items() if v is not None}
    plan['config'] = cfg
    plan['threads'] = [[k, pick(rng, [1, 2, 3])] for k in range(pick(rng, [1, 1, 2, 3]))]
    if rng.random() < 0.25:
        plan['stall'] = gen_stall(rng, who=pick(rng, [['Thread-'], ['ThreadPool', 'Thread-']]))
    return plan


class Imports(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Modules whose import fails."""

    def find_spec(self, name, path, target=None):
        if name.startswith('dst_raise_'):
            return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__[len('dst_raise_'):]
        if name == 'DidNotEnable':
            from deep.api.plugin import DidNotEnable
            raise DidNotEnable('injected')
        raise {'ImportError': ImportError, 'SyntaxError': SyntaxError}.get(name) or plugins.EXC[name]('injected')


def switched(v):
    """Does this setting leave the plugin on?"""
    return v is None or str(v).lower() in ('yes', 'true', 't', '1', 'y')


def run(w, plan):
    w.nontrivial = False
    for m in plan.get('missing') or []:
        for k in list(sys.modules):
            if k == m or k.startswith(m + '.'):
                sys.modules[k] = None
        sys.modules[m] = None
    w.load_agent()
    sim = w.sim
    sc = Scene(w, dict(plan, prog={'mods': [], 'main': []}, tps=[
        dict(t, path=PATH, line=MARKS[t['mark']], args=dict(t['args'], **UNLIMITED)) for t in TPS])).prepare()
    host = w.host_module('/app/src/' + PATH, BODY, {'DONE': []})
    specs = [dict(s) for s in plan.get('specs') or []]
    for s in specs:
        if s.get('order') == 'high':
            s['order'] = {'a': 1}
    names = w.install_plugins(specs)
    mod = sys.modules['dst_plugins']
    from deep.api.plugin import SnapshotDecorator
    mod.ABSTRACT = SnapshotDecorator
    mod.FACTORY = lambda config=None: None
    lazy = sys.modules['dst_lazy'] = types.ModuleType('dst_lazy')

    def lazily(name):
        raise plugins.EXC['OSError']('injected')
    lazy.__getattr__ = lazily
    sys.meta_path.insert(0, Imports())
    given = list(names)
    for at, b in plan.get('bad') or []:
        given.insert(at, b)
    out = []
    w.service.set_config(sc.service_tps(), 'h')
    sim.off = False
    try:
        sc.deep = w.start_agent(PLUGINS=given)
    except BaseException as e:
        return [viol('start', 'the agent does not start: %s: %s' % (type(e).__name__, _text(e)))]
    if not sc.deep.started:
        out.append(viol('start', 'the agent is not started'))
    sc.settle(60 if plan.get('stall') else 2)
    w.events.clear()
    mark = len(w.effects)
    logmark = len(simlog.RECORDS)
    sim.arm()
    ts = [w.threading.Thread(target=host.work, args=tuple(a)) for a in plan['threads']]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    end = len(w.effects)
    records = list(simlog.RECORDS[logmark:])
    sc.stop()
    if sc.shutdown_error:
        out.append(viol('shutdown', 'shutdown raised %s' % sc.shutdown_error))
    if sc.deep.started:
        out.append(viol('shutdown', 'the agent is still started after its shutdown'))
    escapes(w, out)
    if len(host.DONE) != sum(n for _, n in plan['threads']):
        out.append(viol('host', 'the program did not finish'))

    # what should be loaded
    cfg, env = plan.get('config') or {}, plan.get('env') or {}

    def setting(name):
        key = 'PLUGIN_' + name
        v = cfg.get(key)
        if v is None or v == '__unset__':
            v = env.get('DEEP_' + key)
        return v

    loaded, maybe, skipped = {}, {}, set()
    for s in specs:
        n = s['name']
        if s.get('construct', 'ok') != 'ok' or s.get('active') in (False, 'raise'):
            skipped.add(n)
        elif s.get('active') is None and not switched(setting((s.get('pname') or n).upper())):
            skipped.add(n)
        elif not isinstance(s.get('order', -10), (int, float)):
            maybe[n] = s
        else:
            loaded[n] = s
    known = {s['name']: s for s in specs}

    def order(n):
        return known[n].get('order', -10)

    def kind(k):
        return sorted(n for n, s in loaded.items() if k in s.get('kinds', []))

    def check(what, got, k, where, sort=True):
        """Every loaded plugin of the kind was called once, in the declared order; no other was."""
        want = kind(k) if k else sorted(loaded)
        if sorted(x for x in got if x not in maybe) != want or len(set(got)) != len(got) or any(
                x in maybe and k and k not in maybe[x].get('kinds', []) for x in got):
            out.append(viol(what, '%s: called were %s, loaded are %s' % (where, got, want)))
        elif sort:
            o = [order(x) for x in got if x not in maybe]
            if o != sorted(o):
                out.append(viol('order', '%s: called were %s, which declare %s' % (where, got, o)))

    # start
    check('resource', [e['plugin'] for e in w.of('resource')], 'res', 'resources')
    # the real attributes of the polls
    from deepproto.proto.poll.v1.poll_pb2 import PollRequest
    good_res = {}
    for e in w.of('resource'):
        s = known[e['plugin']]
        a = s.get('res')
        if e.get('raised') or a in ('none', 'bad'):
            continue
        good_res.update(a if a is not None else {'res_' + s['name']: 'yes'})
    python = switched(setting_of(cfg, env, 'PYTHONPLUGIN'))
    if python:
        good_res['python_version'] = None
    for e in w.of('poll'):
        attrs = {kv.key: kv.value.string_value for kv in PollRequest.FromString(e['data']).resource.attributes}
        lost(attrs, good_res, 'the resource of a poll', out)
        if 'service.name' not in attrs or 'telemetry.sdk.name' not in attrs:
            out.append(viol('resource', 'the resource of a poll has only %s' % attrs))
    # the program
    evs = [e for e in w.events if e.base == PATH and e.delivered]
    line = {m: [e for e in evs if e.kind == 'line' and e.line == n] for m, n in MARKS.items()}
    calls = [e for e in evs if e.kind == 'call' and e.func == 'hit']
    hits = {'snap': line['p1'], 'logs': line['p2'], 'span': line['p1'], 'mspan': calls, 'metric': line['p2'], 'defer': calls,
            'all': line['p3']}
    effects = w.effects[mark:end]
    by_ev = {}
    for e in effects:
        by_ev.setdefault((e['kind'], e['ev']), []).append(e)
    deco = {}
    for e in w.of('decorate'):
        deco.setdefault(e['snapshot'].zfill(32), []).append(e)
    sent = {}
    for e in w.of('send'):
        m = parse(e['data'])
        sid = m.ID.hex()
        sent.setdefault(m.tracepoint.ID, []).append(m)
        ds = deco.pop(sid, [])
        check('decorate', [d['plugin'] for d in ds], 'deco', 'decorations of a snapshot of %s' % m.tracepoint.ID)
        want = {'tracepoint': m.tracepoint.ID, 'context': None}
        if python:
            want['thread_name'] = None
        for d in ds:
            a = known[d['plugin']].get('attrs')
            if d.get('raised') or a in ('none', 'bad'):
                continue
            want['deco_' + d['plugin']] = 'v%d' % d['n']
            for k in a or {}:
                want[k] = None
        attrs = {kv.key: kv.value.string_value for kv in m.attributes}
        lost(attrs, want, 'a snapshot of %s' % m.tracepoint.ID, out)
        lost({kv.key: kv.value.string_value for kv in m.resource}, good_res, 'the resource of a snapshot', out)
        if bool(m.log_msg) != (m.tracepoint.ID in ('snap', 'all')):
            out.append(viol('log', 'the log message of a snapshot of %s is %r' % (m.tracepoint.ID, m.log_msg)))
    for sid, ds in deco.items():
        out.append(viol('undelivered', 'the snapshot decorated at %s was not delivered' % w.events[ds[0]['ev']].brief()))
        break
    for tid in ('snap', 'defer', 'all'):
        if len(sent.pop(tid, [])) != len(hits[tid]):
            out.append(viol('undelivered', 'not every hit of %s has delivered a snapshot' % tid))
    for tid in sent:
        out.append(viol('undelivered', 'there is a snapshot of %s' % tid))
    # loggers
    loggers = [(order(n), n) for n in kind('log')]
    if python:
        loggers.append((0, 'PythonPlugin'))
    first = {n for o, n in loggers if o == min(x for x, _ in loggers)}
    lines = [r for r in records if '[deep] ' in r[1] and 'ctx=' in r[1]]
    n = len(hits['logs']) + len(hits['snap']) + len(hits['all'])
    if first == {'PythonPlugin'}:
        if len(lines) != n and plan.get('log') == 'debug':
            out.append(viol('log', '%d log messages were due, written were %d' % (n, len(lines))))
    logs = [e for e in effects if e['kind'] == 'log']
    if any(e['plugin'] not in first for e in logs):
        out.append(viol('order', 'a logger was used that is not the first: %s' % sorted({e['plugin'] for e in logs})))
    if first and 'PythonPlugin' not in first:
        per = {}
        for e in logs:
            per[e['ev']] = per.get(e['ev'], 0) + 1
        want = {}
        for tid in ('logs', 'snap', 'all'):
            for ev in hits[tid]:
                want[ev.seq] = want.get(ev.seq, 0) + 1
        if per != want:
            out.append(viol('log', 'the logger was called for %d messages, due were %d' % (sum(per.values()), n)))
    # spans
    for tid in ('span', 'mspan', 'all'):
        for ev in hits[tid]:
            got = [e for e in by_ev.get(('span_try', ev.seq), []) if e['tp'] == tid]
            check('span', [e['plugin'] for e in got], 'span', 'spans of %s' % tid)
    closed = {}
    for e in w.of('span_close'):
        closed[e['span']] = closed.get(e['span'], 0) + 1
    for e in w.of('span_open'):
        if closed.pop(e['span'], 0) != 1:
            out.append(viol('span', 'a span of %s was not closed once' % e['plugin']))
            break
    # metrics
    for tid, defs in (('metric', METRICS), ('all', METRICS[:1])):
        for ev in hits[tid]:
            got = by_ev.get(('metric', ev.seq), [])
            for m in defs:
                mine = [e for e in got if e['name'] == m['name']]
                check('metric', [e['plugin'] for e in mine], 'metric', 'metric %s of %s' % (m['name'], tid))
                if any(e['op'] != m['type'].lower() for e in mine):
                    out.append(viol('metric', 'metric %s was recorded as %s' % (m, [e['op'] for e in mine])))
    # shutdown
    check('shutdown', [e['plugin'] for e in w.of('plugin_shutdown')], None, 'shutdowns', False)
    for e in w.effects:
        if e.get('plugin') in skipped and e['kind'] not in ('plugin_new',):
            out.append(viol('skipped', '%s is not to be loaded, but did %s' % (e['plugin'], e['kind'])))
            break
    raised = {e['plugin'] for e in w.effects if e.get('raised')}
    w.nontrivial = bool(raised) and len(loaded) > 1
    w.probe('raised', sum(1 for e in w.effects if e.get('raised')))
    w.probe('loaded', len(loaded))
    w.probe('skipped', len(skipped) + len(plan.get('bad') or []))
    return out[:8]


def setting_of(cfg, env, name):
    """The setting of a built-in plugin; the simulator switches them off when the plan says nothing."""
    v = cfg.get('PLUGIN_' + name, 'False')
    if v == '__unset__':
        v = env.get('DEEP_PLUGIN_' + name)
    return v


def lost(attrs, want, where, out):
    for k, v in want.items():
        if k not in attrs or (v is not None and attrs[k] != v):
            out.append(viol('lost', '%s has no %s=%s: %s' % (where, k, v, attrs)))
            return


def _text(e):
    try:
        return str(e)
    except Exception:
        return '?'


__all__ = ['SEC', 'on_abort']
