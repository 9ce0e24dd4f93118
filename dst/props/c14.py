"""C14: hooks are installed once and restored exactly; shutdown always completes."""
from ..common import gen_sched, gen_stall, pick, viol
from ..data import on_abort
from ..kernel import DONE, MS, SEC
from ..scene import Scene, UNLIMITED, escapes
from .c10 import markers

ID = 'C14'
QUICK = 2400
RULE = ('histories of start and shutdown calls (repeated, restarted, of one or two agents in one process, in any order) with any '
        'combination of trace functions that are there before or are changed meanwhile (sys and threading, the same or '
        'different ones), tracing enabled or disabled in code or by the environment, program threads that keep running across '
        'the shutdown, with failing and slow sends, polls and plugins during the shutdown, and threads that stand still for a '
        'while; hooks, polls, deliveries, plugin shutdowns and effects are compared with a model after every call; '
        'non-trivial when a shutdown had pending or failing work or foreign hooks')
LEVEL_NOTE = ('Seeded search over lifecycles, configurations, faults and schedules; the hooks are those of the simulated '
              'interpreter (sys and threading), every call that changes them is seen.')
ASSUMPTIONS = ['work that a thread is in the middle of when shutdown is called may still be finished by that thread',
               'spans that are open when shutdown is called may be closed afterwards',
               'an agent is started and shut down on the same thread',
               'a send or a poll ends in bounded time (a service that never answers is not modelled)']
OPTIONAL = ('config', 'env', 'net', 'stall', 'jumps', 'fail', 'delay', 'busy')

BODY = '''import time
def hit(r):
    a = r #p1
    return a #p2
def busy(n, gap, r):
    for i in range(n):
        hit(r)
        time.sleep(gap)
def burst(n):
    for i in range(n):
        hit(i)
def slow(gap, r):
    a = r #s1
    time.sleep(gap) #s2
    hit(r)
    return a #s3
'''
MARKS = markers(BODY)
PATH = 'c14_host.py'
EXCS = ['ValueError', 'SystemExit', 'KeyboardInterrupt', 'InjectedBase', 'GeneratorExit', 'OSError']
TRUE = [True, 'True', 'true', '1', 'yes', 't']
FALSE = [False, 'False', 'false', '0', 'no', None, '__unset__']


def gen(rng, i, tier):
    plan = {'v': 1, 'sched': gen_sched(rng, est=3000, hold=0.2, tick=pick(rng, [0, 1000])), 'log': pick(rng, ['error', 'debug'])}
    two = rng.random() < 0.2
    plan['agents'] = []
    for k in range(2 if two else 1):
        a = {'poll': pick(rng, [0.5, 1, 5])}
        if rng.random() < 0.3:
            a['no_trace'] = pick(rng, TRUE)
            if rng.random() < 0.3 and not two:
                a['no_trace'] = '__unset__'
                plan['env'] = {'DEEP_NO_TRACE': pick(rng, ['true', '1', 'True', 'false', '0'])}
        elif rng.random() < 0.5:
            a['no_trace'] = pick(rng, FALSE)
        specs = []
        for j in range(pick(rng, [0, 1, 2, 3])):
            s = {'name': 'P%d_%d' % (k, j), 'kinds': [pick(rng, ['deco', 'span', 'res', 'metric'])], 'order': rng.randrange(-200, 50)}
            r = rng.random()
            if r < 0.55:
                s['fail'] = {'shutdown': {'exc': pick(rng, EXCS), 'on': 'all'}}
            elif r < 0.7:
                s['delay'] = {'shutdown': pick(rng, [0.5, 3])}
            elif r < 0.8:
                s['active'] = False
            specs.append(s)
        if rng.random() < 0.2:
            a['fail'] = {'shutdown': {'exc': pick(rng, EXCS), 'on': 'all'}}
        a['specs'] = specs
        plan['agents'].append(a)
    ops = []
    if rng.random() < 0.5:
        ops.append(['hooks', pick(rng, ['A', 'A', 'B', None]), pick(rng, ['A', 'B', 'C', None])])
    ups = [0] * len(plan['agents'])
    for _ in range(rng.randrange(3, 12)):
        k = rng.randrange(len(ups))
        r = rng.random()
        if r < 0.3:
            ops.append(['start', k])
        elif r < 0.52:
            if rng.random() < 0.35:
                ops.append(['burst', pick(rng, [2, 4]), pick(rng, [3, 12])])
            ops.append(['shutdown', k])
        elif r < 0.72:
            ops.append([pick(rng, ['hit', 'hit', 'hit', 'hitmain']), 0])
        elif r < 0.82:
            ops.append(['sleep', pick(rng, [1, 30, 500, 2000, 7000])])
        elif r < 0.88:
            ops.append(['hooks', pick(rng, ['A', 'B', None, 'keep', 'keep']), pick(rng, ['A', 'C', None, 'keep', 'keep'])])
        elif r < 0.94:
            ops.append(['config', pick(rng, [0, 1, 2])])
        else:
            ops.append([pick(rng, ['busy', 'slow']), pick(rng, [3, 20]), pick(rng, [0.01, 0.4, 3])])
    plan['ops'] = ops
    fs, ss = [], []
    for _ in range(rng.randrange(0, 14)):
        r = rng.random()
        fs.append({} if r < 0.5 else {'t': 'slow', 'ms': pick(rng, [300, 2000, 9000])} if r < 0.7 else {
            't': pick(rng, ['error_before', 'error_after', 'garbage'])} if r < 0.85 else {'t': 'exc', 'exc': pick(rng, ['OSError', 'ValueError'])})
    for _ in range(rng.randrange(0, 12)):
        r = rng.random()
        ss.append({} if r < 0.4 else {'t': 'slow', 'ms': pick(rng, [300, 4000, 15000])} if r < 0.7 else {
            't': pick(rng, ['error_before', 'error_after', 'garbage'])} if r < 0.85 else {'t': 'exc', 'exc': pick(rng, ['OSError', 'ValueError'])})
    plan['net'] = {'poll': fs, 'send': ss, 'lat': pick(rng, [[0, 0], [1, 1], [5, 300]])}
    if rng.random() < 0.2:
        plan['net']['poll_tail'] = {'t': pick(rng, ['error_before', 'garbage'])}
    if rng.random() < 0.15:
        plan['net']['send_tail'] = {'t': pick(rng, ['error_before', 'exc'])}
    if rng.random() < 0.3:
        plan['stall'] = gen_stall(rng, ms=[5, 500, 3000], who=pick(rng, [['ThreadPool'], ['Tracepoint'], ['ThreadPool', 'Tracepoint', 'Thread-']]))
    return plan


def hooks_of(names):
    def make(n):
        def hook(frame, event, arg):
            return None
        hook.__name__ = hook.__qualname__ = 'hook_' + n
        return hook
    return {n: make(n) for n in names}


def off(a, env):
    """Is tracing disabled by the configuration?"""
    v = a.get('no_trace')
    if v == '__unset__' or v is None:
        v = (env or {}).get('DEEP_NO_TRACE', False)
    return v is True or str(v).lower() in ('yes', 'true', 't', '1', 'y')


class Agent:
    def __init__(self, k, spec, env):
        self.k = k
        self.spec = spec
        self.specs = [dict({'name': 'REC%d' % k, 'kinds': ['log', 'deco', 'span', 'metric'], 'order': -100},
                           **({'fail': spec['fail']} if spec.get('fail') else {}))] + spec.get('specs', [])
        self.off = off(spec, env)
        self.deep = None
        self.up = False
        self.saved = None
        self.evs = 0
        self.own = None
        self.mark = 0
        self.down_at = None         # (clock, step, effects, events) when the last shutdown returned


def run(w, plan):
    w.nontrivial = False
    w.load_agent()
    sim = w.sim
    sys_, th = w.mods.map['sys'], w.threading
    sc = Scene(w, dict(plan, prog={'mods': [], 'main': []}, tps=[])).prepare()
    host = w.host_module('/app/src/' + PATH, BODY, {})
    tps = []
    for n, (mark, args) in enumerate([('p1', {'log_msg': 'L'}), ('p2', {'span': 'line', 'snapshot': 'no_collect', 'log_msg': 'M'}),
                                      ('s1', {'method_name': 'slow', 'stage': 'method_capture'}),
                                      ('s1', {'method_name': 'slow', 'span': 'method', 'snapshot': 'no_collect'})]):
        tps.append({'id': 't%d' % n, 'path': PATH, 'line': MARKS[mark], 'args': dict(args, **UNLIMITED)})
    confs = [tps, tps[:2], []]
    offered = [confs[0]]
    w.service.set_config(tps, 'h0')
    env = plan.get('env')
    agents = [Agent(k, a, env) for k, a in enumerate(plan['agents'])]
    names = w.install_plugins([s for a in agents for s in a.specs])
    hooks = hooks_of('ABC')
    changes = []            # changes of the trace function of the main thread
    changed = sim.trace_changed
    last = [None]

    def trace_changed(fn):
        if sim.current.tid == 0:
            if not same_one(fn, last[0]):
                changes.append(fn)
            last[0] = fn
        changed(fn)
    sim.trace_changed = trace_changed
    out = []
    sim.off = False
    sim.arm()

    def now():
        return sys_.gettrace(), th.gettrace()

    def start(a):
        before = now()
        n = len(changes)
        loaded = len(w.of('plugin_new'))
        if a.up:
            try:
                a.deep.start()
            except BaseException as e:
                out.append(viol('raised', 'a repeated start raised %s: %s' % (type(e).__name__, e)))
            if not same(now(), before) or len(changes) > n:
                out.append(viol('repeat', 'a repeated start changed the hooks from %s to %s' % (text(before), text(now()))))
            if len(w.of('plugin_new')) > loaded:
                out.append(viol('repeat', 'a repeated start loaded the plugins again'))
            return
        mark = len(w.effects)
        cfg = {'PLUGINS': [x for x in names if x.startswith('dst_plugins.REC%d' % a.k) or x.startswith('dst_plugins.P%d_' % a.k)],
               'SERVICE_URL': url(a.k), 'POLL_TIMER': a.spec['poll']}
        if 'no_trace' in a.spec and a.spec['no_trace'] != '__unset__':
            cfg['NO_TRACE'] = a.spec['no_trace']
        try:
            if a.deep is None:
                a.deep = w.start_agent(**cfg)
            else:
                a.deep.start()
        except BaseException as e:
            out.append(viol('raised', '%s raised %s: %s' % ('start' if a.down_at is None else 'start after a shutdown',
                                                            type(e).__name__, e)))
            return
        a.up, a.mark, a.saved, a.own, a.evs = True, mark, before, now(), len(w.events)
        if a.off:
            if not same(now(), before) or len(changes) > n:
                out.append(viol('disabled', 'tracing is disabled, start changed the hooks from %s to %s' % (text(before), text(now()))))
        elif now()[0] is None or now()[1] is None or any(same_one(x, y) and not (a.own and same_one(x, a.own[j]))
                                                         for j, (x, y) in enumerate(zip(now(), before))):
            # (the hooks of this agent may have come back when another agent was shut down)
            out.append(viol('install', 'start installed no hooks: before %s, after %s' % (text(before), text(now()))))

    def shutdown(a):
        if a.deep is None:
            return
        before = now()
        n = len(changes)
        mark = len(w.effects)
        was = a.up
        pending = [p for p in w.of('send', 'poll') if 'done_at' not in p]
        # what events that are over have collected
        due = [e for e in w.effects[a.mark:] if e['kind'] == 'decorate' and e['plugin'] == 'REC%d' % a.k and e['ev'] is not None and
               e['ev'] >= a.evs and w.events[e['ev']].kind == 'line' and getattr(w.events[e['ev']], 'c1', None) is not None]
        t0 = sim.clock
        try:
            a.deep.shutdown()
        except BaseException as e:
            out.append(viol('raised', 'shutdown raised %s: %s' % (type(e).__name__, e)))
        if a.deep.started:
            out.append(viol('state', 'the agent is still started after its shutdown'))
        if not was:
            if not same(now(), before) or len(changes) > n:
                out.append(viol('repeat', 'a repeated shutdown changed the hooks from %s to %s' % (text(before), text(now()))))
            if any(e['kind'] == 'plugin_shutdown' and mine(e, a) for e in w.effects[mark:]):
                out.append(viol('repeat', 'a repeated shutdown shut down plugins again'))
            return
        want = before if a.off else a.saved
        if not same(now(), want) or (a.off and len(changes) > n):
            out.append(viol('restore', 'after shutdown the hooks are %s, %s %s' % (
                text(now()), 'tracing is disabled, before they were' if a.off else 'before start they were', text(want))))
        a.up = False
        a.down_at = (sim.clock, sim.step, len(w.effects), len(w.events))
        for x in sim.tasks:
            if x.state != DONE and x.name == 'Tracepoint Long Poll' and sum(b.up for b in agents) < sum(
                    y.state != DONE and y.name == x.name for y in sim.tasks):
                out.append(viol('polling', 'the poll thread is still there after shutdown'))
                break
        for p in w.of('send', 'poll'):
            if p['target'] == url(a.k) and 'done_at' not in p:
                out.append(viol('drain', 'a %s was still in progress when shutdown returned' % p['kind']))
                break
        loaded = [e['plugin'] for e in w.effects[a.mark:] if e['kind'] == 'plugin_new' and mine(e, a)]
        inactive = {s['name'] for s in a.specs if s.get('active') is False}
        got = [e['plugin'] for e in w.effects[a.mark:] if e['kind'] == 'plugin_shutdown' and mine(e, a)]
        if sorted(got) != sorted(x for x in loaded if x not in inactive):
            out.append(viol('plugins', 'the plugins %s were loaded (%s are not active), shut down were %s' % (
                loaded, sorted(inactive), got)))
        # everything that was collected by then was sent
        sent = set()
        for e in w.effects[a.mark:]:
            if e['kind'] == 'send' and e['target'] == url(a.k):
                sent.add(sid_of(e))
        for e in due:
            # (an event that was in progress when the agent was started again belongs to its former life)
            if e['snapshot'].zfill(32) not in sent:
                out.append(viol('drain', 'the snapshot collected at %s was never sent' % w.events[e['ev']].brief()))
                break
        slow = [p for p in w.of('send', 'poll') if p['target'] == url(a.k) and p.get('done_at', t0) >= t0 and p['fault']]
        if pending or slow or any(x is not None for x in a.saved) or any('shutdown' in (s.get('fail') or {}) for s in a.specs):
            w.nontrivial = True
        w.probe('shutdowns')

    versions = [0]
    rounds = [0]
    for op in plan['ops']:
        if len(out) > 3:
            break
        what = op[0]
        if what == 'start':
            start(agents[op[1]])
        elif what == 'shutdown':
            shutdown(agents[op[1]])
        elif what == 'hooks':
            if op[1] != 'keep':
                sys_.settrace(hooks[op[1]] if op[1] else None)
            if op[2] != 'keep':
                th.settrace(hooks[op[2]] if op[2] else None)
        elif what == 'sleep':
            sim.sleep(op[1] * MS)
        elif what == 'config':
            versions[0] += 1
            offered[0] = confs[op[1]]
            w.service.set_config(confs[op[1]], 'h%d' % versions[0])
        elif what in ('hit', 'hitmain'):
            rounds[0] += 1
            mark = len(w.effects)
            if what == 'hit':
                t = th.Thread(target=host.hit, args=(rounds[0],))
                t.start()
                t.join()
            else:
                w.host_call(host.hit, rounds[0])
            logs = [e for e in w.effects[mark:] if e['kind'] == 'log']
            for a in agents:
                if a.deep is not None and (a.off or not a.up) and any(mine(e, a) for e in logs):
                    if all(in_flight(w, e, a) for e in logs if mine(e, a)):
                        continue
                    out.append(viol('acts', 'agent %d %s, but acted: %s' % (
                        a.k, 'has tracing disabled' if a.off else 'is shut down', logs[-1]['msg'])))
        elif what == 'burst':
            # program threads that are in the middle of their events when the next call is made
            for _ in range(op[1]):
                th.Thread(target=host.burst, args=(op[2],)).start()
        elif what == 'busy':
            th.Thread(target=host.busy, args=(op[1], op[2], 0)).start()
        elif what == 'slow':
            th.Thread(target=host.slow, args=(op[2], 0)).start()
    # in the end every agent is shut down; and one that has its hooks in place acts until then
    alone = [a for a in agents if a.up]
    if len(alone) == 1 and not alone[0].off and not out and offered[0] and same(now(), alone[0].own):
        sim.sleep(60 * SEC)
        ok = [p for p in w.of('poll') if p['target'] == url(alone[0].k) and 'delivered_at' in p]
        if ok and not any(b >= sim.clock - 5 * SEC for _, b in sim.stalled):
            last = [p for p in ok if p.get('resp') == 'update'][-1:]
            if last and last[0]['resp_tps']:
                mark = len(w.effects)
                t = th.Thread(target=host.hit, args=(99,))
                t.start()
                t.join()
                if not any(e['kind'] == 'log' and mine(e, alone[0]) for e in w.effects[mark:]):
                    out.append(viol('inert', 'the agent is started and has tracepoints, but does not act'))
                w.probe('lives')
    for a in agents[::-1]:
        if a.up:
            shutdown(a)
    sim.sleep(60 * SEC)
    w.finish()
    escapes(w, out)
    lives(w, plan, agents, out)
    return out[:8]


def url(k):
    return 'svc%d:1' % k


def mine(e, a):
    p = e.get('plugin', '')
    return p == 'REC%d' % a.k or p.startswith('P%d_' % a.k)


def same_one(x, y):
    return x is y or (x is not None and y is not None and x == y)


def same(x, y):
    return same_one(x[0], y[0]) and same_one(x[1], y[1])


def text(h):
    return '(sys: %s, threading: %s)' % tuple(getattr(x, '__qualname__', getattr(x, '__name__', x)) for x in h)


def sid_of(e):
    from ..truth import parse
    return parse(e['data']).ID.hex()


def in_flight(w, e, a):
    """Did the event of this effect start before the shutdown had returned?"""
    if a.down_at is None or e['ev'] is None:
        return False
    return e['ev'] < a.down_at[3]


def lives(w, plan, agents, out):
    """Nothing happens outside the life of an agent."""
    for a in agents:
        spans = []              # the lives: [from effect, to effect]
        depth = None
        for e in w.effects:
            if e['kind'] == 'plugin_new' and e['plugin'] == 'REC%d' % a.k:
                depth = e['i']
                spans.append([depth, None])
        if not spans or a.down_at is None or a.up:
            continue
        last = a.down_at[2]
        if spans[-1][0] >= last:
            continue
        for e in w.effects[last:]:
            if e['kind'] in ('log', 'metric', 'span_open', 'span_try', 'decorate', 'plugin_shutdown') and mine(e, a):
                if e['kind'] != 'plugin_shutdown' and in_flight(w, e, a):
                    continue
                out.append(viol('afterwards', 'after its shutdown the agent did: %s' % {k: v for k, v in e.items() if k in (
                    'kind', 'plugin', 'msg', 'clock', 'tid')}))
                break
            if e['kind'] in ('poll', 'send') and e['target'] == url(a.k):
                out.append(viol('afterwards', 'after its shutdown the agent made the call %s' % e['kind']))
                break


__all__ = ['on_abort']
