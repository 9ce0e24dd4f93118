"""C13: registering a tracepoint in code returns a handle that removes exactly it."""
from collections import Counter

from ..common import gen_sched, gen_stall, pick, viol
from ..data import on_abort
from ..kernel import MS, SEC
from ..scene import Scene, escapes, kinds_of
from .. import plugins
from .c10 import markers
from .c12 import server

ID = 'C13'
QUICK = 1600
RULE = ('histories of register and unregister calls (also twice, from two threads at once, of a registration that was used up, '
        'after the shutdown) by one to three threads, with arguments, watches and metrics given, left out or None, with several and even identical registrations on one line or method and '
        'on lines with tracepoints of the service, with updates of the service in between and at the same time, with workers '
        'that stand still for a while, and with callers that change the objects they passed; after every step a probe '
        'program passes every location and every effect (snapshot with its watches and arguments, log, metrics) is compared '
        'with a multiset model that keeps a fire count per registration; non-trivial when an unregistered tracepoint shared '
        'its location with another registration or one of the service')
LEVEL_NOTE = ('Seeded search over histories and schedules; the model is a multiset of registrations, each with its own fire '
              'count, so a handle that removes the wrong one of two identical registrations is seen as well.')
ASSUMPTIONS = ['the registration is active, or gone, once the agent had five simulated seconds to install the change',
               'the fire count of a registration belongs to it: other registrations and updates of the service do not reset it']
OPTIONAL = ('reuse', 'served', 'config', 'env', 'net', 'stall', 'mutate', 'jumps')

BODY = '''def probe(r):
    a = r #p1
    b = a #p2
    other(b) #p3
    return b #p4
def other(r):
    c = r #o1
    return c #o2
def many(r):
    for i in range(3):
        d = i #m1
def all(r):
    probe(r)
    many(r)
def serve(take):
    n = take()
    while n is not None:
        all(n)
        n = take()
'''
MARKS = markers(BODY)
PATH = 'c13_host.py'
PLACES = sorted(MARKS) + ['probe', 'other', 'many', 'other']


EXTRA = ['team', 'watch', 'watches', 'id', 'path', 'line', 'metrics', 'metric', 'tp_id', 'name', 'custom', 'tracepoint', 'expression',
         'hash', 'enabled', 'target']


def gen_tp(rng, sig, places, code=False):
    p = pick(rng, places)
    t = {'sig': sig, 'path': PATH, 'mark': p if p in MARKS else 'p1', 'args': {}}
    a = t['args']
    if p not in MARKS:
        a['method_name'] = p
    r = rng.random()
    if r < 0.45:
        a['snapshot'] = 'no_collect'
    if r < 0.45 or rng.random() < 0.3:
        a['log_msg'] = 'mark:%s: {r}' % sig
    if rng.random() < 0.3:
        t['metrics'] = [{'name': '%s_%d' % (sig, j), 'type': pick(rng, ['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY'])}
                        for j in range(rng.randrange(1, 3))]
        if rng.random() < 0.5:
            t['metrics'][0]['labels'] = [{'key': 'k', 'static': sig}]
    t['watches'] = ["'tag:%s'" % sig] + ([pick(rng, ['r', 'nope', 'r + 1'])] if rng.random() < 0.3 else [])
    r = rng.random()
    if r < 0.6:
        a['fire_count'] = '-1'
    elif r < 0.9:
        a['fire_count'] = pick(rng, ['1', '2', '3', '5'])
    a['fire_period'] = '0'
    if rng.random() < 0.15:
        a['condition'] = pick(rng, ['r % 2 == 0', 'r > 1', 'True'])
    if rng.random() < 0.05:
        a['stage'] = 'bogus'
    if rng.random() < 0.3:
        a[pick(rng, EXTRA)] = pick(rng, ['', 'r', "'x'", 'line_start', '1', '-1', 'tp0', '\u00e9'])
    if code and rng.random() < 0.35:
        # left out, or None
        r = rng.random()
        if r < 0.5:
            t['watches'] = []
            a['sig'] = sig
        if r > 0.4 and 'metrics' not in t and 'method_name' not in a:
            t['args'] = {}
        t['omit'] = pick(rng, ['none', 'missing', 'empty'])
    return t


def gen(rng, i, tier):
    plan = {'v': 1, 'sched': gen_sched(rng, est=4000, hold=0.3, tick=pick(rng, [0, 1000])), 'log': pick(rng, ['error', 'debug']),
            'config': {'POLL_TIMER': pick(rng, [0.3, 1, 1])}}
    places = [pick(rng, PLACES) for _ in range(pick(rng, [1, 1, 2, 3]))]
    temps = [gen_tp(rng, 'r%d' % k, places, True) for k in range(pick(rng, [1, 2, 2, 3, 5]))]
    n = 0
    steps = []
    if rng.random() < 0.7:
        steps.append([[['config', 0, gen_config(rng, places, 0)]]])
    for k in range(rng.randrange(2, 8 if tier == 'quick' else 12)):
        threads = []
        for _ in range(pick(rng, [1, 1, 1, 2, 3])):
            ops = []
            for _ in range(pick(rng, [1, 1, 2, 3])):
                r = rng.random()
                ms = pick(rng, [0, 0, 0, 1, 5, 300])
                if r < 0.45 or not n:
                    ops.append(['add', ms, n, rng.randrange(len(temps))])
                    n += 1
                elif r < 0.85:
                    ops.append(['remove', ms, rng.randrange(n), pick(rng, [1, 1, 1, 2])])
                else:
                    ops.append(['config', ms, gen_config(rng, places, k + 1)])
            threads.append(ops)
        if len(threads) > 1 and n and rng.random() < 0.3:
            k2 = rng.randrange(n)
            for ops in threads[:2]:
                ops.insert(0, ['remove', 0, k2, 1])
        steps.append(threads)
    plan['temps'] = temps
    if rng.random() < 0.3:
        plan['reuse'] = 1
    plan['steps'] = steps
    if rng.random() < 0.3:
        plan['mutate'] = 1
    if rng.random() < 0.4:
        plan['served'] = rng.randrange(1, 1 << len(steps))
    if rng.random() < 0.4:
        plan['stall'] = gen_stall(rng, ms=[5, 300, 1000], who=pick(rng, [['ThreadPool'], ['ThreadPool', 'Tracepoint', 'actor']]))
    if rng.random() < 0.3:
        plan['net'] = {'lat': pick(rng, [[0, 0], [1, 30], [10, 400]])}
    return plan


def gen_config(rng, places, k):
    if rng.random() < 0.2:
        return []
    out = []
    for j in range(rng.randrange(1, 4)):
        t = gen_tp(rng, 's%d_%d' % (k, j), places)
        t['id'] = 't%d' % j
        t['args']['fire_count'] = '-1'
        out.append(t)
    return out


def run(w, plan):
    w.nontrivial = False
    w.load_agent()
    from deep.api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
    sim = w.sim
    for_all = {}
    kept = {}

    def placed(t):
        return dict(t, line=MARKS[t['mark']])
    sc = Scene(w, dict(plan, prog={'mods': [], 'main': []}, tps=[])).prepare()
    host = w.host_module('/app/src/' + PATH, BODY, {})
    names = w.install_plugins([plugins.RECORDER])
    sim.off = False
    sc.deep = deep = w.start_agent(PLUGINS=names)
    sc.settle(1)
    sim.arm()
    out = []
    regs = {}               # number -> [handle, template, live, fires]
    service = [[]]
    share = [False]

    def add(k, t):
        args, watches = dict(t['args']), list(t['watches'])
        ms = [MetricDefinition(m['name'], m['type'], [LabelExpression(x['key'], x['static'], None) for x in m.get('labels') or []],
                               None, None, None, None) for m in t.get('metrics') or []]
        if plan.get('reuse') and not plan.get('mutate'):
            # one caller, one set of objects
            args, watches, ms = kept.setdefault(t['sig'], (args, watches, ms))
        pos, kw = given(t, args, watches, ms)
        try:
            h = deep.register_tracepoint(t['path'], t['line'], *pos, **kw)
        except BaseException as e:
            out.append(viol('raised', 'register_tracepoint raised %s: %s' % (type(e).__name__, e)))
            return
        if any(h is r[0] for r in regs.values()):
            out.append(viol('handle', 'two registrations have one handle'))
        regs[k] = [h, t, True, 0]
        w.effect('registered', n=k)
        if plan.get('mutate'):
            args['fire_count'] = '0'
            args['log_msg'] = 'mark:changed: '
            args.pop('method_name', None)
            watches.append("'changed'")
            ms.append(MetricDefinition('changed_0', 'COUNTER', [], None, None, None, None))

    def remove(k, times):
        r = regs.get(k)
        if r is None:
            return
        if r[2] and (any(o is not r and o[2] and at_same(o[1], r[1]) for o in list(regs.values()))
                     or any(at_same(t, r[1]) for t in service[0])):
            share[0] = True
        for _ in range(times):
            try:
                r[0].unregister()
            except BaseException as e:
                out.append(viol('raised', 'unregister raised %s: %s' % (type(e).__name__, e)))
        r[2] = False
        w.effect('unregistered', n=k)

    def act(ops):
        for op in ops:
            if op[1]:
                sim.sleep(op[1] * MS)
            if op[0] == 'add':
                add(op[2], placed(plan['temps'][op[3]]))
            elif op[0] == 'remove':
                remove(op[2], op[3])
            else:
                for_all['n'] = for_all.get('n', 0) + 1
                service[0] = [placed(t) for t in op[2]]
                w.service.set_config(service[0], 'h%d' % for_all['n'])
    probes = []
    old = server(w, host.serve)
    for n, threads in enumerate(plan['steps']):
        waits = []
        for ops in threads:
            done = w.threading.Event()

            def body(ops=ops, done=done):
                try:
                    act(ops)
                finally:
                    done.set()
            waits.append(done)
            sim.start_task(sim._new_task('actor', 'other'), body, (), {})
        for done in waits:
            done.wait()
        sim.sleep(8 * SEC)
        probe(w, host, old if plan.get('served', 0) >> n & 1 else None, n, regs, service[0], probes)
    old(None)
    w.nontrivial = share[0]
    try:
        deep.shutdown()
    except BaseException as e:
        out.append(viol('raised', 'shutdown raised %s: %s' % (type(e).__name__, e)))
    for k in sorted(regs):
        remove(k, 2)
    w.finish()
    escapes(w, out)
    judge(w, sc, probes, out)
    return out[:8]


def given(t, args, watches, ms):
    style = t.get('omit')
    if style is None:
        return (args, watches, ms), {}
    if style == 'empty':
        return (args,), {'metrics': ms, 'watches': watches}
    if style == 'none':
        return (args or None, watches or None, ms or None), {}
    return (), {k: v for k, v in (('args', args), ('watches', watches), ('metrics', ms)) if v}


def at_same(a, b):
    return (a['line'], a['args'].get('method_name')) == (b['line'], b['args'].get('method_name'))


def probe(w, host, old, n, regs, service, probes):
    sim = w.sim
    start, mark = sim.clock, len(w.events)
    if old is not None:
        # a thread that is as old as the agent
        tid = old(n)
    else:
        t = w.threading.Thread(target=host.all, args=(n,))
        t.start()
        tid = max(x.tid for x in sim.tasks if x.ident == t.ident)
        t.join()
    evs = [ev for ev in w.events[mark:] if ev.tid == tid]
    want = []
    for ev in evs:
        for t, r in [(t, None) for t in service] + [(r[1], r) for r in regs.values() if r[2]]:
            a = t['args']
            if a.get('stage') == 'bogus' or not Scene.at(t, ev):
                continue
            limit = int(a.get('fire_count', '1'))
            if r is not None and limit != -1 and r[3] >= limit:
                continue
            if 'condition' in a and not eval(a['condition'], {'r': n}):
                continue
            if r is not None:
                r[3] += 1
            want.append((t, ev.seq))
    probes.append((n, start, sim.clock, {ev.seq for ev in evs}, want))


def judge(w, sc, probes, out):
    snaps = {}
    for m, ev, e in sc.collect():
        if ev is not None:
            snaps.setdefault(ev.seq, []).append(m)
    others = {}
    for e in w.of('log', 'metric'):
        if e['ev'] is not None:
            others.setdefault(e['ev'], []).append(e)
    for n, start, stop, seqs, want in probes:
        if any(a <= stop and b >= start - 4 * SEC for a, b in w.sim.stalled):
            # later budgets depend on what acted here
            w.probe('unsettled')
            return
        expect, got = Counter(), Counter()
        for t, seq in want:
            a = t['args']
            ks = kinds_of(t)
            if 'snapshot' in ks:
                expect['snapshot', tag_of(t['watches'], a), seq] += 1
            if 'log' in ks or 'slog' in ks:
                expect['log', 'mark:%s: %s' % (t['sig'], n), seq] += 1
            for m in t.get('metrics') or []:
                expect['metric', m['name'], m['type'].lower(), str({x['key']: x['static'] for x in m.get('labels') or []}), seq] += 1
            for m in snaps.get(seq, ()):
                if tag(m) == tag_of(t['watches'], a):
                    given = (dict(a), list(t['watches']), t['line'], t['path'])
                    has = (dict(m.tracepoint.args), list(m.tracepoint.watches), m.tracepoint.line_number, m.tracepoint.path)
                    if given != has:
                        out.append(viol('given', 'the tracepoint of the snapshot is %s, given were %s' % (has, given)))
                    ws = [r.expression for r in m.watches if r.source == 0]
                    if ws != given[1]:
                        out.append(viol('given', 'the watches of the snapshot are %s, given were %s' % (ws, given[1])))
        for seq in seqs:
            for m in snaps.get(seq, ()):
                got['snapshot', tag(m), seq] += 1
            for e in others.get(seq, ()):
                if e['kind'] == 'log':
                    got['log', e['msg'].replace('[deep] ', ''), seq] += 1
                else:
                    got['metric', e['name'], e['op'], str(dict(e['labels'] or {})), seq] += 1
        w.probe('probed')
        if expect != got:
            out.append(viol('active', 'after step %d: missing %s; unexpected %s' % (
                n, sorted((expect - got).elements(), key=str)[:4], sorted((got - expect).elements(), key=str)[:4])))
            return


def tag(m):
    return tag_of(m.tracepoint.watches, m.tracepoint.args)


def tag_of(watches, args):
    for wt in watches:
        if wt.startswith("'tag:"):
            return wt[5:-1]
    return args['sig'] if 'sig' in args else None


__all__ = ['on_abort']
