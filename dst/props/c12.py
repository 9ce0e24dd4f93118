"""C12: once activity settles, exactly the latest configuration of the service and the registered tracepoints act."""
from collections import Counter

from ..common import gen_sched, gen_stall, pick, subset, viol
from ..data import on_abort as big
from ..kernel import MS, SEC
from ..scene import Scene, UNLIMITED, escapes
from .c10 import markers

ID = 'C12'
QUICK = 1600
RULE = ('histories of configurations that the service offers (new, changed under the same ids, empty, repeated, reverted to '
        'an earlier one, under a hash that was used before, sent although nothing changed) and of register and unregister '
        'calls from several threads, while polls are lost, answered too late, answered with garbage, an unknown kind of answer or a misleading '
        '"no change", stamped by a skewed or jumping clock, fail in the agent itself (credentials, no thread for the work), '
        'and while the two workers are kept busy by slow deliveries; a probe program passes every location whenever things '
        'have settled and the set of tracepoints that act is compared with a model of the answers that arrived; the hash in '
        'every poll and the time between polls are compared with the model as well; non-trivial when two or more different '
        'configurations arrived')
LEVEL_NOTE = ('Seeded search over histories, faults and schedules of the poll thread, the workers and the program; the '
              'expected configuration is taken from the answers that the simulated service really delivered.')
ASSUMPTIONS = ['settled means that no answer arrived and no call was made for five simulated seconds and no delivery is waiting',
               'the next poll starts within one interval (and two seconds) of the end of the previous one',
               'an update that could not be handed to the workers (no thread could be started) counts as not arrived']
OPTIONAL = ('config', 'env', 'net', 'fail', 'delay', 'jumps', 'read_jumps', 'thread_fail', 'auth_fail', 'stall', 'served', 'busy')

BODY = '''import time
def probe(r):
    a = r #p1
    b = a #p2
    other(b) #p3
    return b #p4
def other(r):
    c = r #o1
    return c #o2
def busy(n, gap):
    for i in range(n):
        probe(-1)
        time.sleep(gap)
def serve(take):
    n = take()
    while n is not None:
        probe(n)
        n = take()
'''
MARKS = markers(BODY)
PATH = 'c12_host.py'


def gen_tp(rng, name, ver):
    t = {'id': name, 'path': PATH, 'args': {'log_msg': 'mark:%s:%s:' % (name, ver)}}
    a = t['args']
    r = rng.random()
    if r < 0.7:
        t['mark'] = pick(rng, sorted(MARKS))
    else:
        t['mark'] = 'p1'
        a['method_name'] = pick(rng, ['probe', 'other'])
    if rng.random() < 0.25:
        t['watches'] = [pick(rng, ['1', 'r', 'nope'])]
    if rng.random() < 0.75:
        a['snapshot'] = 'no_collect'
    return t


def gen_config(rng, k, before):
    """A configuration: mostly new versions of the same few ids."""
    r = rng.random()
    if r < 0.1:
        return []
    if before and r < 0.25:
        return [dict(t) for t in pick(rng, before)]
    out = []
    for n in range(rng.randrange(1, 6)):
        if before and pick(rng, before) and rng.random() < 0.3:
            prev = pick(rng, before)
            out.append(dict(pick(rng, prev)) if prev else gen_tp(rng, 't%d' % n, 'v%d' % k))
        else:
            out.append(gen_tp(rng, 't%d' % rng.randrange(4), 'v%d' % k))
    seen, res = set(), []
    for t in out:
        key = (t['id'], t['args']['log_msg'])
        if key in seen:
            continue
        seen.add(key)
        res.append(t)
    if rng.random() < 0.08:
        res.insert(rng.randrange(len(res) + 1), {'id': 'bad', 'path': PATH, 'mark': 'p1', 'args': {'stage': 'bogus', 'log_msg': 'mark:bad:x:'}})
    return res


def gen(rng, i, tier):
    interval = pick(rng, [0.25, 0.5, 1, 1, 2, 3])
    plan = {'v': 1, 'sched': gen_sched(rng, est=5000, hold=0.3, tick=pick(rng, [0, 1000])), 'log': pick(rng, ['error', 'debug']),
            'config': {'POLL_TIMER': interval}}
    configs = []
    phases = []
    handles = 0
    for p in range(rng.randrange(1, 4)):
        ops = []
        for _ in range(rng.randrange(0, 5)):
            k = len(configs) + 1
            c = gen_config(rng, k, configs)
            configs.append(c)
            h = 'h%d' % (k if rng.random() < 0.85 else rng.randrange(1, k + 1))
            if rng.random() < 0.04:
                h = ''
            ops.append([int(rng.random() * 6 * interval * 1000), 'config', len(configs) - 1, h])
        for _ in range(pick(rng, [0, 0, 1, 2, 3, 5])):
            at = int(rng.random() * 6 * interval * 1000)
            if ops and rng.random() < 0.4:
                at = pick(rng, ops)[0] + pick(rng, [0, 0, 1, 2, int(interval * 1000)])
            if rng.random() < 0.6 or not handles:
                ops.append([at, 'add', handles, gen_tp(rng, 'c%d' % handles, 'x')])
                handles += 1
            else:
                ops.append([at, 'remove', rng.randrange(handles), None])
        if p and rng.random() < 0.2:
            ops = [o for o in ops if o[1] != 'config']
        phases.append(sorted(ops, key=lambda o: o[0]))
    plan['configs'] = configs
    plan['phases'] = phases
    plan['first'] = rng.random() < 0.5         # a configuration that is there from the start
    polls = []
    style = rng.random()
    for _ in range(rng.randrange(0, 30)):
        f = {}
        r = rng.random()
        if r < (0.15 if style < 0.6 else 0.5):
            f['t'] = pick(rng, ['error_before', 'error_after', 'exc', 'garbage', 'slow', 'slow', 'truncated'])
            if f['t'] == 'exc':
                f['exc'] = pick(rng, ['ValueError', 'OSError', 'KeyError', 'RuntimeError'])
            if f['t'] == 'slow':
                f['ms'] = pick(rng, [300, 1500, 5000, 9000])
        r = rng.random()
        if r < 0.12:
            f['mode'] = pick(rng, ['no_change', 'update', 'update', 'unknown'])
            if f['mode'] == 'no_change' and rng.random() < 0.5:
                f['empty_hash'] = True
        if rng.random() < 0.15:
            f['ts'] = pick(rng, [-10**18, -5 * SEC, 5 * SEC, 10**18, 'zero'])
        if rng.random() < 0.2:
            f['lat'] = pick(rng, [0, 20, 700])
        polls.append(f)
    sends = []
    for _ in range(rng.randrange(0, 8)):
        r = rng.random()
        sends.append({'t': 'slow', 'ms': pick(rng, [500, 3000])} if r < 0.5 else {'t': pick(rng, ['error_before', 'exc'])} if r < 0.6 else {})
    plan['net'] = {'poll': polls, 'send': sends}
    if rng.random() < 0.5:
        plan['busy'] = [[pick(rng, [1, 2, 4, 6]), pick(rng, [0, 0.01, 0.3, 1])] for _ in range(rng.randrange(1, 3))]
    if rng.random() < 0.15:
        plan['thread_fail'] = sorted({rng.randrange(0, 4) for _ in range(rng.randrange(1, 3))})
    if rng.random() < 0.2:
        plan['jumps'] = sorted([rng.randrange(0, int(20 * interval * 1000)), pick(rng, [-3600000, -700, 900, 5000, 86400000])]
                               for _ in range(rng.randrange(1, 4)))
    if rng.random() < 0.5:
        plan['stall'] = gen_stall(rng, ms=[5, int(interval * 1000), int(interval * 2200), int(interval * 600)],
                                  who=pick(rng, [['ThreadPoolExecutor'], ['ThreadPoolExecutor', 'Tracepoint', 'actor']]))
    if rng.random() < 0.5:
        plan['served'] = 1
    if rng.random() < 0.15:
        plan['auth_fail'] = sorted({rng.randrange(0, 12) for _ in range(rng.randrange(1, 5))})
    return plan


def run(w, plan):
    w.nontrivial = False
    w.load_agent()
    sim = w.sim
    marks = markers(BODY)

    def placed(t):
        return dict(t, line=marks[t['mark']], args=dict(t['args'], **UNLIMITED))
    configs = [[placed(t) for t in c] for c in plan['configs']]
    sc = Scene(w, dict(plan, prog={'mods': [], 'main': []}, tps=[]), UNLIMITED).prepare()
    host = w.host_module('/app/src/' + PATH, BODY, {})
    for at, delta in plan.get('jumps') or []:
        sim.wall_jumps.append((at * MS, delta * MS))
        sim.count_fault('clock_jump')
    started = [0]
    failed_threads = []
    fails = plan.get('thread_fail') or []
    spawn = sim.spawn

    def failing_spawn(fn, args, kwargs=None, name=None):
        if name and name.startswith(('ThreadPoolExecutor', 'Deep')):
            n = started[0]
            started[0] += 1
            if n in fails:
                sim.count_fault('no_thread')
                failed_threads.append(sim.clock)
                raise RuntimeError("can't start new thread")
        return spawn(fn, args, kwargs, name)
    sim.spawn = failing_spawn
    over = {}
    if plan.get('auth_fail'):
        import sys
        import types
        mod = types.ModuleType('c12_auth')
        calls = [0]

        class Provider:
            def __init__(self, config):
                pass

            def provide(self):
                n = calls[0]
                calls[0] += 1
                if n in plan['auth_fail']:
                    sim.count_fault('auth')
                    raise OSError('no credentials')
                return [('x-k', 'v')]
        mod.Provider = Provider
        Provider.__module__ = 'c12_auth'
        sys.modules['c12_auth'] = mod
        over['SERVICE_AUTH_PROVIDER'] = 'c12_auth.Provider'
    from .. import plugins
    out = []
    names = w.install_plugins([plugins.RECORDER])
    if plan['first'] and configs:
        w.service.set_config(configs[0], 'h1')
    sim.off = False
    try:
        deep = w.start_agent(PLUGINS=names, **over)
    except BaseException as e:
        return [viol('start', 'a failing poll made start fail: %s: %s' % (type(e).__name__, e))]
    sc.deep = deep
    sim.arm()
    handles = {}
    live = {}
    broken = set()
    lock = w.threading.Lock()

    def at_work(ops):
        t0 = sim.clock
        for at, what, k, x in ops:
            d = t0 + at * MS - sim.clock
            if d > 0:
                sim.sleep(d)
            if what == 'config':
                w.service.set_config(configs[k], x)
                w.effect('offer', hash=x, ids=sorted(t['id'] for t in configs[k]))
            elif what == 'add':
                t = placed(x)
                try:
                    handles[k] = deep.register_tracepoint(t['path'], t['line'], dict(t['args']), list(t.get('watches') or []), [])
                except BaseException as e:
                    if not failed_threads:
                        out.append(viol('register', 'register_tracepoint raised %s: %s' % (type(e).__name__, e)))
                    broken.add(k)
                    continue
                live[k] = t
                w.effect('registered', n=k)
            elif k in handles:
                try:
                    handles[k].unregister()
                except BaseException as e:
                    out.append(viol('register', 'unregister raised %s: %s' % (type(e).__name__, e)))
                live.pop(k, None)
                w.effect('unregistered', n=k)
    del lock
    busy = plan.get('busy') or []
    probes = []
    old = server(w, host.serve)
    for n, ops in enumerate(plan['phases']):
        parts = [[o for o in ops if o[1] == 'config'], [o for o in ops if o[1] != 'config']]
        ths = []
        for part in parts:
            if part:
                t = sim._new_task('actor', 'other')
                done = w.threading.Event()
                ths.append(done)

                def act(part=part, done=done):
                    at_work(part)
                    done.set()
                sim.start_task(t, act, (), {})
        for k, gap in busy if n == 0 else []:
            w.threading.Thread(target=host.busy, args=(k, gap)).start()
        for done in ths:
            done.wait()
        # polls that fail, and deliveries that wait, take their time
        sim.sleep(45 * SEC)
        t = w.threading.Thread(target=host.probe, args=(n,))
        start = sim.clock
        t.start()
        tid = max(x.tid for x in sim.tasks if x.ident == t.ident)
        t.join()
        probes.append((n, start, sim.clock, [ev for ev in w.events if ev.tid == tid], dict(live)))
        if plan.get('served'):
            # a thread that is as old as the agent
            k, start = len(w.events), sim.clock
            tid = old(n)
            probes.append((n, start, sim.clock, [ev for ev in w.events[k:] if ev.tid == tid], dict(live)))
    old(None)
    end = sim.clock
    sc.stop(20)
    escapes(w, out)
    judge(w, plan, probes, end, configs, failed_threads, out)
    return out


def server(w, serve):
    """A host thread that lives as long as the agent: the returned function lets it do one piece of work."""
    todo, given, ready = [], w.threading.Semaphore(0), w.threading.Semaphore(0)

    def take():
        ready.release()
        given.acquire()
        return todo.pop()
    t = w.threading.Thread(target=serve, args=(take,))
    t.start()
    tid = max(x.tid for x in w.sim.tasks if x.ident == t.ident)
    ready.acquire()

    def call(n):
        todo.append(n)
        given.release()
        if n is None:
            t.join()
        else:
            ready.acquire()
        return tid
    return call


def updates_of(w):
    return [p for p in w.of('poll') if p.get('outcome') == 'ok' and p.get('resp') == 'update' and 'delivered_at' in p]


def judge(w, plan, probes, end, configs, failed_threads, out):
    polls = w.of('poll')
    ups = updates_of(w)
    if len({str(p['resp_tps']) for p in ups}) > 1:
        w.nontrivial = True
    w.probe('updates', len(ups))
    interval = plan.get('config', {}).get('POLL_TIMER', 10)
    # the hash of every poll is that of the configuration that arrived last
    for p in polls:
        before = [u for u in ups if u['delivered_at'] < p['clock']]
        want = before[-1]['resp_hash'] if before else ''
        if before and any(before[-1]['delivered_at'] <= t <= p['clock'] for t in failed_threads) and p.get('hash') in (
                u['resp_hash'] for u in before[:-1] + [{'resp_hash': ''}]):
            continue
        if p.get('hash', want) != want:
            out.append(viol('hash', 'poll %d reported the hash %r, the configuration that arrived last has %r' % (
                p['n'], p['hash'], want)))
            break
    # polling goes on
    for a, b in zip(polls, polls[1:] + [None]):
        at = b['clock'] if b is not None else end
        idle = sum(y - x for x, y in w.sim.stalled if x <= at and y >= a['done_at'])
        if at - a['done_at'] > (interval + 2) * SEC + idle:
            out.append(viol('polling', 'poll %d ended (%s) at %.3f s, the next one %s at %.3f s, the interval is %s s' % (
                a['n'], a['outcome'], a['done_at'] / SEC, 'came' if b else 'had not come', at / SEC, interval)))
            break
    moves = [u['delivered_at'] for u in ups] + [e['clock'] for e in w.of('registered', 'unregistered')]
    for n, start, stop, evs, live in probes:
        if any(start - 5 * SEC < m <= stop for m in moves):
            w.probe('unsettled')
            continue
        if any(p['clock'] <= stop and p['done_at'] >= start and p.get('resp') == 'update' for p in polls):
            w.probe('unsettled')
            continue
        before = [u for u in ups if u['delivered_at'] <= start]
        if any(a <= stop and b >= start - 5 * SEC for a, b in w.sim.stalled):
            w.probe('unsettled')
            continue
        if before and any(before[-1]['delivered_at'] <= t <= start for t in failed_threads):
            # it may not have been possible to install it; the agent tells the service which one it has
            said = [p['hash'] for p in polls if p['clock'] <= start and 'hash' in p][-1:]
            same = [u for u in before if [u['resp_hash']] == said]
            if not same or len({str(u['resp_tps']) for u in same}) > 1:
                continue
            w.probe('after_no_thread')
            before = same
        conf = before[-1]['resp_tps'] if before else []
        expect = [t for t in conf + list(live.values()) if t['args'].get('stage') != 'bogus']
        want, got = Counter(), Counter()
        for t in expect:
            for ev in evs:
                if Scene.at(t, ev):
                    want[t['args']['log_msg'], ev.seq] += 1
        mine = {ev.seq for ev in evs}
        for e in w.of('log'):
            if e['ev'] in mine:
                got[e['msg'].replace('[deep] ', ''), e['ev']] += 1
        if want != got:
            miss, more = want - got, got - want
            old = [u['n'] for u in before if any(t['args']['log_msg'] in {m for m, _ in more} for t in u['resp_tps'])]
            out.append(viol('installed', 'after phase %d: %s%s; the configuration that arrived last is that of poll %s' % (
                n, 'did not act: %s' % sorted({m for m, _ in miss}) if miss else '',
                ' acted: %s (of polls %s)' % (sorted({m for m, _ in more}), old) if more else '', before[-1]['n'] if before else None)))
        else:
            w.probe('settled')


def on_abort(w, plan, info):
    return big(w, plan, info)
