"""C09: delivery off the application thread, exactly once, flush drains, late work refused."""
from ..common import gen_sched, pick, viol
from ..kernel import SEC
from .. import plugins

ID = 'C09'
QUICK = 2600
RULE = ('two workloads: (a) TaskHandler driven by 1-4 submitting threads with failing/slow tasks and concurrent flush, '
        '(b) the whole agent delivering snapshots of live tracepoint hits over a failing network and shut down while '
        'sends are pending; non-trivial when at least one task/snapshot was accepted and flush ran')
ASSUMPTIONS = ['tasks finish in bounded virtual time (a send that never returns is not modelled)']

LEVEL_NOTE = ('Seeded search over interleavings of submitting threads, workers and flush, with failing and slow tasks '
              'and a failing network, against the real TaskHandler/PushService/converter; trusts the simulated '
              '_thread/clock and the recording network.')

EXCS = ['ValueError', 'KeyError', 'InjectedBase', 'SystemExit', 'KeyboardInterrupt', 'RuntimeError', 'StopIteration']


def gen(rng, i, tier):
    plan = {'v': 1, 'sched': gen_sched(rng, est=1500), 'log': pick(rng, ['error', 'debug'])}
    if rng.random() < 0.6:
        plan['mode'] = 'tasks'
        nth = rng.randrange(1, 5)
        plan['threads'] = []
        for _ in range(nth):
            ops = []
            for _ in range(rng.randrange(1, 6)):
                if rng.random() < 0.3:
                    ops.append({'op': 'sleep', 'ms': pick(rng, [0, 1, 5, 50])})
                t = {'op': 'submit', 'ms': pick(rng, [0, 0, 0, 1, 5, 30, 200, 4000, 15000])}
                if rng.random() < 0.35:
                    t['exc'] = pick(rng, EXCS)
                if rng.random() < 0.1:
                    t['nested'] = 1
                ops.append(t)
            plan['threads'].append(ops)
        if rng.random() < 0.12:
            # far more work than the workers can do meanwhile
            plan['threads'].append([{'op': 'burst', 'n': pick(rng, [20, 60, 130, 300]), 'ms': pick(rng, [0, 1, 5, 30]),
                                     'every': pick(rng, [0, 0, 7])}])
        plan['flush_ms'] = pick(rng, [0, 0, 1, 5, 10, 50, 300])
        plan['join_first'] = rng.random() < 0.4
        plan['late'] = rng.randrange(0, 3)
        plan['flushers'] = pick(rng, [1, 1, 1, 2])
    else:
        plan['mode'] = 'agent'
        plan['threads'] = [{'n': rng.randrange(1, 5), 'ms': pick(rng, [0, 1, 5])} for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.06:
            plan['threads'].append({'n': pick(rng, [40, 90, 160]), 'ms': 0})
        plan['tps'] = rng.randrange(1, 3)
        fs = []
        for _ in range(rng.randrange(0, 10)):
            fs.append(pick(rng, [None, None, {'t': 'error_before'}, {'t': 'error_after'}, {'t': 'exc', 'exc': 'ValueError'},
                                 {'t': 'garbage'}, {'t': 'slow', 'ms': pick(rng, [500, 9000, 12000, 40000])}]))
        plan['net'] = {'lat': pick(rng, [[0, 0], [1, 5], [10, 400]]), 'send': fs}
        plan['bad'] = rng.random() < 0.3
        plan['shutdown_ms'] = pick(rng, [0, 1, 10, 100])
        plan['join_first'] = rng.random() < 0.6
    return plan


def run(w, plan):
    w.load_agent()
    return run_tasks(w, plan) if plan['mode'] == 'tasks' else run_agent(w, plan)


def run_tasks(w, plan):
    from deep.task import TaskHandler
    sim = w.sim
    th = TaskHandler()
    threading = w.threading
    tasks = []
    out = []

    def body(rec):
        rec['runs'] += 1
        rec['tid'] = sim.current.tid
        rec['started'] = sim.step
        if rec['ms']:
            sim.sleep(rec['ms'] * 1_000_000)
        if rec.get('nested'):
            submit({'ms': 0, 'name': 'nested of %s' % rec['name']})
        rec['finished'] = sim.step
        if rec.get('exc'):
            sim.count_fault('task_' + rec['exc'])
            raise plugins.EXC[rec['exc']]('task %s' % rec['name'])
        return rec['name']

    def submit(op):
        rec = dict(op)
        rec.update(name=op.get('name') or 't%d' % len(tasks), runs=0, by=sim.current.tid, begin=None, end=None,
                   accepted=None, finished=None)
        tasks.append(rec)
        rec['begin'] = sim.step
        try:
            th.submit_task(body, rec)
            rec['accepted'] = True
        except BaseException as e:
            rec['accepted'] = False
            rec['refusal'] = type(e).__name__
        rec['end'] = sim.step
        w.effect('submit', name=rec['name'], accepted=rec['accepted'])

    def submitter(ops):
        for op in ops:
            if op['op'] == 'sleep':
                sim.sleep(op['ms'] * 1_000_000)
            elif op['op'] == 'burst':
                for k in range(op['n']):
                    submit({'ms': op['ms'], 'exc': 'ValueError' if op['every'] and k % op['every'] == 0 else None})
            else:
                submit(op)

    flushes = []

    def flush():
        f = {'begin': sim.step, 'end': None, 'error': None, 'before': [t for t in tasks if t['accepted']]}
        flushes.append(f)
        try:
            th.flush()
        except BaseException as e:
            f['error'] = '%s: %s' % (type(e).__name__, e)
        f['end'] = sim.step
        f['unfinished'] = [t['name'] for t in f['before'] if t['finished'] is None]
        w.effect('flush', error=f['error'])

    sim.off = False
    ts = [threading.Thread(target=submitter, args=(ops,)) for ops in plan['threads']]
    for t in ts:
        t.start()
    if plan.get('join_first'):
        for t in ts:
            t.join()
    if plan.get('flush_ms'):
        sim.sleep(plan['flush_ms'] * 1_000_000)
    fl = [threading.Thread(target=flush) for _ in range(plan.get('flushers', 1) - 1)]
    for t in fl:
        t.start()
    flush()
    first_end = sim.step
    for t in ts + fl:
        t.join()
    for _ in range(plan.get('late', 0)):
        submit({'ms': 0, 'name': 'late%d' % _})
    # quiescence: everything accepted must have been run by now
    sim.sleep(200 * SEC)
    w.finish()
    for f in flushes:
        if f['error']:
            out.append(viol('flush-raises', 'flush() raised %s' % f['error']))
        if f['unfinished']:
            out.append(viol('flush-early', 'flush() returned while accepted tasks %s were unfinished' % f['unfinished']))
    for t in tasks:
        if t['accepted'] and t['runs'] != 1:
            out.append(viol('accepted-not-once', 'accepted task %s ran %d times' % (t['name'], t['runs'])))
        if not t['accepted'] and t['runs']:
            out.append(viol('refused-but-ran', 'refused task %s ran' % t['name']))
        if t['runs'] and t['tid'] == t['by'] and not t['name'].startswith('nested'):
            out.append(viol('ran-on-caller', 'task %s ran on the thread that submitted it' % t['name']))
        if t['begin'] > first_end and t['accepted']:
            out.append(viol('late-accepted', 'task %s submitted after flush returned was accepted' % t['name']))
        if t['end'] is not None and flushes and t['end'] < min(f['begin'] for f in flushes) and not t['accepted']:
            out.append(viol('early-refused', 'task %s was refused (%s) before any flush' % (t['name'], t['refusal'])))
    for c in sim.crashes:
        out.append(viol('thread-crash', 'a thread died: %s' % (c,)))
    w.nontrivial = any(t['accepted'] for t in tasks)
    w.probe('tasks_accepted', sum(1 for t in tasks if t['accepted']))
    w.probe('tasks_refused', sum(1 for t in tasks if not t['accepted']))
    w.probe('submit_overlaps_flush', sum(1 for t in tasks for f in flushes
                                         if t['begin'] < (f['end'] or 0) and t['end'] > f['begin']))
    w.probe('task_unfinished_at_flush', sum(1 for f in flushes for t in f['before']
                                            if t['finished'] is None or t['finished'] > f['begin']))
    return out


HOST = '''
import time
class Holder:
    def __init__(self, n):
        self.n = n
def work(n, ms):
    total = 0
    for i in range(n):
        v = Holder(i)
        total += i
        if ms:
            time.sleep(ms / 1000.0)
    return total
'''


def run_agent(w, plan):
    sim = w.sim
    hold = w.install_recorder() if hasattr(w, 'install_recorder') else None
    pl = w.install_plugins([plugins.RECORDER])
    conv = []
    _watch_conversion(w, conv)
    host = w.host_module('/app/src/c09_host.py', HOST)
    line = HOST.split('\n').index('        total += i') + 1
    tps = []
    for k in range(plan['tps']):
        args = {'fire_count': '-1', 'fire_period': '0'}
        tps.append({'id': 'tp%d' % k, 'path': 'c09_host.py', 'line': line, 'args': args,
                    'watches': ['n'] if k else []})
    w.service.set_config(tps, 'h1')
    shut = {}
    sim.off = False
    deep = w.start_agent(PLUGINS=pl)
    sim.sleep(2 * SEC)
    threads = [w.threading.Thread(target=host.work, args=(t['n'], t['ms'])) for t in plan['threads']]
    for t in threads:
        t.start()
    if plan.get('join_first'):
        for t in threads:
            t.join()
    if plan.get('shutdown_ms'):
        sim.sleep(plan['shutdown_ms'] * 1_000_000)
    shut['begin'] = sim.step
    handed = [e['snapshot'] for e in w.of('decorate')]
    # handed over means the event that produced it is over
    done_events = {e.seq for e in w.events if hasattr(e, 'c1')}
    handed = [e['snapshot'] for e in w.of('decorate') if e['ev'] in done_events]
    err = None
    try:
        deep.shutdown()
    except BaseException as e:
        err = '%s: %s' % (type(e).__name__, e)
    shut['end'] = sim.step
    w.effect('shutdown', error=err)
    for t in threads:
        t.join()
    sim.sleep(100 * SEC)
    w.finish()
    out = []
    from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot
    sends = {}
    for e in w.of('send'):
        sid = Snapshot.FromString(e['data']).ID.hex()
        sends.setdefault(sid, []).append(e)
        if e['tkind'] != 'other':
            out.append(viol('sent-on-app-thread', 'snapshot %s was sent by application task %s' % (sid, e['tid'])))
    for sid, tkind in conv:
        if tkind != 'other':
            out.append(viol('converted-on-app-thread', 'a snapshot was converted on an application thread'))
    decorated = [e['snapshot'] for e in w.of('decorate')]
    norm = {s.replace('-', '').lower().zfill(32): s for s in decorated}
    for sid, es in sends.items():
        if len(es) > 1:
            out.append(viol('sent-twice', 'snapshot %s was sent %d times' % (sid, len(es))))
        if sid not in norm:
            out.append(viol('sent-unknown', 'snapshot %s was never collected' % sid))
        for e in es:
            ev = {d['snapshot'].zfill(32): d['tid'] for d in w.of('decorate')}
            if ev.get(sid) == e['tid']:
                out.append(viol('sent-on-hit-thread', 'snapshot %s was sent by the thread that hit' % sid))
    for s in handed:
        if s.zfill(32) not in sends:
            out.append(viol('not-sent', 'snapshot %s handed over before shutdown was never sent' % s))
        elif sends[s.zfill(32)][0]['step'] > shut['end']:
            out.append(viol('flush-early', 'shutdown returned before snapshot %s was sent' % s))
        elif not sends[s.zfill(32)][0].get('outcome'):
            out.append(viol('flush-early', 'send of %s never completed' % s))
    if err:
        out.append(viol('shutdown-raises', 'Deep.shutdown() raised %s' % err))
    for e in w.escapes:
        out.append(viol('escape', 'the trace function raised %s' % e))
    w.nontrivial = bool(handed)
    w.probe('snapshots_handed', len(handed))
    w.probe('snapshots_sent', len(sends))
    w.probe('pending_at_shutdown', sum(1 for s in handed if s.zfill(32) in sends
                                       and sends[s.zfill(32)][0]['step'] > shut['begin']))
    return out


def _watch_conversion(w, conv):
    """Note on which kind of thread protobuf snapshots are built."""
    from deepproto.proto.tracepoint.v1 import tracepoint_pb2
    import sys
    real = tracepoint_pb2.Snapshot

    class Factory:
        def __call__(self, *a, **k):
            if not w.sim.off:
                conv.append((None, w.sim.current.kind))
            return real(*a, **k)

        def __getattr__(self, item):
            return getattr(real, item)

    for name, m in list(sys.modules.items()):
        if name.startswith('deep.') and m is not None and m.__dict__.get('Snapshot') is real:
            m.__dict__['Snapshot'] = Factory()
