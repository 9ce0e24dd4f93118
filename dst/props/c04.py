"""C04: fire count, fire period and time window are never exceeded - and a permitted hit does collect."""
from ..common import gen_sched, pick, viol
from ..kernel import MS, SEC, WALL_EPOCH
from ..scene import Scene, escapes, kinds_of, place_of
from .. import plugins

ID = 'C04'
QUICK = 1800
RULE = ('1-6 threads reach the same 1-3 tracepoints (every action kind, line and method, from the service and from code) at '
        'chosen distances (zero, exactly on, just below and above the period), under preemptive schedules, frozen or '
        'running clock, wall clock jumps, unrelated configuration updates meanwhile; compared with a reference limiter '
        'over the virtual clock; non-trivial when a location was reached more than once')
LEVEL_NOTE = ('Seeded search over thread interleavings around the limit check, virtual time distances and limit values; '
              'every collection and every hit that did not collect is explained by the reference limiter.')
ASSUMPTIONS = ['a limit argument that is not an integer means the default (fire_count 1, fire_period 1000)',
               'after a wall clock jump only the upper limits are checked, on both clocks']

HOST = '''import time
import threading
def hit(n):
    x = n
    y = x
    return y
def other(n):
    z = n
    return z
def worker(steps):
    for ms, which in steps:
        if ms:
            time.sleep(ms / 1000.0)
        if which:
            other(ms)
        else:
            hit(ms)
def main(plans):
    ts = [threading.Thread(target=worker, args=(p,)) for p in plans]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
'''
LINES = {'x = n': 4, 'y = x': 5, 'z = n': 8}

COUNTS = ['1', '1', '2', '3', '5', '-1', '-1', '0', '-2', 'abc', '', ' 2 ', '1.5', None]
NUMBERS = ('fire_count', 'fire_period', 'window_start', 'window_end')
PERIODS = ['0', '0', '1', '5', '10', '100', '1000', '5000', 'x', '', '-5', None]


def gen(rng, i, tier):
    big = tier != 'quick'
    plan = {'v': 1, 'sched': gen_sched(rng, est=2500, hold=0.8), 'log': 'error'}
    if rng.random() < 0.35:
        plan['sched']['tick'] = 0           # the clock only moves in sleeps
    tps = []
    for k in range(rng.randrange(1, 4)):
        a = {}
        c, p = pick(rng, COUNTS), pick(rng, PERIODS)
        if c is not None:
            a['fire_count'] = c
        if p is not None:
            a['fire_period'] = p
        t = {'id': 'tp%d' % k, 'args': a, 'path': 'c04_host.py'}
        if rng.random() < 0.3:
            a['method_name'] = pick(rng, ['hit', 'hit', 'other'])
            t['line'] = 3
        else:
            t['line'] = pick(rng, [4, 4, 4, 5, 8])
            if rng.random() < 0.15:
                a['stage'] = pick(rng, ['line_start', 'line_end'])
        r = rng.random()
        if r < 0.35:
            a['snapshot'] = 'no_collect'
        if r < 0.2 or r > 0.9:
            a['log_msg'] = 'mark:%s:' % t['id']
        if rng.random() < 0.25 or (r < 0.35 and 'log_msg' not in a):
            t['metrics'] = [{'name': 'm_' + t['id'], 'type': 'COUNTER'}]
        if rng.random() < 0.2:
            a['span'] = 'method' if 'method_name' in a else 'line'
        if rng.random() < 0.25:
            # around the time at which the hits happen, in ms of the wall clock
            base = WALL_EPOCH // MS + 3000
            s, e = base + rng.randrange(-200, 400), base + rng.randrange(-100, 3000)
            w = rng.random()
            if w < 0.7:
                a['window_start'] = str(s)
            if w > 0.3:
                a['window_end'] = str(e)
            if rng.random() < 0.1:
                a['window_start'] = pick(rng, ['x', '', '0'])
        if rng.random() < 0.25:
            t['via'] = 'code'
            t['watches'] = ["'tag:%s'" % t['id']]
            if rng.random() < 0.5:
                # in code the arguments can be numbers
                a.update({k: int(v) for k, v in a.items() if k in NUMBERS and num(v, None) is not None})
        tps.append(t)
    plan['tps'] = tps
    per = [int(t['args'].get('fire_period', 1000)) for t in tps if str(t['args'].get('fire_period', 1000)).isdigit()]
    per = [p for p in per if p] or [10]
    plan['threads'] = []
    if rng.random() < 0.4:
        # everybody at once
        plan['threads'] = [[[0, 0]] * rng.randrange(1, 3) for _ in range(rng.randrange(2, 5))]
        del tps[1:]
        tps[0]['line'] = 4
        tps[0]['args'].pop('method_name', None)
        tps[0]['args'].pop('window_start', None)
        tps[0]['args'].pop('window_end', None)
        tps[0]['args']['fire_count'] = pick(rng, ['1', '1', '2', '3', '-1'])
        tps[0]['args']['fire_period'] = pick(rng, ['0', '0', '10', '1000'])
        return plan
    for _ in range(rng.randrange(1, 7 if big else 6)):
        steps = []
        for _ in range(rng.randrange(1, 9 if big else 6)):
            p = pick(rng, per)
            steps.append([pick(rng, [0, 0, 0, p, p, max(0, p - 1), p + 1, p // 2, 2 * p]), 1 if rng.random() < 0.2 else 0])
        plan['threads'].append(steps)
    if rng.random() < 0.4:
        plan['updates'] = [[rng.randrange(0, 3000), pick(rng, ['add', 'drop', 'hash', 'code', 'addsame'])]
                           for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.12:
        plan['sched']['jumps'] = [[3 * SEC + rng.randrange(0, 500) * MS, pick(rng, [-1, 1]) * rng.randrange(1, 4000) * MS]
                                  for _ in range(rng.randrange(1, 3))]
    return plan


def num(v, default):
    try:
        return int(v)
    except (ValueError, TypeError, OverflowError):
        return default


def limits(tp):
    a = tp['args']
    return (num(a.get('fire_count', 1), 1), num(a.get('fire_period', 1000), 1000) * MS,
            num(a.get('window_start', 0), 0), num(a.get('window_end', 0), 0))


def run(w, plan):
    w.load_agent()
    sim = w.sim
    sc = Scene(w, dict(plan, prog={'mods': [], 'main': []})).prepare()
    for t in sc.tps:
        t['args'] = dict(t['args'])
    host = w.host_module('/app/src/c04_host.py', HOST)
    updates = plan.get('updates') or []
    sc.start(POLL_TIMER=0.5)
    sc.settle(3 - sim.clock / SEC if sim.clock < 3 * SEC else 1)
    w.events.clear()
    mark = len(w.effects)

    def updater():
        extra, n = [], 0
        last = 0
        for at, what in sorted(updates):
            sim.sleep(max(0, at - last) * MS)
            last = at
            n += 1
            if what == 'add':
                extra.append({'id': 'x%d' % n, 'path': 'nowhere.py', 'line': n, 'args': {}})
            elif what == 'addsame':
                extra.append({'id': 'x%d' % n, 'path': 'c04_host.py', 'line': 4,
                              'args': {'snapshot': 'no_collect', 'log_msg': 'extra'}})
            elif what == 'drop' and extra:
                extra.pop(0)
            elif what == 'code':
                sc.deep.register_tracepoint('nowhere.py', n)
            w.service.set_config(sc.service_tps() + list(extra), 'u%d' % n)

    up = w.threading.Thread(target=updater)
    main = w.threading.Thread(target=host.main, args=(plan['threads'],))
    sim.arm()
    up.start()
    main.start()
    main.join()
    up.join()
    end = len(w.effects)
    sc.stop()
    out = []
    escapes(w, out)
    done = {}                       # (tp, kind) -> [(event, exact ts or None)]
    for m, ev, e in sc.collect():
        tp = sc.tp_of_snapshot(m)
        if tp is None or ev is None:
            continue
        if not ev.wall0 <= m.ts_nanos <= ev.wall1 and not w.sim.wall_jumps:
            out.append(viol('timestamp', 'snapshot of %s is stamped %d, the hit was in [%d, %d]' % (
                tp['id'], m.ts_nanos, ev.wall0, ev.wall1)))
        done.setdefault((tp['id'], 'snapshot'), []).append((ev, m.ts_nanos))
    for e in w.effects[mark:end]:
        if e['ev'] is None:
            continue
        ev = w.events[e['ev']]
        if e['kind'] == 'log':
            parts = e['msg'].split(':')
            tp = sc.tp(parts[1]) if len(parts) > 2 and parts[0].endswith('mark') else None
            kind = 'log'
        elif e['kind'] == 'metric':
            tp, kind = sc.tp(e['name'][2:]), 'metric'
        elif e['kind'] == 'span_try':
            tp, kind = sc.tp(e['tp']), 'span'
        else:
            continue
        if tp is None:
            continue
        if kind == 'log' and 'slog' in kinds_of(tp):
            continue                # counted as the snapshot it belongs to
        done.setdefault((tp['id'], kind), []).append((ev, None))
    jumps = bool(w.sim.wall_jumps)
    reached = 0
    for tp in sc.tps:
        hits = sc.hits(tp)
        reached += len(hits)
        for kind in kinds_of(tp):
            if kind == 'slog' or (kind == 'span' and tp.get('via') == 'code'):
                continue
            check(w, out, tp, kind, hits, sorted(done.get((tp['id'], kind), []), key=lambda x: x[0].seq), jumps)
    w.nontrivial = reached > len(sc.tps)
    w.probe('hits', reached)
    w.probe('collections', sum(len(v) for v in done.values()))
    w.probe('config_updates_seen', sum(1 for e in w.effects[mark:end] if e.get('resp') == 'update'))
    return out


def check(w, out, tp, kind, hits, acts, jumps):
    count, period, ws, we = limits(tp)
    name = '%s of %s %s' % (kind, tp['id'], {k: v for k, v in tp['args'].items() if 'fire' in k or 'window' in k})
    w.probe('limited_actions')
    seqs = [ev.seq for ev, _ in acts]
    if len(set(seqs)) != len(seqs):
        out.append(viol('twice', '%s collected twice in one event' % name))
    if count != -1 and len(acts) > max(0, count):
        out.append(viol('count', '%s collected %d times (%s)' % (name, len(acts), [e.brief() for e, _ in acts][:4])))
    span = [((ts, ts) if ts is not None else (ev.wall0, ev.wall1)) + (ev.c0, ev.c1) for ev, ts in acts]
    if period > 0:
        for i, (a, b, c, d) in enumerate(span):
            for e, f, g, h in span[i + 1:]:
                far = max(f - a, b - e)             # the largest distance the two can have had
                far_mono = max(h - c, d - g)
                if far < period and (not jumps or far_mono < period):
                    out.append(viol('period', '%s collected twice within %.6f ms' % (name, far / MS)))
                if far < 2 * period:
                    w.probe('close_collections')
    windowed = ws or we
    if windowed:
        for ev, ts in acts:
            lo, hi = (ts, ts) if ts is not None else (ev.wall0, ev.wall1)
            if jumps:
                lo, hi = min(lo, hi) - 8000 * MS, max(lo, hi) + 8000 * MS
            if ws and hi < (ws - 1) * MS:
                out.append(viol('window', '%s collected at %.3f ms, before its window' % (name, hi / MS)))
            if we and lo > (we + 1) * MS:
                out.append(viol('window', '%s collected at %.3f ms, after its window' % (name, lo / MS)))
    if jumps or count < -1 or count == 0:
        return
    acted = set(seqs)
    for ev in hits:
        if ev.seq in acted or not ev.local and ev.kind != 'call':
            continue
        before = [x for x in zip(acts, span) if x[0][0].c0 <= ev.c1]
        if count != -1 and len(before) >= count:
            continue
        if windowed and ((ws and ev.wall0 < (ws + 1) * MS) or (we and ev.wall1 > (we - 1) * MS)):
            continue
        if period > 0 and any(min(abs(ev.wall0 - b), abs(ev.wall1 - a)) < period
                              or (a <= ev.wall1 and ev.wall0 <= b) or (ev.wall0 - b < period)
                              for _, (a, b, c, d) in before):
            continue
        out.append(viol('missed', '%s did not collect at %s (%.3f ms) although its limits allow it; it collected at %s' % (
            name, ev.brief(), ev.wall0 / MS, [round(x[0] / MS, 3) for x in span])))
        return
