"""C11: each tracepoint results in exactly the actions its arguments ask for, and one that makes no sense affects only itself."""
import re

from ..common import gen_sched, pick, subset, viol
from ..kernel import MS, SEC
from ..scene import Scene, args_of, escapes, kinds_of, place_of
from ..truth import Truth
from .. import plugins
from .c10 import markers, true_of

ID = 'C11'
QUICK = 2000
RULE = ('service responses and code registrations of 1-7 tracepoints over the whole argument table (stage, method name, span, '
        'snapshot, log message, metrics, condition, fire count, fire period, watches), several on one location, among them '
        'tracepoints that cannot be interpreted (unknown stage, unknown metric type) at any position of the response; the '
        'host passes the locations at chosen virtual times and every effect is compared with what a reference '
        'interpretation of the arguments and a reference limiter say; non-trivial when tracepoints shared a location or one '
        'was uninterpretable and another acted')
LEVEL_NOTE = ('Seeded search over argument combinations, responses and times; both directions - every action asked for '
              'happened, nothing else did - against an independent interpreter of the argument table.')
ASSUMPTIONS = ['a method stage without a method name may act at entries of functions with the name of a function around the '
               'line, or not at all',
               'empty log messages and method names, and span kinds other than line and method, are not generated',
               'when the stage of a capture is reached is part of C15; here only that its snapshot is delivered once']

BODY = '''import time
def alpha(n):
    a = n #a1
    b = [a] #a2
    return b #a3
def beta(n):
    c = n #b1
    alpha(c) #b2
    return c #b3
class Thing:
    def beta(self, n):
        d = n #t1
        return d #t2
def gamma(n):
    for i in range(2):
        e = i #g1
    def inner(m):
        f = m #i1
        return f #i2
    return inner(n) #g2
def run(f, n):
    if f == 'alpha':
        alpha(n)
    elif f == 'beta':
        beta(n)
    elif f == 'thing':
        Thing().beta(n)
    else:
        gamma(n)
def main(steps):
    for ms, f, n, k in steps:
        if ms:
            time.sleep(ms / 1000.0)
        RUN[k](f, n)
'''
MARKS = markers(BODY)
STAGES = ['line_start', 'line_end', 'line_capture', 'method_start', 'method_end', 'method_capture']
BAD = ['bogus', '', 'LINE_START', 'start', 'method', 'line', 'line_start ', 'none']
RANGES = [('alpha', 2, 5), ('beta', 6, 9), ('Thing', 10, 13), ('beta', 11, 13), ('gamma', 14, 20), ('inner', 17, 19)]


def gen(rng, i, tier):
    plan = {'v': 1, 'sched': gen_sched(rng, est=2500, hold=0.6, tick=0), 'log': pick(rng, ['error', 'debug'])}
    plan['steps'] = [[pick(rng, [0, 0, 1, 9, 10, 11, 500, 999, 1000, 1001, 3000]), pick(rng, ['alpha', 'beta', 'thing', 'gamma']),
                      pick(rng, [0, 1, 2]), pick(rng, [0, 0, 1])] for _ in range(rng.randrange(2, 9))]
    tps = []
    for k in range(rng.randrange(1, 8)):
        t = {'id': 'tp%d' % k, 'args': {}, 'path': pick(rng, ['c11_host.py', 'c11_host.py', 'c11_two.py'])}
        a = t['args']
        r = rng.random()
        if tps and r < 0.35:
            o = pick(rng, tps)
            t['mark'] = o['mark']
            if rng.random() < 0.8:
                t['path'] = o['path']
            for x in ('method_name', 'stage'):
                if x in o['args']:
                    a[x] = o['args'][x]
        else:
            t['mark'] = pick(rng, sorted(MARKS))
            if r < 0.6:
                a['method_name'] = pick(rng, ['alpha', 'beta', 'gamma', 'inner', 'nomatch', 'main'])
        if rng.random() < 0.4:
            a['stage'] = pick(rng, STAGES)
        if rng.random() < 0.12:
            a['stage'] = pick(rng, BAD)
        if rng.random() < 0.25:
            a['span'] = pick(rng, ['line', 'method'])
        r = rng.random()
        if r < 0.4:
            a['snapshot'] = 'no_collect'
        elif r < 0.55:
            a['snapshot'] = pick(rng, ['collect', 'collect', 'other'])
        if rng.random() < 0.45:
            a['log_msg'] = pick(rng, ['mark:%s:', 'mark:%s: {n} {{x}}', 'mark:%s:{nope}']) % t['id']
        if rng.random() < 0.35:
            t['metrics'] = [{'name': '%s_%d' % (t['id'], j), 'type': pick(rng, ['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY'])}
                            for j in range(rng.randrange(1, 4))]
            for m in t['metrics']:
                if rng.random() < 0.3:
                    m['labels'] = [{'key': 'k', 'static': 'v'}, {'key': 'e', 'expression': 'n'}][:rng.randrange(1, 3)]
            if rng.random() < 0.12:
                t['metrics'][rng.randrange(len(t['metrics']))]['type'] = pick(rng, [7, 99, -1])
        if rng.random() < 0.4:
            a['condition'] = pick(rng, ['n == 1', 'n > 0', 'True', 'False', 'nope', '', 'n == 1', 'not n'])
        if rng.random() < 0.7:
            a['fire_count'] = pick(rng, ['1', '2', '3', '-1', '-1', '5', 'x'])
        if rng.random() < 0.7:
            a['fire_period'] = pick(rng, ['0', '0', '0', '10', '1000', '2000', 'y'])
        if rng.random() < 0.3:
            t['watches'] = [pick(rng, ['n', 'n + 1', 'nope', '[n]']) for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.15:
            a[pick(rng, ['frame_type', 'stack_type', 'unknown', 'MAX_VARIABLES'])] = pick(rng, ['all_frame', 'no_stack', '', 'zz'])
        if rng.random() < 0.25:
            t['via'] = 'code'
            t['watches'] = (t.get('watches') or []) + ["'tag:%s'" % t['id']]
        tps.append(t)
    plan['tps'] = tps
    return plan


def interpretable(tp):
    if place_of(tp) is None:
        return False
    if tp.get('via') != 'code' and any(m.get('type') not in ('COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY')
                                       for m in tp.get('metrics') or []):
        return False
    return True


def unnamed(tp):
    return place_of(tp) == 'method' and 'method_name' not in args_of(tp)


def around(tp, ev):
    """An entry of a function (or class body) around the line of an unnamed method tracepoint?"""
    if ev.kind != 'call' or ev.base != tp['path']:
        return False
    return any(n == ev.func and lo <= tp['line'] <= hi for n, lo, hi in RANGES)


def num(v, d):
    try:
        return int(v)
    except (TypeError, ValueError, OverflowError):
        return d


def run(w, plan):
    w.load_agent()
    sim = w.sim
    tps = [dict(t, line=MARKS[t['mark']]) for t in plan['tps']]
    tps = [dict(t, metrics=[dict(m, type='COUNTER') if m.get('type') in (7, 99, -1) else m for m in t['metrics']])
           if t.get('via') == 'code' and t.get('metrics') else t for t in tps]
    sc = Scene(w, dict(plan, prog={'mods': [], 'main': []}, tps=tps)).prepare()
    mod = w.host_module('/app/src/c11_host.py', BODY)
    two = w.host_module('/app/lib/c11_two.py', BODY)
    mod.RUN = [mod.run, two.run]

    def on_event(ev, frame, arg):
        here = [t for t in sc.tps if sc.at(t, ev)]
        cs = sorted({args_of(t)['condition'] for t in here if (args_of(t).get('condition') or '').strip()})
        if cs and ev.delivered:
            ev.truth = Truth(w, frame, 0, cs, max_nodes=20, max_depth=2)

    w.on_event = on_event
    out = []
    try:
        sc.start()
    except Exception as e:
        if not any(t.get('via') == 'code' for t in sc.tps):
            raise
        return [viol('raised', 'starting, or registering a tracepoint, raised %s: %s' % (type(e).__name__, e))]
    sc.settle(2)
    w.events.clear()
    mark = len(w.effects)
    sim.arm()
    t = w.threading.Thread(target=mod.main, args=(plan['steps'],))
    t.start()
    t.join()
    end = len(w.effects)
    sc.stop()
    escapes(w, out)
    done = {}                   # (tp id, kind) -> {event seq: n}

    def did(tp, kind, ev):
        if tp is None or ev is None:
            out.append(viol('stray', 'a %s that belongs to no tracepoint or no event' % kind))
            return
        d = done.setdefault((tp['id'], kind), {})
        d[ev.seq] = d.get(ev.seq, 0) + 1

    for m, ev, e in sc.collect():
        tp = sc.tp_of_snapshot(m)
        did(tp, 'snapshot', ev)
        if tp is not None:
            own = [r for r in m.watches if r.source == 0]
            if [r.expression for r in own] != list(tp.get('watches') or []):
                out.append(viol('watches', 'the snapshot of %s has the watches %s, configured are %s' % (
                    tp['id'], [r.expression for r in own], tp.get('watches'))))
            if ('log_msg' in tp['args']) != bool(m.log_msg):
                out.append(viol('log', 'the snapshot of %s (%s) has the log message %r' % (tp['id'], tp['args'], m.log_msg)))
    metrics = {}
    # the ids of those registered in code, as their snapshots and messages tell them
    ids = {}
    for m, ev, e in sc.snaps:
        tp = sc.tp_of_snapshot(m)
        if tp is not None and tp.get('via') == 'code':
            ids[m.tracepoint.ID] = tp
    for e in w.effects[mark:end]:
        if e['kind'] == 'log':
            p = e['msg'].split(':')
            tp = sc.tp(p[1]) if len(p) > 2 and p[0] == '[deep] mark' else None
            if tp is not None and tp.get('via') == 'code':
                ids[e['tp']] = tp
    for e in w.effects[mark:end]:
        if e['kind'] not in ('log', 'metric', 'span_try'):
            continue
        ev = w.events[e['ev']] if e['ev'] is not None else None
        if e['kind'] == 'log':
            p = e['msg'].split(':')
            tp = sc.tp(p[1]) if len(p) > 2 and p[0] == '[deep] mark' else None
            did(tp, 'log', ev)
        elif e['kind'] == 'metric':
            tp = sc.tp(e['name'].split('_')[0])
            metrics.setdefault((tp['id'] if tp else None, ev.seq if ev else None), []).append((e['name'], e['op']))
        else:
            tp = sc.tp(e['tp'])
            if tp is None and ev is not None:
                tp = ids.get(e['tp'])
                if tp is None:
                    c = [x for x in sc.tps if x.get('via') == 'code' and 'span' in x['args'] and (sc.at(x, ev) or unnamed(x))
                         and x not in ids.values()]
                    if len(c) > 1:
                        ids[e['tp']] = tp = {'id': None, 'any': [x['id'] for x in c]}
                    elif c:
                        ids[e['tp']] = tp = c[0]
                if tp is not None and tp.get('any'):
                    for x in tp['any']:
                        done.setdefault((x, 'unsure'), {})
                    continue
            did(tp, 'span', ev)
    for (tid, seq), got in metrics.items():
        tp = sc.tp(tid)
        ev = w.events[seq] if seq is not None else None
        did(tp, 'metric', ev)
        if tp is None or ev is None:
            continue
        want = sorted((m['name'], m['type'].lower()) for m in tp['metrics'] if isinstance(m['type'], str))
        if sorted(got) != want:
            out.append(viol('metrics', 'the metrics of %s at %s were reported as %s, defined are %s' % (
                tid, ev.brief(), sorted(got), want)))
    locs = {}
    acted = bad = 0
    for tp in sc.tps:
        if not interpretable(tp):
            bad += 1
            for k in ('snapshot', 'log', 'metric', 'span'):
                if (tp['id'], k) in done:
                    out.append(viol('uninterpretable', '%s %s cannot be interpreted, but there is a %s' % (
                        tp['id'], tp['args'], k)))
            continue
        locs.setdefault((tp['path'], place_of(tp), tp['line'], args_of(tp).get('method_name')), []).append(tp)
        a = args_of(tp)
        c = a.get('condition')
        ks = {'log' if k == 'slog' else k for k in kinds_of(tp)}
        for k in ('snapshot', 'log', 'metric', 'span'):
            acts = done.get((tp['id'], k), {})
            acted += len(acts)
            if k not in ks:
                if acts:
                    out.append(viol('unasked', '%s %s asks for no %s, there are %d' % (tp['id'], a, k, len(acts))))
                continue
            for seq, n in acts.items():
                if n > 1:
                    out.append(viol('twice', 'the %s of %s acted %d times at one event' % (k, tp['id'], n)))
            if unnamed(tp):
                for seq in acts:
                    if not around(tp, w.events[seq]):
                        out.append(viol('misplaced', '%s of %s (%s, line %d) acted at %s' % (
                            k, tp['id'], a, tp['line'], w.events[seq].brief())))
                continue
            if (tp['id'], 'unsure') in done and k == 'span':
                continue
            # the reference limiter: the clock only moves while the program sleeps
            count, period = num(a.get('fire_count', 1), 1), num(a.get('fire_period', 1000), 1000) * MS
            n, last = 0, None
            want = []
            for ev in sc.hits(tp):
                if not ev.delivered:
                    continue
                if count != -1 and n >= count:
                    continue
                if last is not None and ev.wall0 - last < period:
                    continue
                if c is not None and c.strip() and true_of(ev.truth.exprs[c]) is not True:
                    continue
                n += 1
                last = ev.wall0
                want.append(ev.seq)
            if sorted(acts) != want:
                lost = [w.events[s].brief() for s in want if s not in acts][:2]
                more = [w.events[s].brief() for s in acts if s not in want][:2]
                out.append(viol('actions', 'the %s of %s %s (line %d) acted at %d of %d due hits; missing %s, not due %s' % (
                    k, tp['id'], a, tp['line'], len(set(acts) & set(want)), len(want), lost, more)))
    w.nontrivial = bool(acted) and (bad > 0 or any(len(v) > 1 for v in locs.values()))
    w.probe('tracepoints', len(sc.tps))
    w.probe('uninterpretable', bad)
    w.probe('actions', acted)
    return out[:8]


__all__ = ['SEC', 'plugins', 're', 'subset']
