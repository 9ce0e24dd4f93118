"""C03: actions fire at exactly the configured locations."""
from ..common import gen_sched, pick, viol
from ..scene import Scene, Tps, UNLIMITED, escapes, kinds_of, place_of, small_program

ID = 'C03'
QUICK = 1500
RULE = ('generated multi-module, multi-threaded programs (recursion, generators, methods, exceptions, same-named files and '
        'functions) with 1-8 unlimited tracepoints of every action kind, from the service and from code, several on one '
        'location, plus decoys; every trace event the interpreter produced is compared with every effect; non-trivial when '
        'at least one tracepoint location was reached')
LEVEL_NOTE = ('Seeded search over programs, tracepoint placements and thread schedules; every interpreter trace event of '
              'the run is matched against every observable effect, both directions. Trusts the recording trace shim.')

DECOY_PATHS = ['lpha.py', 'alpha.pyc', 'ALPHA.py', 'alpha', 'beta.py', '', 'x/alpha.py', 'alpha.py ']


def gen(rng, i, tier):
    big = tier != 'quick'
    plan = {'v': 1, 'sched': gen_sched(rng, est=6000, hold=0.7), 'log': pick(rng, ['error', 'error', 'debug'])}
    plan['prog'] = small_program(rng, funcs=5 if big else 3, stmts=7 if big else 5)
    g = Tps(rng, plan['prog'])
    tps = []
    for _ in range(rng.randrange(1, 9 if big else 6)):
        r = rng.random()
        if tps and r < 0.35:
            o = pick(rng, tps)
            t = dict(g.one(), at=o['at'])
            t.pop('on', None)
            t['args'] = {k: v for k, v in o['args'].items() if k == 'method_name'}
            if 'on' in o:
                t['on'] = o['on']
        else:
            t = g.one()
        a = t['args']
        if rng.random() < 0.25:
            a['stage'] = pick(rng, ['method_start', 'method_end']) if t.get('on') else pick(rng, ['line_start', 'line_end'])
        elif t.get('on') and rng.random() < 0.1:
            a['stage'] = 'line_start'       # a line tracepoint on the def line after all
        elif t.get('on') and rng.random() < 0.1:
            a['span'] = 'method'
        if rng.random() < 0.4:
            a['snapshot'] = 'no_collect'
        if rng.random() < 0.5:
            a['log_msg'] = 'mark:%s:' % t['id']
        if rng.random() < 0.3:
            t['metrics'] = [{'name': 'm_' + t['id'], 'type': pick(rng, ['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY'])}]
        if rng.random() < 0.3 and 'span' not in a:
            a['span'] = 'method' if t.get('on') else 'line'
        r = rng.random()
        if r < 0.1:
            t['pathx'] = pick(rng, DECOY_PATHS)
        elif r < 0.17:
            t['dline'] = pick(rng, [1, -1, 100])
        elif r < 0.22 and 'method_name' in a:
            a['method_name'] = pick(rng, ['f', '', 'main', 'f00', '__init__', '<module>', '<genexpr>'])
        if rng.random() < 0.25:
            t['via'] = 'code'
            t['watches'] = ["'tag:%s'" % t['id']]
        tps.append(t)
    plan['tps'] = tps
    return plan


def run(w, plan):
    w.load_agent()
    sc = Scene(w, plan, UNLIMITED).prepare()
    sc.start()
    sc.settle(2)
    w.events.clear()
    mark = len(w.effects)
    sc.run_host()
    end = len(w.effects)
    sc.stop()
    out = []
    escapes(w, out)
    seen = {}               # (event, tp id, kind) -> count
    stray = []
    for m, ev, e in sc.collect():
        tp = sc.tp_of_snapshot(m)
        note(seen, stray, ev.seq if ev else None, tp, 'snapshot')
    for e in w.effects[mark:end]:
        if e['kind'] == 'log':
            parts = e['msg'].split(':')
            tp = sc.tp(parts[1]) if len(parts) > 2 and parts[0].endswith('mark') else None
            note(seen, stray, e['ev'], tp, 'log')
        elif e['kind'] == 'metric':
            note(seen, stray, e['ev'], sc.tp(e['name'][2:]), 'metric')
        elif e['kind'] == 'span_try':
            tp = sc.tp(e['tp']) or code_span(sc, w, e)
            note(seen, stray, e['ev'], tp, 'span')
    for s in stray[:3]:
        out.append(viol('stray', 'an action happened that no trace event or tracepoint explains: %s' % (s,)))
    expected = {}
    reached = 0
    for tp in sc.tps:
        ks = {'log' if k == 'slog' else k for k in kinds_of(tp)}
        for ev in sc.hits(tp):
            reached += 1
            for k in ks:
                expected[(ev.seq, tp['id'], k)] = ev
    for key, ev in expected.items():
        n = seen.pop(key, 0)
        optional = ev.kind == 'call' and ev.seg > 0     # a generator being resumed
        if n == 0 and not optional:
            out.append(viol('missing', '%s of tracepoint %s did not act at %s' % (key[2], desc(sc, key[1]), ev.brief())))
        elif n > 1:
            out.append(viol('repeated', '%s of tracepoint %s acted %d times at %s' % (key[2], desc(sc, key[1]), n,
                                                                                     ev.brief())))
    for (seq, tid, k), n in seen.items():
        out.append(viol('misplaced', '%s of tracepoint %s acted at %s' % (k, desc(sc, tid), w.events[seq].brief())))
    w.nontrivial = reached > 0
    w.probe('locations_reached', reached)
    w.probe('events', len(w.events))
    w.probe('method_hits', sum(1 for tp in sc.tps if place_of(tp) == 'method' for _ in sc.hits(tp)))
    return out


def code_span(sc, w, e):
    """Registrations from code have ids of their own; a span carries nothing but that id, so use its event."""
    if e['ev'] is None:
        return None
    ev = w.events[e['ev']]
    c = [t for t in sc.tps if t.get('via') == 'code' and 'span' in t['args'] and sc.at(t, ev)]
    used = sc.__dict__.setdefault('span_ids', {})
    if e['tp'] in used:
        return used[e['tp']]
    c = [t for t in c if t not in used.values()]
    if c:
        used[e['tp']] = c[0]
        return c[0]
    return None


def note(seen, stray, seq, tp, kind):
    if seq is None or tp is None:
        stray.append((kind, seq, tp and tp['id']))
        return
    k = (seq, tp['id'], kind)
    seen[k] = seen.get(k, 0) + 1


def desc(sc, tid):
    t = sc.tp(tid)
    return '%s (%s %s:%s %s)' % (tid, place_of(t), t['path'], t['line'], t['args'].get('method_name', ''))
