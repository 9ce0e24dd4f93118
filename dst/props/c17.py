"""C17: every metric of a tracepoint is reported once per permitted hit to every active processor, as it is defined."""
import math

from ..common import pick, subset, viol
from ..data import base_plan, gen_exprs, on_abort
from ..scene import Scene, Tps, escapes
from ..truth import Truth

ID = 'C17'
QUICK = 1200
RULE = ('0-6 metric definitions per tracepoint (every type, names used twice, static labels of every type, label and value '
        'expressions over the values of running programs: numeric, text, failing, with SystemExit and KeyboardInterrupt, not '
        'finite, too large) on line and method tracepoints next to other actions, from the service and from code, with 0-4 '
        'processors (inactive ones, ones that cannot be made, ones that fail at some or all calls with any exception, slow '
        'ones) in any order, several threads; and runs in which the processors come and go while tracepoints with small '
        'budgets are hit; every report to every processor is compared with the definition and an independent evaluation '
        'in the paused frame; non-trivial when something was reported')
LEVEL_NOTE = ('Seeded search over definitions, processors, values and schedules; the expected reports are computed from the '
              'definitions and an independent evaluation of every expression in the paused frame.')
ASSUMPTIONS = ['what a label has whose expression fails, or that is both static and an expression, is not specified: any '
               'value will do, but the metric is reported',
               'an expression is numeric when float() accepts its value']
OPTIONAL = ('args', 'config', 'env', 'net', 'fail', 'delay', 'watches', 'labels', 'help', 'unit', 'namespace', 'jumps', 'read_jumps')

TYPES = ['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY']
NUMS = ['1', '0', '-3', '1.5', '2 ** 40', '10 ** 400', 'True', 'False', '"7"', '" 2.5 "', '"x"', '""', 'None', '[1]', '(1,)', '{}',
        'float("nan")', 'float("inf")', '-float("inf")', '"nan"', 'n', 'a', 'n + 1', 'len(str(n))', 'n * 2', 'nope', 'n.missing', '1 / 0',
        '1 / 3', 'n +', '1j', '__import__("fractions").Fraction(1, 4)', '__import__("decimal").Decimal("2.50")', 'b"7"',
        'bytearray(b"8")', 'type("F", (), {"__float__": lambda s: 3.5})()', 'type("I", (), {"__index__": lambda s: 4})()',
        'type("E", (), {"__float__": lambda s: 1 / 0})()', 'type("N", (), {"__float__": lambda s: "x"})()',
        'type("S", (float,), {})(6.5)', 'type("T", (str,), {})("9")', '"1_000"', '"1,5"', '"0x10"', '"١٢"', 'len',
        '(_ for _ in ()).throw(SystemExit(3))', '(_ for _ in ()).throw(KeyboardInterrupt())', 'sum(n for n in [1, 2])',
        '(lambda: n)()', 'max(1, 2)', ' n ', '[n][0]', 'n and 1', 'Boom()', 'raise_it', 'type("X", (), {"__float__": lambda s: exit(2)})()']
STATIC = ['v', '', 'é', 5, 0, -1, 2.5, True, False, None, 'x' * 50, 'n', '{n}', ' ']
NAMES = ['m', 'requests_total', 'é', 'a b', 'counter', 'x.y']
PEXC = ['ValueError', 'RuntimeError', 'KeyboardInterrupt', 'SystemExit', 'InjectedBase', 'GeneratorExit', 'MemoryError',
        'StopIteration', 'RecursionError', 'AttributeError', 'TypeError']


def gen_metric(rng, tid, k, nobj):
    m = {'name': '%s:%s' % (tid, pick(rng, NAMES) if rng.random() < 0.5 else k), 'type': pick(rng, TYPES)}
    if rng.random() < 0.7:
        m['expression'] = pick(rng, NUMS) if rng.random() < 0.8 else gen_exprs(rng, nobj, 1)[0]
        if rng.random() < 0.05:
            m['expression'] = ''
    for key, vals in (('namespace', ['ns', 'deep', 'é', 'a.b', '']), ('help', ['some help', '', 'é "x"\n']),
                      ('unit', ['s', 'bytes', '', '%'])):
        if rng.random() < 0.4:
            m[key] = pick(rng, vals)
    m['labels'] = []
    for j in range(pick(rng, [0, 0, 1, 2, 4])):
        lb = {'key': pick(rng, ['k%d' % j, 'é%d' % j, 'with space %d' % j])}
        if rng.random() < 0.5:
            lb['static'] = pick(rng, STATIC)
        else:
            lb['expression'] = gen_exprs(rng, nobj, 1)[0] if rng.random() < 0.7 else pick(rng, NUMS)
        m['labels'].append(lb)
    return m


def gen_procs(rng, some=False):
    out = []
    for j in range(max(pick(rng, [0, 1, 1, 2, 2, 3, 4]), int(some))):
        s = {'name': 'M%d' % j, 'kinds': ['metric'] + subset(rng, ['log', 'deco', 'span'], 0.15), 'order': rng.randrange(-5, 6)}
        r = rng.random()
        if r < 0.12:
            s['active'] = False
        elif r < 0.2:
            s['construct'] = pick(rng, ['ValueError', 'didnotenable'])
        elif r < 0.55:
            on = 'all' if rng.random() < 0.5 else sorted({rng.randrange(0, 12) for _ in range(4)})
            s['fail'] = {'metric': {'exc': pick(rng, PEXC), 'on': on}}
        elif r < 0.7:
            s['delay'] = {'metric': pick(rng, [0.001, 0.2, 1])}
        out.append(s)
    if some and not [s for s in out if works(s)]:
        out[0].pop('active', None)
        out[0].pop('construct', None)
    return out


def works(s):
    return 'metric' in s['kinds'] and s.get('active') is not False and s.get('construct', 'ok') == 'ok'


def gen(rng, i, tier):
    nobj = pick(rng, [0, 2, 5])
    plan = base_plan(rng, i, nobj, strange=pick(rng, [0, 0.2, 0.5]), hostile=pick(rng, [0, 0, 0.3]))
    mode = plan['mode'] = 'budget' if rng.random() < 0.25 else 'hits'
    g = Tps(rng, plan['prog'])
    tps = []
    for _ in range(rng.randrange(1, 5)):
        t = g.one(0.25)
        if tps and rng.random() < 0.4:
            o = pick(rng, tps)
            t = dict(t, at=o['at'])
            t.pop('on', None)
            t['args'] = {k: v for k, v in o['args'].items() if k == 'method_name'}
            if 'on' in o:
                t['on'] = o['on']
        a = t['args']
        n = pick(rng, [1, 1, 2, 3, 6, 0])
        t['metrics'] = [gen_metric(rng, t['id'], k, nobj) for k in range(n)]
        if n > 1 and rng.random() < 0.3:
            t['metrics'][1]['name'] = t['metrics'][0]['name']
        if rng.random() < 0.1 and n:
            t['metrics'].append(dict(t['metrics'][0]))
        if rng.random() < 0.6:
            a['snapshot'] = 'no_collect'
        if rng.random() < 0.25:
            a['log_msg'] = 'L {n}'
        if rng.random() < 0.2:
            a['span'] = 'method' if t.get('on') else 'line'
        if rng.random() < 0.2:
            a['stage'] = pick(rng, ['method_capture', 'method_end'] if t.get('on') else ['line_capture', 'line_end'])
        if rng.random() < 0.3:
            t['via'] = 'code'
            for m in t['metrics']:
                m['type'] = pick(rng, [m['type'], m['type'].lower(), m['type'].capitalize()])
        if mode == 'budget':
            a['fire_count'] = pick(rng, ['1', '1', '2', '3', '5'])
        tps.append(t)
    plan['tps'] = tps
    if mode == 'budget':
        # which processors are there while the program runs: none, all, or some
        plan['phases'] = pick(rng, [[0, 1], [0, 1], [0, 0, 1], [1, 0, 1], [0, 1, 0, 1]])
        plan['procs'] = gen_procs(rng, True)
    else:
        plan['procs'] = gen_procs(rng)
    return plan


def exprs_of(t):
    out = []
    for m in t.get('metrics') or []:
        for e in [m.get('expression')] + [lb.get('expression') for lb in m.get('labels') or []]:
            if e and e not in out:
                out.append(e)
    return out


def number(x):
    """What the value of an evaluated expression is as a number; 1 when it is not one."""
    if x[0] != 'ok':
        return 1
    try:
        return float(x[1].obj)
    except BaseException:
        return 1


def run(w, plan):
    w.load_agent()
    sim = w.sim
    mode = plan['mode']
    extra = {'fire_period': '0'} if mode == 'budget' else {'fire_period': '0', 'fire_count': '-1'}
    sc = Scene(w, plan, extra).prepare()

    def on_event(ev, frame, arg):
        here = [t for t in sc.tps if sc.at(t, ev)]
        if here and ev.delivered:
            ex = []
            for t in here:
                ex += [e for e in exprs_of(t) if e not in ex]
            ev.truth = Truth(w, frame, 0, ex, max_nodes=100, max_depth=2)
            ev.arg = {e: number(ev.truth.exprs[e]) for e in ex}

    w.on_event = on_event
    procs = [s for s in plan['procs'] if works(s)]
    cfg = {}
    sc.start(plan['procs'] + [{'name': 'REC', 'kinds': ['deco', 'span', 'log'], 'order': -100}], **cfg)
    sc.settle(2)
    w.events.clear()
    sim.arm()
    out = []
    phases = plan.get('phases') or [1]
    bounds = []
    loaded = list(sc.deep.config.plugins)
    for on in phases:
        if mode == 'budget':
            sc.deep.config.plugins = loaded if on else [p for p in loaded if 'metric' not in p.spec['kinds']]
        e0, f0 = len(w.events), len(w.effects)
        sc.run_host()
        bounds.append((bool(on), e0, len(w.events), f0, len(w.effects)))
    sc.deep.config.plugins = loaded
    sc.stop()
    escapes(w, out)
    mine = [s['name'] for s in procs]
    got = {}                        # (event, tp) -> [effects]
    total = 0
    for on, e0, e1, f0, f1 in bounds:
        for e in w.effects[f0:f1]:
            if e['kind'] != 'metric':
                continue
            total += 1
            tp = sc.tp(str(e['name']).split(':')[0])
            if e['ev'] is None or tp is None:
                out.append(viol('stray', 'the metric %r was reported outside any event' % e['name']))
                continue
            if e['plugin'] not in mine or not on:
                out.append(viol('processor', 'the metric %r was reported to %s, which is not active' % (e['name'], e['plugin'])))
                continue
            got.setdefault((e['ev'], tp['id']), []).append(e)
    w.nontrivial = total > 0
    w.probe('reports', total)
    for tp in sc.tps:
        if not tp.get('metrics') or len(out) > 6:
            continue
        left = None if mode != 'budget' else int(tp['args'].get('fire_count', '1'))
        for on, e0, e1, f0, f1 in bounds:
            hits = [ev for ev in w.events[e0:e1] if sc.at(tp, ev) and ev.delivered]
            due = [ev for ev in hits if not (ev.kind == 'call' and ev.seg > 0)]
            acted = {seq for seq, t in got if t == tp['id'] and e0 <= seq < e1}
            if not on or not procs:
                due = []
            if left is None:
                for ev in hits:
                    if ev in due or ev.seq in acted:
                        reports(out, w, sc, tp, ev, got.pop((ev.seq, tp['id']), []), procs)
                continue
            want = min(left, len(due))
            if len(due) != len(hits) and on and procs:
                left = None if left is None else max(0, left - len(acted))      # resumptions of generators may or may not count
            else:
                if len(acted) != want:
                    out.append(viol('budget', 'tracepoint %s (fire_count %s) reported at %d of %d hits of a phase in which '
                                    '%s processors are active and %d hits are left' % (
                                        tp['id'], tp['args'].get('fire_count'), len(acted), len(hits),
                                        len(procs) if on else 'no', left)))
                left -= want
            for ev in hits:
                if ev.seq in acted:
                    reports(out, w, sc, tp, ev, got.pop((ev.seq, tp['id']), []), procs)
    for (seq, tid), es in list(got.items())[:3]:
        out.append(viol('unasked', 'tracepoint %s reported %r at %s' % (tid, es[0]['name'], w.events[seq].brief())))
    return out


def reports(out, w, sc, tp, ev, effects, procs):
    for p in procs:
        es = [e for e in effects if e['plugin'] == p['name']]
        where = 'tracepoint %s at %s, processor %s' % (tp['id'], ev.brief(), p['name'])
        if len(es) != len(tp['metrics']):
            out.append(viol('count', '%s: %d reports (%s), %d metrics are defined (%s)' % (
                where, len(es), [e['name'] for e in es][:8], len(tp['metrics']), [m['name'] for m in tp['metrics']][:8])))
            continue
        left = list(es)
        strict = sorted(tp['metrics'], key=lambda m: sum(loose(lb, ev) for lb in m.get('labels') or []))
        for m in strict:
            ds = [(differs(m, e, ev), e) for e in left]
            fit = [e for d, e in ds if not d]
            if fit:
                left.remove(fit[0])
                continue
            near = [d for d, e in ds if e['name'] == m['name']] or [d for d, e in ds]
            out.append(viol('report', '%s: the metric %r: %s' % (where, m['name'], min(near, key=len))))
            break


def loose(lb, ev):
    x = ev.truth.exprs.get(lb.get('expression')) if lb.get('expression') else None
    return lb.get('expression') is not None and (x is None or x[0] != 'ok' or x[2] is None or x[1].fresh)


def differs(m, e, ev):
    """What is wrong with the report (empty: nothing)."""
    d = []
    if e['op'] != m.get('type', 'COUNTER').lower():
        d.append('operation %s, type %s' % (e['op'], m.get('type')))
    if e['name'] != m['name']:
        d.append('name %r' % e['name'])
    if e['ns'] != (m.get('namespace') or 'deep'):
        d.append('namespace %r, defined %r' % (e['ns'], m.get('namespace')))
    for k in ('help', 'unit'):
        if (e[k] or '') != (m.get(k) or ''):
            d.append('%s %r, defined %r' % (k, e[k], m.get(k)))
    x = m.get('expression')
    want = ev.arg.get(x) if x else 1
    if want is not None and type(e['value']) not in (int, float) or want is not None and not (
            e['value'] == want or isinstance(e['value'], float) and math.isnan(e['value']) and math.isnan(want)):
        d.append('value %r, the expression %r is %r' % (e['value'], x, want))
    labels = dict(e['labels'])
    for lb in m.get('labels') or []:
        if lb['key'] not in labels:
            d.append('label %r is missing' % lb['key'])
            continue
        got = labels.pop(lb['key'])
        if lb.get('expression'):
            if not loose(lb, ev) and got != ev.truth.exprs[lb['expression']][2]:
                d.append('label %r is %r, its expression %r is %r' % (
                    lb['key'], got, lb['expression'], ev.truth.exprs[lb['expression']][2]))
        elif 'expression' not in lb and lb.get('static') is not None and str(got) != str(lb['static']):
            d.append('label %r is %r, defined %r' % (lb['key'], got, lb['static']))
    if labels:
        d.append('labels %r are not defined' % sorted(labels))
    return d


__all__ = ['on_abort']
