"""C10: conditions gate firing; expressions see the paused frame and nothing else; a failing one fails alone."""
import re

from ..common import gen_sched, pick, subset, viol
from ..kernel import SEC
from ..scene import Scene, args_of, escapes, kinds_of
from ..truth import Compare, Truth, encodable
from .. import plugins

ID = 'C10'
QUICK = 1200
RULE = ('1-3 threads run functions with every kind of scope (closures, class bodies, generators, shadowed and deleted names, '
        'recursion, exception handlers; in a module that does or does not define names the agent also uses); tracepoints of '
        'every action kind with conditions, watches, log fields, metric values and labels that name locals, module globals, '
        'builtins, agent-internal names, or fail (including with SystemExit and KeyboardInterrupt); at every hit each '
        'expression is evaluated independently against the frame and compared with what the agent did and reported; '
        'non-trivial when a condition was true at one hit and not true at another')
LEVEL_NOTE = ('Seeded search over programs, expressions, budgets and thread schedules; the truth of every condition and the '
              'value of every expression at every hit comes from an independent evaluation in the paused frame.')
ASSUMPTIONS = ['conditions evaluate to a bool, None, 0 or 1, or fail; other results are not generated, the meaning of '
               'truth for them is not part of the property']

BODY = '''import threading
LIMIT = 2
COUNT = [0]
class Bad:
    def __str__(self):
        raise ValueError('no text')
    __repr__ = __str__
BAD = Bad()
def plain(n, x):
    a = n
    COUNT[0] += ONE #p0
    b = [n, x] #p1
    return b #p2
def shadow(n, x):
    LIMIT = 7 if n == 1 else n #s0
    y = LIMIT #s1
    return y #s2
def outer(n, x):
    k = n
    def inner(m):
        z = (k, m) #i1
        return z #i2
    return inner(x) #i3
def gen(n, x):
    for i in range(3):
        yield i #g1
    e = n #g2
def comp(n, x):
    r = [q for q in range(3) if q != n] #c1
    return r #c2
class Thing:
    kind = 'thing'
    def __init__(self, n):
        self.n = n #k1
    def meth(self, n):
        t = self.n == n #k2
        self.n = t
        return t #k3
def thing(n, x):
    return Thing(n).meth(x) #k4
def gone(n, x):
    v = n
    del v #d1
    w = 1 #d2
    return w
def rec(n, x):
    d = n #r1
    if type(n) is int and n > 0:
        rec(n - 1, d) #r2
    return d #r3
def clsbody(n, x):
    class K:
        p = n #b1
        q = 2 #b2
    return K #b3
def exc(n, x):
    try:
        u = n.nothing #e0
    except Exception as err:
        u = str(err) #e1
    return u #e2
def many(n, x):
    i = 0
    while i < 4:
        i = i + 1 #w1
    return i #w2
def main(plans):
    def worker(calls):
        for f, n, x in calls:
            r = globals()[f](n, x)
            if f == 'gen':
                list(r)
    ts = [threading.Thread(target=worker, args=(p,)) for p in plans]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
'''
NAMED = '''frame = None
deep = 'mine'
logging = 3
expression = 'LIMIT == 2'
ctx = [1]
TriggerContext = 0
str2bool = None
event = 'e'
location = 'here'
result = 1
self = 'global self'
'''
FNS = ['plain', 'shadow', 'outer', 'gen', 'comp', 'thing', 'gone', 'rec', 'clsbody', 'exc', 'many']
METHODS = ['plain', 'inner', 'meth', 'rec', 'K', 'exc', '__init__', 'many', 'shadow']
AGENT = ['frame', 'deep', 'logging', 'expression', 'ctx', 'TriggerContext', 'str2bool', 'event', 'location', 'result', 'self',
         'arg', 'trigger_context', 'location_action', 'config', 'ConfigService', 'time_ns', 'uuid', 'VariableCacheProvider',
         'EventSnapshot', 'LocationAction', 'ActionContext', 'watch', 'sys', 'os', 'traceback', 'e', 'value', 'eval_watch',
         'threading', 'tracepoint', 'Optional', 'FrameType', 'abc', 'inspect', 'ast', 'string', 're']
CONDS = ['n == 1', 'n == 1', 'n > 0', 'n is None', 'isinstance(n, int)', 'a == n', 'a == 1', 'LIMIT == 2', 'LIMIT > 5',
         'COUNT[0] > 3', 'COUNT[0] % 2 == 0', 'not n', 'n in (0, 1)', 'len(n) > 0', 'missing', 'n.missing', '1 / 0 == 1', '', '   ',
         'True', 'False', 'None', '1', '0', 'self.n == 1', 'k == m', 'k == 1', 'i == 1', 'i % 2 == 0', 'q == 2', 'err is None',
         'all(n == z for z in [n])', '(lambda: n == 1)()', '[n for _ in range(1)][0] == 1', 'any(LIMIT == z for z in [2])',
         'n ==', 'x != n', 'n == x', 'n != 1', '  n == 1  ', 'v is None', 'd > 0', 'y == 7', 'p == n', 'BAD', 'str(BAD) == ""',
         '(_ for _ in ()).throw(SystemExit(3))', '(_ for _ in ()).throw(KeyboardInterrupt())', 'exit()', 'threading is not None',
         'Thing.kind == "thing"', '__name__ == "c10_host"', 'import os', 'n = 1', 'del n', '(n == 1) is True', 'n > 0\n',
         '"n" in locals()', '"COUNT" in globals()', '"plain" in globals()', 'bool(COUNT)', 'n == 1 and x == 0', 'yield', 'await n',
         'eval("n == 1")', 'eval("n") == 1', '(w := 1) == 1', 'r is not None', 'self is not None', 'type(self) is Thing']
BOTH = ['n == 1', 'n == 0', 'not n', 'n in (0, 1)', 'x != n', '(lambda: n == 1)()', 'COUNT[0] % 2 == 0', 'n < 2 and n >= 1',
        'isinstance(n, int) and n > 0', 'n is x', 'n == LIMIT or n == 1', 'any(n == z for z in [1])', 'n.bit_length() == 1',
        '1 / n == 1', 'n', 'n', 'x', 'n and 1', 'n or x', 'COUNT and n', 'n is not None and n']
VALS = ['n', 'a', 'x', 'LIMIT', 'COUNT', 'COUNT[0]', '[n, x]', 'n + 1', 'missing', 'n.missing', '1 / 0', 'self.n', 'k', 'm', 'i', 'q',
        'err', '(lambda: n)()', '[(n, z) for z in range(2)]', 'sorted([3, 1])', 'v', 'd', 'BAD', 'Thing', 'n +', '',
        '(_ for _ in ()).throw(SystemExit("out"))', '(_ for _ in ()).throw(KeyboardInterrupt())', 'exit(3)', 'threading',
        '__name__', 'len', 'y', 'p', 'e', 'w', '(_ for _ in ()).throw(GeneratorExit())', 'str(BAD)', 'n == 1', '1.5', 'True', '"7"',
        'sum([n, 1])', 'max(COUNT)', 'r[0]', 'next(iter([n]))', '"TriggerContext" in globals()', 'float(n)', 'n * 10 ** 400']


def host(plan):
    return (NAMED if plan.get('named') else '') + BODY


def markers(src):
    return {m.group(1): i for i, ln in enumerate(src.split('\n'), 1) for m in [re.search(r'#(\w+)$', ln)] if m}


def expr(rng):
    r = rng.random()
    if r < 0.75:
        return pick(rng, VALS)
    return pick(rng, AGENT)


def cond(rng):
    r = rng.random()
    if r < 0.35:
        return pick(rng, BOTH)
    if r < 0.85:
        return pick(rng, CONDS)
    return pick(rng, ['%s is not None', '%s is None', '%s == %s' , 'bool(%s) or True']).replace('%s', pick(rng, AGENT))


def gen(rng, i, tier):
    plan = {'v': 1, 'sched': gen_sched(rng, est=3000, hold=0.8, tick=pick(rng, [0, 100])), 'log': pick(rng, ['error', 'debug'])}
    plan['named'] = rng.random() < 0.4
    vals = pick(rng, [[0, 1, 2], [0, 1, 2], [1, 0], [1, None, 's'], [0, 1, '', [1]], [1]])
    fns = subset(rng, FNS, 0.25) or ['plain']
    plan['threads'] = [[[pick(rng, fns), pick(rng, vals), pick(rng, vals)] for _ in range(rng.randrange(3, 10))]
                       for _ in range(pick(rng, [1, 1, 2, 3]))]
    names = {f: [] for f in FNS}
    cur = None
    tag = {'p': 'plain', 's': 'shadow', 'i': 'outer', 'g': 'gen', 'c': 'comp', 'k': 'thing', 'd': 'gone', 'r': 'rec', 'b': 'clsbody',
           'e': 'exc', 'w': 'many'}
    for mk in markers(BODY):
        names[tag[mk[0]]].append(mk)
    del cur
    tps = []
    for k in range(rng.randrange(1, 6)):
        t = {'id': 'tp%d' % k, 'args': {}, 'path': 'c10_host.py'}
        a = t['args']
        if tps and rng.random() < 0.3:
            o = pick(rng, tps)
            t['mark'] = o['mark']
            if 'method_name' in o['args']:
                a['method_name'] = o['args']['method_name']
        elif rng.random() < 0.25:
            t['mark'] = 'p1'
            a['method_name'] = pick(rng, METHODS)
        else:
            t['mark'] = pick(rng, names[pick(rng, fns)])
        if rng.random() < 0.85:
            a['condition'] = cond(rng)
        a['fire_count'] = pick(rng, ['1', '2', '3', '-1', '-1', '-1'])
        r = rng.random()
        if r < 0.35:
            a['snapshot'] = 'no_collect'
        if r < 0.2 or r > 0.75:
            a['log_msg'] = 'mark:%s:' % t['id'] + '|'.join('{%s}' % e for e in
                                                            [e for e in (expr(rng) for _ in range(rng.randrange(0, 4)))
                                                             if not re.search(r'[{}:!]', e)])
        if rng.random() < 0.35 or (r < 0.35 and 'log_msg' not in a):
            t['metrics'] = [{'name': '%s_%d' % (t['id'], j), 'type': pick(rng, ['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY']),
                             'expression': expr(rng) if rng.random() < 0.8 else None,
                             'labels': [{'key': 'l%d' % q, 'expression': expr(rng)} for q in range(rng.randrange(0, 3))]}
                            for j in range(rng.randrange(1, 3))]
        if rng.random() < 0.2:
            a['span'] = 'method' if 'method_name' in a else 'line'
        if rng.random() < 0.6:
            t['watches'] = [expr(rng) for _ in range(rng.randrange(1, 5))]
        if rng.random() < 0.2:
            t['via'] = 'code'
            t['watches'] = (t.get('watches') or []) + ["'tag:%s'" % t['id']]
        tps.append(t)
    plan['tps'] = tps
    return plan


def true_of(x):
    """None: rejected by failing; else the truth of a result that is a bool, None, 0 or 1."""
    if x[0] != 'ok':
        return False
    v = x[1].obj
    if v is None or v is False or (type(v) is int and v == 0) or (type(v) is str and v == ''):
        return False
    if v is True or (type(v) is int and v == 1):
        return True
    if x[2] is None:
        return False            # it has no text
    return 'unspecified'


def run(w, plan):
    w.load_agent()
    sim = w.sim
    src = host(plan)
    marks = markers(src)
    plan = dict(plan, prog={'mods': [], 'main': []},
                tps=[dict(t, line=marks[t['mark']]) for t in plan['tps']])
    sc = Scene(w, plan, {'fire_period': '0'}).prepare()
    mod = w.host_module('/app/src/c10_host.py', src, {'ONE': 1 if plan_single(plan) else 0})

    def on_event(ev, frame, arg):
        here = [t for t in sc.tps if sc.at(t, ev)]
        if not here or not ev.delivered:
            return
        ex = []
        for t in here:
            for e in all_exprs(t):
                if e not in ex:
                    ex.append(e)
        ev.truth = Truth(w, frame, 1, ex, max_nodes=300, max_depth=4)

    w.on_event = on_event
    sc.start()
    sc.settle(2)
    w.events.clear()
    mark = len(w.effects)
    sim.arm()
    t = w.threading.Thread(target=mod.main, args=(plan['threads'],))
    t.start()
    t.join()
    end = len(w.effects)
    sc.stop()
    out = []
    escapes(w, out)
    done = {}                   # (tp id, kind) -> {event seq: n}

    def did(tp, kind, ev):
        if tp is None or ev is None:
            out.append(viol('stray', 'a %s that belongs to no tracepoint or no event' % kind))
            return
        d = done.setdefault((tp['id'], kind), {})
        d[ev.seq] = d.get(ev.seq, 0) + 1

    for m, ev, e in sc.collect():
        tp = sc.tp_of_snapshot(m)
        did(tp, 'snapshot', ev)
        if tp is not None and ev is not None and ev.truth is not None:
            watches(w, out, m, ev, tp)
    metrics = {}
    for e in w.effects[mark:end]:
        if e['ev'] is None:
            continue
        ev = w.events[e['ev']]
        if e['kind'] == 'log':
            p = e['msg'].split(':')
            tp = sc.tp(p[1]) if len(p) > 2 and p[0].endswith('mark') else None
            did(tp, 'log', ev)
            if tp is not None and ev.truth is not None:
                logged(out, e['msg'], ev, tp)
        elif e['kind'] == 'metric':
            tp = sc.tp(e['name'].split('_')[0])
            metrics.setdefault((ev.seq, tp['id'] if tp else None), []).append(e)
            if tp is not None and e['name'] == tp['metrics'][0]['name']:
                did(tp, 'metric', ev)
        elif e['kind'] == 'span_try':
            tp = sc.tp(e['tp'])
            if tp is None:
                cands = [x for x in sc.tps if x.get('via') == 'code' and 'span' in x['args'] and sc.at(x, ev)]
                if len(cands) != 1:
                    continue
                tp = cands[0]
            did(tp, 'span', ev)
    for (seq, tid), es in metrics.items():
        tp = sc.tp(tid)
        if tp is not None:
            measured(out, es, w.events[seq], tp)
    mixed = False
    for tp in sc.tps:
        hits = [ev for ev in sc.hits(tp) if ev.delivered and ev.truth is not None and not (ev.kind == 'call' and ev.seg)]
        c = args_of(tp).get('condition')
        truth = {}
        for ev in hits:
            truth[ev.seq] = True if c is None or not c.strip() else true_of(ev.truth.exprs[c])
        seen = set(truth.values())
        mixed |= True in seen and False in seen
        w.probe('hits', len(hits))
        w.probe('rejected_hits', sum(1 for v in truth.values() if v is False))
        spans_unsure = tp.get('via') == 'code'
        for kind in kinds_of(tp):
            if kind == 'slog':
                continue
            if kind == 'span' and spans_unsure:
                continue
            acts = done.get((tp['id'], kind), {})
            count = int(args_of(tp).get('fire_count', 1)) if re.fullmatch(r'-?\d+', args_of(tp).get('fire_count', '1')) else 1
            where = '%s of %s (condition %r, fire_count %d)' % (kind, tp['id'], c, count)
            for seq, n in acts.items():
                if n > 1 and kind != 'log':
                    out.append(viol('twice', '%s: %d times for one hit' % (where, n)))
                if truth.get(seq) is False:
                    x = w.events[seq].truth.exprs[c]
                    out.append(viol('not-gated', '%s acted at %s where the condition is %s' % (
                        where, w.events[seq].brief(), x[2] if x[0] == 'ok' else 'failing (%s: %s)' % x[1:])))
                elif seq not in truth:
                    out.append(viol('stray', '%s acted at %s' % (where, w.events[seq].brief())))
            if 'unspecified' in seen:
                continue
            due = [ev for ev in hits if truth[ev.seq]]
            want = len(due) if count == -1 else min(count, len(due))
            if len(acts) != want:
                out.append(viol('budget', '%s acted %d times; its condition was true at %d of %d hits, so %d are due' % (
                    where, len(acts), len(due), len(hits), want)))
            elif plan_single(plan):
                for ev in due[:want]:
                    if ev.seq not in acts:
                        out.append(viol('missed', '%s did not act at %s' % (where, ev.brief())))
                        break
        if len(out) > 6:
            break
    w.nontrivial = mixed
    return out


def plan_single(plan):
    return len(plan['threads']) == 1


def fields(tp):
    return re.findall(r'{([^{}]*)}', args_of(tp).get('log_msg') or '')


def all_exprs(tp):
    out = list(tp.get('watches') or []) + fields(tp)
    c = args_of(tp).get('condition')
    if c is not None and c.strip():
        out.append(c)
    for m in tp.get('metrics') or []:
        if m.get('expression') is not None:
            out.append(m['expression'])
        out += [lb['expression'] for lb in m.get('labels') or [] if lb.get('expression') is not None]
    return out


def short(e):
    return str(e)[:60]


def watches(w, out, m, ev, tp):
    """Each watch of the snapshot is the value of the expression in the frame, or its own error."""
    from deepproto.proto.tracepoint.v1.tracepoint_pb2 import WatchSource
    c = Compare(m)
    for src, want in (('WATCH', tp.get('watches') or []), ('LOG', fields(tp))):
        rec = [x for x in m.watches if WatchSource.Name(x.source) == src]
        if len(rec) != len(want):
            out.append(viol('results', 'snapshot of %s has %d %s results for %s' % (tp['id'], len(rec), src, want)))
            continue
        for r, e in zip(rec, want):
            x = ev.truth.exprs.get(e)
            if x is None:
                continue
            if x[0] == 'error':
                w.probe('failing_expressions')
                if r.HasField('good_result'):
                    v = m.var_lookup[r.good_result.ID] if r.good_result.ID in m.var_lookup else None
                    out.append(viol('should-fail', '%s %r of %s at %s fails with %s (%s) in the frame, its result is %s %r' % (
                        src, e, tp['id'], ev.brief(), x[1], short(x[2]), v and v.type, short(v and v.value))))
                elif x[2] and encodable(x[2]) and not r.error_result:
                    out.append(viol('no-error', '%s %r of %s fails with %s and has no error text' % (src, e, tp['id'], x[1])))
            elif not r.HasField('good_result'):
                out.append(viol('should-work', '%s %r of %s at %s evaluates in the frame to %s, its result is the error %r' % (
                    src, e, tp['id'], ev.brief(), short(x[2]), r.error_result[:100])))
            else:
                c.problems = []
                c.value(r.good_result.ID, x[1], '%s %r' % (src, e))
                for k, msg in c.problems:
                    if k in ('type', 'value', 'truncated'):
                        out.append(viol('wrong-value', 'snapshot of %s at %s: %s' % (tp['id'], ev.brief(), msg)))


def logged(out, msg, ev, tp):
    """The text between the bars is the text of the fields, in order (an error text for a failing one)."""
    fs = fields(tp)
    if not fs:
        return
    pat = ''
    for e in fs:
        x = ev.truth.exprs.get(e)
        if x is None or x[0] == 'error' or x[2] is None:
            pat += '(.*)\\|'
        else:
            pat += re.escape(x[2]) + '\\|'
    if not re.fullmatch(pat[:-2], msg.split(':', 2)[2], re.S):
        out.append(viol('log-field', 'log of %s at %s: %r, the fields %s are %s' % (
            tp['id'], ev.brief(), msg, fs, [short(ev.truth.exprs.get(e)[2]) for e in fs])))


def measured(out, es, ev, tp):
    for m in tp['metrics']:
        mine = [e for e in es if e['name'] == m['name']]
        if len(mine) != 1:
            out.append(viol('metric', 'metric %s was reported %d times at %s' % (m['name'], len(mine), ev.brief())))
            continue
        e = mine[0]
        if ev.truth is None:
            continue
        x = ev.truth.exprs.get(m['expression']) if m.get('expression') is not None else None
        want = None
        if x is None or x[0] == 'error':
            want = 1
        elif type(x[1].obj) in (int, float):
            want = x[1].obj
        if want is not None and abs(want) < 10 ** 300 and e['value'] != want:
            out.append(viol('metric-value', 'metric %s (%r) at %s was %r, really %r' % (
                m['name'], m.get('expression'), ev.brief(), e['value'], want)))
        for lb in m.get('labels') or []:
            x = ev.truth.exprs.get(lb.get('expression'))
            got = e['labels'].get(lb['key'])
            if x is None:
                continue
            if x[0] == 'ok' and x[2] is not None and str(got) != x[2]:
                out.append(viol('label', 'label %r of metric %s at %s was %r, really %r' % (
                    lb['expression'], m['name'], ev.brief(), got, x[2])))
            elif lb['key'] not in e['labels']:
                out.append(viol('label', 'label %r of metric %s is missing' % (lb['key'], m['name'])))


__all__ = ['SEC', 'plugins']
