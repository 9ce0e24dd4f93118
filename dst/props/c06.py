"""C06: collection is total and per-tracepoint independent."""
from ..common import pick, viol
from ..data import on_abort, DataRun, Tps, base_plan, gen_exprs
from ..scene import escapes

ID = 'C06'
QUICK = 800
RULE = ('programs whose locals, watch results, return values and raised exceptions are hostile generated objects (failing '
        'str/repr/len/getattr/__dict__/__class__/iter/hash/eq, metaclasses, lying types, non-string keys, lone surrogates, '
        'slots, library types, generators, cycles), 1-8 unlimited tracepoints sharing locations and events; every hit has to '
        'deliver exactly one snapshot in which every well-behaved variable is intact; non-trivial when a due snapshot met a '
        'hostile or strange object')
LEVEL_NOTE = ('Seeded search over object graphs, tracepoint sets and schedules; presence and content of every snapshot the '
              'simulated service received is compared with an independent reading.')

KINDS = {'stray', 'vars', 'vars-missing', 'watches', 'watch-result', 'type', 'value', 'children', 'name', 'missing-children',
         'dangling', 'two-ids', 'shared-id', 'placeholder', 'frames', 'frame-type', 'tracepoint'}


def gen(rng, i, tier):
    nobj = pick(rng, [3, 6, 12, 20])
    plan = base_plan(rng, i, nobj, strange=pick(rng, [0.1, 0.3, 0.5]), hostile=pick(rng, [0.2, 0.4, 0.7]), heavy=1.0,
                     big=pick(rng, [0, 0.1]), log=pick(rng, ['error', 'debug']))
    if rng.random() < 0.3:
        # hostile results
        for mod in plan['prog']['mods']:
            for f in mod['funcs']:
                for st in f['body']:
                    if st['s'] == 'ret' and rng.random() < 0.7:
                        st['e'] = pick(rng, ['V(%d)', '[V(%d)]', '(1, V(%d))']) % rng.randrange(nobj)
    g = Tps(rng, plan['prog'])
    tps = []
    for _ in range(rng.randrange(1, 8)):
        t = g.one(0.3)
        if tps and rng.random() < 0.5:
            o = pick(rng, tps)
            t = dict(t, at=o['at'])
            t.pop('on', None)
            t['args'] = {k: v for k, v in o['args'].items() if k == 'method_name'}
            if 'on' in o:
                t['on'] = o['on']
        a = t['args']
        r = rng.random()
        if r < 0.2:
            a['frame_type'] = pick(rng, ['all_frame', 'no_frame'])
        if rng.random() < 0.5:
            t['watches'] = gen_exprs(rng, nobj, rng.randrange(0, 5))
        if rng.random() < 0.25:
            a['log_msg'] = 'v {V(%d)} and {n}' % rng.randrange(nobj)
        if rng.random() < 0.15:
            t['metrics'] = [{'name': 'm', 'type': 'COUNTER', 'expression': 'V(%d)' % rng.randrange(nobj)}]
        if rng.random() < 0.1:
            a['condition'] = pick(rng, ['True', '1', 'V(0) is V(0)'])
        if rng.random() < 0.3:
            a['stage'] = pick(rng, ['method_start', 'method_capture', 'method_end'] if t.get('on') else
                              ['line_start', 'line_capture', 'line_end'])
        if rng.random() < 0.1:
            a['MAX_COLLECTION_SIZE'] = '3'
        if rng.random() < 0.2:
            t['via'] = 'code'
            t['watches'] = (t.get('watches') or []) + ["'tag:%s'" % t['id']]
        tps.append(t)
    plan['tps'] = tps
    return plan


def run(w, plan):
    d = DataRun(w, plan)
    out = []
    escapes(w, out)
    gone, due = d.missing()
    for k, msg in gone[:3]:
        out.append(viol(k, msg))
    pairs, bad = d.pairs()
    for k, msg in bad[:2]:
        out.append(viol(k, msg))
    odd = 0
    for m, ev, e, t in pairs:
        for k, msg in d.compare(m, ev, t):
            if k in KINDS:
                out.append(viol(k, 'snapshot of %s at %s: %s' % (t['id'], ev.brief(), msg)))
        if ev.truth is not None:
            odd += sum(1 for x in ev.truth.fz.memo.values() if x.text is None and x.kind in ('obj', 'lenient'))
        if 'capture' in (t['args'].get('stage') or ''):
            captured(d, m, ev, t, out)
        if len(out) > 5:
            break
    w.nontrivial = due > 0 and odd > 0
    w.probe('snapshots', len(pairs))
    w.probe('hostile_objects_met', odd)
    shared = {}
    for m, ev, e, t in pairs:
        shared[ev.seq] = shared.get(ev.seq, 0) + 1
    w.probe('events_with_several_snapshots', sum(1 for n in shared.values() if n > 1))
    return out


def captured(d, m, ev, t, out):
    """A result that was captured has to be there, as a variable or (the budget) an error."""
    for r in d.captures_of:
        if not r.HasField('good_result') and len(m.var_lookup) < 900:
            out.append(viol('capture', 'snapshot of %s at %s: the captured %s was not recorded: %r' % (
                t['id'], ev.brief(), r.expression, r.error_result)))


__all__ = ['on_abort']
