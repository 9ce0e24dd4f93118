"""C07: the variable table is closed and de-duplicated by object identity."""
from ..common import pick, viol
from ..data import on_abort, DataRun, Tps, base_plan, gen_exprs
from ..scene import escapes

ID = 'C07'
QUICK = 800
RULE = ('programs whose locals are densely shared and cyclic generated object graphs, snapshot tracepoints with small and '
        'large budgets, watches and log fields whose values already are in the frame, are made anew, or hold both, captured '
        'results, several tracepoints on one event; in every delivered snapshot each reference has to resolve and ids have '
        'to correspond one to one to objects of the independently recorded graph; non-trivial when an object was reachable '
        'on two ways')
LEVEL_NOTE = ('Seeded search over object graphs, budgets, watches and schedules; closure is checked on the received message '
              'alone, identity against the independently recorded object graph.')

KINDS = {'dangling', 'two-ids', 'shared-id', 'missing-children', 'children'}


def gen(rng, i, tier):
    nobj = pick(rng, [3, 6, 12, 20])
    plan = base_plan(rng, i, nobj, strange=pick(rng, [0, 0.15]), hostile=pick(rng, [0, 0, 0.2]), heavy=1.0,
                     big=pick(rng, [0, 0.1, 0.3]), log=pick(rng, ['error', 'debug']), cycles=pick(rng, [0.15, 0.5, 0.9]))
    g = Tps(rng, plan['prog'])
    tps = []
    for _ in range(rng.randrange(1, 6)):
        t = g.one(0.3)
        if tps and rng.random() < 0.4:
            o = pick(rng, tps)
            t = dict(t, at=o['at'])
            t.pop('on', None)
            t['args'] = {k: v for k, v in o['args'].items() if k == 'method_name'}
            if 'on' in o:
                t['on'] = o['on']
        a = t['args']
        if rng.random() < 0.2:
            a['frame_type'] = pick(rng, ['all_frame', 'no_frame'])
        if rng.random() < 0.5:
            a['MAX_VARIABLES'] = pick(rng, ['0', '1', '2', '3', '5', '8', '13', '20', '30', '60'])
        if rng.random() < 0.3:
            a['MAX_VAR_DEPTH'] = pick(rng, ['0', '1', '2', '3', '7'])
        if rng.random() < 0.7:
            t['watches'] = gen_exprs(rng, nobj, rng.randrange(0, 7))
            if rng.random() < 0.4:
                t['watches'] += [pick(rng, t['watches'])] if t['watches'] else []
            if rng.random() < 0.4:
                k = rng.randrange(2, 5)
                t['watches'] += [pick(rng, ['[%d]', '(%d, n)', '{"k": %d}', 'Rec(%d)', '"t" * %d']) % j for j in range(k)]
        if rng.random() < 0.25:
            a['log_msg'] = 'v {V(%d)} and {n} {[n]} {[a]}' % rng.randrange(nobj)
        if rng.random() < 0.25:
            a['stage'] = pick(rng, ['method_capture', 'method_start'] if t.get('on') else ['line_capture'])
        if rng.random() < 0.2:
            t['via'] = 'code'
            t['watches'] = (t.get('watches') or []) + ["'tag:%s'" % t['id']]
        tps.append(t)
    plan['tps'] = tps
    return plan


def run(w, plan):
    d = DataRun(w, plan)
    out = []
    escapes(w, out)
    pairs, bad = d.pairs()
    shared = 0
    for m, ev, e, t in pairs:
        for k, msg in d.compare(m, ev, t):
            if k in KINDS:
                out.append(viol(k, 'snapshot of %s at %s: %s' % (t['id'], ev.brief(), msg)))
        refs = {}
        for f in m.frames:
            for v in f.variables:
                refs[v.ID] = refs.get(v.ID, 0) + 1
        for x in m.var_lookup.values():
            for ch in x.children:
                refs[ch.ID] = refs.get(ch.ID, 0) + 1
        shared += sum(1 for n in refs.values() if n > 1)
        unused = set(m.var_lookup) - set(refs) - {r.good_result.ID for r in m.watches if r.HasField('good_result')}
        w.probe('unreferenced_entries', len(unused))
        capture(d, m, ev, t, out)
        if len(out) > 5:
            break
    w.nontrivial = shared > 0
    w.probe('snapshots', len(pairs))
    w.probe('shared_references', shared)
    return out


def capture(d, m, ev, t, out):
    """The captured result is one of the objects of the frame when it is the same object."""
    if not d.captures_of:
        return
    tr = ev.truth
    for r in d.captures_of:
        if not r.HasField('good_result') or 'return' not in r.expression:
            continue
        # the event that ended the invocation (or, for a line, the next event in it) carries the object
        ends = [x for x in d.w.events if x.tid == ev.tid and x.inv == ev.inv and x.seq > ev.seq
                and type(x.arg) is tuple and x.kind == 'return']
        vid = r.good_result.ID
        objs = {id(x.arg[1]) for x in ends}
        known = {o: v for o, v in d.c.id_of.items()}
        if len(objs) == 1:
            o = objs.pop()
            if o in known and known[o] != vid:
                out.append(viol('two-ids', 'snapshot of %s at %s: the captured %s is recorded as %s and as %s' % (
                    t['id'], ev.brief(), r.expression, vid, known[o])))
            elif o not in known and vid in d.c.oid_of and tr is not None and d.c.oid_of[vid] != o:
                out.append(viol('shared-id', 'snapshot of %s at %s: entry %s stands for a variable and for the captured %s'
                                % (t['id'], ev.brief(), vid, r.expression)))


__all__ = ['on_abort']
