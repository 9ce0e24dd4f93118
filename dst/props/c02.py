"""C02: a snapshot truthfully describes the paused frame."""
from ..common import pick, viol
from ..data import on_abort, DataRun, Tps, base_plan, gen_cfg, gen_exprs
from ..scene import escapes

ID = 'C02'
QUICK = 700
RULE = ('generated multi-module programs (recursion, methods, generators, threads) whose locals are generated object graphs '
        '(scalars, nested/shared/cyclic containers, objects, library types), 1-5 snapshot tracepoints of every stage and '
        'frame_type with watches and log fields, app-root/include/exclude settings, thread names; the state is recorded independently '
        'before the agent sees the event and every delivered snapshot is compared field by field; non-trivial when a '
        'snapshot was delivered')
LEVEL_NOTE = ('Seeded search over programs, data and schedules; every snapshot the simulated service received is compared '
              'with an independent reading of the paused thread. Trusts the recording shim and the truth reader.')

KINDS = {'stray', 'frames', 'frame-type', 'app-frame', 'short-path', 'vars', 'vars-missing', 'watches', 'watch-result',
         'tracepoint', 'time', 'type', 'value', 'truncated', 'children', 'name', 'missing-children', 'dangling', 'two-ids',
         'shared-id'}


def gen(rng, i, tier):
    nobj = pick(rng, [0, 4, 8, 14, 25])
    plan = base_plan(rng, i, nobj, strange=pick(rng, [0, 0.2, 0.4]), big=pick(rng, [0, 0.1, 0.3]), log=pick(rng, ['error', 'debug']))
    cfg = gen_cfg(rng)
    if rng.random() < 0.4:
        cfg = dict(cfg or {}, PLUGIN_PYTHONPLUGIN='True')
    if cfg:
        plan['config'] = cfg
    g = Tps(rng, plan['prog'])
    tps = []
    for _ in range(rng.randrange(1, 6)):
        t = g.one(0.35)
        if tps and rng.random() < 0.3:
            o = pick(rng, tps)
            t = dict(t, at=o['at'])
            t.pop('on', None)
            t['args'] = {k: v for k, v in o['args'].items() if k == 'method_name'}
            if 'on' in o:
                t['on'] = o['on']
        a = t['args']
        r = rng.random()
        if r < 0.3:
            a['frame_type'] = 'all_frame'
        elif r < 0.4:
            a['frame_type'] = 'no_frame'
        elif r < 0.5:
            a['frame_type'] = 'single_frame'
        if rng.random() < 0.6:
            t['watches'] = gen_exprs(rng, nobj, rng.randrange(0, 5))
        if rng.random() < 0.2:
            a['log_msg'] = 'text {n} and {GLOBAL_ONE}'
        if rng.random() < 0.15:
            a['stage'] = pick(rng, ['method_start', 'method_capture'] if t.get('on') else ['line_start', 'line_capture'])
        if rng.random() < 0.2:
            a['stack_type'] = pick(rng, ['stack', 'stack', 'odd'])
        if rng.random() < 0.2:
            t['via'] = 'code'
            t['watches'] = (t.get('watches') or []) + ["'tag:%s'" % t['id']]
        tps.append(t)
    plan['tps'] = tps
    return plan


def run(w, plan):
    d = DataRun(w, plan)
    out = []
    escapes(w, out)
    pairs, bad = d.pairs()
    for k, msg in bad[:2]:
        out.append(viol(k, msg))
    for m, ev, e, t in pairs:
        for k, msg in d.compare(m, ev, t):
            if k in KINDS:
                out.append(viol(k, 'snapshot of %s at %s: %s' % (t['id'], ev.brief(), msg)))
        if (plan.get('config') or {}).get('PLUGIN_PYTHONPLUGIN'):
            name = [a.value.string_value for a in m.attributes if a.key == 'thread_name']
            if name != [ev.thread]:
                out.append(viol('thread', 'snapshot of %s at %s: the thread is %s, it was %r' % (t['id'], ev.brief(), name, ev.thread)))
            w.probe('thread_names')
        if len(out) > 5:
            break
    w.nontrivial = bool(pairs)
    w.probe('snapshots', len(pairs))
    w.probe('truth_nodes', d.nodes)
    w.probe('due_without_snapshot', len(d.missing()[0]))
    return out
