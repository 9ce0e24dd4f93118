"""C05: collection is bounded and spends its budget breadth-first."""
from ..common import pick, viol
from ..data import on_abort, DataRun, Tps, base_plan, gen_exprs
from ..scene import escapes
from .. import objgen

ID = 'C05'
QUICK = 800
RULE = ('programs whose locals are generated object graphs (wide, deep, long-stringed, shared, cyclic; in any order of '
        'declaration), snapshot tracepoints with generated limits (variables, depth, string length, collection size: small, '
        'exact, default, text and unusable values); every delivered snapshot is checked for the four bounds, the exact '
        'truncation flag and the breadth-first use of the budget against a reference collection; non-trivial when a snapshot '
        'was cut by a limit')
LEVEL_NOTE = ('Seeded search over object graphs, limits and schedules, checked on the snapshots the simulated service '
              'received against a reference model of the reachable objects.')
ASSUMPTIONS = ['depth is counted as the code does: local variables are level 1, nothing is recorded at level MAX_VAR_DEPTH or '
               'deeper']

KINDS = {'limit-vars', 'limit-string', 'limit-flag', 'limit-collection', 'limit-depth', 'breadth-first', 'limit-under',
         'vars-missing', 'truncated', 'missing-children', 'children', 'value'}


def deep_nodes(rng, base, n):
    """A chain: each holds the next (and something else)."""
    out = []
    for j in range(n):
        k = pick(rng, ['list', 'tuple', 'dict', 'obj', 'exc'])
        nd = {'k': k, 'c': [base + j - 1] if j else [], 'cls': 'Foo', 'exc': 'ValueError'}
        if rng.random() < 0.6:
            nd['c'] = nd['c'] + [rng.randrange(base + j)] if base + j else nd['c']
        if k == 'dict':
            nd['keys'] = ['k%d' % q for q in range(len(nd['c']))]
        out.append(nd)
    return out


def gen(rng, i, tier):
    nobj = pick(rng, [3, 6, 12, 25])
    plan = base_plan(rng, i, nobj, strange=pick(rng, [0, 0, 0.1]), big=pick(rng, [0.1, 0.3, 0.6]), funcs=2, modules=1,
                     threads=rng.random() < 0.3)
    if rng.random() < 0.5:
        plan['nodes'] += deep_nodes(rng, len(plan['nodes']), rng.randrange(3, 12))
    for mod in plan['prog']['mods']:
        for f in mod['funcs']:
            for st in f['body']:
                if st['s'] == 'val':
                    st['o'] = rng.randrange(len(plan['nodes']))
    g = Tps(rng, plan['prog'])
    tps = []
    for _ in range(rng.randrange(1, 5)):
        t = g.one(0.2)
        a = t['args']
        if rng.random() < 0.7:
            a['MAX_VARIABLES'] = pick(rng, ['0', '1', '2', '3', '5', '8', '10', '14', '20', '30', '50', '100', 'x', '-1', '',
                                            '1000'])
        if rng.random() < 0.4:
            a['MAX_VAR_DEPTH'] = pick(rng, ['0', '1', '2', '3', '4', '5', '6', '8', 'deep', '-3', '2.5'])
        if rng.random() < 0.4:
            a['MAX_STRING_LENGTH'] = pick(rng, ['0', '1', '5', '6', '7', '8', '9', '30', '31', '32', '33', '100', '1023', '1024',
                                                '1025', '3000', 'long', '-1'])
        if rng.random() < 0.4:
            a['MAX_COLLECTION_SIZE'] = pick(rng, ['0', '1', '2', '4', '9', '10', '11', '12', '39', '40', '41', '100', 'big', '-1'])
        if rng.random() < 0.2:
            a['frame_type'] = pick(rng, ['all_frame', 'single_frame', 'no_frame'])
        if rng.random() < 0.25:
            t['watches'] = gen_exprs(rng, nobj, rng.randrange(1, 4))
        if rng.random() < 0.2:
            a['log_msg'] = 'big {V(%d)} text {GLOBAL_LIST} {[n] * 40} {[[[[[[a]]]]]]}' % rng.randrange(nobj)
        if rng.random() < 0.2:
            t['via'] = 'code'
            t['watches'] = (t.get('watches') or []) + ["'tag:%s'" % t['id']]
        tps.append(t)
    plan['tps'] = tps
    return plan


def run(w, plan):
    d = DataRun(w, plan)
    out = []
    escapes(w, out)
    pairs, bad = d.pairs()
    cut = 0
    for m, ev, e, t in pairs:
        for k, msg in d.compare(m, ev, t):
            if k in KINDS:
                out.append(viol(k, 'snapshot of %s (%s) at %s: %s' % (t['id'], t['args'], ev.brief(), msg)))
        cut += bool(d.cut)
        if len(out) > 5:
            break
    w.nontrivial = cut > 0
    w.probe('snapshots', len(pairs))
    w.probe('snapshots_cut_by_a_limit', cut)
    return out


__all__ = ['on_abort', 'objgen']
