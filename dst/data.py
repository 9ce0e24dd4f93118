"""The data plane: programs full of values, snapshots of them, and every delivered snapshot compared with the truth."""
import os
import sys

from .common import pick
from .scene import Scene, Tps, UNLIMITED, args_of, kinds_of, place_of, small_program
from .truth import Compare, Freezer, Model, Truth, encodable, text_of
from . import objgen
from .world import DST

EXPRS = ['n', 'a', 'n + 1', '[n, a]', '(a, [a], {"k": a})', 'GLOBAL_ONE', 'GLOBAL_LIST', 'len(str(n))', 'n.missing', '1 / 0',
         'nope', 'n +', '', '  n  ', '(lambda: n)()', '[n for _ in range(2)]', '{i: a for i in range(3)}', 'Rec(1)', 'self',
         'self.a', 'locals_of_nothing', 'sorted([3, 1])', "'x' * 2000", 'V', 'Rec', 'threading', '[1, 2, 3].index(9)',
         'a if n else n', "{'a': [GLOBAL_LIST, GLOBAL_LIST]}", 'not n', '(zz := n)', 'type(n)', '...', 'yield n', 'return',
         'n; a', 'str', 'len', "f'{n}'", '"%s" % a', '\tn', 'next(iter([a]))', 'deep', 'eval', '__name__', 'any(n for _ in [1])',
         'str(a).upper()', 'GLOBAL_LIST[7]', 'tuple([a] * 12)', 'x12', '"é\\ud800"', 'frame', 'TriggerContext', 'logging',
         'raise_it', '{}["k"]', 'n' * 30, '(_ for _ in ()).throw(SystemExit(3))', '(_ for _ in ()).throw(KeyboardInterrupt())',
         '(_ for _ in ()).throw(GeneratorExit("gone"))', '__import__("sys").exit("bye")', '(_ for _ in ()).throw(Boom())']


def gen_exprs(rng, nobj, k):
    out = []
    for _ in range(k):
        if nobj and rng.random() < 0.3:
            e = 'V(%d)' % rng.randrange(nobj)
            r = rng.random()
            if r < 0.2:
                e = '[%s, %s]' % (e, e)
            elif r < 0.3:
                e = 'str(%s)' % e
            elif r < 0.35:
                e = '%s.missing' % e
            elif r < 0.45:
                e = '(_ for _ in ()).throw(%s)' % e
        else:
            e = pick(rng, EXPRS)
        out.append(e)
    return out


def gen_program(rng, nobj, heavy=0.6, **kw):
    """A small program whose functions bind many generated values."""
    spec = small_program(rng, nobj, **dict(dict(funcs=2, stmts=4, modules=2), **kw))
    m = [9000]
    called = {(c['mod'], c['f']) for g in spec['main'] for c in g['calls']}
    for j, mod in enumerate(spec['mods']):
        for f in mod['funcs']:
            if (j, f['name']) not in called and rng.random() < 0.7:
                pick(rng, spec['main'])['calls'].append({'mod': j, 'f': f['name'], 'cls': f.get('cls'), 'gen': f.get('gen'),
                                                         'n': rng.randrange(0, 4), 'a': pick(rng, ["'s'", '0', 'None', '[1]'])})
    if nobj:
        for mod in spec['mods']:
            for f in mod['funcs']:
                if rng.random() < heavy:
                    pre = []
                    for _ in range(rng.randrange(1, 7)):
                        m[0] += 1
                        name = '%s%d' % (pick(rng, ['v', '_v', '__v', 'self_', 'V_']), m[0])
                        if rng.random() < 0.07:
                            # any object can have methods
                            name = pick(rng, ['self', 'self', 'cls'])
                        pre.append({'s': 'val', 'm': m[0], 'n': name, 'o': rng.randrange(nobj)})
                    f['body'][0:0] = pre
    return spec


def gen_cfg(rng):
    cfg = {}
    r = rng.random()
    pre = ['/app', '/app/src', '/app/src/alpha.py', '/app/lib', '/opt', '/opt/other', '/app/', '', '/ap', '/']
    if r < 0.5:
        cfg['APP_ROOT'] = pick(rng, ['/app', '/app/src', '/opt', '/app/', '', '/nowhere'])
    if rng.random() < 0.3:
        cfg['IN_APP_INCLUDE'] = [pick(rng, pre) for _ in range(rng.randrange(0, 3))]
        if rng.random() < 0.4:
            cfg['IN_APP_INCLUDE'] = ','.join(cfg['IN_APP_INCLUDE'])
    if rng.random() < 0.3:
        cfg['IN_APP_EXCLUDE'] = [pick(rng, pre[:8]) for _ in range(rng.randrange(0, 3))]
        if rng.random() < 0.4:
            cfg['IN_APP_EXCLUDE'] = ','.join(cfg['IN_APP_EXCLUDE'])
    return cfg


def prefixes(v):
    if v is None:
        return []
    if isinstance(v, str):
        v = v.split(',')
    return [x for x in v if x]


def classify(fn, cfg):
    """(app frame?, the short paths that are right)."""
    exc = prefixes(cfg.get('IN_APP_EXCLUDE')) + [sys.exec_prefix]
    inc = prefixes(cfg.get('IN_APP_INCLUDE'))
    root = cfg.get('APP_ROOT')
    ms = [p for p in exc if fn.startswith(p)]
    if ms:
        return False, {fn[len(p):] for p in ms}
    ms = [p for p in inc if fn.startswith(p)]
    if root and fn.startswith(root):
        ms.append(root)
    if ms:
        return True, {fn[len(p):] for p in ms}
    return False, {fn}


def num(v, d):
    try:
        v = int(v)
    except (TypeError, ValueError, OverflowError):
        return d
    return v if v >= 0 else d


class Limits:
    def __init__(self, a):
        self.depth = num(a.get('MAX_VAR_DEPTH'), 5)
        self.string = num(a.get('MAX_STRING_LENGTH'), 1024)
        self.coll = num(a.get('MAX_COLLECTION_SIZE'), 10)
        self.vars = num(a.get('MAX_VARIABLES'), 1000)
        self.time = num(a.get('MAX_TP_PROCESS_TIME'), 100)


def log_exprs(t):
    """The fields of a log template, where that is simple to say (the generator only makes simple ones here)."""
    import re
    return re.findall(r'{([^{}]+)}', args_of(t).get('log_msg') or '')


def in_harness(fn):
    return fn.startswith(DST + os.sep) or fn.startswith(os.path.dirname(os.__file__) + os.sep)


class DataRun:
    """Runs the plan and pairs every delivered snapshot with its tracepoint, its event and the truth."""

    def __init__(self, w, plan, extra=UNLIMITED, specs=None, loaded=None, started=None):
        self.w = w
        self.plan = plan
        w.load_agent()
        if loaded is not None:
            loaded()
        self.sc = sc = Scene(w, plan, extra).prepare()
        self.cfg = dict({'APP_ROOT': '/app'}, **(plan.get('config') or {}))
        self.depth = max([7] + [Limits(args_of(t)).depth + 1 for t in sc.tps])
        self.depth = min(self.depth, 12)
        cap = max([10] + [Limits(args_of(t)).coll for t in sc.tps]) + 5
        self.cap = min(cap, 140)
        self.captures = {}          # (inv) with a method capture somewhere: freeze results
        self.cap_tps = [t for t in sc.tps if args_of(t).get('stage') in ('line_capture', 'method_capture')]
        w.on_event = self.on_event
        self.nodes = 0
        sc.start(specs)
        if started is not None:
            started(self)
        sc.settle(2)
        w.events.clear()
        sc.run_host()
        self.error = sc.stop()
        sc.collect()

    def on_event(self, ev, frame, arg):
        sc = self.sc
        here = [t for t in sc.tps if sc.at(t, ev)]
        if here and ev.delivered:
            exprs = []
            allf = False
            for t in here:
                for e in list(t.get('watches') or []) + log_exprs(t):
                    if e not in exprs:
                        exprs.append(e)
                allf |= args_of(t).get('frame_type') == 'all_frame'
            ev.truth = Truth(self.w, frame, None if allf else 1, exprs, skip=in_harness, max_nodes=2500,
                             max_depth=self.depth, cap=self.cap)
            self.nodes += len(ev.truth.fz.memo)
            ev.thread = self.w.threading.current_thread().name
        if self.cap_tps and ev.kind in ('return', 'exception') and any(t['path'] == ev.base for t in self.cap_tps):
            fz = Freezer(self.w.keep, 400, self.depth, self.cap)
            v = arg[1] if ev.kind == 'exception' and type(arg) is tuple and len(arg) == 3 else arg
            ev.arg = (fz.freeze(v), v, arg)

    # -- comparing ---------------------------------------------------------------------------------------------

    def pairs(self):
        """(message, event, send effect, tracepoint) of every delivered snapshot; problems for the ones that have no place."""
        out, bad = [], []
        for m, ev, e in self.sc.snaps:
            t = self.sc.tp_of_snapshot(m)
            if t is None or ev is None:
                bad.append(('stray', 'a snapshot of %r cannot be attributed' % m.tracepoint.ID))
                continue
            out.append((m, ev, e, t))
        return out, bad

    def missing(self):
        """Hits of snapshot tracepoints (they are unlimited here) that delivered nothing, or too much."""
        have = {}
        for m, ev, e, t in self.pairs()[0]:
            have[(ev.seq, t['id'])] = have.get((ev.seq, t['id']), 0) + 1
        out = []
        due = 0
        for t in self.sc.tps:
            if 'snapshot' not in kinds_of(t):
                continue
            for ev in self.sc.hits(t):
                if not ev.delivered or (ev.kind == 'call' and ev.seg > 0):
                    continue
                due += 1
                n = have.get((ev.seq, t['id']), 0)
                if n != 1:
                    out.append(('absent' if n == 0 else 'repeated',
                                '%d snapshots of tracepoint %s for its hit at %s' % (n, t['id'], ev.brief())))
        return out, due

    def compare(self, m, ev, t):
        """[(kind, text)]"""
        a = args_of(t)
        lim = Limits(a)
        tr = ev.truth
        c = Compare(m, lim.string, lim.coll, lim.depth, lim.vars)
        if tr is None:
            c.bad('stray', 'a snapshot for %s of an event that is not at its location: %s' % (t['id'], ev.brief()))
            return c.problems
        self.c = c
        c.closed()
        self.meta(c, m, ev, t)
        ft = a.get('frame_type', 'single_frame')
        depth_of = {'no_frame': 0, 'all_frame': len(tr.frames)}.get(ft, 1)
        late = ev.wall1 - ev.wall0 > lim.time * 1000000 * 0.9 or bool(self.w.sim.wall_jumps)
        model = Model(lim.depth, lim.coll)
        harness_vars = 0
        odd = False
        plan = []
        if len(m.frames) != len(tr.frames):
            c.bad('frames', '%d frames recorded, the stack has %d' % (len(m.frames), len(tr.frames)))
        for i, (f, x) in enumerate(zip(m.frames, tr.frames)):
            self.frame(c, i, f, x)
            if i >= depth_of:
                if len(f.variables):
                    c.bad('frame-type', 'frame %d has variables, frame_type is %s' % (i, ft))
                continue
            if x.vars is None:
                harness_vars += 1
                continue
            mine = model.walk([v for _, v in x.vars], 1)
            plan.append((i, f, x, mine))
            odd |= bool(harness_vars)       # what the frames of the harness used up is unknown
        for i, f, x, mine in plan:
            want = dict(x.vars)
            for v in f.variables:
                if v.name not in want:
                    c.bad('vars', 'frame %d: %r is not a local variable (%s)' % (i, v.name, sorted(want)))
                else:
                    c.value(v.ID, want[v.name], 'frame %d %s' % (i, v.name))
            got = [v.name for v in f.variables]
            if len(set(got)) != len(got):
                c.bad('vars', 'frame %d: a variable is recorded twice: %s' % (i, sorted(got)))
        late |= odd
        # watches
        watches = list(t.get('watches') or [])
        exprs = [(w_, 'WATCH') for w_ in watches] + [(e, 'LOG') for e in log_exprs(t)]
        # in which order a snapshot lists watches and log fields, or which are first: by source
        src = {0: 'WATCH', 1: 'LOG', 2: 'METRIC', 3: 'CAPTURE'}
        from deepproto.proto.tracepoint.v1.tracepoint_pb2 import WatchSource
        for want_src in ('WATCH', 'LOG'):
            rec = [x for x in m.watches if WatchSource.Name(x.source) == want_src]
            wanted = [e for e, s in exprs if s == want_src]
            if len(rec) != len(wanted):
                c.bad('watches', '%d %s results (%s), %d configured (%s)' % (
                    len(rec), want_src, [x.expression for x in rec][:9], len(wanted), wanted[:9]))
                continue
            for r, e in zip(rec, wanted):
                self.watch(c, r, e, tr, model, lim)
        self.captures_of = [x for x in m.watches if WatchSource.Name(x.source) not in ('WATCH', 'LOG')]
        del src
        roots = []
        for e, s in exprs:
            x = tr.exprs.get(e)
            if x is not None and x[0] == 'ok':
                roots.append(x[1])
                model.walk([x[1]], 0)
        # nothing missing when the budget suffices, breadth first when not
        exact = not tr.fz.incomplete and not harness_vars and not late
        slack = 60 * model.lenient + model.again * 200 + 400 * len(self.captures_of)
        short = model.total + slack > lim.vars
        if not late:
            for i, f, x, mine in plan:
                before = sum(len(p[3]) for p in plan if p[0] < i)
                names = {v.name for v in f.variables}
                gone = [k for k, _ in x.vars if k not in names]
                new1 = sum(1 for lv in mine.values() if lv == 1)
                room = lim.vars - before - (slack if i else 0)
                if gone and not tr.fz.incomplete and new1 <= room:
                    c.bad('vars-missing', 'frame %d (%s): local variables %s are missing (%d entries, budget %d)' % (
                        i, f.method_name, gone[:6], len(m.var_lookup), lim.vars))
        if not tr.fz.incomplete and not late and not short:
            for i, f, x, mine in plan:
                want = dict(x.vars)
                for v in f.variables:
                    if v.name in want:
                        c.full(model, v.ID, want[v.name], 'frame %d %s' % (i, v.name))
            for r, e in zip([x for x in m.watches], [e for e, _ in exprs] if exact else []):
                x = tr.exprs.get(e)
                if x is not None and x[0] == 'ok' and r.HasField('good_result') and r.expression == e:
                    c.full(model, r.good_result.ID, x[1], 'watch %s' % e)
        self.cut = short and len(m.var_lookup) >= lim.vars or any(v.truncated for v in m.var_lookup.values()) or \
            any(lim.coll < (x.size or 0) for x in tr.fz.memo.values())
        self.limits(c, m, lim, plan, model, exact)
        return c.problems

    def meta(self, c, m, ev, t):
        tp = m.tracepoint
        if t.get('via') != 'code' and tp.ID != t['id']:
            c.bad('tracepoint', 'id %r, really %r' % (tp.ID, t['id']))
        if tp.path != t['path'] or tp.line_number != t['line']:
            c.bad('tracepoint', '%s:%s, really %s:%s' % (tp.path, tp.line_number, t['path'], t['line']))
        if dict(tp.args) != {k: v for k, v in args_of(t).items()}:
            c.bad('tracepoint', 'arguments %s, really %s' % (dict(tp.args), args_of(t)))
        if list(tp.watches) != list(t.get('watches') or []):
            c.bad('tracepoint', 'watches %s, really %s' % (list(tp.watches), t.get('watches')))
        if not self.w.sim.wall_jumps:
            if not ev.wall0 <= m.ts_nanos <= ev.wall1:
                c.bad('time', 'timestamp %d is not within the event (%d to %d)' % (m.ts_nanos, ev.wall0, ev.wall1))
            if not 0 <= m.duration_nanos <= ev.wall1 - ev.wall0:
                c.bad('time', 'duration %d, the event took %d' % (m.duration_nanos, ev.wall1 - ev.wall0))

    def frame(self, c, i, f, x):
        if (f.file_name, f.method_name, f.line_number) != (x.file, x.func, x.line):
            c.bad('frames', 'frame %d is %s %s:%d, really %s %s:%d' % (
                i, f.method_name, f.file_name, f.line_number, x.func, x.file, x.line))
        if x.cls is not None and f.class_name not in x.cls:
            c.bad('frames', 'frame %d (%s): class %r, really %s' % (i, x.func, f.class_name, sorted(x.cls)))
        app, short = classify(x.file, self.cfg)
        if f.app_frame != app:
            c.bad('app-frame', 'frame %d %s: app_frame %s, really %s (%s)' % (i, x.file, f.app_frame, app, self.cfg))
        if f.short_path not in short:
            c.bad('short-path', 'frame %d %s: short path %r, really %s (%s)' % (i, x.file, f.short_path, sorted(short),
                                                                              self.cfg))

    def watch(self, c, r, e, tr, model, lim):
        if r.expression != e and encodable(e):
            c.bad('watches', 'result of %r recorded for %r' % (e, r.expression))
            return
        x = tr.exprs.get(e)
        if x is None:
            return
        if x[0] == 'error':
            if r.HasField('good_result'):
                c.bad('watch-result', '%r fails (%s) but has the result %s' % (e, x[1], r.good_result.ID))
            elif x[2] and encodable(x[2]) and not r.error_result:
                c.bad('watch-result', '%r fails (%s) and has no error' % (e, x[1]))
            return
        if not r.HasField('good_result'):
            if len(c.lookup) < lim.vars:
                c.bad('watch-result', '%r evaluates but its result is the error %r (%d entries, budget %d)' % (
                    e, r.error_result, len(c.lookup), lim.vars))
            return
        if r.good_result.name != e and encodable(e):
            c.bad('watches', 'the result of %r is called %r' % (e, r.good_result.name))
        c.value(r.good_result.ID, x[1], 'watch %s' % e)

    # -- C05 ---------------------------------------------------------------------------------------------------

    def limits(self, c, m, lim, plan, model, exact):
        look = m.var_lookup
        if len(look) > lim.vars + 1:
            c.bad('limit-vars', '%d variables recorded, the limit is %d' % (len(look), lim.vars))
        for k, v in look.items():
            if len(v.value) > lim.string and '\\' not in v.value:
                c.bad('limit-string', 'entry %s: %d characters, the limit is %d' % (k, len(v.value), lim.string))
            if v.truncated and len(v.value) < lim.string:
                c.bad('limit-flag', 'entry %s is marked truncated at %d characters, the limit is %d' % (
                    k, len(v.value), lim.string))
            if v.type in ('list', 'tuple', 'set', 'frozenset') and v.value.startswith('Size: ') \
                    and len(v.children) > lim.coll:
                c.bad('limit-collection', 'entry %s (%s): %d elements, the limit is %d' % (
                    k, v.type, len(v.children), lim.coll))
        # depth: the shortest way from a root to each entry
        dist = {}
        queue = []
        for f in m.frames:
            for v in f.variables:
                if v.ID not in dist:
                    dist[v.ID] = 1
                    queue.append(v.ID)
        roots = [w_.good_result.ID for w_ in m.watches if w_.HasField('good_result')]
        pos = 0
        while pos < len(queue):
            k = queue[pos]
            pos += 1
            for ch in (look[k].children if k in look else []):
                if ch.ID not in dist:
                    dist[ch.ID] = dist[k] + 1
                    queue.append(ch.ID)
        wd = {r: 0 for r in roots}
        queue = list(wd)
        pos = 0
        while pos < len(queue):
            k = queue[pos]
            pos += 1
            for ch in (look[k].children if k in look else []):
                if ch.ID not in wd:
                    wd[ch.ID] = wd[k] + 1
                    queue.append(ch.ID)
        far = {}
        for k in {**dist, **wd}:
            # the shortest way is through a variable of a frame or through a result of a watch
            d = min(dist.get(k, 99), wd.get(k, 99))
            if d > max(1, lim.depth - 1):
                far[k] = d
        for k, d in list(far.items())[:2]:
            c.bad('limit-depth', 'entry %s is nested %d deep, the limit is %d' % (k, d, lim.depth))
        # breadth first within each frame
        if exact and not model.lenient:
            got = {o for v, o in c.oid_of.items()}
            earlier = set()
            for i, f, x, mine in plan:
                rec = [lv for o, lv in mine.items() if o in got]
                lost = [lv for o, lv in mine.items() if o not in got]
                # recorded by a watch does not count for the frame
                if rec and lost and not roots and max(rec) > min(lost):
                    c.bad('breadth-first', 'frame %d: an object at depth %d is recorded, one at depth %d is not (budget %d)'
                          % (i, max(rec), min(lost), lim.vars))
                earlier |= set(mine)
            if not roots and model.total > lim.vars and len(look) < lim.vars:
                c.bad('limit-under', '%d variables recorded, %d exist, the limit is %d' % (len(look), model.total, lim.vars))


def base_plan(rng, i, nobj, strange=0.2, hostile=0.0, big=0.15, log='error', sched_kw=None, cycles=0.15, **kw):
    from .common import gen_sched
    plan = {'v': 1, 'sched': gen_sched(rng, **dict(dict(est=5000, hold=0.8, tick=pick(rng, [50, 100, 300]), coop=0.35, maxp=60),
                                                   **(sched_kw or {}))),
            'log': log}
    plan['sched']['step_cap'] = 1_200_000
    plan['nodes'] = objgen.gen_nodes(rng, nobj, strange, hostile, big, cycles) if nobj else []
    plan['prog'] = gen_program(rng, nobj, **kw)
    return plan


__all__ = ['DataRun', 'base_plan', 'gen_cfg', 'gen_exprs', 'Tps', 'text_of', 'place_of']


def on_abort(w, plan, info):
    """A run that only was too much work says nothing; one that hangs does."""
    if info['why'] != 'step-cap':
        return None
    last = max([e['step'] for e in w.effects] + [ev.step0 for ev in w.events[-1:]] + [0])
    if len(w.of('decorate')) > 25 or len(w.events) > 3000 or w.sim.step - last < 600_000:
        w.nontrivial = False
        w.probe('too_big')
        return []
    return None
