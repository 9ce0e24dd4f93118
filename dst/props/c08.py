"""C08: the service receives every field of every snapshot unchanged, and every request carries the auth metadata."""
import base64
import re
import sys
import types

from ..common import gen_sched, pick, subset, viol
from ..data import DataRun, Tps, base_plan, gen_exprs, on_abort
from ..kernel import MS, SEC
from ..scene import UNLIMITED, escapes
from ..truth import parse
from .. import plugins

ID = 'C08'
QUICK = 900
RULE = ('(a) generated snapshots - every optional field set or not, unicode, text that is not valid UTF-8, empty and large '
        'tables, every attribute type and nesting - are pushed from several threads through the real push service, task '
        'pool and protobuf serialisation; (b) snapshots of running programs, written down when they are handed over; under '
        'slow, failing and reordered sends, clock jumps, with no, basic, failing and custom auth providers given in code or '
        'environment; every message and the metadata of every request are compared field by field; non-trivial when a '
        'snapshot was received')
LEVEL_NOTE = ('Seeded search over snapshot contents, auth configurations, schedules and network faults; what the simulated '
              'service decodes is compared with the snapshot as it was handed to the push service, field by field.')
ASSUMPTIONS = ['text that is not valid UTF-8 cannot be sent: its valid parts have to be there, in order',
               'an integer beyond 64 bits is sent as its text',
               'in mode (b) the in-process record is taken at PushService.push_snapshot; if that is not called, only the '
               'decoration, tracepoint, resource, log message and metadata are compared']
OPTIONAL = ('args', 'config', 'env', 'net', 'fail', 'delay', 'watches', 'metrics', 'condition', 'jumps', 'read_jumps',
            'log', 'attrs', 'res', 'transpiled', 'wattrs')

TEXT = ['', 'a', 'value', 'é', '日本語', '\U0001F600', '\x00', 'a\nb\tc', ' lead', 'x' * 1500, '\\ud800', "'q\"", '%s {0}',
        '\x7f\x80', 'null', 'None', '\u2028', '-1']
BAD = ['\ud800', 'a\udcffb', 'é\udfff\ud800z', '\udc80']
KEYS = ['k', 'service.name', 'é', 'a b', 'X' * 200, 'thread_name', 'context2', 'path', '0']


def text(rng, bad=0.1):
    r = rng.random()
    if r < bad:
        return pick(rng, BAD)
    if r < 0.6:
        return pick(rng, TEXT)
    return ''.join(pick(rng, 'abz019_.-/\\é"<') for _ in range(rng.randrange(0, 12)))


def value(rng, d=0):
    """An attribute value: a JSON-able description."""
    r = rng.random()
    if r < 0.3:
        return text(rng)
    if r < 0.4:
        return rng.random() < 0.5
    if r < 0.6:
        return pick(rng, [0, 1, -1, 2 ** 31, -2 ** 63, 2 ** 63 - 1, 2 ** 63, -2 ** 70, 10 ** 30, rng.randrange(10 ** 6)])
    if r < 0.75:
        return pick(rng, [0.0, -0.5, 1e300, 1.5, 'f:inf', 'f:nan', 'f:-0.0'])
    k = pick(rng, ['s', 'i', 'b', 'f', 'n'])
    return {'l': [{'s': text(rng), 'i': rng.randrange(-5, 2 ** 40), 'b': rng.random() < 0.5, 'f': rng.random(),
                   'n': pick(rng, [None, 'x'])}[k] for _ in range(rng.randrange(0, 4))]}


def real(v):
    if isinstance(v, dict):
        return [real(x) for x in v['l']]
    if isinstance(v, str) and v.startswith('f:'):
        return float(v[2:])
    return v


def gen_var_id(rng, ids):
    return {'vid': pick(rng, ids), 'name': text(rng), 'mod': pick(rng, [None, [], ['private'], ['protected'], ['a', 'b']]),
            'orig': pick(rng, [None, None, text(rng)])}


def gen_snapshot(rng, n):
    ids = [str(k) for k in range(1, pick(rng, [1, 2, 6, 40]) + 1)] + pick(rng, [[], ['x'], ['0', '-1']])
    s = {'tp': {'id': text(rng, 0.05) + str(n), 'path': text(rng), 'line': pick(rng, [0, 1, 17, 2 ** 31, -1]),
                'args': {text(rng, 0): text(rng) for _ in range(rng.randrange(0, 4))},
                'watches': [text(rng) for _ in range(rng.randrange(0, 3))]},
         'ts': pick(rng, [0, 1, 1700000000123456789, 2 ** 63]), 'log': pick(rng, [None, '', text(rng), '[deep] msg']),
         'frames': [], 'vars': {}, 'wres': [], 'attrs': {}, 'res': {}, 'complete': rng.random() < 0.7}
    for i in ids:
        if rng.random() < 0.9:
            s['vars'][i] = {'type': text(rng), 'value': text(rng), 'hash': str(rng.randrange(10 ** 12)),
                            'kids': [gen_var_id(rng, ids) for _ in range(pick(rng, [0, 0, 1, 3, 15]))],
                            'trunc': rng.random() < 0.3}
    for _ in range(pick(rng, [0, 1, 3, 30])):
        f = {'file': text(rng), 'short': text(rng), 'method': text(rng), 'line': rng.randrange(0, 5000),
             'vars': [gen_var_id(rng, ids) for _ in range(pick(rng, [0, 0, 1, 5]))], 'cls': pick(rng, [None, '', text(rng)]),
             'async': rng.random() < 0.2, 'col': pick(rng, [0, 0, 7]), 'app': rng.random() < 0.5}
        if rng.random() < 0.2:
            f['transpiled'] = [pick(rng, ['t.py', 'é.ts']), rng.randrange(1, 99), rng.randrange(0, 99)]
        s['frames'].append(f)
    for _ in range(rng.randrange(0, 5)):
        ok = rng.random() < 0.6
        s['wres'].append({'src': pick(rng, ['WATCH', 'LOG', 'METRIC', 'CAPTURE']), 'expr': text(rng),
                          'ok': gen_var_id(rng, ids) if ok else None, 'err': None if ok else text(rng)})
    for _ in range(pick(rng, [0, 1, 3, 8])):
        s['attrs'][pick(rng, KEYS)] = value(rng)
    for _ in range(pick(rng, [0, 1, 3])):
        s['res'][pick(rng, KEYS)] = value(rng)
    return s


def gen_auth(rng):
    r = rng.random()
    if r < 0.25:
        return None
    where = pick(rng, ['code', 'env'])
    if r < 0.6:
        a = {'kind': 'basic', 'where': where}
        if rng.random() < 0.9:
            a['user'] = pick(rng, ['bob', 'é', 'a:b', '', 'u' * 60])
        if rng.random() < 0.9:
            a['pass'] = pick(rng, ['secret', 'pä%ss', '', 'p:w', 'x' * 100])
        if rng.random() < 0.4:
            a['uwhere'] = pick(rng, ['code', 'env'])
        return a
    a = {'kind': 'custom', 'where': where,
         'md': [[pick(rng, ['authorization', 'x-key', 'x-org', 'tenant-bin2']), pick(rng, ['v1', 'Bearer abc', '', 'a=b; c'])]
                for _ in range(rng.randrange(0, 4))],
         'as': pick(rng, ['list', 'tuple'])}
    if rng.random() < 0.3:
        a['fail_first'] = rng.randrange(1, 4)
    return a


def gen_net(rng, k):
    net = {'lat': pick(rng, [[1, 1], [0, 40], [100, 3000]])}
    if rng.random() < 0.4:
        net['send'] = [pick(rng, [None, None, {'t': 'slow', 'ms': pick(rng, [500, 20000])}, {'t': 'error_after'},
                                  {'lat': 9000}, {'t': 'exc', 'exc': 'OSError'}]) for _ in range(k)]
    if rng.random() < 0.3:
        net['poll'] = [pick(rng, [None, {'t': 'error_before'}, {'t': 'garbage'}, {'t': 'error_after'}]) for _ in range(3)]
    return net


def gen(rng, i, tier):
    if rng.random() < 0.55:
        plan = {'v': 1, 'mode': 'direct', 'sched': gen_sched(rng, est=2500, hold=0.8), 'log': pick(rng, ['error', 'debug'])}
        k = rng.randrange(1, 7)
        plan['threads'] = [[gen_snapshot(rng, 10 * t + n) for n in range(rng.randrange(1, 4))]
                           for t in range(rng.randrange(1, 4))]
        plan['net'] = gen_net(rng, k)
    else:
        nobj = pick(rng, [0, 4, 10])
        plan = base_plan(rng, i, nobj, strange=pick(rng, [0, 0.2, 0.5]), hostile=pick(rng, [0, 0, 0.2]),
                         log=pick(rng, ['error', 'debug']))
        plan['mode'] = 'run'
        plan['net'] = gen_net(rng, 6)
        if plan['net'].get('poll'):
            plan['net']['poll'][0] = None
        g = Tps(rng, plan['prog'])
        tps = []
        for _ in range(rng.randrange(1, 4)):
            t = g.one(0.3)
            a = t['args']
            if rng.random() < 0.5:
                t['watches'] = gen_exprs(rng, nobj, rng.randrange(0, 4))
            if rng.random() < 0.5:
                a['log_msg'] = pick(rng, ['plain', 'n is {n}', 'é {n} {a}', '{nope} x', '', '\U0001F600{n}'])
            if rng.random() < 0.3:
                a['stage'] = pick(rng, ['method_capture', 'method_start'] if t.get('on') else ['line_capture'])
            if rng.random() < 0.2:
                a['frame_type'] = 'all_frame'
            if rng.random() < 0.2:
                a['extra'] = pick(rng, TEXT[:12])
            if rng.random() < 0.25:
                t['via'] = 'code'
                t['watches'] = (t.get('watches') or []) + ["'tag:%s'" % t['id']]
            tps.append(t)
        plan['tps'] = tps
        plan['deco'] = []
        for k in range(rng.randrange(0, 3)):
            plan['deco'].append({'name': 'D%d' % k, 'kinds': subset(rng, ['deco', 'res'], 0.7) or ['deco'],
                                 'order': rng.randrange(-5, 5),
                                 'wattrs': {'d%d.%d' % (k, j): value(rng) for j in range(rng.randrange(0, 3))},
                                 'wres': {'r%d.%d' % (k, j): value(rng) for j in range(rng.randrange(0, 3))}})
        if rng.random() < 0.25:
            plan['sched']['read_jumps'] = [[rng.randrange(3, 120), pick(rng, [-1, -1, 1]) * pick(rng, [1, 1000, 3600]) * SEC]
                                           for _ in range(rng.randrange(1, 4))]
    plan['auth'] = gen_auth(rng)
    return plan


# -- auth -----------------------------------------------------------------------------------------------------------


def setup_auth(w, plan):
    """Puts the configuration in place; returns the metadata every request has to carry."""
    a = plan.get('auth')
    if not a:
        return {}, []
    code, env = {}, plan.setdefault('env', {})

    def put(where, key, v):
        if where == 'code':
            code[key] = v
        else:
            env['DEEP_' + key] = v

    if a['kind'] == 'basic':
        put(a['where'], 'SERVICE_AUTH_PROVIDER', 'deep.api.auth.BasicAuthProvider')
        if 'user' in a:
            put(a.get('uwhere', a['where']), 'SERVICE_USERNAME', a['user'])
        if 'pass' in a:
            put(a.get('uwhere', a['where']), 'SERVICE_PASSWORD', a['pass'])
        if 'user' in a and 'pass' in a:
            t = base64.b64encode(('%s:%s' % (a['user'], a['pass'])).encode('utf-8')).decode()
            return code, [['authorization', 'Basic%20' + t]]
        return code, []
    put(a['where'], 'SERVICE_AUTH_PROVIDER', 'dst_auth.Provider')
    return code, [list(x) for x in a['md']]


def install_auth(w, plan):
    a = plan.get('auth')
    if not a or a['kind'] != 'custom':
        return
    from deep.api.auth import AuthProvider
    left = [a.get('fail_first', 0)]

    class Provider(AuthProvider):
        def provide(self):
            w.probe('auth_provided')
            if left[0] > 0:
                left[0] -= 1
                w.sim.count_fault('auth_provider')
                raise RuntimeError('injected: no token yet')
            md = [tuple(x) for x in a['md']]
            return md if a['as'] == 'list' else tuple(md)

    m = types.ModuleType('dst_auth')
    m.Provider = Provider
    sys.modules['dst_auth'] = m


def check_auth(w, want, out):
    n = 0
    for e in w.of('poll', 'send'):
        n += 1
        got = e['metadata'] or []
        if got != want:
            out.append(viol('metadata', 'the %s request %d carried the metadata %s, the provider supplies %s' % (
                e['kind'], e['n'], got, want)))
            break
    w.probe('requests', n)


# -- comparing ------------------------------------------------------------------------------------------------------

SUR = re.compile('[\ud800-\udfff]+')


def same_text(got, want):
    if want is None:
        return got == ''
    want = want if isinstance(want, str) else str(want)
    if not SUR.search(want):
        return got == want
    pos = 0
    for part in SUR.split(want):
        k = got.find(part, pos)
        if k < 0:
            return False
        pos = k + len(part)
    return True


def same_value(p, v):
    k = p.WhichOneof('value')
    if v is None:
        return k is None
    if type(v) is bool:
        return k == 'bool_value' and p.bool_value == v
    if isinstance(v, int):
        if -2 ** 63 <= v < 2 ** 63:
            return k == 'int_value' and p.int_value == v
        return k == 'string_value' and p.string_value == str(v)
    if isinstance(v, float):
        return k == 'double_value' and (repr(p.double_value) == repr(v))
    if isinstance(v, bytes):
        return k == 'bytes_value' and p.bytes_value == v
    if isinstance(v, str):
        return k == 'string_value' and same_text(p.string_value, v)
    if isinstance(v, (list, tuple)):
        return k == 'array_value' and len(p.array_value.values) == len(v) and \
            all(same_value(a, b) for a, b in zip(p.array_value.values, v))
    return False


class Diff:
    def __init__(self):
        self.out = []

    def text(self, what, got, want):
        if not same_text(got, want):
            self.out.append('%s is %r, really %r' % (what, got[:80], want if want is None else str(want)[:80]))

    def eq(self, what, got, want):
        if got != want:
            self.out.append('%s is %r, really %r' % (what, got, want))

    def kvs(self, what, got, want):
        have = {kv.key: kv.value for kv in got}
        if len(have) != len(got):
            self.out.append('%s: a key is sent twice: %s' % (what, sorted(kv.key for kv in got)))
        if len(have) != len(want):
            self.out.append('%s: keys %s, really %s' % (what, sorted(have), sorted(want)))
        for k, v in want.items():
            hits = [x for x in have if same_text(x, k)]
            if not hits:
                self.out.append('%s: %r is missing' % (what, k))
            elif not any(same_value(have[x], v) for x in hits):
                self.out.append('%s: %r is %s, really %r' % (what, k, str(have[hits[0]]).strip()[:80], v))

    def var_id(self, what, g, s):
        self.eq(what + ' id', g.ID, s['vid'])
        self.text(what + ' name', g.name, s['name'])
        self.eq(what + ' modifiers', list(g.modifiers), list(s['mod'] or []))
        self.text(what + ' original name', g.original_name, s['orig'])

    def var_ids(self, what, gs, ss):
        if len(gs) != len(ss):
            self.out.append('%s: %d, really %d' % (what, len(gs), len(ss)))
        for i, (g, s) in enumerate(zip(gs, ss)):
            self.var_id('%s %d' % (what, i), g, s)

    def snapshot(self, m, s):
        self.eq('id', int.from_bytes(m.ID, 'big'), s['id'])
        self.eq('length of the id', len(m.ID), 16)
        tp = s['tp']
        self.text('tracepoint id', m.tracepoint.ID, tp['id'])
        self.text('tracepoint path', m.tracepoint.path, tp['path'])
        self.eq('tracepoint line', m.tracepoint.line_number, max(0, tp['line']))
        self.eq('number of arguments', len(m.tracepoint.args), len(tp['args']))
        for k, v in tp['args'].items():
            if not any(same_text(a, k) and same_text(b, v) for a, b in m.tracepoint.args.items()):
                self.out.append('argument %r: %r is not in %s' % (k, v, dict(m.tracepoint.args)))
        self.eq('number of tracepoint watches', len(m.tracepoint.watches), len(tp['watches']))
        for a, b in zip(m.tracepoint.watches, tp['watches']):
            self.text('tracepoint watch', a, b)
        self.eq('timestamp', m.ts_nanos, s['ts'])
        self.eq('duration', m.duration_nanos, s['dur'])
        self.text('log message', m.log_msg, s['log'])
        self.eq('number of frames', len(m.frames), len(s['frames']))
        for i, (g, f) in enumerate(zip(m.frames, s['frames'])):
            w = 'frame %d ' % i
            self.text(w + 'file', g.file_name, f['file'])
            self.text(w + 'short path', g.short_path, f['short'])
            self.text(w + 'method', g.method_name, f['method'])
            self.eq(w + 'line', g.line_number, f['line'] or 0)
            self.text(w + 'class', g.class_name, f['cls'])
            self.eq(w + 'is_async', g.is_async, bool(f['async']))
            self.eq(w + 'column', g.column_number, f['col'] or 0)
            self.eq(w + 'app_frame', g.app_frame, bool(f['app']))
            t = f.get('transpiled') or [None, 0, 0]
            self.text(w + 'transpiled file', g.transpiled_file_name, t[0])
            self.eq(w + 'transpiled line', g.transpiled_line_number, t[1] or 0)
            self.eq(w + 'transpiled column', g.transpiled_column_number, t[2] or 0)
            self.var_ids(w + 'variables', g.variables, f['vars'])
        self.eq('ids in the variable table', sorted(m.var_lookup), sorted(s['vars']))
        for k, v in s['vars'].items():
            if k not in m.var_lookup:
                continue
            g = m.var_lookup[k]
            w = 'variable %s ' % k
            self.text(w + 'type', g.type, v['type'])
            self.text(w + 'value', g.value, v['value'])
            self.eq(w + 'hash', g.hash, v['hash'] or '')
            self.eq(w + 'truncated', g.truncated, bool(v['trunc']))
            self.var_ids(w + 'children', g.children, v['kids'])
        self.eq('number of watch results', len(m.watches), len(s['wres']))
        from deepproto.proto.tracepoint.v1.tracepoint_pb2 import WatchSource
        for i, (g, r) in enumerate(zip(m.watches, s['wres'])):
            w = 'watch result %d ' % i
            self.text(w + 'expression', g.expression, r['expr'])
            self.eq(w + 'source', WatchSource.Name(g.source), r['src'])
            self.eq(w + 'has a value', g.HasField('good_result'), r['ok'] is not None)
            if r['ok'] is not None and g.HasField('good_result'):
                self.var_id(w + 'value', g.good_result, r['ok'])
            self.text(w + 'error', g.error_result, r['err'])
        self.kvs('attributes', m.attributes, s['attrs'])
        self.kvs('resource', m.resource, s['res'])
        return self.out


def write_down(s):
    """A snapshot of the agent (its public properties) as plain data."""
    def vid(v):
        return None if v is None else {'vid': v.vid, 'name': v.name, 'mod': list(v.modifiers), 'orig': v.original_name}
    tp = s.tracepoint
    return {'id': s.id, 'tp': {'id': tp.id, 'path': tp.path, 'line': tp.line_no, 'args': dict(tp.args),
                               'watches': list(tp.watches)},
            'ts': s.ts_nanos, 'dur': s.duration_nanos, 'log': s.log_msg,
            'frames': [{'file': f.file_name, 'short': f.short_path, 'method': f.method_name, 'line': f.line_number,
                        'cls': f.class_name, 'async': f.is_async, 'col': f.column_number, 'app': f.app_frame,
                        'transpiled': [f.transpiled_file_name, f.transpiled_line_number, f.transpiled_column_number],
                        'vars': [vid(v) for v in f.variables]} for f in s.frames],
            'vars': {k: {'type': v.type, 'value': v.value, 'hash': v.hash, 'trunc': v.truncated,
                         'kids': [vid(c) for c in v.children]} for k, v in s.var_lookup.items()},
            'wres': [{'src': r.source, 'expr': r.expression, 'ok': vid(r.result), 'err': r.error} for r in s.watches],
            'attrs': dict(s.attributes.items()), 'res': dict(s.resource.attributes.items())}


# -- mode (a) -------------------------------------------------------------------------------------------------------


def make(s):
    """The snapshot object for a description, and its plain data."""
    from deep.api.resource import Resource
    from deep.api.tracepoint import EventSnapshot, StackFrame, TracePointConfig, Variable, VariableId, WatchResult

    def vid(v):
        return None if v is None else VariableId(v['vid'], v['name'], None if v['mod'] is None else list(v['mod']), v['orig'])
    tp = s['tp']
    lookup = {k: Variable(v['type'], v['value'], v['hash'], [vid(c) for c in v['kids']], v['trunc'])
              for k, v in s['vars'].items()}
    frames = []
    for f in s['frames']:
        t = f.get('transpiled')
        kw = dict(transpiled_file_name=t[0], transpiled_line_number=t[1], transpiled_column_number=t[2]) if t else {}
        frames.append(StackFrame(f['file'], f['short'], f['method'], f['line'], [vid(v) for v in f['vars']], f['cls'],
                                 is_async=f['async'], column_number=f['col'], app_frame=f['app'], **kw))
    e = EventSnapshot(TracePointConfig(tp['id'], tp['path'], tp['line'], dict(tp['args']), list(tp['watches']), []),
                      s['ts'], Resource({k: real(v) for k, v in s.get('res', {}).items()}), frames, lookup)
    for r in s['wres']:
        e.add_watch_result(WatchResult(r['src'], r['expr'], vid(r['ok']), r['err']))
    for k, v in s.get('attrs', {}).items():
        e.attributes[k] = real(v)
    if s['log'] is not None:
        e.log_msg = s['log']
    if s['complete']:
        e.complete()
    want = dict(s, id=e.id, dur=e.duration_nanos)
    # what the attribute store made of it (C18)
    want['attrs'] = dict(e.attributes.items())
    want['res'] = dict(e.resource.attributes.items())
    return e, want


def direct(w, plan, out):
    code, md = setup_auth(w, plan)
    w.load_agent()
    install_auth(w, plan)
    names = w.install_plugins([])
    w.sim.off = False
    deep = w.start_agent(PLUGINS=names, **code)
    w.sim.sleep(2 * SEC)
    w.sim.arm()
    wants = []

    def worker(items):
        for s in items:
            e, want = make(s)
            wants.append(want)
            try:
                deep.push.push_snapshot(e)
            except BaseException as x:
                out.append(viol('push', 'pushing a snapshot raised %s: %s' % (type(x).__name__, x)))

    ts = [w.threading.Thread(target=worker, args=(it,)) for it in plan['threads']]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    w.sim.sleep(200 * SEC)
    deep.shutdown()
    w.finish()
    got = {}
    for e in w.of('send'):
        m = parse(e['data'])
        got.setdefault(int.from_bytes(m.ID, 'big'), []).append((m, e))
    late_auth = (plan.get('auth') or {}).get('fail_first', 0)
    missing = 0
    for s in wants:
        ms = got.pop(s['id'], [])
        if not ms:
            missing += 1
            if missing > late_auth:
                out.append(viol('absent', 'snapshot of tracepoint %r was never sent' % s['tp']['id']))
        elif len(ms) > 1:
            out.append(viol('repeated', 'snapshot of tracepoint %r was sent %d times' % (s['tp']['id'], len(ms))))
        else:
            for x in Diff().snapshot(ms[0][0], s)[:3]:
                out.append(viol('field', 'snapshot of tracepoint %r: %s' % (s['tp']['id'], x)))
        if len(out) > 6:
            break
    if got and not out:
        out.append(viol('stray', '%d snapshots were sent that nobody pushed' % len(got)))
    check_auth(w, md, out)
    w.nontrivial = bool(w.of('send'))
    w.probe('direct_snapshots', len(wants))


# -- mode (b) -------------------------------------------------------------------------------------------------------


def running(w, plan, out):
    code, md = setup_auth(w, plan)
    plan['config'] = dict(plan.get('config') or {}, **code)
    pushed = {}
    specs = [plugins.RECORDER]
    for d in plan.get('deco') or []:
        specs.append(dict(d, attrs={k: real(v) for k, v in (d.get('wattrs') or {}).items()},
                          res={k: real(v) for k, v in (d.get('wres') or {}).items()}))

    def started(d):
        push = d.sc.deep.push
        inner = push.push_snapshot

        def push_snapshot(snapshot, *a, **k):
            old, w.sim.off = w.sim.off, True
            try:
                pushed[snapshot.id] = write_down(snapshot)
            finally:
                w.sim.off = old
            return inner(snapshot, *a, **k)
        push.push_snapshot = push_snapshot

    d = DataRun(w, plan, specs=specs, loaded=lambda: install_auth(w, plan), started=started)
    escapes(w, out)
    pairs, bad = d.pairs()
    for k, msg in bad[:2]:
        out.append(viol(k, msg))
    if not (plan.get('auth') or {}).get('fail_first'):
        for k, msg in d.missing()[0][:2]:
            out.append(viol(k, msg))
    polls = [e for e in w.of('poll')]
    from deepproto.proto.poll.v1.poll_pb2 import PollRequest
    poll_res = PollRequest.FromString(polls[-1]['data']).resource.attributes if polls else None
    want_res = {}
    for s in sorted((s for s in specs if 'res' in s['kinds']), key=lambda s: s.get('order', -10)):
        want_res.update(s.get('res') or {})
    logs = {}
    for e in w.of('log'):
        logs.setdefault((e['ev'], e['tp'], e['ctx']), []).append(e['msg'])
    n = 0
    for m, ev, e, t in pairs:
        who = 'snapshot of %s at %s' % (t['id'], ev.brief())
        x = pushed.get(int.from_bytes(m.ID, 'big'))
        if x is not None:
            n += 1
            for msg in Diff().snapshot(m, x)[:3]:
                out.append(viol('field', '%s: %s' % (who, msg)))
        have = {kv.key: kv.value for kv in m.attributes}
        want = {}
        for s in specs:
            if 'deco' in s['kinds']:
                want.update(s.get('attrs') or {})
                if 'deco_' + s['name'] not in have:
                    out.append(viol('attributes', '%s: the attributes of decorator %s are missing' % (who, s['name'])))
        for k, v in want.items():
            v = tuple(v) if isinstance(v, list) else v
            if k not in have or not same_value(have[k], v):
                out.append(viol('attributes', '%s: attribute %s is %s, really %r' % (who, k, str(have.get(k)).strip(), v)))
        if 'tracepoint' not in have or have['tracepoint'].string_value != m.tracepoint.ID or 'context' not in have:
            out.append(viol('attributes', '%s: attributes %s' % (who, {k: str(v).strip() for k, v in have.items()})))
        # the resource of the snapshot is the one of the polls, with what the plugins said
        res = {kv.key: kv.value for kv in m.resource}
        if poll_res is not None and sorted((kv.key, str(kv.value)) for kv in poll_res) != \
                sorted((k, str(v)) for k, v in res.items()):
            out.append(viol('resource', '%s: the resource %s is not the one of the polls' % (who, sorted(res))))
        for k, v in want_res.items():
            v = tuple(v) if isinstance(v, list) else v
            if k not in res or not same_value(res[k], v):
                out.append(viol('resource', '%s: resource %s is %s, really %r' % (who, k, str(res.get(k)).strip(), v)))
        if 'log_msg' in (t.get('args') or {}):
            ms = logs.get((ev.seq, m.tracepoint.ID, have['context'].string_value if 'context' in have else None), [])
            if not any(same_text(m.log_msg, x) for x in ms):
                out.append(viol('log', '%s: log message %r, logged %s' % (who, m.log_msg, ms)))
        elif m.log_msg:
            out.append(viol('log', '%s: a log message %r nobody asked for' % (who, m.log_msg)))
        if len(out) > 6:
            break
    check_auth(w, md, out)
    w.nontrivial = bool(pairs)
    w.probe('snapshots', len(pairs))
    w.probe('compared_with_handover', n)


def run(w, plan):
    out = []
    if plan['mode'] == 'direct':
        direct(w, plan, out)
    else:
        running(w, plan, out)
    return out


__all__ = ['on_abort', 'UNLIMITED', 'MS']
