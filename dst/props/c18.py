"""C18: resource identity: merge precedence, mandatory keys, bounded attribute store."""
import collections
import enum
import os
import traceback
from urllib.parse import unquote_to_bytes

from ..common import gen_sched, gen_stall, pick, subset, viol
from ..data import on_abort
from ..kernel import SEC
from ..truth import parse
from .. import plugins
from .c08 import Diff
from .c10 import markers

ID = 'C18'
QUICK = 4500
RULE = ('histories of set, delete, update, pop, clear, merge, copy and freeze on attribute containers of any capacity and value '
        'limit with arbitrary keys and values, by one thread and by several at once under a chosen schedule; histories of '
        'resource creation and merges over a pool of resources (built-in, from the environment, from code) with any schema '
        'URLs; and agents started with resource variables in the environment (also malformed, percent-encoded, not UTF-8) and '
        'resource plugins (ordered, failing, with conflicting schemas); containers, resources and the resource in every poll '
        'and snapshot message are compared with a reference model after every step; non-trivial when something was evicted, '
        'rejected or overridden')
LEVEL_NOTE = ('Seeded search over operation histories, thread schedules and source combinations against an executable '
              'reference model of the container and of the precedence.')
ASSUMPTIONS = ['setting a key again makes it the newest (as in the OpenTelemetry container this one is a port of)',
               'a resource whose schema URL conflicts contributes nothing (documented at Resource.merge)',
               'a plugin does not provide an empty service name']
OPTIONAL = ('env', 'specs', 'stall', 'fail', 'attrs', 'more', 'config')

PATH = 'c18_host.py'
BODY = '''def hit(n):
    a = n #p1
    return a
def main(k):
    for i in range(k):
        hit(i)
'''
MARKS = markers(BODY)
KEYS = [['s', k] for k in ('a', 'b', 'c', 'd', 'e', 'f', 'g', 'service.name', ' ', 'ключ', '\udc80')]
BADKEYS = [['s', ''], ['n'], ['i', 5], ['b', 'a'], ['l', []], ['u', [['s', 'a']]], ['t', True], ['f', 1.5]]
PRIM = [['s', ''], ['s', 'x'], ['s', 'long text that is cut'], ['s', 'é\U0001f600\udcff'], ['i', 0], ['i', 7], ['i', 2 ** 70], ['i', -1],
        ['f', 0.0], ['f', 2.5], ['f', 1e308], ['t', True], ['t', False], ['b', 'bytes'], ['b', 'long bytes that are cut'],
        ['b', '\xc3\xa9'], ['b', '\xff\xfe'], ['b', '']]
ODD = [['n'], ['d'], ['set'], ['o'], ['gen'], ['cx'], ['cls'], ['enum'], ['ss', 'sub text']]
SCHEMAS = ['', '', None, 'https://a/1', 'https://b/2']
IDENT = ['telemetry.sdk.language', 'telemetry.sdk.name', 'telemetry.sdk.version']


class Num(enum.IntEnum):
    ONE = 1


class Sub(str):
    pass


def build(v):
    k = v[0]
    if k in ('s', 'i', 'f', 't'):
        return v[1]
    if k == 'n':
        return None
    if k == 'b':
        return v[1].encode('latin-1')
    if k == 'l':
        return [build(x) for x in v[1]]
    if k == 'u':
        return tuple(build(x) for x in v[1])
    if k == 'dq':
        return collections.deque(build(x) for x in v[1])
    if k == 'r':
        return range(v[1])
    if k == 'ss':
        return Sub(v[1])
    return {'d': dict, 'set': set, 'o': object, 'gen': lambda: (x for x in [1]), 'cx': lambda: 1j, 'cls': lambda: int,
            'enum': lambda: Num.ONE}[k]()


def gen_value(rng):
    r = rng.random()
    if r < 0.5:
        return pick(rng, PRIM)
    if r < 0.6:
        return pick(rng, ODD)
    kind = pick(rng, ['l', 'l', 'u', 'dq', 'r'])
    if kind == 'r':
        return ['r', rng.randrange(0, 4)]
    n = rng.randrange(0, 5)
    if rng.random() < 0.6:
        t = pick(rng, ['s', 'i', 'f', 't', 'b'])
        xs = [pick(rng, [p for p in PRIM if p[0] == t] + [['n']]) for _ in range(n)]
    else:
        xs = [pick(rng, PRIM + [['n'], ['d'], ['o'], ['l', []], ['l', [['i', 1]]]]) for _ in range(n)]
    return [kind, xs]


def gen_key(rng):
    return pick(rng, BADKEYS) if rng.random() < 0.12 else pick(rng, KEYS)


def gen_attrs(rng, n=4):
    return [[gen_key(rng), gen_value(rng)] for _ in range(rng.randrange(0, n + 1))]


def gen_env(rng):
    env = {}
    if rng.random() < 0.7:
        items = []
        for _ in range(rng.randrange(0, 6)):
            items.append(pick(rng, ['a=1', 'b=two', ' c = spaced ', 'd=%20pct%3D', 'e=x=y=z', 'nokey', '=novalue', 'f=', ' =x', '',
                                    'a=again', 'service.name=fromattrs', 'service.name=', 'telemetry.sdk.name=other',
                                    'process.executable.name=exe', 'process.executable.name=', 'g=%E2%82%AC', 'g=%ff',
                                    'h=\udcff', '\udcffk=v', 'a=%2', 'b=+plus+', 'own=env', 'python_version=env', 'k%20=v',
                                    'ключ=значение']))
        env['DEEP_RESOURCE_ATTRIBUTES'] = ','.join(items)
    if rng.random() < 0.4:
        env['DEEP_SERVICE_NAME'] = pick(rng, ['svc', 'svc', '', ' spaced ', 'служба', 'x\udcff', 'a=b,c=d', '%41'])
    return env


def gen(rng, i, tier):
    plan = {'v': 1, 'sched': gen_sched(rng, est=1500, hold=0.5, tick=pick(rng, [0, 1000])), 'log': pick(rng, ['error', 'debug'])}
    plan['cap'] = pick(rng, [None, 0, 1, 2, 3, 4, 7])
    plan['limit'] = pick(rng, [None, None, 0, 1, 3, 8])
    plan['init'] = gen_attrs(rng, 6)
    ops = []
    for _ in range(rng.randrange(0, 30)):
        r = rng.random()
        if r < 0.5:
            ops.append(['set', gen_key(rng), gen_value(rng)])
        elif r < 0.6:
            ops.append(['del', pick(rng, KEYS)])
        elif r < 0.68:
            ops.append(['merge_in', gen_attrs(rng, 5), pick(rng, ['dict', 'bounded', 'self'])])
        elif r < 0.74:
            ops.append(['update', gen_attrs(rng, 4)])
        elif r < 0.78:
            ops.append(['pop', pick(rng, KEYS), pick(rng, [True, False])])
        elif r < 0.8:
            ops.append(['popitem'])
        elif r < 0.82:
            ops.append(['clear'])
        elif r < 0.86:
            ops.append(['setdefault', gen_key(rng), gen_value(rng)])
        elif r < 0.9:
            ops.append(['copy'])
        elif r < 0.95:
            ops.append(['iterate', gen_attrs(rng, 2)])
        else:
            ops.append(['freeze', [[pick(rng, ['set', 'del', 'update', 'pop', 'clear', 'merge_in', 'setdefault', 'popitem']), gen_key(rng), gen_value(rng)]
                                   for _ in range(rng.randrange(1, 6))]])
    plan['ops'] = ops
    if rng.random() < 0.4:
        plan['writers'] = [[pick(rng, [1, 3, 6]), pick(rng, [None, 0, 1, 3])] for _ in range(pick(rng, [2, 3]))]
    rops = []
    for _ in range(rng.randrange(0, 10)):
        r = rng.random()
        if r < 0.3:
            rops.append(['create', gen_attrs(rng), pick(rng, SCHEMAS), gen_env(rng)])
        elif r < 0.55:
            rops.append(['new', gen_attrs(rng), pick(rng, SCHEMAS)])
        else:
            rops.append(['merge', rng.randrange(0, 12), rng.randrange(0, 12)])
    plan['rops'] = rops
    if rng.random() < 0.45:
        plan['agent'] = True
        plan['env'] = gen_env(rng)
        specs = []
        orders = list(range(-6, 7))
        orders.remove(0)
        rng.shuffle(orders)
        for k in range(rng.randrange(0, 5)):
            s = {'name': 'P%d' % k, 'kinds': ['res'] + (['deco'] if rng.random() < 0.3 else []), 'order': orders[k]}
            r = rng.random()
            if r < 0.15:
                s['fail'] = {'resource': {'exc': pick(rng, ['ValueError', 'SystemExit', 'InjectedBase']), 'on': 'all'}}
            elif r < 0.25:
                s['res'] = pick(rng, ['none', 'bad'])
            else:
                s['attrs'] = [[['s', pick(rng, ['a', 'own', 'service.name', 'telemetry.sdk.name', 'python_version', 'shared', 'P%d' % k])],
                               pick(rng, [p for p in PRIM[1:] if p != ['b', '']]) if rng.random() < 0.8 else gen_value(rng)]
                              for _ in range(rng.randrange(0, 4))]
                s['attrs'] = [[a, v] for a, v in s['attrs'] if a[1] != 'service.name' or v[0] == 's' and v[1]]
                s['res_schema'] = pick(rng, SCHEMAS)
            specs.append(s)
        plan['specs'] = specs
        plan['config'] = {'PLUGIN_PYTHONPLUGIN': pick(rng, ['__unset__', 'False'])}
        plan['hits'] = pick(rng, [1, 3])
        plan['net'] = {'poll': [{}, pick(rng, [{}, {'t': 'error_before'}])]}
        if rng.random() < 0.2:
            plan['stall'] = gen_stall(rng, ms=[5, 500], who=['ThreadPool'])
    return plan


# -- the reference model ---------------------------------------------------------------------------------------

class No:
    """Not a valid value."""


NO = No()


def clean_one(v, limit):
    if isinstance(v, bytes):
        try:
            v = v.decode('utf-8')
        except UnicodeDecodeError:
            return None
    if isinstance(v, str) and limit is not None:
        v = v[:limit]
    return v


def clean(k, v, limit):
    if not isinstance(k, str) or len(k) == 0 or v is None:
        return NO
    if isinstance(v, (str, bytes, bool, int, float)):
        v = clean_one(v, limit)
        return NO if v is None else v
    if isinstance(v, (list, tuple, range, collections.deque)):
        xs = [clean_one(x, limit) for x in v]
        kinds = {type(x) for x in xs if x is not None}
        if len(kinds) > 1 or kinds - {str, bool, int, float}:
            return NO
        return tuple(xs)
    return NO


class Model:
    def __init__(self, cap, limit):
        self.cap, self.limit = cap, limit
        self.items = []             # oldest first
        self.dropped = 0
        self.odd = 0                # drops of something invalid, which may or may not be counted

    def get(self, k):
        for a, v in self.items:
            if a == k:
                return v
        return NO

    def set(self, k, v):
        c = clean(k, v, self.limit)
        if self.cap == 0:
            if c is NO:
                self.odd += 1
            else:
                self.dropped += 1
            return
        if c is NO:
            return
        if self.get(k) is not NO:
            self.items = [x for x in self.items if x[0] != k]
        elif self.cap is not None and len(self.items) >= self.cap:
            del self.items[0]
            self.dropped += 1
        self.items.append((k, c))

    def delete(self, k):
        if self.get(k) is NO:
            return False
        self.items = [x for x in self.items if x[0] != k]
        return True


def alike(a, b):
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a == b and isinstance(a, type(b)) and repr(a) == repr(b)


def same_items(got, want):
    return len(got) == len(want) and all(a == c and alike(b, d) for (a, b), (c, d) in zip(got, want))


def content(a):
    return [(k, a[k]) for k in a]


def attrs_of(spec):
    """A dictionary, with later ones of equal keys replacing the value (as python does)."""
    d = {}
    for k, v in spec:
        k = build(k)
        try:
            d[k] = build(v)
        except TypeError:
            pass
    return d


def env_attrs(env):
    """What the resource variables say."""
    out = {}
    for item in (env.get('DEEP_RESOURCE_ATTRIBUTES') or '').split(','):
        k, eq, v = item.partition('=')
        if not eq:
            continue
        k = k.strip()
        v = v.strip()
        if k:
            out[k] = pct(v)
    if env.get('DEEP_SERVICE_NAME'):
        out['service.name'] = env['DEEP_SERVICE_NAME']
    return out


def pct(v):
    out, i = [], 0
    while i < len(v):
        j = i
        while j < len(v) and v[j] == '%' and len(v) - j >= 3 and all(c in '0123456789abcdefABCDEF' for c in v[j + 1:j + 3]):
            j += 3
        if j > i:
            out.append(unquote_to_bytes(v[i:j]).decode('utf-8', 'replace'))
            i = j
        else:
            out.append(v[i])
            i += 1
    return ''.join(out)


def created(env, attrs, version):
    d = {'telemetry.sdk.language': 'python', 'telemetry.sdk.name': 'deep', 'telemetry.sdk.version': version}
    d.update(env_attrs(env))
    for k, v in (attrs or {}).items():
        c = clean(k, v, None)
        if c is not NO:
            d[k] = c
    if not d.get('service.name'):
        exe = d.get('process.executable.name')
        d['service.name'] = 'unknown_service:' + (str(exe) if exe else 'python')
    return d


# -- the runs --------------------------------------------------------------------------------------------------

def run(w, plan):
    w.nontrivial = False
    w.load_agent()
    out = []
    guarded(containers, w, plan, out)
    w.sim.off = False
    w.sim.arm()
    guarded(writers, w, plan, out)
    guarded(resources, w, plan, out)
    if plan.get('agent'):
        agent(w, plan, out)
    else:
        w.finish()
    return out[:8]


def guarded(part, w, plan, out):
    """What is asked of a container or resource here has a defined outcome; any other exception is not it."""
    try:
        part(w, plan, out)
    except Exception as e:
        where = traceback.extract_tb(e.__traceback__)
        if not any('/deep/' in f.filename for f in where):
            raise
        out.append(viol('exception', '%s in %s: %s' % (type(e).__name__, part.__name__, ' <- '.join(
            f.name for f in reversed(where)))))


def containers(w, plan, out):
    from deep.api.attributes import BoundedAttributes
    cap, limit = plan['cap'], plan['limit']
    first = attrs_of(plan['init'])
    kept = list(first.items())
    a = BoundedAttributes(max_length=cap, attributes=first, immutable=False, max_value_len=limit)
    m = Model(cap, limit)
    for k, v in first.items():
        m.set(k, v)

    def verify(what):
        got = content(a)
        if not same_items(got, m.items):
            out.append(viol('content', 'after %s the container (capacity %s, limit %s) has %r, the model %r' % (
                what, cap, limit, got, m.items)))
        elif len(a) != len(m.items) or (cap is not None and len(a) > cap):
            out.append(viol('size', 'after %s the container (capacity %s) says its size is %d' % (what, cap, len(a))))
        elif not m.dropped <= a.dropped <= m.dropped + m.odd:
            out.append(viol('dropped', 'after %s the container (capacity %s) counts %d drops, the model %d' % (
                what, cap, a.dropped, m.dropped)))
        return not out

    if not verify('creation with %r' % (plan['init'],)):
        return
    if list(first.items()) != kept:
        out.append(viol('operand', 'the creation of a container has changed its source'))
    for op in plan['ops']:
        what = op[0]
        if what == 'set':
            a[build(op[1])] = v = build(op[2])
            m.set(build(op[1]), build(op[2]))
            if isinstance(v, list):
                v.append('changed later')
        elif what == 'del':
            k = build(op[1])
            try:
                del a[k]
                done = True
            except KeyError:
                done = False
            if done != m.delete(k):
                out.append(viol('delete', 'the deletion of %r %s' % (k, 'succeeded' if done else 'failed')))
        elif what in ('merge_in', 'update'):
            src = attrs_of(op[1])
            real = src
            if what == 'merge_in' and op[2] == 'bounded':
                real = BoundedAttributes(attributes=src)
                src = dict(real)
            elif what == 'merge_in' and op[2] == 'self':
                real = a
                src = dict(m.items)
            before = list(src.items())
            getattr(a, what)(real)
            for k, v in src.items():
                m.set(k, v)
            if real is not a and not same_items([(k, real[k]) for k in real], before):
                out.append(viol('operand', '%s has changed its argument' % what))
        elif what == 'pop':
            k = build(op[1])
            has = m.get(k)
            try:
                r = a.pop(k, NO) if op[2] else a.pop(k)
            except KeyError:
                r = NO
            if (r is NO) != (has is NO) or (r is not NO and not alike(r, has)):
                out.append(viol('delete', 'pop of %r returned %r' % (k, r)))
            m.delete(k)
        elif what == 'popitem':
            try:
                k, v = a.popitem()
            except KeyError:
                k = NO
            if k is NO:
                if m.items:
                    out.append(viol('delete', 'popitem says that there is nothing'))
            else:
                if not alike(v, m.get(k)):
                    out.append(viol('delete', 'popitem returned %r=%r' % (k, v)))
                m.delete(k)
        elif what == 'clear':
            a.clear()
            m.items = []
        elif what == 'setdefault':
            k = build(op[1])
            try:
                a.setdefault(k, build(op[2]))
            except TypeError:
                if _hashable(k):
                    raise
                continue
            if m.get(k) is NO:
                m.set(k, build(op[2]))
        elif what == 'copy':
            c = a.copy()
            c['added'] = 1
            for k in [x for x in c if x != 'added'][:1]:
                del c[k]
        elif what == 'iterate':
            seen = []
            for n, k in enumerate(a):
                seen.append(k)
                if n < len(op[1]):
                    a[build(op[1][n][0])] = build(op[1][n][1])
            if seen != [k for k, _ in m.items]:
                out.append(viol('content', 'an iteration gave %r of %r' % (seen, [k for k, _ in m.items])))
            for k, v in op[1][:len(seen)]:
                m.set(build(k), build(v))
        elif what == 'freeze':
            frozen(BoundedAttributes, a, m, op[1], limit, out)
        if out or not verify(op):
            return
    if m.dropped or m.odd or any(clean(build(o[1]), build(o[2]), None) is NO for o in plan['ops'] if o[0] == 'set'):
        w.nontrivial = True
    w.probe('evictions', m.dropped)
    w.probe('container_ops', len(plan['ops']))


def _hashable(k):
    try:
        hash(k)
        return True
    except TypeError:
        return False


def frozen(cls, a, m, ops, limit, out):
    f = cls(attributes=a, max_value_len=limit)
    want = list(m.items)
    for what, k, v in ops:
        k, v = build(k), build(v)
        if not _hashable(k) and what in ('pop', 'setdefault', 'update', 'merge_in', 'del'):
            continue
        must = False
        try:
            if what == 'set':
                must = True
                f[k] = v
            elif what == 'del':
                must = m.get(k) is not NO
                del f[k]
            elif what == 'update':
                must = True
                f.update({k: v})
            elif what == 'merge_in':
                must = True
                f.merge_in({k: v})
            elif what == 'pop':
                must = m.get(k) is not NO
                f.pop(k)
            elif what == 'popitem':
                must = len(want) > 0
                f.popitem()
            elif what == 'setdefault':
                must = m.get(k) is NO
                f.setdefault(k, v)
            else:
                must = len(want) > 0
                f.clear()
        except (TypeError, KeyError):
            must = False
        if must:
            out.append(viol('frozen', '%s(%r) on a frozen container was not rejected' % (what, k)))
        if not same_items(content(f), want) or f.dropped:
            out.append(viol('frozen', 'a frozen container was changed by %s(%r): %r, before %r' % (what, k, content(f), want)))
        if out:
            return


def writers(w, plan, out):
    """Several threads write to one container; nothing is lost but what is counted."""
    ws = plan.get('writers')
    if not ws:
        return
    from deep.api.attributes import BoundedAttributes
    cap = plan['cap']
    a = BoundedAttributes(max_length=cap, immutable=False, max_value_len=plan['limit'])
    deleted = [0]
    sizes = []
    broken = []

    def write(t, n, every):
        for i in range(n):
            a['t%d_%d' % (t, i)] = i
            sizes.append(len(a))
            if n == 3:
                # a reader goes over what was there at one moment
                try:
                    seen = [k for k in a]
                except RuntimeError as e:
                    broken.append('an iteration failed: %s' % e)
                    continue
                if len(set(seen)) != len(seen) or cap is not None and len(seen) > cap:
                    broken.append('an iteration gave %r' % seen)
            if every and i % every == every - 1:
                try:
                    del a['t%d_%d' % (t, i)]
                    deleted[0] += 1
                except KeyError:
                    pass
    waits = []
    for t, (n, every) in enumerate(ws):
        done = w.threading.Event()
        waits.append(done)
        task = w.sim._new_task('actor', 'other')

        def act(t=t, n=n, every=every, done=done):
            write(t, n, every)
            done.set()
        w.sim.start_task(task, act, (), {})
    for done in waits:
        done.wait()
    total = sum(n for n, _ in ws)
    keys = list(a)
    if broken:
        out.append(viol('content', broken[0]))
    if cap is not None and (len(keys) > cap or max(sizes) > cap):
        out.append(viol('capacity', 'with several writers a container of capacity %d had %d entries' % (cap, max(sizes + [len(keys)]))))
    if len(keys) + a.dropped + deleted[0] != total:
        out.append(viol('conservation', '%d entries were set: %d are there, %d were deleted, %d were counted as dropped' % (
            total, len(keys), deleted[0], a.dropped)))
    for t, (n, every) in enumerate(ws):
        own = [int(k.split('_')[1]) for k in keys if k.startswith('t%d_' % t)]
        if own != sorted(own):
            out.append(viol('order', 'the entries of a writer are not in the order they were set: %s' % keys))
        if cap and not any(e for _, e in ws) and own and own != list(range(n - len(own), n)):
            out.append(viol('order', 'not the oldest entries of a writer were evicted, left are %s of %d' % (own, n)))
    w.probe('concurrent_writers', len(ws))


def setenv(env):
    for k in ('DEEP_RESOURCE_ATTRIBUTES', 'DEEP_SERVICE_NAME'):
        os.environ.pop(k, None)
        if k in env:
            os.environ[k] = env[k]


def resources(w, plan, out):
    from deep.api.resource import Resource
    from deep import version
    pool = []           # (real, model attributes, model schema)

    def add(real, attrs, schema):
        pool.append((real, attrs, schema or ''))

    def verify(what):
        for n, (r, d, s) in enumerate(pool):
            got = dict(r.attributes.items())
            if set(got) != set(d) or not all(alike(got[k], d[k]) for k in d):
                out.append(viol('resource', 'after %s resource %d has %r, the model %r' % (what, n, got, d)))
                return False
            if r.schema_url != s:
                out.append(viol('schema', 'after %s resource %d has the schema %r, the model %r' % (what, n, r.schema_url, s)))
                return False
            if r.attributes.dropped:
                out.append(viol('resource', 'a resource has dropped something'))
        return True

    add(Resource.get_empty(), {}, '')
    for op in plan['rops']:
        if op[0] == 'merge':
            x, y = pool[op[1] % len(pool)], pool[op[2] % len(pool)]
            r = x[0].merge(y[0])
            d = dict(x[1])
            s = x[2] or y[2]
            if x[2] and y[2] and x[2] != y[2]:
                s = x[2]
            else:
                if set(d) & set(y[1]):
                    w.nontrivial = True
                d.update(y[1])
            add(r, d, s)
        else:
            src = attrs_of(op[1])
            if op[0] == 'new':
                r = Resource(src, op[2])
                add(r, {k: clean(k, v, None) for k, v in src.items() if clean(k, v, None) is not NO}, op[2])
            else:
                setenv(op[3])
                r = Resource.create(src, op[2])
                setenv(plan.get('env') or {})
                d = created(op[3], src, version.__version__)
                add(r, d, op[2])
            src['later'] = 1
            # what was given belongs to the caller
            for v in src.values():
                if isinstance(v, list):
                    v.append(9)
            for mod in ('set', 'del'):
                try:
                    if mod == 'set':
                        r.attributes['x'] = 1
                    elif len(r.attributes):
                        del r.attributes[next(iter(r.attributes))]
                    else:
                        continue
                    out.append(viol('frozen', 'the attributes of a resource can be changed'))
                except TypeError:
                    pass
        if not verify(op):
            return
    for r, d, s in pool:
        for q, e, t in pool:
            if (r == q) != (s == t and d == e):
                out.append(viol('equal', 'resources %r and %r compare %s' % (d, e, r == q)))
                return
    w.probe('resource_ops', len(plan['rops']))


def agent(w, plan, out):
    sim = w.sim
    from deep import version
    host = w.host_module('/app/src/' + PATH, BODY, {})
    w.service.set_config([{'id': 't', 'path': PATH, 'line': MARKS['p1'], 'args': {'fire_count': '-1', 'fire_period': '0'}}], 'h')
    specs = []
    for s in plan.get('specs') or []:
        s = dict(s)
        given = s.pop('attrs', None)
        if s.get('res') is None:
            s['res'] = attrs_of(given or [])
        specs.append(s)
    names = w.install_plugins(specs)
    setenv(plan.get('env') or {})
    before = {k: os.environ.get(k) for k in ('DEEP_RESOURCE_ATTRIBUTES', 'DEEP_SERVICE_NAME')}
    w.start_agent(PLUGINS=names)
    want, schema = created(plan.get('env') or {}, None, version.__version__), ''
    n = len(want)
    sources = [(s['order'], s) for s in specs if not (s.get('fail') or {}).get('resource') and s['res'] not in ('none', 'bad')]
    if (plan.get('config') or {}).get('PLUGIN_PYTHONPLUGIN') == '__unset__':
        import platform
        sources.append((0, {'res': {'python_version': platform.python_version()}}))
    for _, s in sorted(sources, key=lambda x: x[0]):
        t = s.get('res_schema') or ''
        if schema and t and schema != t:
            continue
        schema = schema or t
        add = {k: clean(k, v, None) for k, v in s['res'].items() if clean(k, v, None) is not NO}
        n += len(add)
        want.update(add)
    if n > len(want) or len(sources) > 1:
        w.nontrivial = True
    sim.sleep(2 * SEC if not plan.get('stall') else 30 * SEC)
    t = w.threading.Thread(target=host.main, args=(plan.get('hits', 1),))
    t.start()
    t.join()
    sim.sleep(40 * SEC)
    w.deep.shutdown()
    w.finish()
    if {k: os.environ.get(k) for k in before} != before:
        out.append(viol('operand', 'the environment was changed'))
    from deepproto.proto.poll.v1.poll_pb2 import PollRequest
    polls, sends = w.of('poll'), w.of('send')
    if len(sends) != plan.get('hits', 1) or not polls:
        out.append(viol('harness', 'there are %d snapshots and %d polls' % (len(sends), len(polls))))
    for e in polls:
        r = PollRequest.FromString(e['data']).resource
        d = Diff()
        d.kvs('resource of poll %d' % e['n'], r.attributes, want)
        d.eq('dropped attributes', r.dropped_attributes_count, 0)
        need(r.attributes, d)
        if d.out:
            out.append(viol('poll', '; '.join(d.out[:3])))
            break
    for e in sends:
        d = Diff()
        m = parse(e['data'])
        d.kvs('resource of a snapshot', m.resource, want)
        need(m.resource, d)
        if d.out:
            out.append(viol('snapshot', '; '.join(d.out[:3])))
            break
    w.probe('agent_runs')
    w.probe('sources', len(sources))


def need(kvs, d):
    have = {kv.key for kv in kvs}
    for k in IDENT + ['service.name']:
        if k not in have:
            d.out.append('%s is missing' % k)


__all__ = ['on_abort', 'plugins', 'subset']
