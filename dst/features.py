"""
Host programs that use what Python offers, written so that every way of being disturbed shows in what they put out.

Each source defines `main(OUT)`; `STATE` is compared at the end. Tracepoints go on any of their lines and functions.
"""

SOURCES = {}

SOURCES['exc'] = '''STATE = {'n': 0}
class Boom(Exception):
    pass
class Quiet(BaseException):
    def __str__(self):
        raise ValueError('no text')
def desc(e, depth=0):
    tb, fs = e.__traceback__, []
    while tb is not None:
        fs.append((tb.tb_frame.f_code.co_name, tb.tb_lineno))
        tb = tb.tb_next
    chain = [desc(x, depth + 1) if x is not None and depth < 3 else None for x in (e.__cause__, e.__context__)]
    return [type(e).__name__, [a for a in e.args], [f for f in fs if f[0] not in ('_bootstrap', 'run')], chain, e.__suppress_context__,
            getattr(e, '__notes__', None)]
def fail(k):
    STATE['n'] += 1
    if k == 0:
        raise Boom('zero', k)
    if k == 1:
        return {}['missing']
    if k == 2:
        try:
            fail(0)
        except Boom as e:
            raise ValueError('from') from e
    if k == 3:
        try:
            fail(1)
        finally:
            STATE['fin'] = k
    if k == 4:
        try:
            raise Boom('swallowed')
        finally:
            return 'kept'
    if k == 5:
        try:
            fail(2)
        except ValueError:
            fail(1)
    if k == 6:
        raise Quiet(k)
    if k == 7:
        e = Boom('noted')
        e.add_note('a note')
        raise e
    if k == 8:
        raise StopIteration('value')
    if k == 9:
        raise ExceptionGroup('eg', [Boom(1), KeyError(2), ExceptionGroup('in', [ValueError(3)])])
    for i in range(2):
        try:
            continue
        finally:
            STATE['loop'] = i
    else:
        return 'else'
def reraise(k):
    try:
        return fail(k)
    except KeyError:
        raise
    except Boom:
        import sys
        t = sys.exc_info()
        STATE['info'] = [t[0].__name__, t[1].args]
        raise
    else:
        return 5
    finally:
        STATE['re'] = k
def group():
    got = []
    try:
        fail(9)
    except* Boom as g:
        got.append(len(g.exceptions))
    except* (KeyError, ValueError) as g:
        got.append(str(len(g.exceptions)))
    return got
def main(OUT):
    for k in range(11):
        for f in (fail, reraise):
            try:
                OUT(f(k))
            except BaseException as e:
                OUT(desc(e))
    OUT(group())
    try:
        try:
            fail(0)
        except Boom as e:
            x = e
            del x
        OUT('e' in locals())
        x
    except NameError as n:
        OUT(str(n))
'''

SOURCES['gens'] = '''STATE = {}
import itertools
class Count:
    def __init__(self, n):
        self.n = n
    def __iter__(self):
        return self
    def __next__(self):
        if self.n <= 0:
            raise StopIteration
        self.n -= 1
        return self.n
def gen(n):
    got = []
    try:
        for i in range(n):
            try:
                x = yield i
                got.append(x)
            except KeyError as e:
                got.append('key')
                yield 'handled'
    except GeneratorExit:
        got.append('closed')
        raise
    finally:
        STATE.setdefault('gen', []).append(got)
    return 'done'
def outer(n):
    r = yield from gen(n)
    yield r
    return 'end'
def consume(it):
    first = next(it, None)
    second = next(it, None)
    rest = list(it)
    return [first, second, rest]
def fib():
    a, b = 0, 1
    while True:
        yield a
        a, b = b, a + b
def main(OUT):
    g = gen(3)
    OUT(next(g))
    OUT(g.send('sent'))
    OUT(g.throw(KeyError('k')))
    g.close()
    o = outer(2)
    for v in o:
        OUT(v)
    try:
        g2 = outer(1)
        next(g2)
        g2.throw(ValueError('into'))
    except ValueError as e:
        OUT(e)
    m = map(str, [1, 2, 3])
    z = zip('abc', [1, 2, 3])
    f = filter(None, [0, 1, 2])
    e = enumerate('xy')
    r = reversed([1, 2, 3])
    c = Count(4)
    d = iter({'k': 1, 'j': 2}.items())
    ge = (i * i for i in range(4))
    t1, t2 = itertools.tee(range(3))
    ch = itertools.chain([1], (2, 3))
    cy = itertools.islice(itertools.cycle('ab'), 5)
    cc = iter(itertools.count().__next__, 3)
    for it in (m, z, f, e, r, c, d, ge, t1, t2, ch, cy, cc):
        OUT(consume(iter(it)))
    fb = fib()
    OUT([next(fb) for _ in range(6)])
    OUT(sum(x for x in gen(4)))
    a, *b = gen(3)
    OUT([a, b])
'''

SOURCES['coro'] = '''STATE = {'trace': []}
import types
@types.coroutine
def step(v):
    r = yield v
    return r
class Ctx:
    def __init__(self, eat):
        self.eat = eat
    async def __aenter__(self):
        await step('enter')
        return self
    async def __aexit__(self, t, v, tb):
        STATE['trace'].append(t.__name__ if t else None)
        return self.eat
class Items:
    def __init__(self, n):
        self.n = n
    def __aiter__(self):
        return self
    async def __anext__(self):
        if self.n == 0:
            raise StopAsyncIteration
        self.n -= 1
        return await step(self.n)
async def agen(n):
    for i in range(n):
        got = await step(i)
        yield (i, got)
async def inner(x):
    v = await step(x)
    if v == 'fail':
        raise LookupError(x)
    return v
async def work(n):
    out = []
    async with Ctx(True) as c:
        out.append(await inner(n))
        raise ValueError('eaten')
    async for i in Items(2):
        out.append(i)
    async for p in agen(2):
        out.append(p)
    out.append([x async for x in agen(1)])
    try:
        await inner('x')
    except LookupError as e:
        out.append(e.args)
    return out
def drive(co, answers):
    seen = []
    answers = iter(answers)
    try:
        v = co.send(None)
        while True:
            seen.append(v)
            v = co.send(next(answers, 'fail'))
    except StopIteration as s:
        return [seen, s.value]
def main(OUT):
    OUT(drive(work(1), range(7)))
    OUT(drive(work(2), 'abcdefghijk'))
    co = work(3)
    co.send(None)
    co.close()
    c2 = inner(4)
    c2.send(None)
    try:
        c2.throw(KeyError('thrown'))
    except KeyError as e:
        OUT(e)
'''

SOURCES['scope'] = '''STATE = {'x': 1}
import sys
GLOB = 1
def counter():
    n = 0
    def up(k=1):
        nonlocal n
        n += k
        return n
    def down():
        nonlocal n
        n -= 1
        return n
    return up, down
def dele(a):
    b = a
    del a
    try:
        a
    except UnboundLocalError as e:
        STATE['unbound'] = type(e).__name__
    a = 'again'
    names = sorted(locals())
    loc = locals()
    loc['b'] = 'changed'
    return a, b, names
def glob():
    global GLOB
    GLOB += 1
    globals()['LATER'] = GLOB
    return GLOB
def ex():
    ns = {}
    exec('y = 5\\nz = [i for i in range(y)]', ns)
    return [ns['y'], ns['z'], eval('GLOB + 1'), sorted(k for k in ns if k != '__builtins__')]
def comp(n):
    sq = [i * i for i in range(n)]
    ev = {i for i in sq if i % 2 == 0}
    dd = {k: (lambda q=k: q + n)() for k in ev}
    fs = [lambda: i for i in range(3)]
    if (big := max(sq, default=0)) > 3:
        sq.append(big)
    return [sq, sorted(ev), dd, [f() for f in fs], 'i' in locals()]
def frames():
    f = sys._getframe()
    return [f.f_code.co_name, f.f_back.f_code.co_name, sorted(f.f_locals), f.f_lineno - f.f_code.co_firstlineno]
class Meta(type):
    def __new__(m, name, bases, ns):
        ns['made'] = sorted(k for k in ns if not k.startswith('__'))
        return super().__new__(m, name, bases, ns)
class Base(metaclass=Meta):
    x = [i for i in range(2)]
    def __init_subclass__(cls, **k):
        STATE['sub'] = cls.__name__
    def __set_name__(self, owner, name):
        STATE['set'] = name
class Deep(Base):
    y = 2
    z = y + 1
    def m(self):
        return super().__init__, __class__.__name__
def main(OUT):
    up, down = counter()
    OUT([up(), up(5), down(), up()])
    OUT(dele([1]))
    OUT(glob())
    OUT(ex())
    OUT(comp(4))
    OUT(frames())
    class Local:
        a = GLOB
        b = [q for q in (1, 2)]
    OUT([Local.a, Local.b, Deep.made, Deep().m()[1]])
    x = 1
    def change():
        nonlocal x
        x = x + 1
        return x
    for i in range(3):
        change()
        x = x * 2
    OUT(x)
    t = x; x = t + 1; OUT(x)
    match {'k': [1, 2, x]}:
        case {'k': [1, *rest]} if rest:
            OUT(rest)
        case _:
            OUT('none')
'''

SOURCES['objs'] = '''STATE = {'log': []}
import collections
import functools
class Spy:
    """Notes what is done with it, except to be turned into text."""
    def __bool__(self):
        STATE['log'].append('bool')
        return True
    def __len__(self):
        STATE['log'].append('len')
        return 2
    def __iter__(self):
        STATE['log'].append('iter')
        return iter([1, 2])
    def __eq__(self, o):
        STATE['log'].append('eq')
        return self is o
    def __hash__(self):
        STATE['log'].append('hash')
        return 7
    def __contains__(self, o):
        STATE['log'].append('contains')
        return False
    def __getitem__(self, k):
        STATE['log'].append('getitem')
        raise IndexError(k)
    def __call__(self, *a):
        STATE['log'].append('call')
    def __enter__(self):
        STATE['log'].append('enter')
    def __copy__(self):
        STATE['log'].append('copy')
        return self
    def __deepcopy__(self, memo):
        STATE['log'].append('deepcopy')
        return self
    def __reduce_ex__(self, n):
        STATE['log'].append('reduce')
        return (Spy, ())
    def __sizeof__(self):
        STATE['log'].append('sizeof')
        return 1
    def __dir__(self):
        STATE['log'].append('dir')
        return []
    def __next__(self):
        STATE['log'].append('next')
        raise StopIteration
    def __int__(self):
        STATE['log'].append('int')
        return 1
    __index__ = __int__
    def __lt__(self, o):
        STATE['log'].append('lt')
        return True
    def __setattr__(self, k, v):
        STATE['log'].append('set ' + k)
    def __del__(self):
        pass
    def __str__(self):
        return 'spy'
    __repr__ = __str__
class Lazy:
    """Attributes that are made when they are asked for."""
    def __getattr__(self, name):
        if name.startswith('__') or name in 'ab':
            raise AttributeError(name)
        self.__dict__[name] = 'made'
        return 'made'
    @property
    def prop(self):
        STATE['log'].append('prop')
        return 5
class Slots:
    __slots__ = ('a', 'b', '__weakref__')
    def __init__(self):
        self.a = 1
class Desc:
    def __get__(self, o, t):
        STATE['log'].append('get')
        return 'desc'
    def __set__(self, o, v):
        STATE['log'].append('set')
class Has:
    d = Desc()
class Tree(dict):
    def __missing__(self, k):
        STATE['log'].append('missing')
        v = self[k] = Tree()
        return v
class Num(int):
    def __add__(self, o):
        return Num(int(self) + int(o) + 1)
def spies(base, names):
    """A subclass of a type of Python that notes what is done with it, except what its text needs."""
    def make(name):
        def noted(self, *a):
            STATE['log'].append(base.__name__ + ' ' + name)
            return getattr(base, name)(self, *a)
        return noted
    return type('Spy' + base.__name__, (base,), {n: make(n) for n in names})
SPIES = [spies(*x) for x in (
    (dict, ('items', 'keys', 'values', '__iter__', '__len__', '__getitem__', '__contains__', 'get', 'copy', '__eq__', '__or__')),
    (list, ('__iter__', '__len__', '__getitem__', '__contains__', '__reversed__', 'copy', '__add__', '__eq__')),
    (tuple, ('__iter__', '__len__', '__getitem__', '__contains__', '__add__', 'index', '__eq__', '__hash__')),
    (set, ('__contains__', 'copy', '__or__', '__eq__')),
    (frozenset, ('__contains__', 'copy', '__hash__', '__eq__')),
    (collections.OrderedDict, ('keys', 'values', 'copy')),
    (collections.deque, ('__getitem__', '__contains__', 'copy')),
    (int, ('__bool__', '__int__', '__index__', '__float__', '__eq__', '__hash__', '__add__', '__lt__')),
    (float, ('__bool__', '__int__', '__float__', '__eq__', '__hash__', '__add__', '__lt__')),
    (Exception, ('with_traceback',)))]
class Self(Spy):
    def method(self, v):
        mine = self
        both = (mine, v)
        return both[1]
    @classmethod
    def make(cls, v):
        got = [cls, v]
        return got[1]
class Empty(Self):
    def __len__(self):
        STATE['log'].append('len')
        return 0
    def __bool__(self):
        STATE['log'].append('bool')
        raise ValueError('is it?')
class Liar(Spy):
    @property
    def __class__(self):
        STATE['log'].append('class')
        return int
class Asked(type):
    def __instancecheck__(cls, o):
        STATE['log'].append('instancecheck')
        return False
    def __subclasscheck__(cls, o):
        STATE['log'].append('subclasscheck')
        return False
    def __eq__(cls, o):
        STATE['log'].append('type eq')
        return cls is o
    def __hash__(cls):
        STATE['log'].append('type hash')
        return 1
    def __iter__(cls):
        STATE['log'].append('type iter')
        return iter(())
    def __len__(cls):
        STATE['log'].append('type len')
        return 0
class Made(Spy, metaclass=Asked):
    pass
class Wrong(Exception):
    def __init__(self, *a):
        super().__init__(*a)
        self.spy = Made()
    def __reduce__(self):
        STATE['log'].append('reduce wrong')
        return (Wrong, ())
    def __eq__(self, o):
        STATE['log'].append('eq wrong')
        return self is o
    __hash__ = None
def wrong(v):
    raise Wrong(v)
class Raises:
    def __getattribute__(self, n):
        raise RuntimeError('no ' + n)
    def __str__(self):
        raise SystemExit('no text')
    __repr__ = __str__
    def __hash__(self):
        raise ValueError('h')
    def __eq__(self, o):
        raise ValueError('e')
class Cached:
    @functools.cached_property
    def slow(self):
        STATE['log'].append('slow')
        return [1]
@functools.lru_cache(maxsize=4)
def cached(n):
    STATE['log'].append('cached')
    return n + 1
def use(v, w=None):
    a = v
    b = [v, w]
    c = {'k': v}
    t = (a, b)
    return a is b[0]
def main(OUT):
    spy, lazy, slots, has, tree = Spy(), Lazy(), Slots(), Has(), Tree()
    dd = collections.defaultdict(list, {'a': [1]})
    cnt = collections.Counter('aab')
    od = collections.OrderedDict([('x', 1), ('y', 2)])
    dq = collections.deque([1, 2, 3], maxlen=3)
    rs, ca = Raises(), Cached()
    mine = [c() for c in SPIES] + [SPIES[0](a=spy), SPIES[1]([spy, 1]), SPIES[2]((spy, 2)), SPIES[7](3)]
    one, two = Self(), Empty()
    OUT([one.method(1), two.method(2), Self.make(3), Empty.make(two) is two])
    for v in (Liar(), Made(), {two, spy}, {one: spy, two: one}, frozenset([spy, two])):
        OUT(use(v, [v, v]))
        use((v, v), [[v]])
        back = use
        back = one.method(v)
        back = [b for b in (v, 1)]
        try:
            wrong(v)
        except Wrong as e:
            OUT(len(e.args))
    OUT(STATE['log'])
    for v in mine:
        use(v, [v])
        use([v], {1: v})
    OUT(STATE['log'])
    for v in (spy, lazy, slots, has, tree, dd, cnt, od, dq, rs, ca, Num(3), use, Spy, type, ...):
        use(v, spy)
        OUT(use(v))
    OUT(STATE['log'])
    OUT(sorted(lazy.__dict__))
    OUT([tree == {}, len(tree), dict(dd), sorted(cnt.items()), list(od), list(dq), sorted(ca.__dict__)])
    OUT([cached(1), cached(1), cached(2), cached.cache_info().hits])
    od.move_to_end('x')
    dq.append(4)
    OUT([list(od), list(dq), lazy.thing, sorted(lazy.__dict__), Num(1) + 1, tree['a'] == {}, ca.slow])
    s = {1, 2, 3}
    for i in list(s):
        s.discard(i)
    OUT(s)
    ls = [3, 1, 2]
    ls.sort(key=lambda k: -k)
    it = iter(ls)
    next(it)
    ls.append(9)
    OUT(list(it))
    OUT(STATE['log'])
'''

SOURCES['threads'] = '''STATE = {'total': 0, 'done': []}
import threading
import queue
import concurrent.futures
lock = threading.Lock()
rlock = threading.RLock()
local = threading.local()
cond = threading.Condition()
def add(n):
    for i in range(n):
        with lock:
            t = STATE['total']
            t = t + 1
            STATE['total'] = t
def own(k):
    local.v = k
    with rlock:
        with rlock:
            local.v += 1
    return local.v
def producer(q, n):
    for i in range(n):
        q.put(i)
    q.put(None)
def consumer(q, out):
    while True:
        v = q.get()
        if v is None:
            break
        out.append(v * 2)
def fails():
    raise ValueError('in a thread')
def waiter(box):
    with cond:
        while not box:
            cond.wait()
        box.append('seen')
def main(OUT):
    ts = [threading.Thread(target=add, args=(3,)) for _ in range(3)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    OUT(STATE['total'] % 9)
    q, out = queue.Queue(), []
    p = threading.Thread(target=producer, args=(q, 4))
    c = threading.Thread(target=consumer, args=(q, out), name='consumer')
    p.start(); c.start()
    p.join(); c.join()
    OUT(out)
    with concurrent.futures.ThreadPoolExecutor(max_workers=2) as ex:
        fs = [ex.submit(own, k) for k in range(4)]
        bad = ex.submit(fails)
        OUT([f.result() for f in fs])
        OUT(type(bad.exception()).__name__)
        OUT(list(ex.map(len, ['a', 'bb'])))
    box = []
    w = threading.Thread(target=waiter, args=(box,))
    w.start()
    with cond:
        box.append('set')
        cond.notify_all()
    w.join()
    OUT(box)
    OUT(hasattr(local, 'v'))
    t = threading.Timer(0.01, STATE['done'].append, ('timer',))
    t.start()
    t.join()
    ev = threading.Event()
    OUT(ev.wait(0.01))
'''

SOURCES['state'] = '''STATE = {'refs': [], 'log': []}
import contextlib
import contextvars
import copy
import decimal
import gc
import io
import logging
import os
import random
import sys
import warnings
import weakref
var = contextvars.ContextVar('var', default='none')
class Thing:
    def __init__(self, n):
        self.n = n
        self.me = [n]
    def __eq__(self, o):
        return isinstance(o, Thing) and o.n == self.n
    __hash__ = None
def refs(n):
    o = Thing(n)
    STATE['refs'].append(weakref.ref(o))
    k = [o, {'o': o}]
    o2 = o
    return len(k)
def numbers():
    random.seed(42)
    a = [random.randrange(1000) for _ in range(4)]
    b = random.random()
    return [a, b]
def context():
    tok = var.set('inner')
    x = var.get()
    var.reset(tok)
    return [x, var.get()]
@contextlib.contextmanager
def managed(eat):
    STATE['log'].append('in')
    try:
        yield eat
    except ValueError:
        if not eat:
            raise
    finally:
        STATE['log'].append('out')
def managers():
    with managed(True) as m:
        raise ValueError('eaten')
    try:
        with managed(False), managed(False):
            raise ValueError('not eaten')
    except ValueError as e:
        return [m, e.args]
def numbers2():
    with decimal.localcontext() as c:
        c.prec = 5
        d = decimal.Decimal(1) / 3
    return [str(d), str(decimal.Decimal(1) / 7)]
def streams():
    s = io.StringIO('a\\nb\\nc')
    first = s.readline()
    b = io.BytesIO(b'xyz')
    b.read(1)
    rest = s.read()
    return [first, rest, b.read(), s.tell()]
def copies():
    t = Thing(1)
    c = copy.deepcopy(t)
    c.me.append(2)
    return [t.me, c.me, t == c, copy.copy(t).me is t.me]
def recursion(n):
    if n == 0:
        return 0
    return 1 + recursion(n - 1)
def globals_of_python():
    return [sys.getrecursionlimit(), len(warnings.filters), logging.getLogger().level, [type(h).__name__ for h in logging.getLogger().handlers],
            gc.isenabled(), sorted(k for k in os.environ if not k.startswith('DEEP')), os.getcwd(), decimal.getcontext().prec,
            sys.getswitchinterval(), sys.excepthook is sys.__excepthook__, sys.stdout is sys.__stdout__, logging.raiseExceptions,
            logging.getLogger('app').disabled, logging.root.manager.disable]
def main(OUT):
    OUT(refs(1))
    OUT(refs(2))
    OUT(numbers())
    OUT(context())
    OUT(managers())
    OUT(numbers2())
    OUT(streams())
    OUT(copies())
    OUT(recursion(30))
    OUT(globals_of_python())
    OUT([random.random(), random.getrandbits(8)])
    print('printed by the program')
    logging.getLogger('app').warning('logged by %s', 'the program')
'''

SOURCES['control'] = '''STATE = {'n': 0}
def loop(n):
    out = []
    i = 0
    while i < n:
        i += 1
        if i % 3 == 0:
            continue
        if i > 5:
            break
        out.append(i)
    else:
        out.append('else')
    return out
def ack(m, n):
    if m == 0:
        return n + 1
    if n == 0:
        return ack(m - 1, 1)
    return ack(m - 1, ack(m, n - 1))
def even(n):
    return True if n == 0 else odd(n - 1)
def odd(n):
    return False if n == 0 else even(n - 1)
def args(a, /, b, *c, d=4, **e):
    return [a, b, c, d, e]
def deco(f):
    def wrap(*a, **k):
        STATE['n'] += 1
        return f(*a, **k)
    return wrap
@deco
def decorated(x, y=[]):
    y.append(x)
    return list(y)
def unpack(t):
    (a, (b, *c)), d = t
    a, b = b, a
    return [a, b, c, d]
def slices():
    l = list(range(10))
    l[2:5] = ['x']
    del l[0], l[-1]
    l += [1]
    l *= 2
    return l[::2]
def one_line(n): return n if n else one_line(n + 1)
def multi(a,
          b=2,
          *, c=3):
    return (
        a +
        b +
        c
    )
def text(n):
    s = f'{n!r:>4}' + '%s' % n + '{}'.format(n)
    b = bytearray(b'abc')
    b[0] = n
    return s, bytes(b)
def fail_assert(n):
    assert n > 1, f'n is {n}'
    return n
def main(OUT):
    OUT([loop(2), loop(4), loop(9)])
    OUT(ack(1, 2))
    OUT([even(6), odd(5)])
    OUT([args(1, 2), args(1, 2, 3, d=5, f=6), args(*[1, 2], **{'k': 1})])
    OUT([decorated(1), decorated(2), decorated(3, [])])
    OUT(unpack(((1, [2, 3, 4]), 5)))
    OUT(slices())
    OUT([one_line(0), one_line(3), multi(1), multi(1, c=9)])
    OUT(text(65))
    try:
        OUT(fail_assert(2))
        OUT(fail_assert(1))
    except AssertionError as e:
        OUT(e)
    OUT((lambda *a: a)(*'xy'))
    OUT(sorted([3, 1, 2], key=lambda k: (k % 2, k)))
    x = y = []
    x.append(1)
    OUT([x, y, x is y])
    OUT([i for i in range(3) for j in range(i) if j != i])
'''

SOURCES['comps'] = '''STATE = {}
def g(v):
    return v + 1
TEXT = \'\'\'
z = 1
j = 1
q = [
  (g(z), (lambda:
   j)(),
   z)
  for z in
  (5, 6)
  for j in (z,
    1)]
r = [g(w) +
     w for w in (1, 2)]
\'\'\'
def main(OUT):
    class C:
        z = 3
        j = 2
        l = [
            (g(z), (lambda:
             j)(),
             z)
            for z in
            (5, 6)
            for j in (z,
                      1)]
        n = [
            [x
             for x in
             range(y)
             if g(x)]
            for y in
            (1, 2)]
        d = {k: (lambda q=
             k: q + j)()
             for k in
             (1, 2)}
        def m(self):
            return __class__
        s = {g(o) +
             o
             for o in (z,
                       j)}
    OUT([C.z, C.j, C.l, C.n, C.d, sorted(C.s), sorted(k for k in C.__dict__ if not k.startswith('__'))])
    ns = {'g': g}
    exec(compile(TEXT, '/app/feat/comps_text.py', 'exec'), ns)
    OUT([ns['z'], ns['j'], ns['q'], ns['r'], sorted(k for k in ns if not k.startswith('__'))])
    ns = {}
    exec(compile(TEXT, '/app/feat/comps_text.py', 'exec'), {'g': g}, ns)
    OUT([ns['z'], ns['j'], ns['q'], ns['r'], sorted(ns)])
    z = 8
    f = [g(z) +
         z
         for z in
         (1, 2)]
    OUT([f, z])
    class D:
        try:
            bad = [g(e) +
                   e
                   for e in
                   (1, 'x')]
        except TypeError as e:
            err = type(e).__name__
        z = [z for z in (z,)]
    OUT([D.err, hasattr(D, 'e'), hasattr(D, 'bad'), D.z])
'''

SOURCES['cells'] = '''STATE = {}
import threading
lock = threading.Lock()
def shared(n, k):
    total = 0
    seen = []
    def work(me):
        nonlocal total
        for i in range(k):
            with lock:
                t = total
                total = t + 1
            seen.append(me)
        return total
    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return [total, len(seen)]
def outer(n):
    state = 'new'
    ready = threading.Event()
    def other():
        nonlocal state
        state = 'changed'
        ready.set()
        state = 'final'
    t = threading.Thread(target=other)
    t.start()
    k = 0
    while k < n:
        k += 1
    ready.wait()
    t.join()
    return state
class Acc:
    def __init__(self):
        self.n = 0
    def run(self, k):
        count = 0
        def one():
            nonlocal count
            with lock:
                count += 1
                self.n = self.n + 1
        def many():
            for _ in range(k):
                one()
        ts = [threading.Thread(target=many) for _ in range(2)]
        for t in ts:
            t.start()
        many()
        for t in ts:
            t.join()
        return [count, self.n]
def main(OUT):
    OUT(shared(3, 3))
    OUT(outer(3))
    OUT(Acc().run(2))
    def gen():
        k = 0
        def up():
            nonlocal k
            k += 1
        while k < 3:
            up()
            yield k
    OUT(list(gen()))
'''

SOURCES['life'] = '''STATE = {'dead': []}
import contextlib
import gc
import sys
import weakref
class T:
    def __init__(self, n):
        self.n = n
    def __del__(self):
        STATE['dead'].append(self.n)
def keep(v):
    w = v
    return w.n
def rebind():
    o = T(1)
    r = weakref.ref(o)
    keep(o)
    o = None
    a = [r() is None]
    o = T(2)
    r = weakref.ref(o)
    del o
    a.append(r() is None)
    return a
def ret():
    o = T(3)
    keep(o)
    return weakref.ref(o)
def exc(n=4):
    o = T(n)
    raise ValueError(n)
def wsup():
    with contextlib.suppress(ValueError):
        exc(10)
    a = 1
    return list(STATE['dead'])
class It:
    def __iter__(self):
        return self
    def __next__(self):
        o = T(11)
        raise StopIteration
def loop():
    for x in It():
        pass
    a = [x for x in It()]
    b = 1
    return list(STATE['dead'])
def handled():
    try:
        exc(12)
    except ValueError as e:
        a = 1
    b = 1
    c = list(STATE['dead'])
    try:
        [exc(q) for q in (13,
                          14)]
    except ValueError:
        d = 1
    return c, list(STATE['dead'])
def snap():
    n = 1
    d = locals()
    n = 2
    d['x'] = 3
    n = 3
    return [sorted(d), d['n'], n]
def wr(path):
    f = Out()
    f.write('a')
    f.write('b')
    f = None
    return list(STATE['out'])
class Out:
    def __init__(self):
        self.buf = []
    def write(self, v):
        self.buf.append(v)
    def __del__(self):
        STATE.setdefault('out', []).extend(self.buf)
def gen():
    o = T(5)
    yield 1
    yield 2
class Ring:
    def __init__(self, n):
        self.me = [self]
        self.n = T(n)
def rings():
    on = gc.isenabled()
    gc.disable()
    try:
        for n in (20, 21):
            r = Ring(n)
            keep(r.n)
        r = 1
        a = [1, 2]
        return list(STATE['dead'])
    finally:
        if on:
            gc.enable()
def main(OUT):
    OUT(rings())
    gc.collect()
    OUT(rebind())
    OUT(STATE['dead'])
    OUT(ret()() is None)
    OUT(STATE['dead'])
    try:
        exc()
    except ValueError as e:
        pass
    OUT(STATE['dead'])
    OUT(snap())
    OUT(wr(None))
    OUT(wsup())
    OUT(loop())
    OUT(handled())
    g = gen()
    next(g)
    g.close()
    OUT(STATE['dead'])
    l = [T(6), T(7)]
    for x in l:
        keep(x)
    x = None
    l.pop()
    OUT(STATE['dead'])
    l.clear()
    OUT(STATE['dead'])
    t = T(8)
    d = weakref.WeakValueDictionary(k=t)
    keep(t)
    t = T(9)
    OUT([sorted(d), STATE['dead']])
'''


def funcs(src):
    """[(name, first line, last line)]"""
    import ast
    return [(n.name, n.lineno, n.end_lineno) for n in ast.walk(ast.parse(src))
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]


FUNCS = {k: funcs(v) for k, v in SOURCES.items()}
LINES = {k: v.count('\n') for k, v in SOURCES.items()}
