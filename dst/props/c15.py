"""C15: deferred work (spans, captures) is completed exactly once, by the invocation and in the thread that opened it."""
import dis
import sys

from ..common import gen_sched, pick, subset, viol
from ..data import base_plan, on_abort as big
from ..kernel import SEC
from ..scene import CAPTURES, UNLIMITED, Scene, Tps, args_of, escapes
from ..truth import Compare, Freezer
from .c10 import markers

ID = 'C15'
QUICK = 1200
RULE = ('span and capture tracepoints on lines and methods (several per location, nested, next to other actions, from the '
        'service and from code) of generated programs and of a program with every shape of invocation: recursion, mutual '
        'recursion, functions of one name in files of one name, closures, callbacks from C code, with and finally blocks, caught, '
        're-raised and propagating exceptions, generators (interleaved, delegating, closed, thrown into, finished by another '
        'thread), threads that overlap, end with an exception, or switch tracing off and leave their thread id to a later one; '
        'with several span processors, some failing, and updates that remove the tracepoints meanwhile; every opening is paired '
        'with its completions and these are compared with the events of the invocation; non-trivial when an opening was '
        'completed while another one was pending')
LEVEL_NOTE = ('Seeded search over program shapes, placements and thread schedules; whether an invocation had ended, how, and with '
              'what result is taken from the interpreter itself (trace events and the instruction at which they happened).')
ASSUMPTIONS = ['when an exception ends the invocation directly from within an except block that was handling another one, without a '
               'trace event in between, the captured exception may be the one that was being handled (the interpreter does not '
               'tell them apart)',
               'spans and captures of a line are completed at the next event of the same invocation (line, exception or return)',
               'a yield completes the deferred work of the activation of a generator as a return does',
               'a thread on which the program itself switches tracing off can leave its own work incomplete, but no other thread '
               'may complete it',
               'when within the completing event a deferred snapshot was handed over is observed through the text of the '
               'captured value being made in that event, and the snapshot not being sent before it']
OPTIONAL = ('args', 'config', 'env', 'net', 'fail', 'delay', 'watches', 'updates', 'jumps', 'read_jumps')

BODY = '''import sys
import threading
class Boom(Exception):
    pass
class Res:
    def __init__(self, v):
        self.v = v
    def __str__(self):
        SEEN(self)
        return 'Res(%s)' % (self.v,)
class CM:
    def __init__(self, eat):
        self.eat = eat
    def __enter__(self):
        return self #cm1
    def __exit__(self, *a):
        x = a[0] #cm2
        return self.eat #cm3
def leaf(n):
    a = n #l1
    return Res(n) #l2
def fact(n):
    if n <= 0: #f1
        return Res(0) #f2
    r = fact(n - 1) #f3
    return Res((n, r.v)) #f4
def even(n):
    return odd(n - 1) if n > 0 else Res(True) #ev1
def odd(n):
    r = even(n - 1) if n > 0 else Res(False) #od1
    return r #od2
def twice(n):
    r = [fact(1), fact(2)] #tw1
    return Res(r[0].v) #tw2
def thrower(n):
    x = n #t1
    raise Boom(n) #t2
def passer(n):
    try:
        thrower(n) #p1
    finally:
        y = leaf(n) #p2
def catcher(n):
    try:
        thrower(n) #c1
    except Boom as e:
        z = e #c2
    return Res('caught') #c3
def again(n):
    try:
        thrower(n) #a1
    except Boom:
        leaf(n) #a2
        raise #a3
def other(n):
    try:
        thrower(n) #o1
    except Boom:
        raise ValueError(n) #o2
def bottom(n):
    if n == 0: #b1
        raise Boom('bottom') #b2
    if n == 2: #b3
        try:
            return bottom(n - 1) #b4
        except Boom:
            return Res('got') #b5
    return bottom(n - 1) #b6
def withs(n):
    with CM(False): #w1
        leaf(n) #w2
    with CM(True): #w3
        thrower(n) #w4
    return Res('with') #w5
def gen(n):
    for i in range(n): #g1
        yield Res(i) #g2
    return 'end' #g3
def drive(n):
    a, b = gen(n), gen(n) #d1
    out = [] #d2
    for x, y in zip(a, b): #d3
        out.append(x.v) #d4
    return Res(out) #d5
def part(n):
    g = gen(n + 2) #pa1
    next(g) #pa2
    g.close() #pa3
    return Res('closed') #pa4
def genx(n):
    try:
        yield Res(1) #gx1
        yield Res(2) #gx2
    except Boom:
        yield Res(3) #gx3
    finally:
        leaf(n) #gx4
def throws(n):
    g = genx(n) #th1
    next(g) #th2
    r = g.throw(Boom('in')) #th3
    g.close() #th4
    return r #th5
def genraise(n):
    yield Res(0) #gr1
    raise Boom(n) #gr2
def usesraise(n):
    return [x for x in genraise(n)] #ur1
def deleg(n):
    r = yield from gen(n) #dl1
    yield Res(r) #dl2
def usedeleg(n):
    r = [x.v for x in deleg(n)] #ud1
    return Res(r) #ud2
def walk(n):
    yield Res(n) #wk1
    if n > 0: #wk2
        for x in walk(n - 1): #wk3
            yield x #wk4
def usewalk(n):
    return Res(len(list(walk(n)))) #uw1
def keyed(n):
    return Res(sorted(range(n + 1), key=lambda q: -leaf(q).v)) #k1
def lambdas(n):
    f = lambda q: Res(q) if q <= 0 else f(q - 1) #la1
    return f(n) #la2
def oneline(n):
    for i in range(n): leaf(i) #ol1
    while n > 0: n -= 1 #ol2
    return Res('one') #ol3
def closure(n):
    def closure(k):
        x = k #cl1
        return Res(k) #cl2
    r = closure(n) #cl3
    return r #cl4
class A:
    def go(self, n):
        a = n #A1
        return Res(n) #A2
class B(A):
    def go(self, n):
        r = super().go(n) #B1
        return Res((r.v, n)) #B2
def objs(n):
    return B().go(n) #ob1
def twin(n, deeper=True):
    r = OTHER.twin(n) if deeper and OTHER is not None else leaf(n) #tn1
    return r #tn2
def spawner(n):
    t = threading.Thread(target=leaf, args=(n,)) #sp1
    t.start() #sp2
    r = leaf(n) #sp3
    t.join() #sp4
    return r #sp5
def handover(n):
    g = gen(n + 2) #h1
    next(g) #h2
    def rest():
        for x in g: #h3
            leaf(n) #h4
    t = threading.Thread(target=rest) #h5
    t.start() #h6
    t.join() #h7
    return Res('handed') #h8
def cut(n):
    x = n #cu1
    leaf(n) if n < 9 else sys.settrace(None) #cu2
    y = leaf(n) #cu3
    return Res(n) #cu4
def cutdeep(n):
    r = cut(9) #cd1
    return r #cd2
def bye(n):
    raise SystemExit(n) #by1
def stopper(n):
    x = n #st1
    STOP() if n == 8 else leaf(n) #st2
    return leaf(n) #st3
def stopdeep(n):
    r = [stopper(n), leaf(n)] #sd1
    return r[0] #sd2
def stopgen(n):
    yield 1 #sg1
    r = stopdeep(n) #sg2
    yield r #sg3
def none(n):
    x = n #no1
def fin(n):
    try:
        thrower(n) #fi1
    finally:
        try:
            raise ValueError('inner') #fi2
        except ValueError as e:
            leaf(n) #fi3
def fin2(n):
    try:
        thrower(n) #fj1
    finally:
        try:
            raise ValueError('inner') #fj2
        except ValueError as e:
            leaf(n) #fj3
        x = n #fj4
def genn(n):
    try:
        yield #gn1
    except Boom:
        leaf(n) #gn2
    yield #gn3
def nones(n):
    g = genn(n) #ns1
    next(g) #ns2
    g.throw(Boom('in')) #ns3
    leaf(n) #ns4
    return g #ns5
def nestw(n):
    with CM(False): #nw1
        with CM(False): #nw2
            r = [y.v + #nw3
                 x
                 for x in [n] #nw4
                 for y in
                 genraise(x)] #nw5
    return Res(r) #nw6
def withtry(n):
    with CM(n == 1):
        try:
            thrower(n) #wt1
        except ValueError as e:
            leaf(n) #wt2
    return Res('eaten') #wt3
def withfin(n):
    try:
        with CM(False), CM(n == 1):
            try:
                thrower(n) #wf1
            finally:
                y = leaf(n) #wf2
        with CM(False):
            try:
                leaf(n) #wf3
            except ValueError:
                pass
    except Boom:
        with CM(n == 2):
            try:
                raise ValueError(n) #wf4
            except KeyError:
                pass
        raise #wf5
    return Res('fin') #wf6
def withgen(n):
    with CM(False):
        try:
            if n != 1: thrower(n) #wg1
        except ValueError as e:
            leaf(n)
    yield Res(n) #wg2
    with CM(n == 1):
        try:
            yield #wg3
            raise Boom(n) #wg4
        except ValueError as e:
            leaf(n)
    yield #wg5
class Iter:
    def __init__(self, n):
        self.n = n
    def __iter__(self):
        return self
    def __next__(self):
        if self.n <= 0: #it1
            raise StopIteration #it2
        self.n -= 1 #it3
        return Res(self.n) #it4
    def __aiter__(self):
        return self
    async def __anext__(self):
        if self.n <= 0: #ai1
            raise StopAsyncIteration #ai2
        self.n -= 1 #ai3
        return Res(self.n) #ai4
def loopx(n):
    for x in Iter(n): #lx1
        leaf(x.v) #lx2
    yield #lx3
    r = [x.v for x in Iter(n)] #lx4
    yield Res(r) #lx5
def useloopx(n):
    for x in loopx(n): #ux1
        pass
def yieldx(n):
    r = [x.v for x in Iter(n)]; yield #yx1
    r = list(map(leaf, Iter(n))); yield #yx2
    r = yield from deleg(n); yield #yx3
    r = [x.v for x in gen(n)]; s = [x.v for x in gen(1)]; r = yield #yx4
    try:
        r = [x.v for x in Iter(n)]; yield; yield #yx5
    except Boom:
        for x in Iter(n): leaf(n) #yx6
        yield #yx7
def useyieldx(n):
    for x in yieldx(n): #uy1
        pass
    g = yieldx(n) #uy2
    for x in g: #uy3
        try:
            r = g.throw(Boom('in')) #uy4
        except Boom:
            pass
    return Res('yields') #uy5
def fin3(n):
    try:
        thrower(n) #fk1
    finally:
        try:
            raise ValueError('inner') #fk2
        except ValueError as e:
            for x in Iter(n): leaf(n) #fk3
async def ago(n):
    async for x in Iter(n): #ag1
        leaf(x.v) #ag2
    r = [x.v async for x in Iter(n)] #ag3
async def agen(n):
    async for x in Iter(n): #an1
        yield x #an2
    yield #an3
    r = [x.v async for x in Iter(n)]; yield #an4
def useago(n):
    c = ago(n) #ug1
    try:
        c.send(None) #ug2
    except StopIteration:
        pass
    async def go():
        return [x async for x in agen(n)] #ug3
    c = go() #ug4
    try:
        c.send(None) #ug5
    except StopIteration as e:
        return Res(len(e.value)) #ug6
def many(n):
    try:
        twice(n); catcher(n); fact(2) #m1
        bottom(3); drive(2) #m2
        passer(n) #m3
    except Boom:
        pass #m4
    return objs(n) #m5
def main(plans):
    def worker(calls):
        for f, n in calls:
            try:
                r = globals()[f](n)
                if hasattr(r, '__next__'):
                    for x in r:
                        pass
            except Exception as e:
                r = e
    ts = []
    for wave in plans:
        ts = [threading.Thread(target=worker, args=(p,)) for p in wave]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
'''
FNS = ['leaf', 'fact', 'even', 'odd', 'twice', 'thrower', 'passer', 'catcher', 'again', 'other', 'bottom', 'withs', 'gen', 'drive',
       'part', 'genx', 'throws', 'genraise', 'usesraise', 'deleg', 'usedeleg', 'walk', 'usewalk', 'keyed', 'lambdas', 'oneline',
       'closure', 'objs', 'twin', 'spawner', 'handover', 'none', 'many', 'fin', 'fin2', 'genn', 'nones',
       'nestw', 'useloopx', 'useago', 'useyieldx', 'fin3', 'withtry', 'withfin', 'withgen']
METHODS = FNS + ['go', '<lambda>', '__enter__', '__exit__', 'cut', 'cutdeep', 'bye', 'rest', 'worker', '__init__', 'main',
                 '__next__', '__anext__', 'loopx', 'ago', 'agen', 'yieldx', 'stopper', 'stopdeep', 'stopgen']
INNER = {'withtry': ['thrower', '__exit__', 'leaf'], 'withfin': ['thrower', '__exit__', 'leaf'],
         'withgen': ['thrower', '__exit__', 'leaf'],
         'stopper': ['leaf'], 'stopdeep': ['stopper', 'leaf'], 'stopgen': ['stopdeep', 'stopper'],
         'useyieldx': ['yieldx', 'yieldx', 'gen', 'deleg', '__next__', 'leaf'], 'fin3': ['thrower', 'leaf', '__next__'],
         'nestw': ['genraise', '__exit__'], 'useloopx': ['loopx', '__next__', 'leaf'],
         'useago': ['ago', 'agen', '__anext__', 'leaf'], 'fin': ['thrower', 'leaf'], 'fin2': ['thrower', 'leaf'], 'nones': ['genn', 'leaf'], 'twice': ['fact'], 'passer': ['thrower', 'leaf'], 'catcher': ['thrower'], 'again': ['thrower', 'leaf'], 'other': ['thrower'],
         'withs': ['leaf', 'thrower', '__exit__'], 'drive': ['gen'], 'part': ['gen'], 'throws': ['genx', 'leaf'],
         'usesraise': ['genraise'], 'usedeleg': ['deleg', 'gen'], 'usewalk': ['walk'], 'keyed': ['leaf', '<lambda>'],
         'lambdas': ['<lambda>'], 'oneline': ['leaf'], 'closure': ['closure'], 'objs': ['go'], 'twin': ['twin', 'leaf'],
         'spawner': ['leaf'], 'handover': ['gen', 'rest', 'leaf'], 'cut': ['leaf'], 'cutdeep': ['cut', 'leaf'], 'even': ['odd'],
         'odd': ['even'], 'many': ['twice', 'catcher', 'fact', 'bottom', 'drive', 'passer', 'go', 'objs']}
TAGS = {'l': 'leaf', 'f': 'fact', 'ev': 'even', 'od': 'odd', 'tw': 'twice', 't': 'thrower', 'p': 'passer', 'c': 'catcher', 'a': 'again',
        'o': 'other', 'b': 'bottom', 'cm': '__exit__', 'w': 'withs', 'g': 'gen', 'd': 'drive', 'pa': 'part', 'gx': 'genx', 'th': 'throws',
        'gr': 'genraise', 'ur': 'usesraise', 'dl': 'deleg', 'ud': 'usedeleg', 'wk': 'walk', 'uw': 'usewalk', 'k': 'keyed',
        'la': 'lambdas', 'ol': 'oneline', 'cl': 'closure', 'A': 'go', 'B': 'go', 'ob': 'objs', 'tn': 'twin', 'sp': 'spawner',
        'h': 'handover', 'cu': 'cut', 'cd': 'cutdeep', 'by': 'bye', 'no': 'none', 'fi': 'fin', 'fj': 'fin2', 'gn': 'genn', 'ns': 'nones', 'm': 'many',
        'nw': 'nestw', 'it': '__next__', 'ai': '__anext__', 'lx': 'loopx', 'ux': 'useloopx', 'ag': 'ago', 'an': 'agen', 'ug': 'useago', 'yx': 'yieldx',
        'uy': 'useyieldx', 'fk': 'fin3', 'wt': 'withtry', 'wf': 'withfin', 'wg': 'withgen', 'st': 'stopper', 'sd': 'stopdeep', 'sg': 'stopgen'}
MARKS = markers(BODY)


def marks_of(fns):
    return [m for m in MARKS if TAGS[m.rstrip('0123456789')] in fns]


def gen_host(rng):
    fns = subset(rng, FNS, 0.15) or [pick(rng, FNS)]
    waves = []
    for _ in range(pick(rng, [1, 1, 2, 3])):
        waves.append([[[pick(rng, fns), pick(rng, [0, 1, 2, 3])] for _ in range(rng.randrange(1, 4))]
                      for _ in range(pick(rng, [1, 1, 2, 3]))])
    if rng.random() < 0.25:
        # a thread that ends with work pending (the program switches its tracing off), and later ones
        waves.insert(0, [[[pick(rng, ['cut', 'cutdeep', 'cut']), 9]] for _ in range(pick(rng, [1, 2]))])
        waves.append([[[pick(rng, ['cut', 'cutdeep', 'leaf'] + fns), 1]] for _ in range(2)])
        fns = fns + ['cut', 'cutdeep']
    if rng.random() < 0.1:
        # the program shuts the agent down while it has work to complete
        pick(rng, pick(rng, waves)).append([pick(rng, ['stopper', 'stopdeep', 'stopgen']), 8])
        fns = fns + ['stopdeep', 'stopgen', 'stopper']
    if rng.random() < 0.1:
        pick(rng, pick(rng, waves)).append(['bye', 1])
    used = set(fns)
    for f in fns:
        used |= set(INNER.get(f, []))
    used = sorted(used)
    tps = []
    for k in range(rng.randrange(1, 6)):
        t = {'id': 'tp%d' % k, 'args': {}, 'path': 'c15_host.py'}
        if tps and rng.random() < 0.3:
            o = pick(rng, tps)
            t['mark'] = o['mark']
            if 'method_name' in o['args']:
                t['args']['method_name'] = o['args']['method_name']
        elif rng.random() < 0.5:
            t['mark'] = 'l1'
            t['args']['method_name'] = pick(rng, used if rng.random() < 0.9 else METHODS)
        else:
            t['mark'] = pick(rng, marks_of(used) or MARKS)
        tps.append(t)
    return waves, tps


def dress(rng, t, method):
    """What the tracepoint opens."""
    a = t['args']
    r = rng.random()
    if r < 0.6:
        a['span'] = 'method' if method else 'line'
    if r > 0.4:
        a['stage'] = 'method_capture' if method else 'line_capture'
    elif rng.random() < 0.7:
        a['snapshot'] = 'no_collect'
    if rng.random() < 0.15:
        a['log_msg'] = 'L {n}'
    if rng.random() < 0.15:
        t['metrics'] = [{'name': 'm', 'type': 'COUNTER'}]
    if rng.random() < 0.1:
        a['frame_type'] = pick(rng, ['no_frame', 'all_frame'])
    if rng.random() < 0.2:
        t['via'] = 'code'
        t['watches'] = ["'tag:%s'" % t['id']]


def gen_specs(rng):
    out = [{'name': 'REC', 'kinds': ['deco', 'span', 'log', 'metric'], 'order': -100}]
    for j in range(pick(rng, [0, 0, 1, 2])):
        s = {'name': 'S%d' % j, 'kinds': ['span'], 'order': rng.randrange(-120, 20)}
        r = rng.random()
        if r < 0.6:
            s['fail'] = {pick(rng, ['create_span', 'span_close']): {
                'exc': pick(rng, ['ValueError', 'SystemExit', 'KeyboardInterrupt', 'InjectedBase']),
                'on': pick(rng, ['all', [0], [0, 2], [1, 3, 4]])}}
        elif r < 0.7:
            s['span_none'] = True
        elif r < 0.8:
            s['delay'] = {pick(rng, ['create_span', 'span_close']): pick(rng, [0.01, 0.5])}
        out.append(s)
    if rng.random() < 0.15:
        out[0]['fail'] = {'span_close': {'exc': pick(rng, ['ValueError', 'GeneratorExit']), 'on': pick(rng, ['all', [0, 3]])}}
    return out


def gen(rng, i, tier):
    if rng.random() < 0.3:
        plan = base_plan(rng, i, pick(rng, [0, 3]), strange=pick(rng, [0, 0.3]), funcs=4, stmts=5, depth=2)
        g = Tps(rng, plan['prog'])
        tps = []
        for _ in range(rng.randrange(1, 6)):
            t = g.one(0.5)
            if tps and rng.random() < 0.2:
                o = pick(rng, tps)
                t = dict(t, at=o['at'])
                t.pop('on', None)
                t['args'] = {k: v for k, v in o['args'].items() if k == 'method_name'}
                if 'on' in o:
                    t['on'] = o['on']
            tps.append(t)
    else:
        plan = {'v': 1, 'sched': gen_sched(rng, est=3000, hold=0.8, tick=pick(rng, [0, 100])), 'log': pick(rng, ['error', 'debug'])}
        plan['waves'], tps = gen_host(rng)
    for t in tps:
        dress(rng, t, 'method_name' in t['args'])
    plan['tps'] = tps
    plan['specs'] = gen_specs(rng)
    if rng.random() < 0.3:
        # the configuration changes while work is pending
        plan['updates'] = [[pick(rng, [0, 1, 5, 20, 100, 400]), pick(rng, ['empty', 'other', 'all', 'empty'])]
                           for _ in range(rng.randrange(1, 4))]
        plan['config'] = {'POLL_TIMER': pick(rng, [0.005, 0.02, 0.1])}
    return plan


RETURNS = ('RETURN_VALUE', 'RETURN_CONST', 'YIELD_VALUE', 'RETURN_GENERATOR', 'INSTRUMENTED_RETURN_VALUE')


class Info:
    """What the interpreter says about an event that can complete something."""
    __slots__ = ('arg', 'frozen', 'exc', 'unwind', 'handling', 'loop')


def handled(frame):
    """Is an exception being handled by the invocation itself?"""
    tb = sys.exc_info()[2]
    return tb is not None and tb.tb_frame is frame


def run(w, plan):
    w.load_agent()
    sim = w.sim
    static = 'waves' in plan
    info = {}
    last = {}
    bases = set()

    def on_event(ev, frame, arg):
        if ev.base not in bases or ev.kind == 'call':
            return
        if ev.kind == 'line':
            last.pop(ev.inv, None)
            if handled(frame):
                x = info[('handling', ev.seq)] = Info()
                x.exc = sys.exc_info()[1]
                w.keep.append(x.exc)
                x.frozen = Freezer(w.keep, 40, 3, 20).freeze(x.exc)
            return
        x = Info()
        x.arg = arg
        x.exc = arg[1] if ev.kind == 'exception' and type(arg) is tuple and len(arg) == 3 else None
        x.handling = handled(frame)
        # an exception that is thrown into a generator at a yield, and not handled, ends it at this yield
        x.unwind = ev.kind == 'return' and (dis.opname[frame.f_code.co_code[frame.f_lasti]] not in RETURNS or
                                            last.get(ev.inv) == ('exception', frame.f_lasti))
        # the exception that ends an iterator is handled by the loop (or what else asked for the next value)
        x.loop = ev.kind == 'exception' and isinstance(x.exc, StopIteration) and \
            dis.opname[frame.f_code.co_code[frame.f_lasti]] in ('FOR_ITER', 'SEND', 'END_SEND')
        last[ev.inv] = (ev.kind, frame.f_lasti)
        fz = Freezer(w.keep, 40, 3, 20)
        x.frozen = fz.freeze(x.exc if ev.kind == 'exception' else arg)
        w.keep.append(arg)
        info[ev.seq] = x

    w.on_event = on_event
    if static:
        marks = markers(BODY)
        lines = BODY.split('\n')
        assert all(m in marks for m in MARKS) and lines
        tps = [dict(t, line=marks[t['mark']]) for t in plan['tps']]
        sc = Scene(w, dict(plan, prog={'mods': [], 'main': []}, tps=tps), UNLIMITED).prepare()

        def SEEN(o):
            if sim.current.cur is not None:
                w.effect('seen', obj=id(o))

        def STOP():
            a = w.effect('stop')
            try:
                sc.deep.shutdown()
            finally:
                a['end'] = w.effect('stopped')['step']
        second = w.host_module('/opt/other/c15_host.py', BODY, {'SEEN': SEEN, 'OTHER': None, 'STOP': STOP})
        first = w.host_module('/app/src/c15_host.py', BODY, {'SEEN': SEEN, 'OTHER': second, 'STOP': STOP})
        second.__dict__['OTHER'] = None
        bases.add('c15_host.py')
    else:
        sc = Scene(w, plan, UNLIMITED).prepare()
        bases.update({t['path'] for t in sc.tps})
    sc.start(plan['specs'])
    ups = plan.get('updates') or []
    sc.settle(0.3 if ups else 2)
    w.events.clear()
    mark = len(w.effects)
    sim.arm()
    if ups:
        def updater():
            n = 1
            for ms, what in ups:
                sim.sleep(ms * 1_000_000)
                n += 1
                w.service.set_config({'empty': [], 'other': sc.service_tps()[:1], 'all': sc.service_tps()}[what], 'h%d' % n)
        sim.start_task(sim._new_task('updater', 'other'), updater, (), {})
    if static:
        t = w.threading.Thread(target=first.main, args=(plan['waves'],))
        t.start()
        t.join()
    else:
        sc.run_host()
    end = len(w.effects)
    sc.stop(1 if ups else 100)
    out = []
    escapes(w, out)
    judge(w, sc, info, mark, end, out)
    return out


def judge(w, sc, info, mark, end, out):
    if len(w.events) >= w.max_events:
        return
    by_inv = {}
    by_tid = {}
    for ev in w.events:
        by_inv.setdefault(ev.inv, []).append(ev)
        by_tid.setdefault(ev.tid, []).append(ev)
    pos = {}
    for evs in by_inv.values():
        for k, ev in enumerate(evs):
            pos[ev.seq] = k
    tpos = {}
    for evs in by_tid.values():
        for k, ev in enumerate(evs):
            tpos[ev.seq] = k
    spans = {}
    for e in w.of('span_open'):
        spans[e['span']] = [e, []]
    for e in w.of('span_close'):
        if e['span'] not in spans:
            out.append(viol('unknown', 'span %s was closed and never opened' % e['span']))
        else:
            spans[e['span']][1].append(e)
    pending = []            # (thread, from event, to event)
    n = 0
    for sid, (o, closes) in sorted(spans.items()):
        if len(out) > 6:
            return
        if o['ev'] is None:
            out.append(viol('stray', 'span %s was opened outside any event' % sid))
            continue
        e0 = w.events[o['ev']]
        win, traced = window(e0, by_inv[e0.inv], pos)
        what = 'the span of %s opened at %s' % (o['tp'], e0.brief())
        n += 1
        st = stop_within(w, o, e0, win)
        if st is not None:
            w.probe('pending_at_shutdown')
            if [c['tid'] for c in closes] != [o['tid']] or not st['step'] <= closes[0]['step'] <= st['end']:
                out.append(viol('shutdown', '%s was pending when its invocation shut the agent down, and was closed %d times' % (
                    what, len(closes))))
            continue
        if not traced:
            w.probe('cut_off')
        if len(closes) != 1 and (traced or len(closes) > 1):
            out.append(viol('count', '%s was closed %d times; its invocation: %s' % (what, len(closes), story(win))))
            continue
        for c in closes:
            if c['tid'] != o['tid']:
                out.append(viol('thread', '%s by task %d was closed by task %d' % (what, o['tid'], c['tid'])))
            elif c['ev'] is None:
                out.append(viol('outside', '%s was closed outside any event' % what))
            else:
                e1 = w.events[c['ev']]
                pending.append((e0.tid, e0.seq, e1.seq))
                judge_end(w, out, what, e0, e1, win, info, by_tid, tpos)
    from deepproto.proto.tracepoint.v1.tracepoint_pb2 import WatchSource
    sc.collect()
    sent = {}
    decorated = {}
    for d in w.effects[mark:end]:
        if d['kind'] == 'decorate' and d['plugin'] == 'REC':
            decorated[d['snapshot'].zfill(32)] = d
    for m, ev, e in sc.snaps:
        sent.setdefault(m.ID.hex(), []).append((m, ev, e))
    seen = {}
    for e in w.of('seen'):
        seen.setdefault(e['obj'], set()).add(e['ev'])
    for sid, d in sorted(decorated.items(), key=lambda x: x[1]['i']):
        if len(out) > 6:
            return
        if d['ev'] is None:
            continue
        e0 = w.events[d['ev']]
        win, traced = window(e0, by_inv[e0.inv], pos)
        ms = sent.get(sid, [])
        what = 'a snapshot collected at %s' % e0.brief()
        st = stop_within(w, d, e0, win)
        if st is not None:
            if len(ms) != 1 or any(WatchSource.Name(r.source) == 'CAPTURE' for r in ms[0][0].watches):
                out.append(viol('shutdown', '%s was pending when its invocation shut the agent down, and was sent %d times%s' % (
                    what, len(ms), ' (with a result)' if len(ms) == 1 else '')))
            continue
        if any(e['step'] < (win[-1] if win else e0).step0 + 100000 for e in w.of('stop')):
            # what is handed over after the agent was shut down is refused
            traced = False
        if len(ms) != 1 and (traced or len(ms) > 1):
            out.append(viol('sent', '%s was sent %d times; its invocation: %s' % (what, len(ms), story(win))))
            continue
        for m, ev, e in ms:
            tp = sc.tp_of_snapshot(m)
            if tp is None or args_of(tp).get('stage') not in CAPTURES:
                continue
            n += 1
            captured(w, out, 'the snapshot of %s collected at %s' % (tp['id'], e0.brief()), m, e, e0, win, traced, info, by_tid,
                     tpos, seen, pending)
    w.probe('openings', n)
    for t, a, b in pending:
        if any(t2 == t and a < a2 < b for t2, a2, b2 in pending):
            w.nontrivial = True
    for t in w.sim.tasks:
        if t.tid not in by_tid:
            continue


def stop_within(w, o, e0, win):
    """The shutdown that the thread called while this was pending."""
    for st in w.of('stop'):
        if st['tid'] != o['tid'] or st['i'] < o['i']:
            continue
        if e0.kind == 'line':
            return st if not win or win[0].step0 > st['step'] else None
        return st if not win or win[-1].kind != 'return' or win[-1].step0 > st['step'] else None
    return None


def window(e0, evs, pos):
    """The events of the invocation after the opening, up to the end of the invocation (or its activation)."""
    win = []
    traced = True
    for ev in evs[pos[e0.seq] + 1:]:
        if ev.kind == 'call':
            break
        win.append(ev)
        traced = traced and ev.delivered
        if ev.kind == 'return':
            break
    if not win or win[-1].kind != 'return':
        traced = False
    return win, traced


def last_seen(e0, win, info):
    """The last event before the end of the invocation that tells what was being handled."""
    for ev in win[-2::-1]:
        if not (ev.kind == 'exception' and ev.seq in info and info[ev.seq].loop):
            return ev
    return e0


def story(win):
    return [(ev.seq, ev.kind, ev.line) for ev in win][:12]


def propagated(w, ev, win, info, by_tid, tpos):
    """Is the exception of this event the one that ended the invocation?"""
    x = info.get(ev.seq)
    last = win[-1]
    y = info.get(last.seq)
    if x is None or y is None:
        return True
    if not y.unwind:
        return False
    nxt = by_tid[last.tid][tpos[last.seq] + 1:][:1]
    if nxt and nxt[0].kind == 'exception' and nxt[0].seq in info:
        return info[nxt[0].seq].exc is x.exc
    # nothing more is known: the last exception of the invocation
    return [ev] == [v for v in win if v.kind == 'exception' and not info[v.seq].loop][-1:]


def open_handler(ev, win, info):
    """
    Was the exception of this event being handled when the invocation was last seen, before an exception ended it?

    When an 'except' block ends (or a comprehension within it fails) and an outer exception goes on at once, the interpreter
    does not tell that, so the one that was being handled is the best answer that there is.
    """
    x = info.get(ev.seq)
    h = info.get(('handling', last_seen(ev, win, info).seq))
    return h is not None and x is not None and h.exc is x.exc


def judge_end(w, out, what, e0, e1, win, info, by_tid, tpos):
    if e1.inv != e0.inv:
        out.append(viol('place', '%s was completed by another invocation, at %s; its own: %s' % (what, e1.brief(), story(win))))
    elif e1 not in win:
        out.append(viol('early' if e1.seq <= e0.seq else 'late', '%s was completed at %s; its invocation: %s' % (
            what, e1.brief(), story(win))))
    elif e0.kind == 'line':
        if e1 is not win[0]:
            out.append(viol('late', '%s was completed at %s; its invocation: %s' % (what, e1.brief(), story(win))))
    elif e1.kind == 'line':
        out.append(viol('early', '%s was completed at %s; its invocation: %s' % (what, e1.brief(), story(win))))
    elif e1.kind == 'exception' and not propagated(w, e1, win, info, by_tid, tpos):
        out.append(viol('early', '%s was completed by an exception that was handled within its invocation, at %s: %s' % (
            what, e1.brief(), story(win))))


def captured(w, out, what, m, e, e0, win, traced, info, by_tid, tpos, seen, pending):
    from deepproto.proto.tracepoint.v1.tracepoint_pb2 import WatchSource
    rs = [r for r in m.watches if WatchSource.Name(r.source) == 'CAPTURE']
    if not traced:
        return
    if e['clock'] < win[0].c0:
        out.append(viol('early', '%s was sent before the program moved on' % what))
        return
    if e0.kind == 'line' and win[0].kind == 'line':
        if rs:
            out.append(viol('capture', '%s has the captured result %r, the line neither raised nor returned: %s' % (
                what, [r.expression for r in rs], story(win))))
        return
    if len(rs) != 1:
        out.append(viol('capture', '%s has %d captured results; its invocation: %s' % (what, len(rs), story(win))))
        return
    r = rs[0]
    if e0.kind == 'line':
        ends = [win[0]]
    else:
        ends = [v for v in win if v.kind in ('exception', 'return')]
    why = []
    early = None
    for ev in ends:
        x = info.get(ev.seq)
        if x is None:
            return
        if ev.kind == 'return' and x.unwind:
            why += unwound(m, r, ev, x, e0, win, info, by_tid, tpos)
            if not why:
                pending.append((e0.tid, e0.seq, ev.seq))
                return
            continue
        if e['clock'] < ev.c0:
            why.append('it was sent before %s' % ev.brief())
            continue
        p = same_result(m, r, ev.kind, x)
        if p:
            why += p
            continue
        if ev.kind == 'return' and x.arg.__class__.__name__ == 'Res' and ev.seq not in seen.get(id(x.arg), ()):
            why.append('the result was not recorded at %s' % ev.brief())
            continue
        if ev.kind == 'exception' and e0.kind == 'call' and not propagated(w, ev, win, info, by_tid, tpos) and not open_handler(
                ev, win, info):
            early = early or ev         # unless another one that looks like it did end the invocation
            continue
        pending.append((e0.tid, e0.seq, ev.seq))
        return
    if early is not None:
        out.append(viol('early', '%s has the exception of %s as its result, which was handled within the invocation: %s' % (
            what, early.brief(), story(win))))
        return
    out.append(viol('capture', '%s has the wrong result (%s): %s' % (what, r.expression, why[:3])))


def unwound(m, r, ev, x, e0, win, info, by_tid, tpos):
    """Why the recorded result is not the exception with which the invocation ended (empty: it is)."""
    if r.expression != 'exception':
        if e0.kind == 'line' and not x.handling:
            # the clean up of a comprehension: the interpreter does not tell which exception this is
            return [] if r.expression == 'return' else ['it is called %r' % r.expression]
        return ['it is called %r, the invocation ended with an exception' % r.expression]
    nxt = by_tid[ev.tid][tpos[ev.seq] + 1:][:1]
    if nxt and nxt[0].kind == 'exception' and nxt[0].seq in info:
        h = info.get(('handling', last_seen(e0, win, info).seq))
        if h is not None and not same_result(m, r, 'exception', h):
            return []           # see open_handler
        return same_result(m, r, 'exception', info[nxt[0].seq])
    return []


def same_result(m, r, kind, x):
    """Why the recorded result is not that of the event (empty: it is)."""
    if r.expression != kind:
        return ['it is called %r, not %r' % (r.expression, kind)]
    if not r.HasField('good_result'):
        return ['it is the error %r' % r.error_result]
    c = Compare(m)
    vid = r.good_result.ID
    if kind == 'exception':
        v = m.var_lookup[vid] if vid in m.var_lookup else None
        if v is not None and v.type == 'tuple' and len(v.children) > 1:
            vid = v.children[1].ID
    c.value(vid, x.frozen, 'the result')
    return [msg for k, msg in c.problems if k in ('type', 'value')]


def on_abort(w, plan, info):
    if info['why'] == 'step-cap' and plan.get('updates') and w.sim.clock > 5 * SEC:
        # a program that waited for long while the configuration was polled every few milliseconds
        w.nontrivial = False
        w.probe('too_big')
        return []
    return big(w, plan, info)

