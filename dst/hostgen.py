"""
Generated host programs: a JSON specification, rendered to source.

A program has modules; a module has functions (plain, methods, generators) whose statements carry markers, so a
tracepoint can be placed on "marker 12" and keeps its meaning while the program is minimised.
"""
import linecache
import types

EXCS = ['ValueError', 'KeyError', 'RuntimeError', 'ZeroDivisionError', 'Boom']

PRELUDE = '''import threading
import time
class Boom(Exception):
    pass
class Ctx:
    def __init__(self, v, eat):
        self.v, self.eat = v, eat
    def __enter__(self):
        return self.v
    def __exit__(self, kind, value, tb):
        return self.eat
def deeper(k, f, n, a):
    if k > 0:
        return deeper(k - 1, f, n, a)
    return f(n, a)
def deco(f):
    def wrap(*args, **kw):
        r = f(*args, **kw)
        return r
    return wrap
class Rec:
    kind = 'rec'
    def __init__(self, a, b=None):
        self.a = a
        self._b = b
        self.__c = [a]
    def bump(self, k):
        self.a = self.a + k
        return self.a
    def __repr__(self):
        return 'Rec(%r)' % (self.a,)
GLOBAL_ONE = 'g1'
GLOBAL_LIST = [1, 2, 3]
'''

PATHS = ['/app/src/alpha.py', '/app/src/beta.py', '/app/lib/alpha.py', '/opt/other/gamma.py', '/app/src/odd name.py']


class Gen:
    """Builds a program specification."""

    def __init__(self, rng, nobj=0, modules=2, funcs=4, stmts=6, depth=2, gens=True, threads=True, methods=True,
                 excs=True, sleeps=True, paths=None, rich=None):
        self.rng = rng
        self.nobj = nobj
        self.m = 0
        self.gens, self.threads, self.methods, self.excs, self.sleeps = gens, threads, methods, excs, sleeps
        self.max_stmts, self.max_depth = stmts, depth
        self.nmod, self.nfun = modules, funcs
        self.paths = paths or PATHS
        self.funcs = []         # (module index, spec) callable so far
        self.names = []
        self.late = []
        # how much of what Python offers is used
        self.rich = rich if rich is not None else self.pick([0, 0, 0.1, 0.2, 0.4])

    def mark(self):
        self.m += 1
        return self.m

    def program(self):
        rng = self.rng
        mods = []
        paths = list(self.paths)
        rng.shuffle(paths)
        for i in range(rng.randrange(1, self.nmod + 1)):
            mod = {'path': paths[i % len(paths)], 'funcs': []}
            mods.append(mod)
            for k in range(rng.randrange(1, self.nfun + 1)):
                name = 'f%d' % rng.randrange(0, 3) if rng.random() < 0.3 else 'f%d' % (k + 10 * i)
                if any(f['name'] == name and not f.get('cls') for f in mod['funcs']):
                    name = 'f%d' % (k + 10 * i + 100)
                f = self.func(name, i)
                mod['funcs'].append(f)
                self.funcs.append((i, f))
        out = {'mods': mods, 'main': self.main(mods)}
        if self.late:
            out['late'] = self.late
        return out

    def func(self, name, mi):
        rng = self.rng
        r = rng.random()
        f = {'name': name, 'm': self.mark(), 'body': []}
        if self.methods and r < 0.2:
            f['cls'] = self.pick(['Alpha', '_Alpha', 'Beta', '_B', 'Alpha_'])
        elif self.gens and r < 0.4:
            f['gen'] = 1
        elif r < 0.5:
            f['rec'] = 1
        names = ['n', 'a']
        f['body'] = self.block(names, 0, f)
        if rng.random() < 0.85:
            f['body'].append({'s': 'ret', 'm': self.mark(), 'e': self.expr(names)})
        return f

    def pick(self, seq):
        return seq[self.rng.randrange(len(seq))]

    def expr(self, names):
        rng = self.rng
        r = rng.random()
        n = self.pick(names)
        if r < 0.3:
            return n
        if r < 0.45:
            return str(rng.randrange(-3, 100))
        if r < 0.55:
            return repr(self.pick(['x', 'hello', '', 'a{b}', '%s', 'é']))
        if r < 0.65:
            return '[%s, %s]' % (n, self.pick(names))
        if r < 0.75:
            return '(%s, 1)' % n
        if r < 0.85:
            return "{'k': %s, 'j': 2}" % n
        if r < 0.9:
            return 'n + 1'
        if r < 0.95:
            return 'Rec(%s)' % n
        return 'str(n)'

    def new_name(self, names):
        r = self.rng.random()
        if r < 0.3 and len(names) > 2:
            return self.pick(names[2:])
        n = '%s%d' % (self.pick(['x', 'y', '_z', '__w', 'v']), self.mark())
        return n

    def block(self, names, depth, f):
        out = []
        for _ in range(self.rng.randrange(1, self.max_stmts)):
            out.append(self.stmt(names, depth, f))
        return out

    def stmt(self, names, depth, f):
        rng = self.rng
        r = rng.random()
        m = self.mark()
        deeper = depth < self.max_depth
        if deeper and self.rich and rng.random() < self.rich:
            return self.special(names, depth, f, m)
        if r < 0.22:
            e = self.expr(names)
            n = self.new_name(names)
            if n not in names and depth == 0:
                names.append(n)
            return {'s': 'let', 'm': m, 'n': n, 'e': e}
        if r < 0.36 and self.nobj:
            n = self.new_name(names)
            if n not in names and depth == 0:
                names.append(n)
            return {'s': 'val', 'm': m, 'n': n, 'o': rng.randrange(self.nobj)}
        if r < 0.46 and deeper:
            return {'s': 'for', 'm': m, 'n': 'i%d' % m, 'k': rng.randrange(1, 4), 'b': self.block(names, depth + 1, f)}
        if r < 0.53 and deeper:
            return {'s': 'if', 'm': m, 'c': self.pick(['n % 2', 'n > 0', 'a', 'not a', 'n == 2', 'True']),
                    'b': self.block(names, depth + 1, f), 'e': self.block(names, depth + 1, f)}
        if r < 0.62 and deeper and self.excs:
            return {'s': 'try', 'm': m, 'b': self.block(names, depth + 1, f),
                    'x': self.pick(['Exception', 'ValueError', 'KeyError', 'Exception']),
                    'h': self.block(names, depth + 1, f),
                    'fin': self.block(names, depth + 1, f) if rng.random() < 0.3 else []}
        if r < 0.67 and self.excs:
            return {'s': 'raise', 'm': m, 'c': self.pick(['n == 1', 'n > 1', 'n == 0', 'a']), 'x': self.pick(EXCS)}
        if r < 0.82 and self.funcs:
            return self.call(names, m)
        if r < 0.86 and f.get('rec'):
            return {'s': 'self', 'm': m, 'n': 'r%d' % m}
        if r < 0.92 and f.get('gen'):
            return {'s': 'yield', 'm': m, 'e': self.expr(names)}
        if r < 0.95 and self.sleeps:
            return {'s': 'sleep', 'm': m, 'ms': self.pick([0, 1, 3, 20, 700])}
        return {'s': 'out', 'm': m, 'e': self.expr(names)}

    def special(self, names, depth, f, m):
        rng = self.rng
        k = self.pick(['inner', 'inner', 'lambda', 'genex', 'cls', 'with', 'while', 'multi', 'match', 'del', 'late', 'inner', 'walrus', 'lock', 'rename'])
        st = {'s': k, 'm': m, 'n': '%s%d' % (k[0], m), 'e': self.expr(names), 'e2': self.pick(names)}
        if k == 'inner':
            st['kind'] = self.pick(['plain', 'plain', 'nonlocal', 'deco', 'args', 'gen', 'kw'])
            st['b'] = self.block(names[:2] + ['p%d' % m] + names[2:], depth + 1, {'name': st['n']})
            st['r'] = self.mark()
            st['twice'] = 1 if rng.random() < 0.3 else 0
        elif k == 'with':
            st['eat'] = self.pick([0, 1])
            st['b'] = self.block(names, depth + 1, f)
        elif k in ('while', 'match', 'lock'):
            st['b'] = self.block(names, depth + 1, f)
            st['k'] = self.pick([1, 2, 3])
        elif k == 'late':
            if depth == 0 and len(self.late) < 2:
                st['k'] = len(self.late)
                late = {'path': self.pick(['/app/src/late.py', '/opt/other/alpha.py', '/app/src/lat\u00e9.py']), 'body': []}
                self.late.append(late)
                late['body'] = self.block(['n', 'a'], 1, {'name': '<module>'})
            else:
                st['k'] = 0
        return st

    def call(self, names, m):
        mi, g = self.pick(self.funcs)
        return {'s': 'call', 'm': m, 'n': 'c%d' % m, 'mod': mi, 'f': g['name'], 'cls': g.get('cls'), 'gen': g.get('gen'),
                'arg': self.pick(['n', '1', '2', 'n + 1', '0', '3']), 'a': self.pick(names)}

    def main(self, mods):
        rng = self.rng
        out = []
        nth = rng.randrange(0, 4) if self.threads else 0
        for t in range(max(1, nth) if nth else 1):
            calls = []
            for _ in range(rng.randrange(1, 5)):
                mi, g = self.pick(self.funcs)
                calls.append({'mod': mi, 'f': g['name'], 'cls': g.get('cls'), 'gen': g.get('gen'),
                              'n': rng.randrange(0, 4), 'a': self.pick(["'s'", '0', 'None', '[1]'])})
                if self.rich and rng.random() < 0.15:
                    calls[-1]['deep'] = self.pick([2, 3, 8, 20, 20, 45, 70, 130])
            out.append({'thread': 1 if nth else 0, 'calls': calls})
        if nth and rng.random() < 0.5:
            out[0]['thread'] = 0
        return out


def uses(spec):
    """(module index, function name, cls) that exist, for pruned programs."""
    have = {}
    for i, mod in enumerate(spec['mods']):
        for f in mod['funcs']:
            have[(i, f['name'])] = f
    return have


class Render:
    """Renders a specification; `lines[marker] = (module path, line)`, `funcs[marker] = (path, name)`."""

    def __init__(self, spec):
        self.spec = spec
        self.nested = 0
        self.have = uses(spec)
        self.sources = []       # (path, source)
        self.lines = {}
        self.funcs = {}
        self.stmts = {}
        self.rank = {}
        n = 0
        for mod_i, mod in enumerate(spec['mods']):
            for f in mod['funcs']:
                self.rank[(mod_i, f['name'])] = n
                n += 1
        for i, mod in enumerate(spec['mods']):
            self.module(i, mod)
        self.late = []
        for late in spec.get('late') or []:
            self.buf = []
            self.path = late['path']
            self.mi = -2
            self.cur = {'name': '<module>'}
            self.block(0, late['body'])
            self.late.append((late['path'], '\n'.join(self.buf) + '\n'))

    def module(self, i, mod):
        self.buf = PRELUDE.split('\n')[:-1]
        self.path = mod['path']
        self.mi = i
        for f in mod['funcs']:
            self.func(f)
        self.sources.append((mod['path'], '\n'.join(self.buf) + '\n'))

    def emit(self, ind, text, m=None):
        self.buf.append('    ' * ind + text)
        if m is not None:
            self.lines[m] = (self.path, len(self.buf))

    def func(self, f):
        ind = 0
        self.cur = f
        if f.get('cls'):
            self.emit(0, 'class %s:' % f['cls'])
            self.emit(1, 'def __init__(self, a):')
            self.emit(2, 'self.a = a')
            self.emit(2, 'self.__priv = 1')
            self.emit(2, 'self._%s_x = 2' % f['cls'].strip('_'))
            ind = 1
        self.emit(ind, 'def %s(%sn, a):' % (f['name'], 'self, ' if f.get('cls') else ''))
        self.lines.pop(f['m'], None)
        self.funcs[f['m']] = (self.path, f['name'])
        self.lines[f['m']] = (self.path, len(self.buf))
        if not self.block(ind + 1, f['body']):
            self.emit(ind + 1, 'pass')
        if f.get('gen') and not _has_yield(f['body']):
            self.emit(ind + 1, 'yield 1')
        if f.get('cls'):
            # callers use the method through an instance
            self.emit(0, '%s_at_%s = %s' % (f['name'], f['cls'], f['cls']))

    def block(self, ind, body):
        n = 0
        for st in body:
            n += 1 if self.stmt(ind, st) else 0
        return n

    def ref(self, c):
        """The callable a call statement names, or None if it was pruned; only earlier functions are called."""
        f = self.have.get((c['mod'], c['f']))
        if f is None:
            return None
        if bool(f.get('cls')) != bool(c.get('cls')) or bool(f.get('gen')) != bool(c.get('gen')):
            return None
        if c['mod'] == self.mi:
            name = c['f'] if not f.get('cls') else "%s_at_%s(n).%s" % (c['f'], f['cls'], c['f'])
        else:
            name = 'M%d.%s' % (c['mod'], c['f'] if not f.get('cls') else '%s_at_%s(n).%s' % (c['f'], f['cls'], c['f']))
        return name

    def stmt(self, ind, st):
        s, m = st['s'], st['m']
        if s == 'let':
            self.emit(ind, '%s = %s' % (st['n'], self.safe(st['e'])), m)
        elif s == 'val':
            self.emit(ind, '%s = V(%d)' % (st['n'], st['o']), m)
        elif s == 'raw':
            self.emit(ind, st['t'], m)
        elif s == 'for':
            self.emit(ind, 'for %s in range(%d):' % (st['n'], st['k']), m)
            if not self.block(ind + 1, st['b']):
                self.emit(ind + 1, 'pass')
        elif s == 'if':
            self.emit(ind, 'if %s:' % st['c'], m)
            if not self.block(ind + 1, st['b']):
                self.emit(ind + 1, 'pass')
            if st.get('e'):
                self.emit(ind, 'else:')
                if not self.block(ind + 1, st['e']):
                    self.emit(ind + 1, 'pass')
        elif s == 'try':
            self.emit(ind, 'try:', m)
            if not self.block(ind + 1, st['b']):
                self.emit(ind + 1, 'pass')
            self.emit(ind, 'except %s as ex%d:' % (st['x'], m))
            self.emit(ind + 1, 'OUT(type(ex%d).__name__)' % m)
            self.block(ind + 1, st['h'])
            if st.get('fin'):
                self.emit(ind, 'finally:')
                if not self.block(ind + 1, st['fin']):
                    self.emit(ind + 1, 'pass')
        elif s == 'raise':
            self.emit(ind, 'if %s: raise %s(%r)' % (st['c'], st['x'], 'at %d' % m), m)
        elif s == 'call':
            name = self.ref(st)
            if name is None or self.rank.get((st['mod'], st['f']), 1 << 30) >= self.rank.get((self.mi, self.cur['name']), 0):
                self.emit(ind, '%s = 0' % st['n'], m)
            elif st.get('gen'):
                self.emit(ind, '%s = [e for e in %s(%s, %s)]' % (st['n'], name, st['arg'], self.safe(st['a'])), m)
            else:
                self.emit(ind, '%s = %s(%s, %s)' % (st['n'], name, st['arg'], self.safe(st['a'])), m)
        elif s == 'self':
            f = self.cur
            if f.get('cls') or self.mi < 0 or self.nested:
                self.emit(ind, '%s = 0' % st['n'], m)
            else:
                self.emit(ind, '%s = %s(n - 1, a) if n > 0 else 0' % (st['n'], f['name']), m)
        elif s == 'yield':
            if not self.cur.get('gen') or self.nested:
                self.emit(ind, 'pass', m)
            else:
                self.emit(ind, 'yield %s' % self.safe(st['e']), m)
        elif s == 'sleep':
            self.emit(ind, 'time.sleep(%s)' % (st['ms'] / 1000.0), m)
        elif s == 'out':
            self.emit(ind, 'OUT(%s)' % self.safe(st['e']), m)
        elif s == 'ret':
            self.emit(ind, 'return %s' % self.safe(st['e']), m)
        else:
            self.special(ind, st, s, m)
        return True

    def special(self, ind, st, s, m):
        n, e = st['n'], self.safe(st['e'])
        if s == 'inner':
            kind = st['kind']
            pre = {'args': '*p%d', 'kw': '*, p%d=None', 'gen': 'p%d'}.get(kind, 'p%d') % m
            if kind == 'deco' and self.mi >= 0:
                self.emit(ind, '@deco')
            self.emit(ind, 'def %s(%s):' % (n, pre), m)
            self.funcs[m] = (self.path, n)
            if kind == 'nonlocal' and self.mi >= 0 and not self.nested:
                self.emit(ind + 1, 'nonlocal a')
                self.emit(ind + 1, 'a = p%d' % m)
            old, self.nested = self.nested, self.nested + 1
            self.block(ind + 1, st['b'])
            self.nested = old
            if kind == 'gen':
                self.emit(ind + 1, 'yield %s' % e, st['r'])
            else:
                self.emit(ind + 1, 'return %s' % e, st['r'])
            call = {'kw': '%s(p%d=%s)' % (n, m, st['e2']), 'gen': 'list(%s(%s))' % (n, st['e2'])}.get(kind, '%s(%s)' % (n, st['e2']))
            self.emit(ind, 'c%d = %s' % (m, call))
            if st.get('twice'):
                self.emit(ind, 'c%d = [c%d, %s]' % (m, m, call))
        elif s == 'lambda':
            self.emit(ind, '%s = lambda p: (p, %s)' % (n, st['e2']), m)
            self.emit(ind, 'c%d = %s(%s)' % (m, n, e))
        elif s == 'genex':
            self.emit(ind, 'c%d = list((q, %s) for q in [1, %s])' % (m, st['e2'], e), m)
        elif s == 'cls':
            self.emit(ind, 'class %s:' % n, m)
            self.funcs[m] = (self.path, n)
            self.emit(ind + 1, 'attr = %s' % e)
            self.emit(ind + 1, '__own = [attr, %s]' % st['e2'])
            self.emit(ind + 1, 'def get(self):')
            self.emit(ind + 2, 'return self.attr, %s' % st['e2'])
            self.emit(ind, 'c%d = %s().get()' % (m, n))
        elif s == 'with':
            self.emit(ind, 'with Ctx(%s, %r) as %s:' % (e, bool(st['eat']), n), m)
            if not self.block(ind + 1, st['b']):
                self.emit(ind + 1, 'pass')
        elif s == 'while':
            self.emit(ind, '%s = 0' % n, m)
            self.emit(ind, 'while %s < %d:' % (n, st['k']))
            self.emit(ind + 1, '%s += 1' % n)
            self.block(ind + 1, st['b'])
        elif s == 'match':
            self.emit(ind, 'match %s:' % st['e2'], m)
            self.emit(ind + 1, 'case int() | str():')
            self.emit(ind + 2, '%s = %s' % (n, e))
            self.emit(ind + 1, 'case _:')
            if not self.block(ind + 2, st['b']):
                self.emit(ind + 2, 'pass')
        elif s == 'lock':
            self.emit(ind, 'with threading.RLock():', m)
            if not self.block(ind + 1, st['b']):
                self.emit(ind + 1, 'pass')
        elif s == 'multi':
            self.emit(ind, '%s = [' % n)
            self.emit(ind + 1, '%s,' % e, m)
            self.emit(ind + 1, '[%s,' % st['e2'])
            self.emit(ind + 1, ' 1]]')
        elif s == 'rename':
            self.emit(ind, "threading.current_thread().name = 'w%s %%s' %% (n,)" % n, m)
        elif s == 'del':
            self.emit(ind, '%s = %s' % (n, e), m)
            self.emit(ind, 'del %s' % n)
        elif s == 'walrus':
            self.emit(ind, 'if (%s := %s): %s = [%s]' % (n, e, n, n), m)
        elif s == 'late':
            if self.mi >= 0:
                self.emit(ind, '%s = dict(NS, n=n, a=a)' % n)
                self.emit(ind, 'exec(LATE[%d], %s) if LATE[%d:] else 0' % (st['k'], n, st['k']), m)
                self.emit(ind, '%s = len(%s)' % (n, n))
            else:
                self.emit(ind, 'pass', m)
        else:
            raise ValueError(s)

    def safe(self, e):
        return e

    def main_source(self):
        buf = ['import threading', 'def one(i, calls):']
        buf.append('    for f, n, a in calls:')
        buf.append('        try:')
        buf.append('            r = f(n, a)')
        buf.append('            OUT((i, r))')
        buf.append('        except Exception as e:')
        buf.append("            OUT((i, 'raised', type(e).__name__, [str(x) for x in e.args]))")
        buf.append('def main():')
        buf.append('    ts = []')
        n = 0
        for j, grp in enumerate(self.spec['main']):
            cs = []
            for c in grp['calls']:
                self.mi = -1
                name = self.ref(c)
                if name is None:
                    continue
                name = name.replace('(n).', '(1).')
                if c.get('gen'):
                    cs.append('(lambda n, a: [e for e in %s(n, a)], %s, %s)' % (name, c['n'], c['a']))
                elif c.get('deep'):
                    cs.append('(lambda n, a: M%d.deeper(%d, %s, n, a), %s, %s)' % (c['mod'], c['deep'], name, c['n'], c['a']))
                else:
                    cs.append('(%s, %s, %s)' % (name, c['n'], c['a']))
            if not cs:
                continue
            n += 1
            if grp.get('thread'):
                buf.append('    ts.append(threading.Thread(target=one, %sargs=(%d, [%s])))' % ('name="job %d", ' % j if j % 2 else '', j, ', '.join(cs)))
                buf.append('    ts[-1].start()')
            else:
                buf.append('    one(%d, [%s])' % (j, ', '.join(cs)))
        buf.append('    for t in ts:')
        buf.append('        t.join()')
        return '\n'.join(buf) + '\n'


def _has_yield(body):
    for st in body:
        if st['s'] == 'yield':
            return True
        for k in ('b', 'e', 'h', 'fin'):
            if isinstance(st.get(k), list) and _has_yield(st[k]):
                return True
    return False


class Program:
    """A program loaded into a world: call `run()`."""

    def __init__(self, w, spec, values=None):
        self.w = w
        self.r = Render(spec)
        self.out = {}           # per simulated thread (by start order within the program)
        self.values = values
        self.mods = []
        self.names = {}
        self.base_tid = None

        def OUT(v):
            key = self.key()
            self.out.setdefault(key, []).append(show(v))

        def V(i):
            return self.values[i] if self.values is not None and i < len(self.values) else None

        late, names = [], {}
        if self.r.late:
            b = types.ModuleType('builtins')
            b.__dict__.update(w.host_builtins)
            names = {'__builtins__': b, '__name__': 'late', 'OUT': OUT, 'V': V, 'GLOBAL_ONE': 'g2', 'threading': w.threading, 'time': w.time}
            for path, src in self.r.late:
                linecache.cache[path] = (len(src), None, src.splitlines(True), path)
                late.append(compile(src, path, 'exec'))
        for i, (path, src) in enumerate(self.r.sources):
            ns = {'OUT': OUT, 'V': V}
            if late:
                ns.update(LATE=late, NS=names)
            for j, m in enumerate(self.mods):
                ns['M%d' % j] = m
            self.mods.append(w.host_module(path, src, ns))
            for k in ('Boom', 'Rec', 'Ctx'):
                if late and k not in names:
                    names[k] = self.mods[-1].__dict__[k]
        ns = {'OUT': OUT, 'V': V}
        for j, m in enumerate(self.mods):
            ns['M%d' % j] = m
        self.main_mod = w.host_module('/app/main_driver.py', self.r.main_source(), ns)
        self.threads = {}

    def key(self):
        t = self.w.sim.current
        if t.tid not in self.threads:
            self.threads[t.tid] = None
        return t.tid

    def run(self):
        self.w.host_call(self.main_mod.main)

    def output(self):
        """What the program printed, per thread, independent of thread numbers."""
        return sorted(self.out.values(), key=str)

    def globals_state(self):
        return [show({k: v for k, v in m.__dict__.items() if k.startswith('GLOBAL')}) for m in self.mods]


def show(v, depth=0, left=None):
    """A stable rendering of host data (no addresses)."""
    left = [4000] if left is None else left
    left[0] -= 1
    if depth > 6 or left[0] < 0:
        return '...'
    t = type(v)
    if t in (int, bool, float, str, bytes, type(None)):
        return repr(v)
    if t in (list, tuple):
        return '%s[%s]' % (t.__name__, ', '.join(show(x, depth + 1, left) for x in v))
    if t in (set, frozenset):
        return '%s{%s}' % (t.__name__, ', '.join(sorted(show(x, depth + 1, left) for x in v)))
    if t is dict:
        return '{%s}' % ', '.join('%s: %s' % (show(k, depth + 1, left), show(x, depth + 1, left)) for k, x in v.items())
    if isinstance(v, BaseException):
        return '%s(%s)' % (t.__name__, ', '.join(show(x, depth + 1, left) for x in v.args))
    try:
        d = object.__getattribute__(v, '__dict__')
        return '%s<%s>' % (t.__name__, ', '.join('%s=%s' % (k, show(x, depth + 1, left)) for k, x in d.items()))
    except Exception:
        return '%s<>' % t.__name__
