"""
Generated values: a JSON list of nodes that may refer to one another, built into real Python objects.

Everything here is free of side effects (looking at a value never changes it).
"""
import array
import collections
import datetime
import decimal
import enum
import fractions
import functools
import types
import weakref

KEEP = []

SIMPLE = ['int', 'bigint', 'str', 'longstr', 'bytes', 'float', 'bool', 'none', 'complex']
CONTAINERS = ['list', 'tuple', 'set', 'frozenset', 'dict']
OBJECTS = ['obj', 'obj', 'obj', 'privobj', 'exc', 'slots']
STRANGE = ['plainobject', 'deque', 'namedtuple', 'range', 'bytearray', 'memoryview', 'enum', 'datetime', 'decimal',
           'fraction', 'lambda', 'partial', 'module', 'class', 'func', 'listsub', 'dictsub', 'strsub', 'tuplesub',
           'defaultdict', 'ordereddict', 'iter', 'reviter', 'gen', 'rangeiter', 'mapobj', 'array', 'mappingproxy',
           'chainmap', 'builtin', 'method', 'property', 'ellipsis', 'notimpl', 'counter', 'weird_dict', 'surrogate',
           'nulstr', 'slotsdict', 'intsub', 'tb', 'code', 'simplens', 'cell', 'excgroup', 'userdict']
HOSTILE = ['badstr', 'badrepr', 'badlen', 'badgetattr', 'baddict', 'badclass', 'baddir', 'baditer', 'badhash', 'badbool',
           'badeq', 'nonstrstr', 'basestr', 'fakelist', 'fakedict', 'badstrexc', 'badkeys', 'metaname', 'badargs',
           'recstr', 'badformat', 'surrogateattr', 'dictattr', 'badattr', 'fakeiter', 'fakeint', 'badtypename',
           'growing', 'badinstance', 'unicodename', 'subdict', 'metanum', 'badexc', 'subargs', 'badlist', 'badtuple', 'badset',
           'deadproxy', 'proxy', 'negsize', 'slotexc', 'selfstr', 'badmodule', 'badstrsub', 'weirdname']


class Color(enum.Enum):
    RED = 1
    BLUE = 'b'


Point = collections.namedtuple('Point', 'x y')


def gen_nodes(rng, n, strange=0.2, hostile=0.0, big=0.15, cycles=0.15):
    """A list of node specifications; containers refer to any index (earlier, later or themselves)."""
    nodes = []
    for i in range(n):
        r = rng.random()
        if r < hostile:
            k = HOSTILE[rng.randrange(len(HOSTILE))]
        elif r < hostile + strange:
            k = STRANGE[rng.randrange(len(STRANGE))]
        else:
            q = rng.random()
            src = SIMPLE if q < 0.4 else CONTAINERS if q < 0.75 else OBJECTS
            k = src[rng.randrange(len(src))]
        node = {'k': k}
        if k in ('int',):
            node['v'] = rng.choice([0, 1, -1, 7, 255, 256, 257, 10 ** 6])
        elif k in ('str', 'strsub', 'surrogateattr'):
            node['v'] = rng.choice(['', 'a', 'hello world', 'é ü 漢', 'x' * 30, 'line\nbreak', '{not a field}', '\U0001f600'])
        elif k == 'longstr':
            node['n'] = rng.choice([5, 31, 32, 33, 100, 1023, 1024, 1025, 1030, 3000])
            node['c'] = rng.choice(['x', 'é', '漢'])
        elif k == 'float':
            node['v'] = rng.choice([0.0, 1.5, -2.25, 1e300, 'nan', 'inf'])
        elif k == 'bool':
            node['v'] = rng.random() < 0.5
        elif k in CONTAINERS + ['deque', 'listsub', 'dictsub', 'tuplesub', 'defaultdict', 'ordereddict', 'iter', 'reviter',
                                'gen', 'mapobj', 'badkeys', 'weird_dict', 'userdict', 'growing', 'badlen', 'baditer',
                                'fakelist', 'fakedict', 'chainmap', 'mappingproxy']:
            m = rng.randrange(0, 5) if rng.random() > big else rng.choice([9, 10, 11, 12, 40, 120])
            node['c'] = [rng.randrange(n) if rng.random() < cycles else rng.randrange(i) if i else 0 for _ in range(m)]
            if k in ('dict', 'badkeys', 'weird_dict'):
                node['keys'] = [rng.choice(['a', 'b', 'key', 'n%d' % j, '_p', '__q', '1', '']) + ('%d' % j)
                                for j in range(m)]
            if k == 'weird_dict':
                node['kk'] = [rng.choice(['int', 'none', 'tuple', 'bytes', 'bool', 'float', 'frozenset', 'obj', 'badstr', 'badstr',
                                          'str', 'surr']) for _ in range(m)]
        elif k in OBJECTS + HOSTILE + ['slotsdict', 'simplens', 'partial', 'namedtuple', 'excgroup']:
            m = rng.randrange(0, 4)
            node['c'] = [rng.randrange(n) if rng.random() < cycles else rng.randrange(i) if i else 0 for _ in range(m)]
            node['cls'] = rng.choice(['Foo', '_Foo', 'Bar', 'F', 'A_B', '__X', 'Foo_', 'dictlike', 'Foobar'])
            node['exc'] = rng.choice(['ValueError', 'KeyError', 'RuntimeError', 'TypeError'])
        nodes.append(node)
    return nodes


ATTRS = ['x', '_p', '__priv', '_Foobar', 'long_attribute_name', '__dunder__', '_F', '_Bar__other']
EXC = {'ValueError': ValueError, 'KeyError': KeyError, 'RuntimeError': RuntimeError, 'TypeError': TypeError}


def mkclass(name, **ns):
    ns.setdefault('__module__', 'host')
    return type(name, (), ns)


def build(nodes):
    """All values, in node order; cycles are closed afterwards."""
    vals = [None] * len(nodes)
    fill = []
    for i, nd in enumerate(nodes):
        vals[i] = _make(nd, i, vals, fill)
    for f in fill:
        f()
    return vals


def _kids(nd, vals, n=None):
    c = nd.get('c') or []
    return [vals[j] if j < len(vals) else None for j in (c if n is None else c[:n])]


def _hashable(v):
    try:
        hash(v)
        return not (isinstance(v, float) and v != v)
    except BaseException:
        return False


def _raise(e):
    def f(self, *a):
        # a new one, as an exception keeps the frames of those who have seen it
        raise type(e)(*e.args)
    return f


class Evil(BaseException):
    pass


def _make(nd, i, vals, fill):
    k = nd['k']
    g = nd.get
    if k == 'int':
        return g('v', 1)
    if k == 'bigint':
        return 1 << 70
    if k == 'str':
        return g('v', 's')
    if k == 'longstr':
        return g('c', 'x') * g('n', 10)
    if k == 'bytes':
        return b'by\x00te\xff'
    if k == 'float':
        return float(g('v', 1.5))
    if k == 'bool':
        return g('v', True)
    if k == 'none':
        return None
    if k == 'complex':
        return 1 + 2j
    if k == 'list':
        v = []
        fill.append(lambda: v.extend(_kids(nd, vals)))
        return v
    if k == 'tuple':
        return tuple(_kids(nd, vals))      # later nodes are still None: fine
    if k in ('set', 'frozenset'):
        els = [x if type(x).__class__ is type and type(x) in (int, str, bytes, float, bool, type(None), tuple) and _hashable(x) else 'e%d' % j
               for j, x in enumerate(_kids(nd, vals))]
        return set(els) if k == 'set' else frozenset(els)
    if k == 'dict':
        v = {}
        fill.append(lambda: v.update({kk: x for kk, x in zip(nd.get('keys') or [], _kids(nd, vals))}))
        return v
    if k == 'weird_dict':
        v = {}

        def f():
            for j, (kk, x) in enumerate(zip(nd.get('kk') or [], _kids(nd, vals))):
                v[_key(kk, j)] = x
        fill.append(f)
        return v
    if k in ('obj', 'privobj'):
        cls = mkclass(g('cls', 'Foo'))
        o = cls()

        def f():
            for j, x in enumerate(_kids(nd, vals)):
                name = ATTRS[(i + j) % len(ATTRS)] if k == 'obj' else ['__priv', '_pub', 'x', '__q'][j % 4]
                if name.startswith('__') and not name.endswith('__'):
                    name = '_%s%s' % (g('cls', 'Foo').lstrip('_'), name)
                o.__dict__[name] = x
        fill.append(f)
        return o
    if k == 'exc':
        e = EXC[g('exc', 'ValueError')]()
        fill.append(lambda: setattr(e, 'args', tuple(_kids(nd, vals))))
        return e
    if k == 'slots':
        cls = mkclass(g('cls', 'Slotted'), __slots__=('a', 'b'))
        o = cls()
        o.a = i
        return o
    if k == 'slotsdict':
        base = mkclass('Base', __slots__=('a',))
        cls = type(g('cls', 'Mixed'), (base,), {})
        o = cls()
        o.a = 1
        fill.append(lambda: o.__dict__.update({'x%d' % j: x for j, x in enumerate(_kids(nd, vals))}))
        return o
    if k == 'plainobject':
        return object()
    if k == 'deque':
        return collections.deque(_kids(nd, vals))
    if k == 'namedtuple':
        return Point(1, i)
    if k == 'range':
        return range(3, 30, 2)
    if k == 'bytearray':
        return bytearray(b'abc')
    if k == 'memoryview':
        return memoryview(b'abc')
    if k == 'enum':
        return Color.RED
    if k == 'datetime':
        return datetime.datetime(2024, 1, 2, 3, 4, 5)
    if k == 'decimal':
        return decimal.Decimal('1.10')
    if k == 'fraction':
        return fractions.Fraction(1, 3)
    if k == 'lambda':
        return lambda x: x
    if k == 'func':
        return gen_nodes
    if k == 'partial':
        return functools.partial(int, base=2)
    if k == 'module':
        return types.ModuleType('some_mod')
    if k == 'class':
        return mkclass('SomeClass')
    if k == 'listsub':
        cls = type('MyList', (list,), {})
        return cls(_kids(nd, vals))
    if k == 'tuplesub':
        cls = type('MyTuple', (tuple,), {})
        return cls(_kids(nd, vals))
    if k == 'dictsub':
        cls = type('MyDict', (dict,), {})
        return cls((str(j), x) for j, x in enumerate(_kids(nd, vals)))
    if k == 'strsub':
        cls = type('MyStr', (str,), {'__str__': lambda self: str.__str__(self)})
        return cls(g('v', 'x'))
    if k == 'intsub':
        return type('MyInt', (int,), {})(5)
    if k == 'defaultdict':
        return collections.defaultdict(list, {str(j): x for j, x in enumerate(_kids(nd, vals))})
    if k == 'ordereddict':
        return collections.OrderedDict((str(j), x) for j, x in enumerate(_kids(nd, vals)))
    if k == 'userdict':
        return collections.UserDict({str(j): x for j, x in enumerate(_kids(nd, vals))})
    if k == 'iter':
        return iter(list(_kids(nd, vals)) or [1])
    if k == 'reviter':
        return reversed(list(_kids(nd, vals)) or [1])
    if k == 'rangeiter':
        return iter(range(5))
    if k == 'mapobj':
        return map(str, [1, 2])
    if k == 'gen':
        return (x for x in [1, 2, 3])
    if k == 'array':
        return array.array('i', [1, 2])
    if k == 'mappingproxy':
        return types.MappingProxyType({'a': 1})
    if k == 'chainmap':
        return collections.ChainMap({'a': 1}, {})
    if k == 'builtin':
        return len
    if k == 'method':
        return 'abc'.upper
    if k == 'property':
        return property(lambda s: 1)
    if k == 'ellipsis':
        return ...
    if k == 'notimpl':
        return NotImplemented
    if k == 'counter':
        return collections.Counter('aab')
    if k == 'surrogate':
        return 'bad \ud800 text'
    if k == 'nulstr':
        return 'a\x00b'
    if k == 'tb':
        try:
            raise ValueError('tb')
        except ValueError as e:
            return e.__traceback__
    if k == 'code':
        return gen_nodes.__code__
    if k == 'simplens':
        o = types.SimpleNamespace()
        fill.append(lambda: o.__dict__.update({'s%d' % j: x for j, x in enumerate(_kids(nd, vals))}))
        return o
    if k == 'cell':
        return types.CellType(1)
    if k == 'excgroup':
        return ExceptionGroup('many', [ValueError(1), KeyError('k')])
    return _hostile(k, nd, i, vals, fill)


def _key(kk, j):
    if kk == 'int':
        return j
    if kk == 'none':
        return None
    if kk == 'tuple':
        return ('t', j)
    if kk == 'bytes':
        return b'k%d' % j
    if kk == 'bool':
        return j % 2 == 0
    if kk == 'float':
        return j + 0.5
    if kk == 'frozenset':
        return frozenset([j])
    if kk == 'obj':
        return mkclass('Key')()
    if kk == 'badstr':
        return mkclass('BadKey', __str__=_raise(ValueError('key str')), __repr__=_raise(ValueError('key repr')))()
    if kk == 'surr':
        return 'k\udc80%d' % j
    return 'k%d' % j


def _hostile(k, nd, i, vals, fill):
    kids = lambda: {'h%d' % j: x for j, x in enumerate(_kids(nd, vals))}  # noqa: E731
    if k == 'badstr':
        c = mkclass('BadStr', __str__=_raise(ValueError('no str')))
    elif k == 'badrepr':
        c = mkclass('BadRepr', __repr__=_raise(RuntimeError('no repr')))
    elif k == 'basestr':
        c = mkclass('BaseStr', __str__=_raise(Evil('no str at all')), __repr__=_raise(KeyboardInterrupt()))
    elif k == 'nonstrstr':
        c = mkclass('NonStr', __str__=lambda self: 5, __repr__=lambda self: None)
    elif k == 'recstr':
        def rec(self):
            return str(self)
        c = mkclass('RecStr', __str__=rec, __repr__=rec)
    elif k == 'badlen':
        c = mkclass('BadLen', __len__=_raise(ValueError('no len')))
    elif k == 'badbool':
        c = mkclass('BadBool', __bool__=_raise(ValueError('no bool')))
    elif k == 'badeq':
        c = mkclass('BadEq', __eq__=_raise(ValueError('no eq')), __hash__=object.__hash__)
    elif k == 'badhash':
        c = mkclass('BadHash', __hash__=_raise(ValueError('no hash')))
    elif k == 'badgetattr':
        c = mkclass('BadGetattr', __getattribute__=_raise(RuntimeError('no attributes')))
    elif k == 'badattr':
        c = mkclass('BadAttr', __getattr__=_raise(KeyError('attr')))
    elif k == 'baddict':
        c = mkclass('BadDict', __dict__=property(_raise(ValueError('no dict'))))
        return c()
    elif k == 'dictattr':
        c = mkclass('DictAttr', __dict__=property(lambda self: 5))
        return c()
    elif k == 'badclass':
        c = mkclass('BadClass', __class__=property(_raise(ValueError('no class'))))
    elif k == 'baddir':
        c = mkclass('BadDir', __dir__=_raise(ValueError('no dir')))
    elif k == 'baditer':
        c = mkclass('BadIter', __iter__=_raise(ValueError('no iter')), __len__=lambda self: 3)
    elif k == 'badformat':
        c = mkclass('BadFormat', __format__=_raise(ValueError('no format')))
    elif k == 'fakelist':
        c = mkclass('list')
    elif k == 'fakedict':
        c = mkclass('dict')
    elif k == 'fakeiter':
        c = mkclass('list_iterator')
    elif k == 'fakeint':
        c = mkclass('int')
    elif k == 'unicodename':
        c = mkclass('Ünïcode')
    elif k == 'badtypename':
        c = mkclass('Sur\ud800name') if False else mkclass('Odd Name!')
    elif k == 'metaname':
        meta = type('Meta', (type,), {'__name__': property(_raise(ValueError('no name')))})
        c = meta('Named', (), {})
    elif k == 'badinstance':
        meta = type('Meta2', (type,), {'__instancecheck__': _raise(ValueError('no isinstance')),
                                       '__eq__': _raise(ValueError('no type eq')), '__hash__': type.__hash__})
        c = meta('Inst', (), {})
    elif k == 'badstrexc':
        c = type('BadStrExc', (Exception,), {'__str__': _raise(ValueError('exc str'))})
        e = c('a', i)
        return e
    elif k == 'subdict':
        sub = type('SubDict', (dict,), {n: _raise(ValueError('no ' + n)) for n in
                                        ('items', 'keys', '__iter__', '__len__', 'values', '__getitem__', 'copy')})
        inner = sub(a=1)
        c = mkclass('HasSubDict', __dict__=property(lambda self: inner))
        return c()
    elif k == 'metanum':
        bad = mkclass('BadName', __str__=_raise(ValueError('no')), __eq__=_raise(ValueError('eq')), __hash__=None)()
        meta = type('Meta3', (type,), {'__name__': property(lambda s: bad)})
        return meta('Named', (), {})()
    elif k == 'weirdname':
        meta = type('Meta4', (type,), {'__name__': property(lambda s: None)})
        return meta('Nameless', (), {})()
    elif k == 'badexc':
        c = type('BadExc', (BaseException,), {'__str__': _raise(SystemExit('exc str')), '__repr__': _raise(Evil('r'))})
        return c('a', i)
    elif k == 'subargs':
        tup = type('SubTuple', (tuple,), {'__iter__': _raise(ValueError('no iter')), '__len__': _raise(ValueError('no len')),
                                          '__getitem__': _raise(ValueError('no item'))})
        val = tup((1, 2))
        c = type('SubArgs', (Exception,), {'args': property(lambda s: val)})
        return c()
    elif k in ('badlist', 'badtuple', 'badset'):
        b = {'badlist': list, 'badtuple': tuple, 'badset': set}[k]
        c = type('B' + k, (b,), {'__iter__': _raise(ValueError('no iter')), '__len__': _raise(ValueError('no len')),
                                 '__str__': _raise(ValueError('no str')), '__repr__': _raise(ValueError('no repr'))})
        return c((1, 2, 3)) if k != 'badset' else c()
    elif k == 'deadproxy':
        return weakref.proxy(mkclass('Gone')())
    elif k == 'proxy':
        o = mkclass('Referent')()
        KEEP.append(o)
        return weakref.proxy(o)
    elif k == 'negsize':
        c = mkclass('NegSize', __len__=lambda self: -1, __bool__=_raise(ValueError('b')))
    elif k == 'slotexc':
        c = type('SlotExc', (Exception,), {'__slots__': ('z',)})
        return c('s', i)
    elif k == 'selfstr':
        sub = type('StrSub', (str,), {'__str__': _raise(ValueError('s')), '__len__': _raise(ValueError('l')),
                                      '__getitem__': _raise(ValueError('g')), 'encode': _raise(ValueError('e')),
                                      '__format__': _raise(ValueError('f'))})
        c = mkclass('SelfStr', __str__=lambda self: sub('text'))
    elif k == 'badstrsub':
        return type('BadStrSub', (str,), {'__str__': _raise(ValueError('s')), '__len__': _raise(ValueError('l')),
                                          '__getitem__': _raise(ValueError('g')), 'encode': _raise(ValueError('e')),
                                          '__hash__': _raise(ValueError('h')), '__eq__': _raise(ValueError('q'))})('text')
    elif k == 'badmodule':
        c = type('BadModule', (types.ModuleType,), {'__repr__': _raise(ValueError('r')),
                                                    '__getattribute__': _raise(ValueError('g'))})
        return c('bad')
    elif k == 'badargs':
        c = type('BadArgs', (Exception,), {'args': property(_raise(ValueError('no args')))})
        return c()
    elif k == 'badkeys':
        c = type('BadKeys', (dict,), {'keys': _raise(ValueError('no keys')), 'items': _raise(ValueError('no items')),
                                      '__len__': _raise(ValueError('no len')), '__iter__': _raise(ValueError('no iter')),
                                      '__str__': _raise(ValueError('no str')), '__repr__': _raise(ValueError('no repr'))})
        return c({'a': 1})
    elif k == 'surrogateattr':
        o = mkclass('SurrAttr')()
        o.__dict__['na\ud800me'] = 1
        o.__dict__['ok'] = 'fi\udcffne'
        return o
    elif k == 'growing':
        # an object whose attribute dictionary has keys that are not strings
        o = mkclass('IntAttrs')()
        o.__dict__[5] = 'five'
        o.__dict__['six'] = 6
        return o
    else:
        raise ValueError(k)
    o = c()
    d = object.__getattribute__(o, '__dict__')
    fill.append(lambda: d.update(kids()))
    return o


# kinds whose text or children are not specified by the property (only presence and delivery are)
LENIENT = set(HOSTILE) | {'gen', 'mapobj', 'rangeiter'}
