"""
Recording and failing plugins.

spec: {'name': 'P0', 'kinds': ['log','deco','res','span','metric'], 'order': int, 'fail': {callback: spec},
       'construct': 'ok'|'raise'|'didnotenable'|'raise_base', 'active': True|False|'raise'}
a failure spec: {'exc': 'ValueError'|..., 'on': 'all'|[call indexes]}
"""
import sys
import types


class InjectedError(Exception):
    pass


class InjectedBase(BaseException):
    pass


class BadStr(Exception):
    """An exception that has no text."""

    def __str__(self):
        raise ValueError('injected: no text')
    __repr__ = __str__


EXC = {'ValueError': ValueError, 'RuntimeError': RuntimeError, 'KeyError': KeyError, 'TypeError': TypeError,
       'AttributeError': AttributeError, 'OSError': OSError, 'InjectedError': InjectedError,
       'InjectedBase': InjectedBase, 'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit,
       'GeneratorExit': GeneratorExit, 'StopIteration': StopIteration, 'MemoryError': MemoryError,
       'RecursionError': RecursionError, 'AssertionError': AssertionError, 'NotImplementedError': NotImplementedError,
       'ZeroDivisionError': ZeroDivisionError, 'BadStr': BadStr}


def boom(world, where, name, msg='injected by plugin'):
    e = EXC[name](msg)
    try:
        e.dst_injected = where
    except Exception:
        pass
    world.sim.count_fault('plugin_' + where)
    return e


def install(world, specs):
    from deep.api.plugin import Plugin, ResourceProvider, SnapshotDecorator, TracepointLogger, DidNotEnable
    from deep.api.plugin.metric import MetricProcessor
    from deep.api.plugin.span import SpanProcessor, Span
    from deep.api.attributes import BoundedAttributes
    from deep.api.resource import Resource

    mod = types.ModuleType('dst_plugins')
    sys.modules['dst_plugins'] = mod
    out = []

    def s_active(spec):
        return (spec.get('fail') or {}).get('is_active', {}).get('exc', 'ValueError')

    def fails(spec, cb, idx):
        f = (spec.get('fail') or {}).get(cb)
        if not f:
            return None
        on = f.get('on', 'all')
        if on == 'all' or idx in on:
            return f.get('exc', 'ValueError')
        return None

    class RecSpan(Span):
        def __init__(self, plugin, sid, name):
            self.plugin, self.sid, self._n = plugin, sid, name

        @property
        def name(self):
            return self._n

        @property
        def trace_id(self):
            return '%032x' % self.sid

        @property
        def span_id(self):
            return '%016x' % self.sid

        def add_attribute(self, key, value):
            pass

        def add_event(self, name, attributes=None):
            pass

        def close(self):
            e = world.effect('span_close', plugin=self.plugin.spec['name'], span=self.sid)
            self.plugin.maybe('span_close', e)

    class Mixin:
        spec = None

        def __init__(self, config=None):
            s = self.spec
            c = s.get('construct', 'ok')
            if c == 'didnotenable':
                raise DidNotEnable('injected')
            if c != 'ok':
                raise boom(world, 'construct', c)
            super().__init__(s.get('pname') or s['name'], config)
            self.n = {}
            world.effect('plugin_new', plugin=s['name'])
            world.plugin_objs[s['name']] = self

        def maybe(self, cb, e=None):
            i = self.n.get(cb, 0)
            self.n[cb] = i + 1
            d = (self.spec.get('delay') or {}).get(cb)
            if d:
                world.sim.sleep(int(d * 1e9))
            x = fails(self.spec, cb, i)
            if x:
                if e is not None:
                    e['raised'] = x
                raise boom(world, cb, x)
            return i

        def is_active(self):
            a = self.spec.get('active', None)
            if a == 'raise':
                raise boom(world, 'is_active', s_active(self.spec))
            if a is None:
                return super().is_active()
            return a

        def order(self):
            o = self.spec.get('order', -10)
            if o == 'raise':
                raise boom(world, 'order', 'ValueError')
            return o

        def shutdown(self):
            e = world.effect('plugin_shutdown', plugin=self.spec['name'])
            self.maybe('shutdown', e)

    class Deco(SnapshotDecorator):
        def decorate(self, snapshot_id, context):
            e = world.effect('decorate', plugin=self.spec['name'], snapshot=snapshot_id)
            h = getattr(world, 'on_decorate', None)
            if h is not None:
                h(self, snapshot_id, context)
            i = e['n'] = self.maybe('decorate', e)
            a = self.spec.get('attrs')
            if a == 'none':
                return None
            if a == 'bad':
                return 5
            d = {'deco_' + self.spec['name']: 'v%d' % i}
            d.update(a or {})
            return BoundedAttributes(attributes=d)

    class Res(ResourceProvider):
        def resource(self):
            e = world.effect('resource', plugin=self.spec['name'])
            self.maybe('resource', e)
            a = self.spec.get('res')
            if a == 'none':
                return None
            if a == 'bad':
                return {'a': 1}
            return Resource(a if a is not None else {'res_' + self.spec['name']: 'yes'}, self.spec.get('res_schema'))

    class Log(TracepointLogger):
        def log_tracepoint(self, log_msg, tp_id, ctx_id):
            e = world.effect('log', plugin=self.spec['name'], msg=log_msg, tp=tp_id, ctx=ctx_id)
            self.maybe('log', e)

    class Spans(SpanProcessor):
        def create_span(self, name, context_id, tracepoint_id):
            world.span_seq = getattr(world, 'span_seq', 0) + 1
            sid = world.span_seq
            e = world.effect('span_try', plugin=self.spec['name'], tp=tracepoint_id, ctx=context_id, name=name)
            self.maybe('create_span', e)
            if self.spec.get('span_none'):
                return None
            world.effect('span_open', plugin=self.spec['name'], span=sid, tp=tracepoint_id, ctx=context_id, name=name)
            return RecSpan(self, sid, name)

        def current_span(self):
            return None

    class Metrics(MetricProcessor):
        def _m(self, op, name, labels, namespace, help_string, unit, value):
            e = world.effect('metric', plugin=self.spec['name'], op=op, name=name, labels=dict(labels or {}),
                             ns=namespace, help=help_string, unit=unit, value=value)
            self.maybe('metric', e)

        def counter(self, *a, **k):
            self._m('counter', *a, **k)

        def gauge(self, *a, **k):
            self._m('gauge', *a, **k)

        def histogram(self, *a, **k):
            self._m('histogram', *a, **k)

        def summary(self, *a, **k):
            self._m('summary', *a, **k)

    bases = {'deco': Deco, 'res': Res, 'log': Log, 'span': Spans, 'metric': Metrics}
    for s in specs:
        kinds = tuple(bases[k] for k in s.get('kinds', [])) or (Plugin,)
        try:
            cls = type(s['name'], (Mixin,) + kinds, {'spec': s})
        except TypeError:
            cls = type(s['name'], (Mixin,) + kinds[:1], {'spec': s})
        cls.__module__ = 'dst_plugins'
        setattr(mod, s['name'], cls)
        out.append(s.get('import') or 'dst_plugins.' + s['name'])
    return out


RECORDER = {'name': 'REC', 'kinds': ['log', 'deco', 'span', 'metric'], 'order': -100}
