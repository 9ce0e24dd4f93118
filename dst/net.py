"""The simulated network and DEEP service: real protobuf bytes, simulated time, injected faults."""
import grpc as real_grpc

from .kernel import MS
from .overlay import Overlay


class RpcError(real_grpc.RpcError):
    def __init__(self, code, details):
        super().__init__(details)
        self._code = code
        self._details = details

    def code(self):
        return self._code

    def details(self):
        return self._details


class Channel:
    def __init__(self, net, target, secure):
        self.net = net
        self.target = target
        self.secure = secure
        self.closed = False

    def unary_unary(self, method, request_serializer=None, response_deserializer=None, *a, **kw):
        return Call(self, method, request_serializer, response_deserializer)

    def close(self):
        self.closed = True

    def subscribe(self, *a, **k):
        pass

    def unsubscribe(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Call:
    def __init__(self, channel, method, ser, des):
        self.channel = channel
        self.method = method
        self.ser = ser
        self.des = des

    def __call__(self, request, timeout=None, metadata=None, credentials=None, **kw):
        return self.channel.net.call(self.channel, self.method, self.ser(request), self.des, metadata, timeout)

    def with_call(self, request, timeout=None, metadata=None, credentials=None, **kw):
        return self(request, timeout, metadata), None


class Net:
    """`plan`: {'poll': [fault...], 'send': [fault...], 'lat': [lo, hi] ms}; a fault list is indexed by call number."""

    def __init__(self, world, plan):
        self.world = world
        self.sim = world.sim
        self.plan = plan or {}
        self.n = {'poll': 0, 'send': 0}
        self.service = None
        self.channels = []

    def install(self, mods):
        g = Overlay('grpc', real_grpc)

        def insecure_channel(target, *a, **k):
            c = Channel(self, target, False)
            self.channels.append(c)
            return c

        def secure_channel(target, credentials, *a, **k):
            c = Channel(self, target, True)
            self.channels.append(c)
            return c

        g.insecure_channel = insecure_channel
        g.secure_channel = secure_channel
        g.ssl_channel_credentials = lambda *a, **k: 'ssl'
        mods.map['grpc'] = g

    def fault(self, kind, idx):
        fs = self.plan.get(kind) or []
        if idx < len(fs):
            return fs[idx]
        tail = self.plan.get(kind + '_tail')
        return tail

    def call(self, channel, method, data, des, metadata, timeout):
        w, sim = self.world, self.sim
        kind = 'poll' if method.endswith('/poll') else 'send' if method.endswith('/send') else method
        idx = self.n.get(kind, 0)
        self.n[kind] = idx + 1
        f = self.fault(kind, idx) or {}
        ft = f.get('t')
        rec = w.effect(kind, n=idx, secure=channel.secure, target=channel.target, fault=ft,
                       metadata=[list(x) for x in metadata] if metadata is not None else None, data=data)
        lat = f.get('lat')
        if lat is None:
            lo, hi = (list(self.plan.get('lat') or ()) + [1, 1])[:2] if len(self.plan.get('lat') or ()) != 1 else self.plan['lat'] * 2
            lat = lo if hi <= lo else lo + int(sim.rng.random() * (hi - lo + 1))
        rec['sent_at'] = sim.clock
        try:
            return self._call(kind, data, des, f, ft, lat, rec)
        finally:
            rec['done_at'] = sim.clock

    def _call(self, kind, data, des, f, ft, lat, rec):
        sim = self.sim
        if lat:
            sim.sleep(lat * MS // 2)
        if ft:
            sim.count_fault('net_%s_%s' % (kind, ft))
        if ft == 'error_before':
            rec['outcome'] = 'lost'
            raise RpcError(real_grpc.StatusCode.UNAVAILABLE, 'injected: connection lost')
        if ft == 'exc':
            rec['outcome'] = 'lost'
            raise {'ValueError': ValueError, 'OSError': OSError, 'KeyError': KeyError,
                   'RuntimeError': RuntimeError}[f.get('exc', 'OSError')]('injected')
        out = self.service.handle(kind, data, rec, f)
        rec['processed_at'] = sim.clock
        if ft == 'slow':
            sim.sleep(f.get('ms', 30000) * MS)
        elif lat:
            sim.sleep(lat * MS - lat * MS // 2)
        if ft == 'error_after':
            rec['outcome'] = 'response lost'
            raise RpcError(real_grpc.StatusCode.UNKNOWN, 'injected: response lost')
        if ft == 'truncated':
            # a message is cut within its last field
            out = out[:-1] if kind == 'poll' else out
        if ft == 'garbage':
            out = b'\xff\xfe\x00garbage\x08'
        rec['outcome'] = 'ok'
        if des is None:
            return out
        r = des(out)
        rec['delivered_at'] = sim.clock
        sim.yield_(-20)
        return r


class Service:
    """A DEEP service with one current configuration."""

    def __init__(self, world):
        self.world = world
        self.config = []            # list of tracepoint dicts
        self.hash = ''
        self.sent_hashes = []
        self.raw = None

    def set_config(self, tps, hash_):
        self.config = tps
        self.hash = hash_

    def handle(self, kind, data, rec, fault):
        from deepproto.proto.poll.v1.poll_pb2 import PollRequest, PollResponse, ResponseType
        from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, SnapshotResponse
        if kind == 'send':
            Snapshot.FromString(data)
            return SnapshotResponse().SerializeToString()
        req = PollRequest.FromString(data)
        rec['hash'] = req.current_hash
        resp = PollResponse(ts_nanos=self.world.sim.wall(), current_hash=self.hash)
        if fault.get('ts'):
            # the clock of the service
            resp.ts_nanos = 0 if fault['ts'] == 'zero' else max(0, resp.ts_nanos + fault['ts'])
        mode = fault.get('mode')
        if mode == 'unknown':
            resp.response_type = 7
            for tp in self.config:
                resp.response.append(to_proto(tp))
            rec['resp'] = 'unknown'
            return resp.SerializeToString()
        if mode == 'no_change' or (mode is None and req.current_hash == self.hash):
            resp.response_type = ResponseType.NO_CHANGE
            rec['resp'] = 'no_change'
            if fault.get('empty_hash'):
                resp.current_hash = ''
        else:
            resp.response_type = ResponseType.UPDATE
            for tp in self.config:
                resp.response.append(to_proto(tp))
            rec['resp'] = 'update'
            rec['resp_hash'] = self.hash
            rec['resp_ids'] = [t['id'] for t in self.config]
            rec['resp_tps'] = list(self.config)
        return resp.SerializeToString()


METRIC_TYPES = {'COUNTER': 0, 'GAUGE': 1, 'HISTOGRAM': 2, 'SUMMARY': 3}


def to_proto(tp):
    from deepproto.proto.tracepoint.v1.tracepoint_pb2 import TracePointConfig, Metric, LabelExpression
    from deepproto.proto.common.v1.common_pb2 import AnyValue
    p = TracePointConfig(ID=tp['id'], path=tp['path'], line_number=tp.get('line', 0))
    for k, v in (tp.get('args') or {}).items():
        p.args[k] = v
    for w in tp.get('watches') or []:
        p.watches.append(w)
    for m in tp.get('metrics') or []:
        pm = Metric(name=m['name'], type=METRIC_TYPES.get(m.get('type'), m.get('type', 0)))
        for k in ('expression', 'namespace', 'help', 'unit'):
            if m.get(k) is not None:
                setattr(pm, k, m[k])
        for lb in m.get('labels') or []:
            le = LabelExpression(key=lb['key'])
            if 'expression' in lb:
                le.expression = lb['expression']
            elif lb.get('static') is not None:
                v = lb['static']
                if isinstance(v, bool):
                    le.static.CopyFrom(AnyValue(bool_value=v))
                elif isinstance(v, int):
                    le.static.CopyFrom(AnyValue(int_value=v))
                elif isinstance(v, float):
                    le.static.CopyFrom(AnyValue(double_value=v))
                else:
                    le.static.CopyFrom(AnyValue(string_value=v))
            pm.labelExpressions.append(le)
        p.metrics.append(pm)
    return p
