"""
What was true at a trace event, written down before the agent sees the event; and the comparison of a delivered snapshot
(the protobuf message the service received) with it.
"""
import os
import types

NO_KIDS = (str, int, float, bool, type, types.ModuleType, type(None), types.TracebackType, bytes, complex)
LIST_ITERS = (type(iter([])), type(reversed([])))


class T:
    """One object as it was."""
    __slots__ = ('oid', 'type', 'text', 'kids', 'kind', 'size', 'fresh', 'obj')

    def __init__(self):
        self.fresh = False
        self.kids = None


def text_of(v):
    """str(v), or None when that is not possible (any placeholder will do)."""
    try:
        s = str(v)
        if type(s) is not str:
            s = str.__str__(s)
        return s
    except BaseException:
        return None


def encodable(s):
    try:
        s.encode('utf-8')
        return True
    except UnicodeError:
        return False


def instance_dict(v):
    """The attribute dictionary the object shows, or None if it has none or hides it."""
    try:
        d = v.__dict__
    except BaseException:
        return None
    return d if type(d) is dict else None


class Freezer:
    def __init__(self, keep, max_nodes=3000, max_depth=7, cap=130):
        self.memo = {}
        self.keep = keep
        self.max_nodes = max_nodes
        self.max_depth = max_depth
        self.cap = cap
        self.incomplete = False

    def freeze(self, v):
        root = self.node(v)
        queue = [(root, v, 1)]
        seen = {root.oid}
        i = 0
        while i < len(queue):
            t, obj, d = queue[i]
            i += 1
            if t.kids is None and d < self.max_depth and len(self.memo) < self.max_nodes:
                self.expand(t, obj)
            elif t.kids is None:
                self.incomplete |= d < self.max_depth
            if t.kids is None or d >= self.max_depth:
                continue
            for _, _, k in t.kids:
                if k.oid not in seen:
                    seen.add(k.oid)
                    queue.append((k, k.obj, d + 1))
        return root

    def node(self, v):
        t = self.memo.get(id(v))
        if t is not None:
            return t
        t = T()
        t.oid = id(v)
        t.obj = v
        self.keep.append(v)
        self.memo[t.oid] = t
        tp = type(v)
        try:
            t.type = type.__dict__['__name__'].__get__(tp)
            if tp.__name__ != t.type:
                t.type = None
        except BaseException:
            t.type = None
        t.size = None
        if is_any(tp, (list, tuple, set, frozenset, dict)):
            t.kind = tp.__name__
            t.size = len(v)
            t.text = 'Size: %d' % t.size
        elif is_any(tp, LIST_ITERS):
            t.kind = 'iter'
            t.text = None
            t.kids = []
        elif issubclass_(tp, (list, tuple, set, frozenset, dict)):
            t.kind = 'lenient'
            t.text = None
        else:
            t.kind = 'obj'
            t.text = text_of(v)
            if t.type in ('list', 'tuple', 'set', 'frozenset', 'dict', 'list_iterator', 'list_reverseiterator'):
                t.text = None
                t.kind = 'lenient'
            elif t.type in ('str', 'int', 'float', 'bool', 'module', 'NoneType', 'traceback') and not is_any(tp, NO_KIDS):
                t.kind = 'lenient'
            elif is_any(tp, NO_KIDS) or tp is type:
                t.kids = []
        return t

    def expand(self, t, v):
        k = t.kind
        out = []
        if k == 'exc':
            return
        if k == 'dict':
            for key, x in list(v.items()):
                n = key if type(key) is str and encodable(key) else None
                out.append((n, None, self.node(x)))
        elif k in ('list', 'tuple'):
            for i, x in enumerate(v[:self.cap]):
                out.append((str(i), None, self.node(x)))
        elif k in ('set', 'frozenset'):
            for i, x in enumerate(v):
                if i >= self.cap:
                    break
                out.append((None, None, self.node(x)))
        elif k == 'obj':
            if isinstance_(v, Exception):
                args = None
                try:
                    args = v.args
                except BaseException:
                    pass
                if type(args) is not tuple:
                    return
                t.kind = 'exc'
                for i, x in enumerate(args[:self.cap]):
                    out.append((str(i), None, self.node(x)))
            else:
                try:
                    v.__class__         # an object that hides this shows nothing
                except BaseException:
                    t.kind = 'lenient'
                    return
                d = instance_dict(v)
                if d is None:
                    t.kind = 'lenient'
                    return
                if issubclass_(type(v), type):
                    t.kind = 'lenient'
                    return
                for key, x in list(d.items()):
                    if type(key) is not str or not encodable(key):
                        out.append((None, None, self.node(x)))
                        continue
                    cn = (t.type or '').lstrip('_')
                    if t.type is None:
                        names = None
                    elif cn and key.startswith('_%s__' % cn) and not key.endswith('__'):
                        names = key[len(cn) + 1:]
                    else:
                        names = key
                        for b in base_names(type(v)):
                            b = b.lstrip('_')
                            if b and b != cn and key.startswith('_%s__' % b) and not key.endswith('__'):
                                names = {key, key[len(b) + 1:]}
                    out.append((names, key, self.node(x)))
        else:
            return
        t.kids = out


def is_any(tp, types_):
    return any(tp is x for x in types_)     # never ==: a metaclass can fail at that


def base_names(tp):
    try:
        return [type.__dict__['__name__'].__get__(x) for x in type.__dict__['__mro__'].__get__(tp)[1:]]
    except BaseException:
        return []


def issubclass_(a, b):
    try:
        return any(x is y for x in type.__dict__['__mro__'].__get__(a) for y in (b if isinstance(b, tuple) else (b,)))
    except BaseException:
        return False


def isinstance_(v, c):
    return issubclass_(type(v), c)


class FrameTruth:
    __slots__ = ('file', 'func', 'line', 'cls', 'vars', 'order')


class Truth:
    """The paused thread: frames with their locals (frozen for the frames asked for)."""

    def __init__(self, w, frame, deep_frames=1, exprs=(), skip=None, **kw):
        """`skip(file name)`: frames whose variables are not looked at."""
        self.fz = Freezer(w.keep, **kw)
        self.frames = []
        f = frame
        i = 0
        while f is not None:
            ft = FrameTruth()
            ft.file = f.f_code.co_filename
            ft.func = f.f_code.co_name
            ft.line = f.f_lineno
            loc = f.f_locals
            s = loc.get('self')
            ft.cls = type_name_of_self(s) if s is not None else {''}
            ft.vars = None
            if skip is not None and skip(ft.file):
                pass
            elif deep_frames is None or i < deep_frames:
                ft.vars = [(k, self.fz.node(v)) for k, v in list(loc.items())]
                for (k, t), v in zip(ft.vars, list(loc.values())):
                    self.fz.freeze(v)
            self.frames.append(ft)
            f = f.f_back
            i += 1
        self.exprs = {}
        for e in exprs:
            self.exprs[e] = self.evaluate(e, frame)

    def evaluate(self, expr, frame):
        """('ok', frozen, text, is_fresh) or ('error', exception type name, text)."""
        before = set(self.fz.memo)
        try:
            v = self._eval(expr, frame)
            v2 = self._eval(expr, frame)
        except BaseException as e:
            return ('error', type(e).__name__, text_of(e))
        t = self.fz.freeze(v)
        # objects that another evaluation does not lead to were made by the evaluation
        fz2 = Freezer(self.fz.keep, self.fz.max_nodes, self.fz.max_depth, self.fz.cap)
        fz2.freeze(v2)
        for oid, x in self.fz.memo.items():
            if oid not in before and oid not in fz2.memo:
                x.fresh = True
        self.fz.incomplete |= fz2.incomplete
        return ('ok', t, text_of(v))

    @staticmethod
    def _eval(expr, frame):
        g = dict(frame.f_globals)
        g.update(frame.f_locals)
        return eval(compile(expr.strip(), '<string>', 'eval'), g, dict(frame.f_locals))


def type_name_of_self(s):
    """The names that may be given for the class (an object can lie about it); None: unspecified."""
    try:
        out = {type.__dict__['__name__'].__get__(type(s))}
        if type(type(s).__name__) is str:
            out.add(type(s).__name__)
    except BaseException:
        return None
    try:
        n = s.__class__.__name__
        if type(n) is str:
            out.add(n)
    except BaseException:
        pass
    return out


class Model:
    """Reference breadth-first collection: which objects have to be in the snapshot, which may be."""

    def __init__(self, max_depth=5, max_coll=10):
        self.max_depth, self.max_coll = max_depth, max_coll
        self.level = {}         # oid -> level at which it is first recorded
        self.expanded = {}      # oid -> True when the model records its children
        self.lenient = 0        # objects whose children are not specified
        self.again = 0          # objects an expression makes anew at every evaluation
        self.total = 0

    def kids(self, t):
        if t.kids is None:
            return None
        if t.kind in ('list', 'tuple', 'set', 'frozenset', 'exc'):
            return t.kids[:self.max_coll]
        return t.kids

    def walk(self, roots, base):
        """roots: frozen objects recorded at level `base` (frame variables: 1, watch results: 0)."""
        mine = {}
        queue = []
        for t in roots:
            if t.oid in mine:
                continue
            if t.oid in self.level:
                if t.fresh:
                    self.again += 1
                    self.total += 200
                continue
            mine[t.oid] = base
            queue.append((t, base))
        i = 0
        while i < len(queue):
            t, lv = queue[i]
            i += 1
            ks = self.kids(t)
            if t.kind == 'lenient':
                self.lenient += 1
                continue
            if lv + 1 >= self.max_depth or ks is None:
                continue
            self.expanded[t.oid] = True
            for _, _, k in ks:
                if k.oid not in self.level and k.oid not in mine:
                    mine[k.oid] = lv + 1
                    queue.append((k, lv + 1))
        self.level.update(mine)
        self.total += len(mine)
        return mine


class Problem(Exception):
    pass


class Compare:
    """Walks the received snapshot alongside the truth."""

    def __init__(self, snap, max_str=1024, max_coll=10, max_depth=5, max_vars=1000):
        self.s = snap
        self.lookup = snap.var_lookup
        self.max_str, self.max_coll, self.max_depth, self.max_vars = max_str, max_coll, max_depth, max_vars
        self.problems = []      # (kind, text)
        self.id_of = {}         # oid -> var id
        self.oid_of = {}        # var id -> oid
        self.seen = set()
        self.vague = set()      # var ids of objects whose children are not specified

    def bad(self, kind, msg):
        if len(self.problems) < 12:
            self.problems.append((kind, msg))

    # -- C07 ---------------------------------------------------------------------------------------------------

    def closed(self):
        refs = []
        for i, f in enumerate(self.s.frames):
            refs += [('frame %d variable %r' % (i, v.name), v) for v in f.variables]
        for k, v in self.lookup.items():
            refs += [('child %r of %s' % (c.name, k), c) for c in v.children]
        for wt in self.s.watches:
            if wt.HasField('good_result'):
                refs.append(('watch %r' % wt.expression, wt.good_result))
        for what, r in refs:
            if r.ID not in self.lookup:
                self.bad('dangling', '%s refers to %r which is not in the table of %d entries' % (
                    what, r.ID, len(self.lookup)))

    def identify(self, vid, t, where):
        a = None if t.fresh else self.id_of.get(t.oid)
        if t.fresh:
            pass            # made by an expression: the agent's evaluation made another one
        elif a is None:
            self.id_of[t.oid] = vid
        elif a != vid:
            self.bad('two-ids', '%s: one object recorded as %s and as %s' % (where, a, vid))
        b = self.oid_of.get(vid)
        if b is None:
            self.oid_of[vid] = t.oid
        elif b != t.oid:
            self.bad('shared-id', '%s: entry %s stands for two different objects' % (where, vid))

    # -- values ------------------------------------------------------------------------------------------------

    def value(self, vid, t, where):
        """The entry `vid` must describe the frozen object `t`."""
        stack = [(vid, t, where)]
        while stack:
            vid, t, where = stack.pop()
            self.identify(vid, t, where)
            if (vid, t.oid) in self.seen:
                continue
            self.seen.add((vid, t.oid))
            v = self.lookup.get(vid) if vid in self.lookup else None
            if v is None:
                continue        # reported by closed()
            if t.type is not None and v.type != t.type:
                self.bad('type', '%s: recorded type %r, real type %r' % (where, v.type, t.type))
            if t.text is None and self.max_str > 0 and not v.value and text_of(t.obj) is None:
                self.bad('placeholder', '%s: nothing stands for the value (type %s)' % (where, t.type))
            if t.text is not None:
                if encodable(t.text):
                    want, cut = t.text[:self.max_str], len(t.text) > self.max_str
                    if v.value != want:
                        self.bad('value', '%s: recorded %r, real %r' % (where, v.value[:120], want[:120]))
                    if v.truncated != cut:
                        self.bad('truncated', '%s: truncated flag %s, value of %d characters, limit %d' % (
                            where, v.truncated, len(t.text), self.max_str))
            if t.kind == 'lenient':
                self.vague.add(vid)
                continue
            if t.kids is None:
                continue
            kids = t.kids
            if t.kind in ('list', 'tuple', 'set', 'frozenset'):
                kids = kids[:self.max_coll]
            if len(v.children) > len(kids):
                self.bad('children', '%s: %d children recorded, %d exist (limit %d)' % (
                    where, len(v.children), len(kids), self.max_coll))
                continue
            # recorded children are a prefix of the real ones (the budget or depth may cut them off)
            for c, (name, orig, k) in zip(v.children, kids):
                at = '%s.%s' % (where, c.name)
                if len(at) > 300:
                    at = at[:300]
                if isinstance(name, set):
                    if c.name not in name:
                        self.bad('name', '%s: child is really called one of %s' % (at, sorted(name)))
                    if c.name != orig and c.original_name != orig:
                        self.bad('name', '%s: original name %r, really %r' % (at, c.original_name, orig))
                elif name is not None and c.name != name:
                    self.bad('name', '%s: child is really called %r' % (at, name))
                elif name is not None and orig is not None and name != orig and c.original_name != orig:
                    self.bad('name', '%s: original name %r, really %r' % (at, c.original_name, orig))
                stack.append((c.ID, k, at))

    def full(self, model, vid, t, where, seen=None):
        """Everything the model demands below this entry is there (no budget in force)."""
        stack = [(vid, t, where)]
        seen = set()
        # what is below an object whose children are not specified was perhaps first met at a greater depth
        below = list(self.vague)
        vague = set()
        while below:
            v = below.pop()
            if v not in vague and v in self.lookup:
                vague.add(v)
                below += [c.ID for c in self.lookup[v].children]
        while stack:
            vid, t, where = stack.pop()
            if t.oid in seen or vid not in self.lookup:
                continue
            seen.add(t.oid)
            if vid in vague:
                continue
            v = self.lookup[vid]
            if not model.expanded.get(t.oid):
                continue
            ks = model.kids(t)
            if ks is None or t.kind == 'lenient':
                continue
            if len(v.children) != len(ks) and not (t.kind == 'exc' and len(ks) <= len(v.children) <= len(t.kids)):
                self.bad('missing-children', '%s (%s): %d of %d children recorded' % (
                    where, t.type, len(v.children), len(ks)))
                continue
            for c, (name, orig, k) in zip(v.children, ks):
                stack.append((c.ID, k, (where + '.' + c.name)[:300]))


def parse(data):
    from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot
    return Snapshot.FromString(data)


def base(path):
    return os.path.basename(path)
