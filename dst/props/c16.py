"""C16: one message per permitted hit: the template, with every field evaluated in place, labelled and recorded."""
import re

from .. import simlog
from ..common import pick, viol
from ..data import base_plan, gen_exprs, on_abort
from ..scene import UNLIMITED, Scene, Tps, args_of, escapes, kinds_of
from ..truth import Truth
from .c08 import SUR, same_text

ID = 'C16'
QUICK = 1000
RULE = ('templates composed of literals, escaped braces, per cent signs, unicode and fields (expressions over the generated '
        'values of running programs: with colons, quotes, braces, calls, comprehensions; failing ones; malformed templates) '
        'on line and method tracepoints that collect or only log, several per location, several threads, with a recording '
        'logger, the python plugin or no logger; every message is compared with an independent rendering, its labels with '
        'the tracepoint and trigger, and the snapshot with the message and one result per field; non-trivial when a message '
        'with a field was emitted')
LEVEL_NOTE = ('Seeded search over templates, values, placements and schedules; the expected text is composed from the parts of '
              'the template (not by parsing it) and an independent evaluation of every field in the paused frame.')
ASSUMPTIONS = ['of a malformed template only the part before the defect is compared, and that one message is emitted',
               'conversions and format specifications ({n!r}, {n:>5}) are not expressions; any text will do for them',
               'where the text of a value cannot be made, or names a fresh address, any text will do']

LITS = ['plain ', ' ', 'a=', 'é ', '%s', ' 100% ', '%(x)s %d', '$', '\n', 'tab\t', 'ctx=', 'tracepoint=1', '日本 ', '\\', '"', "'", ':',
        '!r', '[deep] ', '', 'x' * 300, '\U0001F600', '<b>', ',', '(', ')']
ESC = ['{{', '}}', '{{}}', '{{n}}', ' }} ', 'a{{b', '{{{{', '}}}}', '{{ n }}']
BRACED = ["' {' + str(n) + '}'", " {'k': n}['k']", " {n: a for n in [1]}", " {1, 1}", "f'{n}'", "f'{n!r:>5}'", '[n][0:1]', 'n != n',
          '(lambda: n)()', "(lambda q: q)(n)", "{'a': {'b': 1}}['a']", "dict(k={})", "'}'", '"{"', "'{}'.format(n)", "'%s' % (n,)",
          " {'a': {}}", "str({'x': [1, {}]})", "'a:b'", "[{}][0]", "n if n else {}", "'}}'", "'{{'", "a == a", 'str(n)[::-1]',
          " n", " '}'", " 'a:b' ", ' n != 1 ', " '{' if n else ''", '  str(n)[::2]', ' n\t', '\nn']
BROKEN = ['{n', '}', '{}', '{ }', '{n}}', '{a[}', '{n!}', '{n!z}', '{n:{', '{!r}', '{n.}', '{}}{', '{(}', '{n)}', "{'}", '{:}', '{n:d}', '{',
          '{{{', '}}}', '{n!r:}', '{n:{n', '{\x00}', '{ne w}', '{n\n+}', '{"unclosed}', '{lambda}', '{n;}', '{# c}', '{*n}', '{**n}']
SPECS = ['{n!r}', '{n:>12}', '{n!s:<5}', '{a!a}', '{n:.3}', '{n:zz}', '{n:{a}}']


def compiles(s):
    try:
        compile(s.strip(), '<t>', 'eval')
        return True
    except Exception:
        return False


def field_ok(e):
    """The field has to end where we think it ends."""
    if e.startswith('{') or '\ud800' in e or '#' in e or '\x00' in e:
        return False
    if '}' in e or '{' in e:
        if not compiles(e):
            return False
        return not any(c == '}' and compiles(e[:i]) for i, c in enumerate(e))
    if not compiles(e):
        # the error is that of the whole field: nothing that could be a conversion, a specification or a quote in it
        return not re.search(r'[:!\'"\\]', e) and e.strip() != ''
    return True


def gen_template(rng, tid, nobj):
    """parts: ['l', text in the template, text in the message] | ['f', expression] | ['s', field with a spec] | ['b', broken tail]"""
    r = rng.random()
    if r < 0.04:
        return []
    if r < 0.08:
        return [pick(rng, [['f', 'n'], ['f', 'nope'], ['l', ' ', ' '], ['l', '{{', '{'], ['l', '0', '0'], ['b', '{'], ['f', '[][0]']])]
    parts = [['l', 'mark:%s:' % tid, 'mark:%s:' % tid]]
    for _ in range(pick(rng, [0, 1, 2, 3, 5, 9])):
        r = rng.random()
        if r < 0.3:
            t = pick(rng, LITS)
            parts.append(['l', t, t])
        elif r < 0.42:
            t = pick(rng, ESC)
            parts.append(['l', t, t.replace('{{', '{').replace('}}', '}')])
        elif r < 0.9:
            r = rng.random()
            e = pick(rng, BRACED) if r < 0.3 else gen_exprs(rng, nobj, 1)[0] if r < 0.85 else pick(rng, ['n', 'a', 'n + 1', 'nope'])
            if field_ok(e):
                parts.append(['f', e])
        elif r < 0.95:
            parts.append(['s', pick(rng, SPECS)])
    if rng.random() < 0.15:
        parts.append(['b', pick(rng, BROKEN) + pick(rng, ['', ' tail', ' {n}', '{{'])])
    return parts


def template(parts):
    return ''.join('{%s}' % p[1] if p[0] == 'f' else p[1] for p in parts)


def gen(rng, i, tier):
    nobj = pick(rng, [2, 5, 10])
    plan = base_plan(rng, i, nobj, strange=pick(rng, [0, 0.2, 0.5]), hostile=pick(rng, [0, 0, 0.3]))
    plan['logger'] = pick(rng, ['rec', 'rec', 'python', 'none', 'two'])
    plan['log'] = pick(rng, ['info', 'debug']) if plan['logger'] == 'python' else pick(rng, ['error', 'debug'])
    g = Tps(rng, plan['prog'])
    tps = []
    for _ in range(rng.randrange(1, 5)):
        t = g.one(0.3)
        if tps and rng.random() < 0.4:
            o = pick(rng, tps)
            t = dict(t, at=o['at'])
            t.pop('on', None)
            t['args'] = {k: v for k, v in o['args'].items() if k == 'method_name'}
            if 'on' in o:
                t['on'] = o['on']
        a = t['args']
        t['parts'] = gen_template(rng, t['id'], nobj)
        if rng.random() < 0.55:
            a['snapshot'] = 'no_collect'
        elif rng.random() < 0.3:
            t['watches'] = gen_exprs(rng, nobj, rng.randrange(1, 3))
        if rng.random() < 0.2:
            a['span'] = 'method' if t.get('on') else 'line'
        if rng.random() < 0.2:
            a['stage'] = pick(rng, ['method_capture', 'method_end'] if t.get('on') else ['line_capture', 'line_end'])
        if rng.random() < 0.25:
            t['via'] = 'code'
            t['watches'] = (t.get('watches') or []) + ["'tag:%s'" % t['id']]
            while t['parts'][:1] != [['l'] + ['mark:%s:' % t['id']] * 2]:
                t['parts'] = gen_template(rng, t['id'], nobj)
        tps.append(t)
    plan['tps'] = tps
    return plan


def fields(parts):
    return [p[1] for p in parts if p[0] == 'f']


def pattern(parts, truth):
    """The texts that the message consists of; between two of them anything may stand."""
    out = ['[deep] ']
    for p in parts:
        if p[0] == 'l':
            out[-1] += p[2]
        elif p[0] == 'f':
            x = truth.exprs.get(p[1])
            text = x[2] if x is not None else None
            if x is None or text is None or x[0] == 'ok' and ' at 0x' in text and x[1].fresh:
                out.append('')
            elif x[0] == 'ok':
                out[-1] += text
            elif compiles(p[1]):
                out += [text, '']
            else:
                out.append('')
        else:
            out.append('')
            if p[0] == 'b':
                break
    return out


def matches(pat, msg):
    if len(pat) == 1:
        return msg == pat[0]
    if not msg.startswith(pat[0]):
        return False
    at = len(pat[0])
    for p in pat[1:-1]:
        k = msg.find(p, at)
        if k < 0:
            return False
        at = k + len(p)
    return len(msg) - len(pat[-1]) >= at and msg.endswith(pat[-1])


def run(w, plan):
    w.load_agent()
    sim = w.sim
    plan = dict(plan, tps=[dict(t, args=dict(t['args'], log_msg=template(t['parts']))) for t in plan['tps']])
    sc = Scene(w, plan, UNLIMITED).prepare()
    mode = plan.get('logger')

    def on_event(ev, frame, arg):
        here = [t for t in sc.tps if sc.at(t, ev)]
        if here and ev.delivered:
            ex = []
            for t in here:
                ex += [e for e in fields(t['parts']) if e not in ex]
            ev.truth = Truth(w, frame, 0, ex, max_nodes=200, max_depth=3)

    w.on_event = on_event
    kinds = ['deco', 'span'] + (['log'] if mode in ('rec', 'two') else [])
    specs = [{'name': 'REC', 'kinds': kinds, 'order': -100}]
    if mode == 'two':
        specs.append({'name': 'LATER', 'kinds': ['log'], 'order': 50})
    messages = []               # (event seq, message, tp label, ctx label)
    cfg = {}
    if mode == 'python':
        cfg['PLUGIN_PYTHONPLUGIN'] = 'True'

        def hook(level, msg):
            t = sim.current
            if level != 'INFO' or not msg.startswith('[deep] '):
                return
            m = re.fullmatch(r'(.*) ctx=(\S*) tracepoint=(\S*)', msg, re.S)
            messages.append((t.cur.seq if t.cur else None,) + (m.groups() if m else (msg, None, None)))
        simlog.HOOK = hook
    sc.start(specs, **cfg)
    sc.settle(2)
    w.events.clear()
    mark = len(w.effects)
    sc.run_host()
    end = len(w.effects)
    sc.stop()
    out = []
    escapes(w, out)
    if mode == 'python':
        messages = [(s, m, t, c) for s, m, c, t in messages]
    for e in w.effects[mark:end]:
        if e['kind'] == 'log':
            if e['plugin'] != 'REC':
                out.append(viol('logger', 'the message %r went to the logger %s, which is not the first' % (e['msg'], e['plugin'])))
            messages.append((e['ev'], e['msg'], e['tp'], e['ctx']))
    snaps = {}
    for m, ev, e in sc.collect():
        tp = sc.tp_of_snapshot(m)
        if tp is not None and ev is not None:
            snaps[(ev.seq, tp['id'])] = m
    got = {}
    for seq, msg, label, ctx in messages:
        m = re.match(r'\[deep\] mark:(\w+):', msg)
        tp = sc.tp(m.group(1) if m else label)      # a template without a mark: as it is labelled
        if tp is None or seq is None:
            out.append(viol('stray', 'a message of no tracepoint, or outside any event: %r' % msg[:200]))
            continue
        got.setdefault((seq, tp['id']), []).append((msg, label, ctx))
    ctxs, labels = {}, {}
    spans = {}
    for e in w.of('span_try'):
        spans.setdefault((e['ev'], e['tp']), e['ctx'])
    withfield = 0
    for tp in sc.tps:
        parts = tp['parts']
        for ev in sc.hits(tp):
            if not ev.delivered or (ev.kind == 'call' and ev.seg > 0 and (ev.seq, tp['id']) not in got):
                continue
            where = 'tracepoint %s (%r) at %s' % (tp['id'], args_of(tp)['log_msg'][:200], ev.brief())
            ms = got.pop((ev.seq, tp['id']), [])
            want_n = 0 if mode == 'none' else 1
            if len(ms) != want_n:
                out.append(viol('count', '%s: %d messages, %d expected' % (where, len(ms), want_n)))
                continue
            pat = pattern(parts, ev.truth)
            withfield += bool(fields(parts))
            if mode == 'rec' or mode == 'two':
                want_ctx = spans.get((ev.seq, tp['id']))
            else:
                want_ctx = None
            m = snaps.get((ev.seq, tp['id']))
            for msg, label, ctx in ms:
                if not matches(pat, msg):
                    out.append(viol('text', '%s: the message is %r, it should be %s' % (
                        where, msg[:300], show(parts, ev.truth))))
                if not label or not ctx or label == ctx:
                    out.append(viol('label', '%s: labelled with tracepoint %r and context %r' % (where, label, ctx)))
                    continue
                if tp.get('via') != 'code' and label != tp['id']:
                    out.append(viol('label', '%s: labelled with the tracepoint %r' % (where, label)))
                if labels.setdefault(tp['id'], label) != label:
                    out.append(viol('label', '%s: labelled %r, before %r' % (where, label, labels[tp['id']])))
                if want_ctx is not None and want_ctx != ctx:
                    out.append(viol('label', '%s: labelled with context %r, the span of the trigger got %r' % (where, ctx, want_ctx)))
                o = ctxs.setdefault(ctx, ev.seq)
                if o != ev.seq:
                    out.append(viol('label', '%s: labelled with the context of another trigger (%s)' % (where, w.events[o].brief())))
                if m is not None:
                    have = {kv.key: kv.value.string_value for kv in m.attributes}
                    if have.get('context') != ctx or m.tracepoint.ID != label:
                        out.append(viol('label', '%s: labelled (%s, %s), the snapshot says (%s, %s)' % (
                            where, label, ctx, m.tracepoint.ID, have.get('context'))))
            if 'slog' in kinds_of(tp) and m is not None:
                recorded(out, where, m, parts, ev, pat, ms)
            if len(out) > 6:
                return out
    for (seq, tid), ms in list(got.items())[:3]:
        out.append(viol('unasked', 'tracepoint %s logged %r at %s' % (tid, ms[0][0][:100], w.events[seq].brief())))
    w.nontrivial = withfield > 0
    w.probe('messages', len(messages))
    w.probe('fields', sum(len(fields(sc.tp(t)['parts'])) for (s, t) in snaps))
    return out


def show(parts, truth):
    o = '[deep] '
    for p in parts:
        if p[0] == 'l':
            o += p[2]
        elif p[0] == 'f':
            x = truth.exprs.get(p[1])
            o += '<%s>' % (x[2] if x else '?')
        else:
            o += '<anything>'
    return repr(o[:300])


def recorded(out, where, m, parts, ev, pat, ms):
    """The snapshot of a tracepoint that also collects has the message, and one result per field."""
    if ms:
        if not same_text(m.log_msg, ms[0][0]):
            out.append(viol('snapshot-log', '%s: the snapshot has the message %r, logged was %r' % (where, m.log_msg, ms[0][0])))
    elif not any(SUR.search(p) for p in pat) and not matches(pat, m.log_msg):
        out.append(viol('snapshot-log', '%s: the snapshot has the message %r, it should be %s' % (
            where, m.log_msg, show(parts, ev.truth))))
    if any(p[0] in 'sb' for p in parts):
        return
    fs = fields(parts)
    rs = [r for r in m.watches if r.source == 1]
    if len(rs) != len(fs):
        out.append(viol('results', '%s: %d results for %d fields: %s' % (where, len(rs), len(fs), [r.expression for r in rs])))
        return
    for r, e in zip(rs, fs):
        x = ev.truth.exprs.get(e)
        if r.expression.strip() != e.strip():
            out.append(viol('results', '%s: the result for the field %r is recorded as %r' % (where, e, r.expression)))
        elif x is not None and (x[0] == 'ok') != r.HasField('good_result') and len(m.var_lookup) < 990:
            out.append(viol('results', '%s: the field %r %s, its result is %s' % (
                where, e, 'has the value %s' % x[2] if x[0] == 'ok' else 'fails with %s' % x[1],
                'a value' if r.HasField('good_result') else 'the error %r' % r.error_result)))
        elif x is not None and x[0] == 'ok' and r.good_result.ID not in m.var_lookup:
            out.append(viol('results', '%s: the result of the field %r is not in the variable table' % (where, e)))


__all__ = ['on_abort']
