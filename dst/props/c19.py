"""C19: configuration resolves with documented precedence and works from the environment."""
import base64
import functools
import io
import logging
import os
import sys

from ..common import gen_sched, gen_stall, pick, subset, viol
from ..data import on_abort
from ..kernel import SEC
from ..truth import parse
from ..world import CONF
from .c10 import markers
from .c08 import same_text

ID = 'C19'
QUICK = 3000
RULE = ('agents started in a fresh process with any combination of every documented setting given in code (as the documented '
        'type, as text, as a function, as a list) and in the environment (text), both, or neither, and of settings the agent '
        'does not know; every setting is read through the configuration and observed in what the agent does (target and '
        'security of the channel, credentials of every request, times of the polls, logging, active plugins, app frames and '
        'short paths of the frames in snapshots of host programs at generated paths), with failing and slow polls and stalled '
        'threads; and a table of generated paths against generated prefixes; non-trivial when a setting comes from the '
        'environment or has both sources')
LEVEL_NOTE = 'Seeded search over source combinations and path x prefix tables, against a reference resolution of each setting.'
ASSUMPTIONS = ['None given in code, and an empty DEEP_APP_ROOT, are not judged (they may mean not given)',
               'a prefix that ends within a path component (/app for /app2/x.py) may or may not match',
               'with several matching prefixes of the deciding kind any of them may be removed for the short path',
               'an invalid poll interval only has to leave polling alive; the calculated root is the parent of the folder of '
               'the calling file (as the existing test requires)']
OPTIONAL = ('set', 'more', 'net', 'stall', 'paths', 'prefixes', 'files')

LEAF = 'c19_leaf.py'
LEAF_SRC = '''def f(nxt):
    here = 1 #p1
    return here
'''
MARKS = markers(LEAF_SRC)
MID_SRC = '''def f(nxt):
    return nxt[0](nxt[1:])
'''
BOOT_SRC = '''def boot(start, config):
    return start(config)
'''
EXEC = '<exec>'         # stands for sys.exec_prefix
DIRS = ['/app', '/app/src', '/app/src/lib', '/app/lib', '/app2', '/srv/x', '/srv/x/app', '/srv', '/usr/lib/python3/site-packages/pkg',
        EXEC, EXEC + '/lib/site-packages/dep', 'rel/dir', 'rel', '/приложение/код', '/app/sub dir', '/APP', '', '/']
PREFIXES = DIRS + ['/app/', '/srv/x/', '/app/src/c19_leaf.py', '/app/s', '/usr', 'nowhere', '/app/src/lib/', '<', EXEC + '/', '/usr/lib/python3',
                   'rel/', '/app/../app']


def real(p):
    return p.replace(EXEC, sys.exec_prefix)


# value -> (code forms, env text); what it means is `meaning(KEY, value)`
VALUES = {
    'SERVICE_URL': ['host:1', 'other.example:443', '127.0.0.1:43315', 'deep:43315', '[::1]:5'],
    'SERVICE_SECURE': [True, False, 'True', 'False', 'true', 'false', 'TRUE', 'FALSE'],
    'LOGGING_CONF': ['error', 'info', 'debug'],
    'POLL_TIMER': [1, 2.5, '3', '0.5', 7, '10', ' 4 ', '1e1', 25, 0.2, 'abc', '', 0, '-3', '0', 'ten', '60'],
    'SERVICE_AUTH_PROVIDER': ['', 'deep.api.auth.BasicAuthProvider', 'deep.api.auth.BasicAuthProvider', 'dst_auth.Provider'],
    'SERVICE_USERNAME': ['bob', 'é', '', 'a:b'],
    'SERVICE_PASSWORD': ['secret', '', 'p w', 'ü%s'],
    'PLUGIN_P0': [True, False, 'True', 'False', 'false', 'yes', 'no'],
    'PLUGIN_P1': ['False', 'True'],
}
INVALID = object()
UNKNOWN = ['MY_KEY', 'OTHER', 'app_setting', 'Ключ', 'X-1', 'LONG_' * 9]
ANY = ['text', '', 0, 1, 2.5, False, True, [], [1, 'a'], {}, {'k': 1}, 'False', '0', 'None', b'raw']


def gen_list(rng):
    return [pick(rng, PREFIXES) for _ in range(rng.randrange(0, 4))]


def gen_form(rng, key):
    if key in ('IN_APP_INCLUDE', 'IN_APP_EXCLUDE'):
        return pick(rng, ['list', 'list', 'text', 'call_list', 'call_text', 'tuple'])
    return pick(rng, ['plain', 'plain', 'call', 'partial', 'object', 'method'])


def gen_value(rng, key):
    if key in ('IN_APP_INCLUDE', 'IN_APP_EXCLUDE'):
        return gen_list(rng)
    if key == 'APP_ROOT':
        return pick(rng, [p for p in PREFIXES if p])
    return pick(rng, VALUES[key])


def gen(rng, i, tier):
    plan = {'v': 1, 'sched': gen_sched(rng, est=1500, tick=pick(rng, [0, 1000])), 'log': 'error'}
    keys = list(VALUES) + ['IN_APP_INCLUDE', 'IN_APP_EXCLUDE', 'APP_ROOT']
    p = pick(rng, [0.2, 0.5, 0.8])
    sets = []
    for k in keys:
        if rng.random() < p or (k.startswith('SERVICE_U') or k.startswith('SERVICE_P')) and rng.random() < 0.5:
            r = rng.random()
            s = {'key': k}
            if r < 0.4 or r > 0.8:
                s['env'] = gen_value(rng, k)
            if r >= 0.4:
                s['code'] = gen_value(rng, k)
                s['form'] = gen_form(rng, k)
            sets.append(s)
    plan['set'] = sets
    more = []
    for k in subset(rng, UNKNOWN, 0.5):
        r = rng.random()
        s = {'key': k}
        if r < 0.35 or r > 0.75:
            s['env'] = pick(rng, ['env text', '', '5', 'False', 'x,y'])
        if 0.3 < r:
            s['code'] = pick(rng, range(len(ANY)))
            s['form'] = pick(rng, ['plain', 'plain', 'call', 'partial', 'object', 'method', 'class'])
        more.append(s)
    plan['more'] = more
    plan['main'] = pick(rng, ['/srv/x/app', '/app/src/lib', '/app', 'rel/dir', '/приложение/код/sub']) + '/main_c19.py'
    plan['leaf'] = pick(rng, DIRS)
    plan['files'] = [pick(rng, DIRS) for _ in range(rng.randrange(1, 8))]
    plan['paths'] = [pick(rng, DIRS + [x + '/deeper' for x in DIRS]) for _ in range(rng.randrange(0, 20))]
    plan['tables'] = [[gen_list(rng), gen_list(rng), pick(rng, PREFIXES), pick(rng, ['list', 'text'])] for _ in range(rng.randrange(0, 3))]
    if rng.random() < 0.4:
        plan['net'] = {'poll': [pick(rng, [{}, {'t': 'error_before'}, {'t': 'garbage'}, {'lat': 700}, {'t': 'exc', 'exc': 'OSError'}])
                                for _ in range(5)]}
    if rng.random() < 0.25:
        plan['stall'] = gen_stall(rng, ms=[5, 300, 1500], who=['Tracepoint', 'ThreadPool'])
    return plan


# -- the reference ---------------------------------------------------------------------------------------------

DEFAULT = {'SERVICE_URL': 'deep:43315', 'SERVICE_SECURE': True, 'LOGGING_CONF': None, 'POLL_TIMER': 10, 'SERVICE_AUTH_PROVIDER': None,
           'IN_APP_INCLUDE': [], 'IN_APP_EXCLUDE': [], 'PLUGIN_P0': True, 'PLUGIN_P1': True}


def meaning(key, v):
    """What a value means, whether it is of the documented type or text."""
    if v is None:
        return None
    if key in ('SERVICE_SECURE', 'PLUGIN_P0', 'PLUGIN_P1'):
        return str(v).lower() in ('true', 'yes')
    if key == 'POLL_TIMER':
        try:
            f = float(v)
        except ValueError:
            return INVALID
        return f if f > 0 else INVALID
    if key == 'LOGGING_CONF':
        return os.path.join(CONF, 'log_%s.conf' % v)
    if key in ('IN_APP_INCLUDE', 'IN_APP_EXCLUDE'):
        return [real(x) for x in v if x]
    if key == 'APP_ROOT':
        return real(v)
    if key == 'SERVICE_AUTH_PROVIDER':
        return v or None
    return v


def effective(plan):
    out = dict(DEFAULT)
    out['APP_ROOT'] = os.path.dirname(os.path.dirname(real(plan['main'])))
    for s in plan.get('set') or []:
        if 'code' in s:
            out[s['key']] = meaning(s['key'], s['code'])
        elif 'env' in s:
            out[s['key']] = meaning(s['key'], s['env'])
    return out


class Obj:
    def __init__(self, v):
        self.v = v

    def __call__(self):
        return self.v

    def get(self):
        return self.v


def in_code(key, v, form):
    """The object that is given in code."""
    if key == 'LOGGING_CONF':
        v = meaning(key, v)
    elif key == 'APP_ROOT':
        v = real(v)
    elif key in ('IN_APP_INCLUDE', 'IN_APP_EXCLUDE'):
        v = [real(x) for x in v]
        if form.endswith('text'):
            v = ','.join(v)
        elif form == 'tuple':
            v = tuple(v)
        form = 'call' if form.startswith('call') else 'plain'
    return wrap(v, form)


def wrap(v, form):
    if form == 'call':
        return lambda: v
    if form == 'partial':
        return functools.partial(lambda a, b: a, v, 1)
    if form == 'object':
        return Obj(v)
    if form == 'method':
        return Obj(v).get
    if form == 'class':
        return type('Made', (), {'__new__': lambda cls: v})
    return v


def in_env(key, v):
    if key in ('IN_APP_INCLUDE', 'IN_APP_EXCLUDE'):
        return ','.join(real(x) for x in v)
    if key == 'LOGGING_CONF':
        return meaning(key, v)
    if key == 'APP_ROOT':
        return real(v)
    return str(v)


def same(key, got, want):
    """Is what the configuration says the effective value?"""
    if key in ('SERVICE_SECURE', 'PLUGIN_P0', 'PLUGIN_P1'):
        return got is None and key != 'SERVICE_SECURE' and want or str(got).lower() in ('true', 'yes', 't', 'y', '1') if want else \
            str(got).lower() in ('false', 'no')
    if key == 'POLL_TIMER':
        if want is INVALID:
            return True
        try:
            return float(got) == want
        except (TypeError, ValueError):
            return False
    if key in ('IN_APP_INCLUDE', 'IN_APP_EXCLUDE'):
        if isinstance(got, str):
            got = got.split(',')
        got = [x for x in got or () if x]
        if key == 'IN_APP_EXCLUDE':
            return got[:len(want)] == want and set(got[len(want):]) <= {sys.exec_prefix} or got == [sys.exec_prefix] + want
        return got == want
    if key in ('SERVICE_AUTH_PROVIDER', 'LOGGING_CONF', 'APP_ROOT'):
        return (got or None) == (want or None)
    return got == want and type(got) is type(want)


def under(f, p):
    """True, False, or None when the prefix ends within a component."""
    if not p or not f.startswith(p):
        return False
    if p.endswith(('/', '\\')) or len(f) == len(p) or f[len(p)] in '/\\':
        return True
    return None


def classify(f, include, exclude, root):
    """(is an app frame or None if it is not clear, the possible short paths)"""
    ex = [(p, under(f, p)) for p in list(exclude) + [sys.exec_prefix]]
    if any(u for _, u in ex):
        return False, {f[len(p):] for p, u in ex if u is not False}
    if any(u is None for _, u in ex):
        return None, None
    inc = [(p, under(f, p)) for p in list(include) + [root or '']]
    if any(u for _, u in inc):
        return True, {f[len(p):] for p, u in inc if u is not False}
    if any(u is None for _, u in inc):
        return None, None
    return False, {f}


# -- the runs --------------------------------------------------------------------------------------------------

def run(w, plan):
    w.nontrivial = any('env' in s for s in (plan.get('set') or []) + (plan.get('more') or []))
    env = {}
    for s in (plan.get('set') or []) + (plan.get('more') or []):
        if 'env' in s:
            env['DEEP_' + s['key']] = in_env(s['key'], s['env'])
    plan['env'] = env
    out = []
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        go(w, plan, out)
    finally:
        sys.stdout = old
    return out[:6]


def go(w, plan, out):
    sim = w.sim
    w.load_agent()
    install_provider()
    want = effective(plan)
    code = {}
    for s in plan.get('set') or []:
        if 'code' in s:
            code[s['key']] = in_code(s['key'], s['code'], s['form'])
    for s in plan.get('more') or []:
        if 'code' in s:
            code[s['key']] = wrap(ANY[s['code']], s['form'])
    names = w.install_plugins([{'name': n, 'kinds': ['res'], 'order': k + 1} for k, n in enumerate(['P0', 'P1'])] +
                              [{'name': 'REC', 'kinds': ['log', 'deco'], 'order': 9}])
    code['PLUGINS'] = names
    for p in ('OTELPLUGIN', 'OTELMETRICS', 'PROMETHEUSPLUGIN', 'PYTHONPLUGIN'):
        code['PLUGIN_' + p] = 'False'
    given = dict(code)
    resolution(w, plan, code, want, out)
    frame_table(w, plan, out)
    if out:
        w.finish()
        return
    leaf = real(plan['leaf']).rstrip('/') + '/' + LEAF
    host = w.host_module(leaf, LEAF_SRC, {})
    chain = []
    for k, d in enumerate(plan.get('files') or []):
        chain.append(w.host_module(real(d).rstrip('/') + '/mid%d.py' % k, MID_SRC, {}).f)
    chain.append(host.f)
    main = w.host_module(real(plan['main']), BOOT_SRC, {})
    w.service.set_config([{'id': 't', 'path': LEAF, 'line': MARKS['p1'], 'args': {'fire_count': '-1', 'fire_period': '0'}}], 'h')
    sim.off = False
    root_before = [logging.getLogger().level, list(logging.getLogger().handlers)]
    sim.current.data['agent_scope'] = True
    try:
        w.deep = main.boot(w.deep_mod.start, code)
    except Exception as e:
        out.append(viol('start', 'the agent does not start with %s: %s: %s' % (brief(plan), type(e).__name__, e)))
        w.finish()
        return
    finally:
        sim.current.data['agent_scope'] = False
    if code != given:
        out.append(viol('caller', 'the configuration of the caller was changed to %r' % (code,)))
    started = sim.clock
    interval = 10 if want['POLL_TIMER'] is INVALID else want['POLL_TIMER']
    for s in list(want):
        got = getattr(w.deep.config, s)
        if not same(s, got, want[s]):
            out.append(viol('resolve', 'the agent resolves %s to %r, it has to be %r (%s)' % (s, got, want[s], source(plan, s))))
    sim.arm()
    slack = 40 if plan.get('stall') or plan.get('net') else 3
    sim.sleep(int((3.4 * interval + slack) * SEC))
    hit = sim.clock
    t = w.threading.Thread(target=chain[0], args=(chain[1:],))
    t.start()
    t.join()
    sim.sleep(5 * SEC)
    end = sim.clock
    w.deep.shutdown()
    level = logging.getLogger('deep').getEffectiveLevel()
    handlers = logging.getLogger('deep').handlers
    w.finish()
    service(w, want, out)
    polls(w, plan, want, started, end, out)
    frames(w, plan, want, hit, out)
    conf = want['LOGGING_CONF']
    levels = {'error': logging.ERROR, 'info': logging.INFO, 'debug': logging.DEBUG}
    if conf:
        lv = levels[os.path.basename(conf)[4:-5]]
        if level != lv or [type(h).__module__ for h in handlers] != ['dst.simlog']:
            out.append(viol('logging', 'LOGGING_CONF %s (%s) is not used: the level is %s, the handlers are %s' % (
                conf, source(plan, 'LOGGING_CONF'), level, handlers)))
    elif any(type(h).__module__ == 'dst.simlog' for h in handlers):
        out.append(viol('logging', 'there is no LOGGING_CONF, but the handlers are %s' % (handlers,)))
    elif [logging.getLogger().level, list(logging.getLogger().handlers)] != root_before:
        out.append(viol('logging', 'the logging of the program was changed'))


def brief(plan):
    return '; '.join('%s %s' % (s['key'], source(plan, s['key'])) for s in plan.get('set') or [])


def source(plan, key):
    for s in (plan.get('set') or []) + (plan.get('more') or []):
        if s['key'] == key:
            return ', '.join((['code: %r as %s' % (s['code'], s['form'])] if 'code' in s else []) +
                             (['environment: %r' % (in_env(key, s['env']),)] if 'env' in s else [])) or 'not set'
    return 'not set'


def resolution(w, plan, code, want, out):
    from deep.config.config_service import ConfigService
    cfg = ConfigService(dict(code))
    for k in want:
        if k == 'APP_ROOT' and not any(s['key'] == k for s in plan.get('set') or []):
            continue
        for _ in range(2):
            got = getattr(cfg, k)
            if not same(k, got, want[k]):
                out.append(viol('resolve', '%s resolves to %r, it has to be %r (%s)' % (k, got, want[k], source(plan, k))))
                break
    sources = {s['key']: s for s in plan.get('more') or []}
    for k in UNKNOWN + ['SERVICE_URL2', 'POLL', 'DEEP_POLL_TIMER']:
        s = sources.get(k, {})
        v = ANY[s['code']] if 'code' in s else s.get('env')
        got = getattr(cfg, k)
        if got != v or type(got) is not type(v):
            out.append(viol('resolve', 'the setting %s resolves to %r, it has to be %r (%s)' % (k, got, v, source(plan, k))))
    for k, s in sources.items():
        if s.get('form') == 'call' and 'code' in s:
            # a function is asked for the value as it is now
            now = [ANY[s['code']]]
            cfg = ConfigService({k: lambda: now[0]})
            for v in (now[0], 'now', 'now', 3):
                now[0] = v
                got = getattr(cfg, k)
                if got != v or type(got) is not type(v):
                    out.append(viol('resolve', 'the function given for %s returns %r, the setting resolves to %r' % (k, v, got)))
                    break
    w.probe('settings_read', len(want) + len(UNKNOWN) + 3)


def frame_table(w, plan, out):
    from deep.config.config_service import ConfigService
    if not hasattr(ConfigService, 'is_app_frame'):
        return
    n = 0
    for include, exclude, root, form in plan.get('tables') or []:
        inc, exc = meaning('IN_APP_INCLUDE', include), meaning('IN_APP_EXCLUDE', exclude)
        cfg = ConfigService({'IN_APP_INCLUDE': in_code('IN_APP_INCLUDE', include, form),
                             'IN_APP_EXCLUDE': in_code('IN_APP_EXCLUDE', exclude, form), 'APP_ROOT': real(root)})
        for d in plan.get('paths') or []:
            f = real(d) + '/x.py'
            app, shorts = classify(f, inc, exc, real(root))
            if app is None:
                continue
            n += 1
            got, match = cfg.is_app_frame(f)
            short = f[len(match):] if match is not None else f
            if bool(got) != app or short not in shorts:
                out.append(viol('frame', '%r with the includes %r, excludes %r and root %r is %s application frame with the '
                                'short path %r, it has to be %s with %s' % (f, inc, exc, real(root), 'an' if got else 'no', short,
                                                                           'one' if app else 'none', sorted(shorts))))
                return
    w.probe('paths_classified', n)


def install_provider():
    import types
    from deep.api.auth import AuthProvider

    class Provider(AuthProvider):
        def provide(self):
            return [('x-key', 'custom')]
    m = types.ModuleType('dst_auth')
    m.Provider = Provider
    sys.modules['dst_auth'] = m


def service(w, want, out):
    md = []
    if want['SERVICE_AUTH_PROVIDER'] == 'dst_auth.Provider':
        md = [['x-key', 'custom']]
    elif want['SERVICE_AUTH_PROVIDER'] and want.get('SERVICE_USERNAME') is not None and want.get('SERVICE_PASSWORD') is not None:
        t = '%s:%s' % (want['SERVICE_USERNAME'], want['SERVICE_PASSWORD'])
        md = [['authorization', 'Basic%20' + base64.b64encode(t.encode('utf-8')).decode()]]
    for e in w.of('poll', 'send'):
        for what, got, exp in (('target', e['target'], want['SERVICE_URL']), ('security', e['secure'], want['SERVICE_SECURE']),
                               ('metadata', e['metadata'] or [], md)):
            if got != exp:
                out.append(viol('service', 'the %s of request %d is %r, it has to be %r (%s)' % (
                    what, e['n'], got, exp, brief(w.plan))))
                return


def polls(w, plan, want, started, end, out):
    ps = w.of('poll')
    valid = want['POLL_TIMER'] is not INVALID
    interval = want['POLL_TIMER'] if valid else 30
    stalled = w.sim.stalled_ns if hasattr(w.sim, 'stalled_ns') else 0
    idle = 0
    if plan.get('stall'):
        idle = plan['stall']['max'] * max(plan['stall']['ms']) * 1000000
    if not ps:
        out.append(viol('polling', 'there was no poll'))
        return
    for a, b in zip(ps, ps[1:] + [None]):
        at = b['clock'] if b else end
        if at - a['done_at'] > (interval + 2) * SEC + idle + stalled:
            out.append(viol('polling', 'poll %d ended at %.3f s, the next %s at %.3f s, the interval is %s s (%s)' % (
                a['n'], a['done_at'] / SEC, 'came' if b else 'had not come', at / SEC, interval, source(plan, 'POLL_TIMER'))))
            return
    if valid and len(ps) > (end - started) / (interval * SEC) + 2 + (plan.get('stall') or {}).get('max', 0):
        out.append(viol('polling', 'there were %d polls in %.3f s, the interval is %s s (%s)' % (
            len(ps), (end - started) / SEC, interval, source(plan, 'POLL_TIMER'))))
    w.probe('polls', len(ps))
    from deepproto.proto.poll.v1.poll_pb2 import PollRequest
    for e in ps:
        keys = {kv.key for kv in PollRequest.FromString(e['data']).resource.attributes} if hasattr(
            PollRequest.FromString(e['data']).resource, 'attributes') else set()
        for n in ('P0', 'P1'):
            if ('res_' + n in keys) != want['PLUGIN_' + n]:
                out.append(viol('plugin', 'the plugin %s is %sactive (PLUGIN_%s: %s)' % (
                    n, '' if 'res_' + n in keys else 'not ', n, source(plan, 'PLUGIN_' + n))))
                return


def frames(w, plan, want, hit, out):
    sends = w.of('send')
    ok = [p for p in w.of('poll') if p.get('resp') == 'update' and p.get('delivered_at', hit) < hit - SEC]
    if ok and len(sends) != 1 and not plan.get('stall'):
        out.append(viol('harness', 'there are %d snapshots' % len(sends)))
    n = 0
    for e in sends:
        m = parse(e['data'])
        mine = 0
        for fr in m.frames:
            f = fr.file_name
            if f.endswith(LEAF) or '/mid' in f:
                mine += 1
            app, shorts = classify(f, want['IN_APP_INCLUDE'], want['IN_APP_EXCLUDE'], want['APP_ROOT'])
            if app is None:
                continue
            n += 1
            if fr.app_frame != app or not any(same_text(fr.short_path, s) for s in shorts):
                out.append(viol('frame', 'the frame of %r is %s application frame with the short path %r, it has to be %s with %s; '
                                'includes %r (%s), excludes %r (%s), root %r (%s)' % (
                                    f, 'an' if fr.app_frame else 'no', fr.short_path, 'one' if app else 'none', sorted(shorts),
                                    want['IN_APP_INCLUDE'], source(plan, 'IN_APP_INCLUDE'), want['IN_APP_EXCLUDE'],
                                    source(plan, 'IN_APP_EXCLUDE'), want['APP_ROOT'], source(plan, 'APP_ROOT'))))
                return
        if mine != len(plan.get('files') or []) + 1:
            out.append(viol('harness', 'the snapshot has %d of the %d host frames' % (mine, len(plan.get('files') or []) + 1)))
    w.probe('frames', n)


__all__ = ['on_abort']
