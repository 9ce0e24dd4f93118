"""Run batches of simulated executions, minimise failures, write evidence."""
import gc
import hashlib
import importlib
import json
import os
import random
import re
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
RUN_WALL = 120.0


def prop_module(pid):
    return importlib.import_module('dst.props.%s' % pid.lower())


def zygote():
    """Everything that is the same for every run, once."""
    from . import loader, overlay, simlog, plugins, world, net  # noqa: F401
    import grpc, google.protobuf, unittest.mock  # noqa: F401,E401
    import deepproto.proto.poll.v1.poll_pb2_grpc  # noqa: F401
    import deepproto.proto.tracepoint.v1.tracepoint_pb2_grpc  # noqa: F401
    import logging.config, inspect, linecache, platform, urllib.parse, decimal, datetime, enum  # noqa: F401,E401
    import collections, fractions, array, types, traceback, itertools, json as _j  # noqa: F401,E401
    try:
        import opentelemetry.trace, opentelemetry.metrics, opentelemetry.sdk.trace  # noqa: F401,E401
    except Exception:
        pass
    try:
        import prometheus_client  # noqa: F401
    except Exception:
        pass
    overlay.precompile()
    loader.precompile()


# -- one run ------------------------------------------------------------------------------------------------------


def child_run(pid, plan, replay, want_sched, wfd):
    """In a forked child: execute and write one JSON result; never returns."""
    done = [False]

    def put(res):
        if done[0]:
            return
        done[0] = True
        data = json.dumps(res, default=str).encode()
        n = 0
        while n < len(data):
            n += os.write(wfd, data[n:])
        os.close(wfd)

    try:
        gc.disable()
        sys.setrecursionlimit(2500)
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 1)
        if not os.environ.get('DST_DEBUG'):
            os.dup2(devnull, 2)
        from . import world as world_mod
        mod = prop_module(pid)
        w = world_mod.World(plan, replay)

        def sink(info):
            w.finish()
            res = None
            from .data import on_abort
            h = getattr(mod, 'on_abort', on_abort)
            try:
                v = h(w, plan, info)
            except BaseException:
                put({'error': 'on_abort: ' + traceback.format_exc()[-3000:]})
                os._exit(0)
            if v is None:
                v = [{'cls': 'nontermination-' + info['why'],
                      'msg': 'the simulated process did not finish: %s' % json.dumps(info)[:1500]}]
            res = finish(w, mod, v, want_sched)
            put(res)
            os._exit(0)

        w.result_sink = sink
        out = mod.run(w, plan)
        w.finish()
        put(finish(w, mod, out or [], want_sched))
    except BaseException:
        put({'error': traceback.format_exc()[-4000:]})
    finally:
        os._exit(0)


def finish(w, mod, violations, want_sched):
    sim = w.sim
    if w.errors:
        return {'error': 'harness: ' + '; '.join(w.errors[:3])}
    d = hashlib.sha256()
    for e in w.effects:
        d.update(('%s|%s|%s|%s|%s' % (e['kind'], e['tid'], e['ev'], e['clock'], e['step'])).encode())
    d.update(str((sim.trail, sim.step, sim.clock, len(w.events))).encode())
    for v in violations:
        d.update(v['cls'].encode())
    res = {'violations': violations, 'probes': w.probes, 'faults': sim.faults, 'steps': sim.step, 'clock': sim.clock,
           'switches': sim.switches, 'pre': len(sim.rec_pre), 'trail': sim.trail, 'digest': d.hexdigest()[:16],
           'events': len(w.events), 'effects': len(w.effects), 'tasks': len(sim.tasks),
           'nontrivial': getattr(w, 'nontrivial', True), 'sig': getattr(w, 'sig', None), 'aborted': sim.aborted}
    if want_sched:
        res['sched'] = sim.schedule()
        res['trace'] = story(w)
    return res


def story(w, limit=120):
    """A readable account of a run for the replay file."""
    out = []
    for e in w.effects[:limit]:
        x = {k: v for k, v in e.items() if k not in ('data',)}
        out.append(json.loads(json.dumps(x, default=str)))
    return out


def run_one(pid, plan, replay=None, want_sched=False, wall=RUN_WALL):
    """Fork, run, collect. Returns the result dict; {'error':..} for harness problems; {'killed':..} on wall timeout."""
    r, wfd = os.pipe()
    p = os.fork()
    if p == 0:
        os.close(r)
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        child_run(pid, plan, replay, want_sched, wfd)
    os.close(wfd)
    chunks = []
    end = time.monotonic() + wall
    killed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            killed = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            killed = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if killed:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(p, 0)
        return {'killed': True, 'error': 'run exceeded %.0f s of wall time' % wall}
    _, status = os.waitpid(p, 0)
    data = b''.join(chunks)
    if not data:
        return {'error': 'child died without a result (status %s)' % status}
    try:
        return json.loads(data)
    except ValueError:
        return {'error': 'unreadable result'}


def make_plan(mod, seed, i, tier):
    rng = random.Random('%s/%s/%s' % (mod.ID, seed, i))
    plan = mod.gen(rng, i, tier)
    plan.setdefault('seed', '%s-%s-%s' % (mod.ID, seed, i))
    return json.loads(json.dumps(plan))


# -- batches ------------------------------------------------------------------------------------------------------


def worker(pid, seed, tier, counter_r, out_w, stop_at):
    mod = prop_module(pid)
    out = os.fdopen(out_w, 'wb', buffering=0)
    while True:
        b = os.read(counter_r, 4)
        if len(b) < 4:
            break
        i = int.from_bytes(b, 'big')
        try:
            plan = make_plan(mod, seed, i, tier)
            res = run_one(pid, plan)
        except BaseException:
            res = {'error': traceback.format_exc()[-3000:]}
        res['i'] = i
        line = json.dumps(res).encode()
        out.write(len(line).to_bytes(4, 'big') + line)
    out.close()
    os._exit(0)


def batch(pid, seed, tier, n, wall, nworkers, stop_on=lambda res: False):
    """Run plans 0..n-1; yields results as they come."""
    # work queue: one pipe of 4-byte indexes (atomic reads)
    cr, cw = os.pipe()
    outs = []
    pids = []
    for k in range(nworkers):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(cw)
            os.close(r)
            for o in outs:
                os.close(o)
            try:
                worker(pid, seed, tier, cr, w, None)
            finally:
                os._exit(0)
        os.close(w)
        outs.append(r)
        pids.append(p)
    os.close(cr)
    os.set_blocking(cw, False)
    nxt = 0
    bufs = {r: b'' for r in outs}
    live = set(outs)
    t0 = time.monotonic()
    feeding = True
    inflight = 0
    timed_out = False
    old = signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    try:
        while live:
            while feeding and nxt < n and inflight < nworkers * 2:
                try:
                    os.write(cw, nxt.to_bytes(4, 'big'))
                except (BlockingIOError, BrokenPipeError):
                    break
                nxt += 1
                inflight += 1
            if feeding and (nxt >= n or time.monotonic() - t0 > wall):
                if nxt < n:
                    timed_out = True
                feeding = False
                os.close(cw)
            rd, _, _ = select.select(list(live), [], [], 1.0)
            for r in rd:
                b = os.read(r, 1 << 20)
                if not b:
                    live.discard(r)
                    continue
                bufs[r] += b
                while len(bufs[r]) >= 4:
                    ln = int.from_bytes(bufs[r][:4], 'big')
                    if len(bufs[r]) < 4 + ln:
                        break
                    line = bufs[r][4:4 + ln]
                    bufs[r] = bufs[r][4 + ln:]
                    inflight -= 1
                    res = json.loads(line)
                    res['timed_out'] = timed_out
                    yield res
                    if feeding and stop_on(res):
                        feeding = False
                        os.close(cw)
    finally:
        signal.signal(signal.SIGPIPE, old)
        if feeding:
            try:
                os.close(cw)
            except OSError:
                pass
        for p in pids:
            try:
                os.kill(p, 0)
            except OSError:
                continue
            try:
                done, _ = os.waitpid(p, os.WNOHANG)
                if not done:
                    os.waitpid(p, 0)
            except ChildProcessError:
                pass
        for r in outs:
            os.close(r)


# -- known findings -----------------------------------------------------------------------------------------------


def known_findings(pid):
    """(key, text) of the findings listed for this property; `fixed:` lines suppress nothing."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                if key.startswith('key='):
                    out.append((key[4:], text))
    return out


# -- minimisation -------------------------------------------------------------------------------------------------


def _paths(node, path=()):
    """All list positions in the plan, biggest lists first."""
    if isinstance(node, dict):
        for k in sorted(node, key=str):
            yield from _paths(node[k], path + (k,))
    elif isinstance(node, list):
        yield path
        for i, v in enumerate(node):
            yield from _paths(v, path + (i,))


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _copy(x):
    return json.loads(json.dumps(x))


class Shrinker:
    def __init__(self, pid, mod, plan, cls, budget_s):
        self.pid, self.mod, self.cls = pid, mod, cls
        self.plan = plan
        self.end = time.monotonic() + budget_s
        self.tries = 0
        self.frozen = set(getattr(mod, 'NO_SHRINK', ())) | {'seed', 'sched', 'v'}

    def fails(self, plan):
        """The same violation class, under this plan's own schedule seed or a few others."""
        for alt in (None, 1, 2):
            if time.monotonic() > self.end:
                return None
            p = plan
            if alt is not None:
                pol = ((plan.get('sched') or {}).get('policy') or {}).get('kind', 'coop')
                if pol == 'coop':
                    return None
                p = _copy(plan)
                p['seed'] = '%s~%s' % (str(plan['seed']).split('~')[0], alt)
            self.tries += 1
            try:
                res = run_one(self.pid, p, wall=60)
            except Exception:
                return None
            if any(v['cls'] == self.cls for v in res.get('violations') or []):
                return p
        return None

    def go(self):
        changed = True
        rounds = 0
        while changed and time.monotonic() < self.end and rounds < 6:
            changed = False
            rounds += 1
            for path in sorted(_paths(self.plan), key=lambda p: (len(p), str(p))):
                if path and path[0] in self.frozen:
                    continue
                if any(p in self.frozen for p in path if isinstance(p, str)):
                    continue
                try:
                    lst = _get(self.plan, path)
                except (KeyError, IndexError, TypeError):
                    continue
                if not isinstance(lst, list):
                    continue
                size = max(1, len(lst) // 2)
                while size >= 1 and time.monotonic() < self.end:
                    i = 0
                    while i < len(lst):
                        cand = _copy(self.plan)
                        sub = _get(cand, path)
                        del sub[i:i + size]
                        ok = self.fails(cand)
                        if ok is not None:
                            self.plan = ok
                            lst = _get(self.plan, path)
                            changed = True
                        else:
                            i += size
                        if time.monotonic() > self.end:
                            break
                    size //= 2
            # optional dictionary entries
            for path, key in list(self._dict_keys(self.plan)):
                if time.monotonic() > self.end:
                    break
                cand = _copy(self.plan)
                try:
                    d = _get(cand, path)
                    if key not in d:
                        continue
                    del d[key]
                except (KeyError, IndexError, TypeError):
                    continue
                ok = self.fails(cand)
                if ok is not None:
                    self.plan = ok
                    changed = True
        return self.plan

    def _dict_keys(self, node, path=()):
        opt = getattr(self.mod, 'OPTIONAL', ('args', 'config', 'env', 'net', 'fail', 'delay', 'watches', 'metrics',
                                             'condition', 'jumps', 'read_jumps', 'fault', 'direct', 'trace_workers', 'log'))
        if isinstance(node, dict):
            for k in sorted(node, key=str):
                if k in self.frozen:
                    continue
                if k in opt or (path and path[-1] in ('args', 'config', 'env', 'net', 'fail')):
                    yield path, k
                yield from self._dict_keys(node[k], path + (k,))
        elif isinstance(node, list):
            for i, v in enumerate(node):
                yield from self._dict_keys(v, path + (i,))


def minimise_schedule(pid, plan, cls, sched, end):
    """Fewest preemptions that still give the violation."""
    def ok(pre, picks):
        res = run_one(pid, plan, {'pre': pre, 'picks': picks}, wall=60)
        return any(v['cls'] == cls for v in res.get('violations') or [])

    pre, picks = sched['pre'], sched['picks']
    if not ok(pre, picks):
        return None
    if ok([], picks):
        pre = []
    if ok(pre, []):
        picks = []
    size = max(1, len(pre) // 2)
    while size >= 1 and pre and time.monotonic() < end:
        i = 0
        while i < len(pre) and time.monotonic() < end:
            cand = pre[:i] + pre[i + size:]
            if ok(cand, picks):
                pre = cand
            else:
                i += size
        size //= 2
    return {'pre': pre, 'picks': picks}


# -- check --------------------------------------------------------------------------------------------------------


def check(pid, tier, seed, runs=None, wall=None, nworkers=None):
    t0 = time.time()
    mod = prop_module(pid)
    n = runs or (mod.QUICK if tier == 'quick' else getattr(mod, 'THOROUGH', mod.QUICK * 20))
    wall = wall or (300 if tier == 'quick' else 3300)
    nworkers = nworkers or min(8, os.cpu_count() or 4)
    print('%s seed=%s tier=%s runs=%d' % (pid, seed, tier, n), flush=True)
    zygote()
    known = dict(known_findings(pid))
    stats = {'runs': 0, 'steps': 0, 'clock': 0, 'switches': 0, 'pre': 0, 'events': 0, 'effects': 0, 'nontrivial': 0}
    probes, faults = {}, {}
    trails, sigs = set(), set()
    bad, errors = [], []
    known_hit = {}

    def fresh(res):
        return [v for v in res.get('violations') or [] if v.get('key') not in known]

    for res in batch(pid, seed, tier, n, wall, nworkers, stop_on=lambda r: bool(fresh(r)) or len(errors) > 5):
        if res.get('error'):
            errors.append((res['i'], res['error']))
            continue
        stats['runs'] += 1
        for k in ('steps', 'clock', 'switches', 'pre', 'events', 'effects'):
            stats[k] += res[k]
        if res.get('nontrivial'):
            stats['nontrivial'] += 1
            sigs.add(res.get('sig') or res['digest'])
        trails.add(res['trail'])
        for k, v in res['probes'].items():
            probes[k] = probes.get(k, 0) + v
        for k, v in res['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for v in res['violations']:
            if v.get('key') in known:
                known_hit.setdefault(v['key'], (res['i'], v['msg']))
        f = fresh(res)
        if f:
            bad.append((res['i'], f))
    explore_s = time.time() - t0
    violation = None
    if bad:
        bad.sort(key=lambda x: x[0])
        violation = report(pid, mod, seed, tier, bad)
    wall_s = time.time() - t0
    write_evidence(pid, mod, tier, seed, stats, probes, faults, trails, sigs, explore_s, wall_s, bad, errors,
                   known_hit, n)
    for k, (i, msg) in sorted(known_hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k] or msg), flush=True)
    print('%s: %d runs, %d non-trivial, %d schedules, %.0f simulated s, %.1f s' % (
        pid, stats['runs'], stats['nontrivial'], len(trails), stats['clock'] / 1e9, wall_s), flush=True)
    if violation == 'unreproducible':
        print('ERROR: a violation could not be reproduced in a fresh process', flush=True)
        return 2
    if violation:
        print('VIOLATION property=%s replay=%s' % (pid, violation), flush=True)
        return 1
    if errors and len(errors) <= max(2, stats['runs'] // 100) and all('of wall time' in e for _, e in errors):
        # a run that the machine did not finish in time says nothing; a few of them do not change the verdict
        print('note: %d runs not finished in time (%s)' % (len(errors), ', '.join(str(i) for i, _ in errors)), flush=True)
        errors = []
    if errors:
        for i, e in errors[:3]:
            print('ERROR run %d: %s' % (i, e), flush=True)
        return 2
    if stats['runs'] == 0:
        print('ERROR: nothing ran')
        return 2
    return 0


def report(pid, mod, seed, tier, bad):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    unrep = 0
    for i, vs in bad[:4]:
        plan = make_plan(mod, seed, i, tier)
        cls = vs[0]['cls']
        print('run %d: %s: %s' % (i, cls, vs[0]['msg'][:600]), flush=True)
        budget = float(os.environ.get('DST_SHRINK_S', '45'))
        end = time.monotonic() + budget
        small = Shrinker(pid, mod, plan, cls, budget * 0.75).go()
        for cand in ([small, plan] if small is not plan else [plan]):
            res = run_one(pid, cand, want_sched=True)
            hits = [v for v in res.get('violations') or [] if v['cls'] == cls]
            if not hits:
                continue
            sched = None
            if res['sched']['pre'] or res['sched']['picks']:
                sched = minimise_schedule(pid, cand, cls, res['sched'], end)
                if sched is not None:
                    r2 = run_one(pid, cand, sched, want_sched=True)
                    h2 = [v for v in r2.get('violations') or [] if v['cls'] == cls]
                    if h2:
                        res, hits = r2, h2
                    else:
                        sched = None
            name = os.path.join(d, '%s-%s-%d.json' % (pid, seed, i))
            body = {'property': pid, 'class': cls, 'seed': seed, 'tier': tier, 'run': i, 'violation': hits[0],
                    'plan': cand, 'schedule': sched, 'digest': res['digest'],
                    'preemptions': len(sched['pre']) if sched else res['pre'],
                    'faults_injected': res['faults'], 'history': res.get('trace')}
            with open(name, 'w') as f:
                json.dump(body, f, indent=1, default=str)
            rc = subprocess.run([sys.executable, os.path.join(VERIF, 'check'), 'replay', name],
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if rc.returncode == 1:
                print('minimised: %s' % hits[0]['msg'][:1200], flush=True)
                return os.path.relpath(name, VERIF)
            print(rc.stdout.decode()[-1500:])
        unrep += 1
    return 'unreproducible'


def replay(path):
    body = json.load(open(path))
    zygote()
    res = run_one(body['property'], body['plan'], body.get('schedule'), want_sched=True)
    if res.get('error'):
        print('ERROR', res['error'])
        return 2
    for v in res['violations']:
        if v['cls'] == body['class']:
            same = res['digest'] == body['digest']
            print('REPRODUCED %s: %s (history identical: %s)' % (v['cls'], v['msg'][:1500], same))
            return 1
    print('NOT REPRODUCED; got %s' % [v['cls'] for v in res['violations']])
    return 0


def write_evidence(pid, mod, tier, seed, stats, probes, faults, trails, sigs, explore_s, wall_s, bad, errors,
                   known_hit, n):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    samples = []
    for i in (0, 1):
        try:
            samples.append(make_plan(mod, seed, i, tier))
        except Exception:
            pass
    ev = {
        'property': pid, 'tier': tier, 'seed': int(seed), 'level': 'exploration', 'wall_s': round(wall_s, 2),
        'violations': len(bad),
        'coverage': {
            'evaluations': stats['runs'], 'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': samples,
            'nontrivial_runs': stats['nontrivial'],
            'runs_and_seeds_per_hour': int(stats['runs'] / max(explore_s, 0.001) * 3600),
            'simulated_seconds': round(stats['clock'] / 1e9, 3),
            'scheduler_steps': stats['steps'],
            'thread_switches': stats['switches'],
            'preemptions': stats['pre'],
            'distinct_interleavings': len(trails),
            'interleaving_measure': 'distinct hashes of the sequence (thread switched to, step) of a run',
            'host_trace_events': stats['events'],
            'recorded_effects': stats['effects'],
            'faults_injected': dict(sorted(faults.items())),
            'probes': dict(sorted(probes.items())),
            'real_code': 'all of /repo/src/deep, deepproto, protobuf, stdlib threading/queue/concurrent.futures source',
            'stubbed': 'gRPC channel and DEEP service, clock, _thread, random/uuid, log handler, host program and '
                       'plugins (generated)',
            'harness_errors': len(errors), 'known_findings_seen': sorted(known_hit),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
    }
    with open(os.path.join(d, '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def selftest(runs=6):
    """The same seed must give the same history, whatever the process, its hash seed or the load on the machine."""
    zygote()
    pids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props')) if re.match(r'c\d\d\.py$', f))
    want = {}
    if os.environ.get('DST_SELFTEST_CHILD'):
        for pid in pids:
            mod = prop_module(pid)
            for i in range(runs):
                res = run_one(pid, make_plan(mod, 7, i, 'quick'), want_sched=True)
                want['%s-%d' % (pid, i)] = (res.get('digest'), res.get('error'))
        print('SELFTEST ' + json.dumps(want))
        return 0
    ps = []
    for hs in ('0', '1', '4242'):
        env = dict(os.environ, DST_SELFTEST_CHILD='1', DST_HASHSEED=hs)
        ps.append(subprocess.Popen([sys.executable, os.path.join(VERIF, 'check'), 'selftest', str(runs)], env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    outs = []
    for p in ps:
        text = p.communicate()[0].decode()
        line = [x for x in text.splitlines() if x.startswith('SELFTEST ')]
        if not line:
            print(text[-3000:])
            return 2
        outs.append(json.loads(line[0][9:]))
    bad = [k for k in outs[0] if any(o[k] != outs[0][k] for o in outs) or outs[0][k][1]]
    print('selftest: %d runs of %d properties in 3 processes, %d not identical%s' % (
        len(outs[0]), len(pids), len(bad), ': %s' % {k: [o[k] for o in outs] for k in bad[:4]} if bad else ''))
    return 2 if bad else 0


def main(argv):
    if argv and argv[0] == 'selftest':
        return selftest(int(argv[1]) if len(argv) > 1 else 6)
    if len(argv) >= 2 and argv[0] == 'replay':
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    runs = wall = nw = None
    a = argv[1:]
    while a:
        x = a.pop(0)
        if x == '--thorough':
            tier = 'thorough'
        elif x == '--quick':
            tier = 'quick'
        elif x == '--seed':
            seed = int(a.pop(0))
        elif x == '--runs':
            runs = int(a.pop(0))
        elif x == '--wall':
            wall = float(a.pop(0))
        elif x == '--workers':
            nw = int(a.pop(0))
        elif x == '--one':
            i = int(a.pop(0))
            zygote()
            mod = prop_module(pid)
            plan = make_plan(mod, seed, i, tier)
            print(json.dumps(plan)[:6000])
            res = run_one(pid, plan, want_sched=True)
            print(json.dumps(res, indent=1)[:8000])
            return 0
    return check(pid, tier, seed, runs, wall, nw)
