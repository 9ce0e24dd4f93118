"""
The scheduler: real OS threads, one baton.

Every simulated thread is a real thread parked on its own (real) lock; exactly one of them runs at any time, and which
one that is, is decided here and only here. Time is virtual: it advances by `tick` at every yield point and jumps to
the next deadline when nothing is runnable.
"""
import _thread
import os
import random
import sys
import time as _real_time
import traceback

RUNNABLE, BLOCKED, DONE = 0, 1, 2

MS = 1_000_000
SEC = 1_000_000_000
WALL_EPOCH = 1_700_000_000 * SEC


class SimAbort(BaseException):
    """Raised nowhere the agent can catch it usefully: only used to unwind harness code."""


class Task:
    __slots__ = ('tid', 'name', 'gate', 'state', 'deadline', 'ident', 'woken', 'sentinels', 'prio', 'kind',
                 'agent_trace', 'cur', 'evno', 'depth', 'crash', 'shim', 'cur_agent', 'wait', 'data')

    def __init__(self, tid, name, kind):
        self.tid = tid
        self.name = name
        self.kind = kind            # 'main' | 'host' | 'other'
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = RUNNABLE
        self.deadline = None
        self.ident = None
        self.woken = False
        self.sentinels = []
        self.prio = 0
        self.agent_trace = None     # the trace function as seen through the proxied sys.settrace
        self.cur = None             # the host event being processed by the agent on this task
        self.cur_agent = False
        self.evno = 0
        self.depth = 0
        self.crash = None
        self.shim = False
        self.wait = None
        self.data = {}


class Policy:
    """Decides preemptions and picks; everything it decides is recorded by the kernel."""

    def __init__(self, spec, rng):
        self.spec = spec or {'kind': 'coop'}
        self.rng = rng
        self.kind = self.spec['kind']
        self.p = self.spec.get('p', 0.01)
        self.salt = self.spec.get('salt', 0)
        self.mod = self.spec.get('mod', 16)
        self.pick_random = self.spec.get('pick', 'random') == 'random'
        self.change = set()
        if self.kind == 'pct':
            n = self.spec.get('len', 4000)
            self.change = {rng.randrange(n) for _ in range(self.spec.get('d', 3))}
        self.budget = self.spec.get('max', 400)
        self.hold = bool(self.spec.get('hold'))     # no preemption before the run says so
        self.step0 = 0

    def new_task(self, task):
        task.prio = self.rng.random() if self.kind == 'pct' else 0

    def at_yield(self, sim, site):
        k = self.kind
        if k == 'coop' or self.hold:
            return None
        if k == 'pct':
            # strict priorities: run the highest priority runnable task, lower ours at change points
            me = sim.current
            if sim.step - self.step0 in self.change:
                me.prio = -sim.step
            best = me
            for t in sim.tasks_run():
                if t.prio > best.prio:
                    best = t
            return best if best is not me else None
        if self.budget <= 0:
            return None
        if k == 'hot':
            if (site * 2654435761 + self.salt) % 1000003 % self.mod:
                return None
        if self.rng.random() >= self.p:
            return None
        others = [t for t in sim.tasks_run() if t is not sim.current]
        if not others:
            return None
        self.budget -= 1
        return others[int(self.rng.random() * len(others))]  # C level: traced threads run this

    def pick(self, sim, cands):
        if self.kind == 'pct':
            return max(cands, key=lambda t: (t.prio, -t.tid))
        if self.pick_random and self.kind != 'coop':
            return cands[int(self.rng.random() * len(cands))]
        return cands[0]


class ReplayPolicy:
    """Follow a recorded schedule; fall back to the lowest runnable task when it does not apply."""

    def __init__(self, rec):
        self.pre = {int(s): t for s, t in rec.get('pre', [])}
        self.picks = list(rec.get('picks', []))
        self.i = 0

    def new_task(self, task):
        pass

    def at_yield(self, sim, site):
        if not self.pre:
            return None
        tid = self.pre.get(sim.step)
        if tid is None:
            return None
        for t in sim.tasks_run():
            if t.tid == tid and t is not sim.current:
                return t
        return None

    def pick(self, sim, cands):
        tid = None
        if self.i < len(self.picks):
            tid = self.picks[self.i]
        self.i += 1
        for t in cands:
            if t.tid == tid:
                return t
        return cands[0]


class Sim:
    """One simulated process."""

    __dict__ = property(lambda self: {})    # the agent may find us in a frame: there is nothing to see

    def __repr__(self):
        return '<Sim>'

    def __init__(self, seed, policy=None, replay=None, tick=1000, step_cap=3_000_000, vtime_cap=3600 * SEC):
        self.seed = seed
        self.rng = random.Random('%s/sim' % seed)
        self.policy = ReplayPolicy(replay) if replay is not None else Policy(policy, random.Random('%s/sched' % seed))
        self.tick = tick
        self.clock = 0
        self.wall_jumps = []        # [(mono ns, delta ns)] sorted
        self.read_jumps = {}        # n-th reading of the wall clock -> delta ns
        self.wall_reads = 0
        self.step = 0
        self.step_cap = step_cap
        self.vtime_cap = vtime_cap
        self.tasks = []
        self.free_idents = []
        self.next_ident = 140_000_000_000
        self.off = True             # yields do nothing (setup, evaluation)
        self.nopreempt = 0          # >0: keep the baton (harness critical sections)
        self.next_deadline = None
        self.rec_pre = []
        self.rec_picks = []
        self.switches = 0
        self.trail = 0
        self.fault_hook = None
        self.on_abort = None
        self.aborted = None
        self.crashes = []           # exceptions that ended a simulated thread
        self.faults = {}
        self.main = self._new_task('MainThread', 'main')
        self.current = self.main
        self.evseq = 0
        self.stall = None           # {'who': [name prefix], 'p':, 'max':, 'ms': [..]}: threads that are not scheduled for a while
        self.stall_rng = random.Random('%s/stall' % seed)
        self.stalled = []           # [from, to] of the stalls

    def arm(self):
        """The interesting part starts: preemptions may happen from here on."""
        p = self.policy
        if getattr(p, 'hold', False):
            p.hold = False
            p.step0 = self.step

    # -- tasks ---------------------------------------------------------------------------------------------------

    def _new_task(self, name, kind):
        t = Task(len(self.tasks), name, kind)
        self.tasks.append(t)
        if self.free_idents:
            t.ident = self.free_idents.pop()
        else:
            self.next_ident += 4096
            t.ident = self.next_ident
        self.policy.new_task(t)
        return t

    def tasks_run(self):
        return [t for t in self.tasks if t.state == RUNNABLE]

    def spawn(self, fn, args, kwargs=None, name=None):
        t = self._new_task(name or 'task', 'host' if self.current.kind in ('main', 'host')
                           and not self.current.cur_agent and not self.current.data.get('agent_scope') else 'other')
        self.start_task(t, fn, args, kwargs or {})
        return t.ident

    def start_task(self, t, fn, args, kwargs):
        _thread.start_new_thread(self._boot, ([t, fn, args, kwargs],))
        self.yield_(-2)

    def _boot(self, box):
        t, fn, args, kwargs = box
        t.gate.acquire()
        try:
            fn(*args, **kwargs)
        except SystemExit:
            pass
        except BaseException as e:
            self.crashes.append((t.tid, t.name, type(e).__name__, str(e)[:200]))
        sys.settrace(None)
        # everything this thread owns must be gone before it gives the baton away: finalisers run code
        box.clear()
        fn = args = kwargs = None
        self._finish(t)

    def _finish(self, t):
        t.agent_trace = None
        t.state = DONE
        self.free_idents.append(t.ident)
        for lock in t.sentinels:
            lock._force_release()
        nxt = self._pick_next()
        self._account(nxt)
        self.current = nxt
        nxt.gate.release()

    # -- switching -----------------------------------------------------------------------------------------------

    def _account(self, nxt):
        self.switches += 1
        self.trail = hash((self.trail, nxt.tid, self.step)) & 0xffffffffffff

    def _switch(self, nxt):
        me = self.current
        if nxt is me:
            return
        self._account(nxt)
        self.current = nxt
        nxt.gate.release()
        me.gate.acquire()

    def _expire(self):
        nd = None
        for t in self.tasks:
            if t.state == BLOCKED and t.deadline is not None:
                if t.deadline <= self.clock:
                    t.state = RUNNABLE
                    t.deadline = None
                    t.woken = False
                elif nd is None or t.deadline < nd:
                    nd = t.deadline
        self.next_deadline = nd

    def _pick_next(self):
        while True:
            if self.next_deadline is not None and self.next_deadline <= self.clock:
                self._expire()
            cands = self.tasks_run()
            if cands:
                break
            if self.next_deadline is None:
                self.abort('deadlock')
            self.clock = self.next_deadline
            if self.clock > self.vtime_cap:
                self.abort('virtual-time-cap')
            self._expire()
        if len(cands) == 1:
            return cands[0]
        t = self.policy.pick(self, cands)
        self.rec_picks.append(t.tid)
        return t

    def yield_(self, site):
        """A point at which another thread may run."""
        if self.off:
            return
        self.step += 1
        self.clock += self.tick
        if self.step > self.step_cap:
            self.abort('step-cap')
        if self.nopreempt:
            return
        if self.next_deadline is not None and self.next_deadline <= self.clock:
            self._expire()
        if self.stall is not None:
            self._stall()
        t = self.policy.at_yield(self, site)
        if t is not None:
            self.rec_pre.append((self.step, t.tid))
            self._switch(t)

    def _stall(self):
        s = self.stall
        me = self.current
        if getattr(self.policy, 'hold', False) or not me.name.startswith(s['who']) or self.stall_rng.random() >= s['p']:
            return
        ms = s['ms'][int(self.stall_rng.random() * len(s['ms']))]
        s['max'] -= 1
        if s['max'] <= 0:
            self.stall = None
        self.count_fault('stalled_thread')
        self.stalled.append([self.clock, self.clock + ms * MS])
        self.block(self.clock + ms * MS, 'stalled')

    def block(self, deadline=None, what=None):
        """Block the current task until woken or until the deadline; True when woken."""
        me = self.current
        if self.off:
            raise RuntimeError('blocking outside the simulation: %s' % (what,))
        self.step += 1
        if self.step > self.step_cap:
            self.abort('step-cap')
        me.state = BLOCKED
        me.woken = False
        me.deadline = deadline
        me.wait = what
        if deadline is not None and (self.next_deadline is None or deadline < self.next_deadline):
            self.next_deadline = deadline
        nxt = self._pick_next()
        self._switch(nxt)
        me.wait = None
        return me.woken

    def wake(self, t):
        if t.state == BLOCKED:
            t.state = RUNNABLE
            t.woken = True
            t.deadline = None

    def sleep(self, ns):
        if self.off:
            self.clock += ns
            return
        if ns <= 0:
            self.yield_(-3)
            return
        self.block(self.clock + ns, 'sleep')

    # -- time ----------------------------------------------------------------------------------------------------

    def wall(self):
        w = WALL_EPOCH + self.clock
        for at, delta in self.wall_jumps:
            if at <= self.clock:
                w += delta
        return w

    def read_wall(self):
        """A reading by the code under test; the clock may be set just before it."""
        n = self.wall_reads
        self.wall_reads = n + 1
        if n in self.read_jumps and not self.off:
            self.wall_jumps.append((self.clock, self.read_jumps[n]))
            self.count_fault('clock_jump')
        return self.wall()

    # -- ending --------------------------------------------------------------------------------------------------

    def stacks(self):
        out = []
        return out

    def abort(self, why):
        """The run can not continue (deadlock, step cap, virtual time cap): report and leave."""
        self.aborted = why
        self.off = True
        info = {'why': why, 'step': self.step, 'clock': self.clock,
                'tasks': [(t.tid, t.name, t.state, str(t.wait)) for t in self.tasks if t.state != DONE],
                'where': traceback.format_stack()[-12:]}
        if self.on_abort is not None:
            self.on_abort(info)
        os._exit(3)

    def count_fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def schedule(self):
        return {'pre': [list(x) for x in self.rec_pre], 'picks': list(self.rec_picks)}


class SimLock:
    """`_thread.lock` under the simulation."""

    __slots__ = ('_sim', '_locked', '_waiters', '__weakref__', '_owner')

    def __init__(self, sim):
        self._sim = sim
        self._locked = False
        self._waiters = []
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        sim = self._sim
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if blocking and timeout < 0 and timeout != -1:
            raise ValueError("timeout value must be a non-negative number")
        sim.yield_(-4)
        if not self._locked:
            self._locked = True
            self._owner = sim.current.tid
            return True
        if not blocking:
            return False
        deadline = None
        if timeout >= 0:
            deadline = sim.clock + max(1, int(timeout * SEC))
        while self._locked:
            if deadline is not None and sim.clock >= deadline:
                return False
            me = sim.current
            self._waiters.append(me)
            sim.block(deadline, 'lock held by task %s' % self._owner)
            if me in self._waiters:
                self._waiters.remove(me)
        self._locked = True
        self._owner = sim.current.tid
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._force_release()
        self._sim.yield_(-5)

    def _force_release(self):
        self._locked = False
        self._owner = None
        ws = self._waiters
        self._waiters = []
        for t in ws:
            self._sim.wake(t)

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __repr__(self):
        return '<%s SimLock>' % ('locked' if self._locked else 'unlocked')


def real_time():
    return _real_time.time()
