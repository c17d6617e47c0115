"""The deterministic simulator: tasks, scheduler, clock, faults, event log.

Every task is a real Python thread, but exactly one runs at a time: a task runs until it reaches an
intercepted point (a lock, a pipe, a sleep, a manager proxy, a traced line of the code under test ...),
hands the baton back to the scheduler and is parked on a private lock.  Who runs next, every delay and
every fault is drawn from one stream of decisions; the stream is a pure function of the seed, and is
recorded, so a run can be replayed from the recorded decisions alone.

Time is discrete-event: integer nanoseconds, advanced only when nothing is runnable (or by an explicit
stall).  Nothing here reads a real clock.
"""
import _thread
import hashlib
import heapq
import random
import sys

_real_allocate_lock = _thread.allocate_lock
_real_start_new_thread = _thread.start_new_thread
_get_ident = _thread.get_ident

MS = 1_000_000
SEC = 1_000_000_000


class SimKilled(BaseException):
    """Raised inside a task to make it go away at the end of a run (or at a simulated crash)."""


class SimLimit(Exception):
    pass


class Decisions:
    """The one source of choices.  Recording: a PRNG decides.  Replaying: a list decides, then zeros."""

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.i = 0
        self.out = []

    def choose(self, n, weights0=None):
        """0..n-1.  weights0: probability of 0 (the unremarkable choice), the rest is uniform."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.i] % n if self.i < len(self.replay) else 0
            self.i += 1
        elif weights0 is not None:
            v = 0 if self.rng.random() < weights0 else 1 + self.rng.randrange(n - 1)
        else:
            v = self.rng.randrange(n)
        self.out.append(v)
        return v


class Task:
    __slots__ = ('sim', 'name', 'fn', 'lock', 'state', 'exc', 'result', 'wait', 'on_exit', 'killed',
                 'seqno', 'sentinels', 'wake_value', 'stalled', 'group', 'silent')

    def __init__(self, sim, name, fn, group):
        self.sim, self.name, self.fn, self.group = sim, name, fn, group
        self.lock = _real_allocate_lock()
        self.lock.acquire()
        self.state = 'new'          # new, ready, blocked, running, done
        self.exc = self.result = self.wait = None
        self.on_exit = []
        self.killed = False
        self.sentinels = []
        self.wake_value = None
        self.silent = 0


_task_of = {}       # thread ident -> Task


def current_task():
    return _task_of.get(_get_ident())


def current_sim():
    t = _task_of.get(_get_ident())
    return t.sim if t is not None else None


class Sim:
    """One simulated execution."""

    def __init__(self, decisions, max_steps=200_000, preempt=0.0, trace_files=None, switch=0.5,
                 max_time=None):
        self.d = decisions
        self.now = 1_000 * SEC          # monotonic clock (ns); an arbitrary, non-zero origin
        self.wall_offset = 1_700_000_000 * SEC   # wall clock = now + wall_offset; faults may move it
        self.tasks = []
        self.events = []
        self.seq = 0
        self.steps = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.preempt = preempt          # probability of a preemption at a traced line
        self.trace_files = trace_files
        self.switch = switch            # probability of keeping the running task at a plain yield point
        self.log = []                   # (time, kind, detail...)
        self.hash = hashlib.sha256()
        self.faults = {}                # fault kind -> how often it fired
        self.probes = {}                # rare condition -> how often it was reached
        self.driver_lock = _real_allocate_lock()
        self.driver_lock.acquire()
        self.last = None
        self.stop_reason = None
        self.killing = False
        self.switches = 0
        self.sched_hash = hashlib.sha256()
        self.invariant = None
        self.lines = 0
        self.countdown = -1
        self.exact = False              # run()'s condition must be looked at after every step

    # -- bookkeeping -----------------------------------------------------------------
    def event(self, *rec):
        e = (self.now,) + rec
        self.log.append(e)
        self.hash.update(repr(e).encode())

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def choose(self, n, p0=None):
        return self.d.choose(n, p0)

    def chance(self, p):
        """True with probability p (replayed as 1 = true)."""
        if p <= 0:
            return False
        return self.d.choose(2, 1 - p) == 1

    # -- events -------------------------------------------------------------------------
    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.events, (max(t, self.now), self.seq, fn))
        return self.seq

    def after(self, dt, fn):
        return self.at(self.now + dt, fn)

    # -- tasks ----------------------------------------------------------------------------
    def spawn(self, name, fn, group='main'):
        t = Task(self, name, fn, group)
        t.seqno = len(self.tasks)
        self.tasks.append(t)
        t.state = 'ready'
        _real_start_new_thread(self._body, (t,))
        return t

    def _body(self, t):
        t.lock.acquire()
        _task_of[_get_ident()] = t
        try:
            if not t.killed:
                if self.trace_files:
                    sys.settrace(self._tracer)
                try:
                    t.result = t.fn()
                finally:
                    sys.settrace(None)
        except SimKilled:
            pass
        except BaseException as e:
            t.exc = e
        try:
            for s in t.sentinels:
                s()
        except BaseException as e:
            t.exc = t.exc or e
        t.state = 'done'
        _task_of.pop(_get_ident(), None)
        self.driver_lock.release()

    def _handover(self, t):
        """Called on t's own thread: give the baton to the driver and wait for it to come back."""
        self.driver_lock.release()
        t.lock.acquire()
        if t.killed:
            raise SimKilled()
        t.state = 'running'

    def yield_point(self, label=None):
        t = current_task()
        if t is None or t.sim is not self or t.killed or t.silent:
            if t is not None and t.killed:
                raise SimKilled()
            return
        if not self.exact and self.steps < self.max_steps and not self.switchable():
            self.steps += 1         # nobody else can run: no decision to take
            return
        t.state = 'ready'
        self._handover(t)

    def block(self, t, what):
        """Park the current task until somebody calls wake()."""
        if t.killed:
            raise SimKilled()
        t.state = 'blocked'
        t.wait = what
        self._handover(t)
        t.wait = None
        v = t.wake_value
        t.wake_value = None
        return v

    def wake(self, t, value=None):
        if t.state == 'blocked':
            t.state = 'ready'
            t.wake_value = value

    def sleep(self, ns):
        t = current_task()
        if ns <= 0:
            self.yield_point()
            return
        self.at(self.now + ns, lambda: self.wake(t))
        self.block(t, 'sleep')

    def stall(self, ns):
        """The running task loses the CPU for ns (page fault, suspended laptop, stopped process)."""
        self.fault('task-stall')
        self.event('stall', ns)
        self.sleep(ns)

    # -- line tracing: preemption inside plain Python code ------------------------------------
    def _tracer(self, frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if fn.startswith(self.trace_files):
                return self._line
            return None
        return None

    def _line(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.lines > 40 * self.max_steps:
                self.stop_reason = self.stop_reason or 'line-limit'
                raise SimKilled()
            if self.preempt and self.switchable():
                self.countdown -= 1
                if self.countdown <= 0:
                    if self.countdown == 0:
                        self.probe('preempted-at-a-line')
                        self.yield_point()
                    v = self.d.choose(32)
                    self.countdown = 1 + int(v / self.preempt / 16) if v else 1_000_000
        return self._line

    def switchable(self):
        for t in self.tasks:
            if t.state == 'ready':
                return True
        return bool(self.events) and self.events[0][0] <= self.now

    # -- the scheduler ------------------------------------------------------------------------
    def _resume(self, t):
        if t is not self.last:
            self.switches += 1
        self.sched_hash.update(b'%d,' % t.seqno)
        self.last = t
        t.state = 'running'
        t.lock.release()
        self.driver_lock.acquire()

    def run(self, until=None):
        """Drive until `until()` is true, nothing can happen any more, or the step cap is reached."""
        while True:
            if until is not None and until():
                return 'until'
            if self.stop_reason:
                return self.stop_reason
            self.steps += 1
            if self.steps > self.max_steps:
                self.stop_reason = 'step-limit'
                return self.stop_reason
            last = self.last
            cands = []
            if last is not None and last.state == 'ready':
                cands.append(last)
            for t in self.tasks:
                if t.state == 'ready' and t is not last:
                    cands.append(t)
            due = bool(self.events) and self.events[0][0] <= self.now
            n = len(cands) + (1 if due else 0)
            if n == 0:
                if not self.events:
                    self.stop_reason = 'quiescent'
                    return self.stop_reason
                self.now = self.events[0][0]
                if self.max_time is not None and self.now > self.max_time:
                    self.stop_reason = 'time-limit'
                    return self.stop_reason
                continue
            i = self.choose(n, self.switch) if n > 1 else 0
            if i < len(cands):
                self._resume(cands[i])
            else:
                # which of the due events first is also a decision (bounded window)
                ev = heapq.heappop(self.events)
                self.sched_hash.update(b'e')
                ev[2]()
            if self.invariant is not None:
                self.invariant()

    def kill(self, group=None):
        """Make every (or one group's) unfinished task unwind."""
        for t in self.tasks:
            if t.state in ('done',) or (group is not None and t.group != group):
                continue
            t.killed = True
        for _ in range(1000):
            pend = [t for t in self.tasks if t.killed and t.state != 'done']
            if not pend:
                return True
            for t in pend:
                t.lock.release()
                self.driver_lock.acquire()
        return False

    def digest(self):
        h = self.hash.copy()
        h.update(self.sched_hash.digest())
        return h.hexdigest()[:24]


# -- synchronisation primitives ------------------------------------------------------------------
class SimLock:
    """threading.Lock whose waiters are parked by the simulator (and a plain lock outside one)."""

    def __init__(self):
        self._held = None
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        t = current_task()
        if t is None:
            # outside a run there is only ever one thread of ours
            if self._held is not None:
                if not blocking or timeout is not None and timeout >= 0:
                    return False
                # left behind by a task that was unwound: nobody of ours can still be inside
            self._held = True
            return True
        sim = t.sim
        if t.killed:
            # unwinding: never wait for anybody
            if self._held is not None and not blocking:
                return False
            self._held = t
            return True
        sim.yield_point('lock')
        if self._held is None:
            self._held = t
            return True
        if not blocking or timeout == 0:
            return False
        if timeout is not None and timeout > 0:
            tok = [t]

            def fire():
                if tok[0] is not None and tok in self._waiters:
                    self._waiters.remove(tok)
                    sim.wake(t, 'timeout')
            sim.after(int(timeout * SEC), fire)
        else:
            tok = [t]
        self._waiters.append(tok)
        v = sim.block(t, 'lock')
        tok[0] = None
        if v == 'timeout':
            return False
        return True

    def release(self):
        if self._held is None:
            raise RuntimeError('release unlocked lock')
        while self._waiters:
            # hand the lock over; which waiter gets it is a decision
            t = current_task()
            sim = self._waiters[0][0].sim
            k = sim.choose(len(self._waiters)) if len(self._waiters) > 1 else 0
            w = self._waiters.pop(k)
            if w[0].state == 'blocked' and not w[0].killed:
                self._held = w[0]
                sim.wake(w[0], 'got')
                break
        else:
            self._held = None
        t = current_task()
        if t is not None and not t.killed:
            t.sim.yield_point('unlock')

    def locked(self):
        return self._held is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = None
        self._waiters = []

    acquire_lock, release_lock, locked_lock = acquire, release, locked


class Signal:
    """A broadcast condition used by the simulated devices."""

    def __init__(self):
        self.waiters = []

    def wait(self, what, timeout_ns=None):
        t = current_task()
        sim = t.sim
        self.waiters.append(t)
        if timeout_ns is not None:
            def fire():
                if t in self.waiters:
                    self.waiters.remove(t)
                    sim.wake(t, 'timeout')
            sim.after(timeout_ns, fire)
        return sim.block(t, what)

    def notify_all(self):
        ws, self.waiters = self.waiters, []
        for t in ws:
            t.sim.wake(t)
