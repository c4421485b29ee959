"""Deterministic byte-code scheduler: real threads, parked and released one at a time.

Callers run in real threads, but exactly one holds the baton.  sys.monitoring events of the
code objects of the package under test are the pre-emption seam: at every byte-code instruction (or line)
the scheduler decides, from the plan alone, whether to hand the baton over, raise an
injected error, run a nested (re-entrant) call, park the caller, collect garbage or move
the clock.  Locks and clocks the package might use are replaced by simulated ones, so a
blocking acquisition is a scheduling decision too and deadlock is detected, not waited for.
"""
import _thread
import gc
import hashlib
import sys
import threading
import time

from . import lib

_alloc = _thread.allocate_lock
_start = _thread.start_new_thread
INF = 1 << 60


class SimAbort(BaseException):
    """Unwinds a caller when the run is over (deadlock, step cap)."""


class Problem:
    def __init__(self, kind, detail):
        self.kind, self.detail = kind, detail


ACTIVE = None          # the scheduler currently running, if any


# --------------------------------------------------------------------------- clock
class Clock:
    def __init__(self):
        self.offset = 0.0
        self.ticks = 0
        self.base, self.rate = 0.0, 1e-6

    def now(self):
        self.ticks += 1
        return 1.7e9 + self.base + self.offset + self.ticks * self.rate


CLOCK = Clock()
_real_time = {}


def install_clock():
    names = {"time": lambda: CLOCK.now(), "monotonic": lambda: CLOCK.now() - 1.69e9,
             "perf_counter": lambda: CLOCK.now() - 1.69e9, "process_time": lambda: CLOCK.now() - 1.69e9,
             "time_ns": lambda: int(CLOCK.now() * 1e9), "monotonic_ns": lambda: int((CLOCK.now() - 1.69e9) * 1e9),
             "perf_counter_ns": lambda: int((CLOCK.now() - 1.69e9) * 1e9), "sleep": _sleep,
             "thread_time": lambda: CLOCK.now() - 1.69e9}
    local, gm, text = time.localtime, time.gmtime, time.strftime
    names["localtime"] = lambda secs=None: local(CLOCK.now() if secs is None else secs)
    names["gmtime"] = lambda secs=None: gm(CLOCK.now() if secs is None else secs)
    names["strftime"] = lambda f, t=None: text(f, names["localtime"]() if t is None else t)
    for k, v in names.items():
        _real_time[k] = getattr(time, k)
        setattr(time, k, v)


def uninstall_clock():
    for k, v in _real_time.items():
        setattr(time, k, v)
    _real_time.clear()


def _sleep(d):
    CLOCK.offset += max(0.0, float(d))
    s = ACTIVE
    if s is not None and s.current is not None and s.current.ident == _thread.get_ident():
        s.reschedule(s.current, "sleep")


# --------------------------------------------------------------------------- locks
class SimLock:
    def __init__(self):
        self.owner = None
        self.held = False

    def _me(self):
        s = ACTIVE
        if s is not None and s.current is not None and s.current.ident == _thread.get_ident():
            return s, s.current
        return None, None

    def acquire(self, blocking=True, timeout=-1):
        s, t = self._me()
        while self.held:
            if not blocking or timeout == 0:
                return False
            if s is None:
                raise RuntimeError("simulated deadlock: lock is held and no other caller can release it")
            if not s.block(t, self, timeout is not None and timeout > 0):
                return False
        self.held = True
        self.owner = _thread.get_ident()
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False
        self.owner = None
        if ACTIVE is not None:
            ACTIVE.unblock(self)

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.held and self.owner == _thread.get_ident():
            self.count += 1
            return True
        if super().acquire(blocking, timeout):
            self.count = 1
            return True
        return False

    def release(self):
        if not self.held or self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            super().release()

    def _is_owned(self):
        return self.held and self.owner == _thread.get_ident()

    def _release_save(self):
        c, self.count = self.count, 0
        SimLock.release(self)
        return c

    def _acquire_restore(self, c):
        SimLock.acquire(self)
        self.count = c


_real_locks = {}


def install_locks():
    for k, v in (("Lock", SimLock), ("RLock", SimRLock), ("_allocate_lock", SimLock)):
        _real_locks[k] = getattr(threading, k)
        setattr(threading, k, v)
    _real_locks["_thread.allocate_lock"] = _thread.allocate_lock
    _thread.allocate_lock = SimLock


def uninstall_locks():
    for k in ("Lock", "RLock", "_allocate_lock"):
        if k in _real_locks:
            setattr(threading, k, _real_locks[k])
    if "_thread.allocate_lock" in _real_locks:
        _thread.allocate_lock = _real_locks["_thread.allocate_lock"]
    _real_locks.clear()


class seams:
    """Clock and lock seams, active while a run is being simulated."""

    def __enter__(self):
        CLOCK.offset, CLOCK.ticks = 0.0, 0
        install_clock()
        install_locks()

    def __exit__(self, *a):
        uninstall_locks()
        uninstall_clock()


# --------------------------------------------------------------------------- the pre-emption seam
MON = sys.monitoring
TOOL = 3
_set = {}              # code object id -> (code, events) instrumented
COUNT = None           # [count, thread, limit, action] while events of one thread are counted


def instrument(gran):
    """Instruction or line events in every code object of the package, and nowhere else."""
    ev = MON.events.INSTRUCTION if gran == "opcode" else MON.events.LINE
    for c in lib.codes():
        if _set.get(id(c), (None, 0))[1] != ev:
            MON.set_local_events(TOOL, c, ev)
            _set[id(c)] = (c, ev)


def _event(code, where):
    s = ACTIVE
    if s is not None:
        t = s.current
        if t is not None and t.traced and t.ident == _thread.get_ident():
            s.point(t, (code, where))
    elif COUNT is not None and COUNT[1] == _thread.get_ident():
        COUNT[0] += 1
        if COUNT[0] == COUNT[2]:
            COUNT[3]()


MON.use_tool_id(TOOL, "dst")
MON.register_callback(TOOL, MON.events.INSTRUCTION, _event)
MON.register_callback(TOOL, MON.events.LINE, _event)


def _over():
    raise RuntimeError("step budget exhausted")


def count_events(fn, gran, at=2000000, action=_over):
    """Run fn in this thread, counting its pre-emption points; `action` is taken at one of them.

    Returns (count, result)."""
    global COUNT
    instrument(gran)
    mine = COUNT = [0, _thread.get_ident(), at, action]
    try:
        r = fn()
    finally:
        COUNT = None
    return mine[0], r


# --------------------------------------------------------------------------- tasks
class Task:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.baton = _alloc()
        self.baton.acquire()
        self.state = "ready"      # ready / blocked / stalled / done
        self.waiting = None
        self.timed = False
        self.expired = False
        self.ident = None
        self.exc = None
        self.raised = None
        self.steps = 0
        # per operation
        self.traced = False
        self.events = 0
        self.triggers = []        # [(event number, action)]
        self.tp = 0
        self.next_trigger = INF

    def arm(self, triggers):
        self.events = 0
        self.triggers = sorted(triggers, key=lambda t: t[0])
        self.tp = 0
        self.next_trigger = self.triggers[0][0] if self.triggers else INF


class Sched:
    def __init__(self, schedule, gran="opcode", step_cap=600000, monitor=None):
        self.schedule = schedule
        self.sp = 0
        self.gran = gran
        self.step_cap = step_cap
        self.monitor = monitor
        self.tasks = []
        self.current = None
        self.quantum = INF
        self.step = 0
        self.switches = 0
        self.trail = []           # (from, to, code, instruction) of each switch
        self.problems = []
        self.aborting = False
        self.done_lock = _alloc()
        self.done_lock.acquire()
        self.stalls = 0

    # -- decisions ---------------------------------------------------------
    def _decide(self):
        if self.sp < len(self.schedule):
            q, c = self.schedule[self.sp]
            self.sp += 1
            return q, c
        return INF, 0

    def _runnable(self):
        return [t for t in self.tasks if t.state == "ready"]

    def _next(self):
        """Next task to hold the baton, or None when all are done."""
        while True:
            if self.aborting:
                left = [t for t in self.tasks if t.state != "done"]
                if not left:
                    return None
                left[0].state = "ready"
                self.quantum = INF
                return left[0]
            ready = self._runnable()
            if ready:
                q, c = self._decide()
                self.quantum = q
                return ready[c % len(ready)]
            left = [t for t in self.tasks if t.state != "done"]
            if not left:
                return None
            stalled = [t for t in left if t.state == "stalled"]
            blocked = [t for t in left if t.state == "blocked"]
            timed = [t for t in blocked if t.timed]
            if timed:
                timed[0].state, timed[0].expired = "ready", True
                continue
            if stalled:
                if blocked:
                    self.problems.append(Problem("blocked-by-stalled-caller",
                                                 "caller(s) %s cannot finish while caller %s is suspended"
                                                 % ([t.tid for t in blocked], stalled[0].tid)))
                stalled[0].state = "ready"
                continue
            self.problems.append(Problem("deadlock", "caller(s) %s wait for each other's lock"
                                         % [t.tid for t in blocked]))
            self.aborting = True

    def _note(self, a, b, frame):
        self.switches += 1
        if frame is not None and not isinstance(frame, str):
            self.trail.append((a.tid, b.tid, frame[0].co_name, frame[1]))
        else:
            self.trail.append((a.tid, b.tid, frame or "", 0))

    def _hand(self, me, nxt, frame=None):
        self._note(me, nxt, frame)
        self.current = nxt
        nxt.baton.release()
        me.baton.acquire()
        if self.aborting:
            raise SimAbort()

    def reschedule(self, me, frame=None):
        if self.monitor is not None:
            self.monitor()
        nxt = self._next()
        if nxt is not me:
            self._hand(me, nxt, frame)

    def block(self, me, lock, timed):
        me.state, me.waiting, me.timed, me.expired = "blocked", lock, timed, False
        nxt = self._next()
        if nxt is not me:
            self._hand(me, nxt, "blocked")
        me.waiting = None
        if self.aborting:
            raise SimAbort()
        return not me.expired

    def unblock(self, lock):
        for t in self.tasks:
            if t.state == "blocked" and t.waiting is lock:
                t.state = "ready"

    def stall(self, me, frame=None):
        if len([t for t in self.tasks if t.state != "done"]) < 2:
            return False
        me.state = "stalled"
        self.stalls += 1
        nxt = self._next()
        if nxt is not me:
            self._hand(me, nxt, frame)
        return True

    # -- the pre-emption point ---------------------------------------------
    def point(self, task, frame):
        self.step += 1
        task.steps += 1
        task.events += 1
        if self.aborting:
            raise SimAbort()
        if self.step > self.step_cap:
            self.problems.append(Problem("no-progress", "step budget of %d exhausted in %s"
                                         % (self.step_cap, frame[0].co_name if frame else "?")))
            self.aborting = True
            raise SimAbort()
        while task.events >= task.next_trigger:
            act = task.triggers[task.tp][1]
            task.tp += 1
            task.next_trigger = task.triggers[task.tp][0] if task.tp < len(task.triggers) else INF
            act(self, task, frame)
        self.quantum -= 1
        if self.quantum <= 0:
            self.reschedule(task, frame)

    # -- running -----------------------------------------------------------
    def _boot(self, task):
        task.baton.acquire()
        task.ident = _thread.get_ident()
        threading.current_thread()      # make it known to the threading module
        try:
            if not self.aborting:
                task.fn(task)
        except SimAbort:
            pass
        except BaseException as e:      # harness error: surfaced by run()
            task.exc = e
        task.traced = False
        threading._active.pop(task.ident, None)
        task.state = "done"
        nxt = self._next()
        if nxt is None:
            self.current = None
            self.done_lock.release()
        else:
            self._note(task, nxt, "done")
            self.current = nxt
            nxt.baton.release()

    def run(self, fns):
        global ACTIVE
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        instrument(self.gran)
        prev, ACTIVE = ACTIVE, self
        hook, sys.unraisablehook = sys.unraisablehook, self.unraisable
        try:
            for t in self.tasks:
                _start(self._boot, (t,))
            first = self._next()
            self.current = first
            # idents are only known once a thread runs; _me() compares against it
            first.baton.release()
            self.done_lock.acquire()
        finally:
            ACTIVE = prev
            sys.unraisablehook = hook
        for t in self.tasks:
            if t.exc is not None:
                raise t.exc

    def unraisable(self, u):
        """An injected error that met a finaliser is dropped by the interpreter, not by the package."""
        for t in self.tasks:
            if t.raised is not None and u.exc_value is t.raised:
                t.raised = None

    def signature(self):
        return hashlib.blake2b(repr(self.trail).encode(), digest_size=8).hexdigest()


def act_raise(make):
    def act(s, task, frame):
        e = make()
        task.raised = e
        raise e
    return act


def act_gc(s, task, frame):
    gc.collect(0)


def act_stall(s, task, frame):
    task.stalled_at = frame[0].co_name if frame is not None else "callback"
    s.stall(task, frame)
