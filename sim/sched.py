"""Caller threads under a simulated scheduler.

Each simulated thread is a real thread that runs only while it holds the baton.
At every yield point (a traced line of the package, a kernel event, a lock
operation) the scheduler decides who continues.  Its decisions are either drawn
from the run's generator or read from a recorded list of preemptions
``[[step, task], ...]``; what is recorded is exactly what was decided, so that
the list replays the run.
"""
import sys
import threading

from .hub import SimDeadlock, hub

_Lock = threading.Lock
_current = threading.local()
SCHED = [None]


class SimLock:
    """A lock of the package: blocks in simulated time."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = getattr(_current, "task", None) or threading.get_ident()
        sched = SCHED[0]
        hub.note("lock") if hub.active else None
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if sched is None or getattr(_current, "task", None) is None:
                raise SimDeadlock("a lock is never released")
            if timeout is not None and timeout >= 0:
                # simulated time passes only when nobody can run
                if not sched.block(self, may_time_out=True):
                    return False
            else:
                sched.block(self)
        self.owner = me
        self.depth += 1
        hub.locks += 1
        if sched is not None and getattr(_current, "task", None) is not None:
            sched.point()
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        hub.locks -= 1
        if self.depth == 0:
            self.owner = None
        sched = SCHED[0]
        if sched is not None and getattr(_current, "task", None) is not None:
            sched.wake(self)
            sched.point()

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0


class Task:
    def __init__(self, index, func):
        self.index = index
        self.func = func
        self.baton = threading.Semaphore(0)
        self.done = False
        self.error = None
        self.blocked_on = None
        self.timed = False
        self.timed_out = False
        self.thread = None


class Sched:
    def __init__(self, funcs, rng=None, rate=0.02, preemptions=None, package_dir="",
                 lines=True):
        self.lines = lines
        self.tasks = [Task(i, f) for i, f in enumerate(funcs)]
        self.rng = rng
        self.rate = rate
        self.script = None if preemptions is None else {s: t for s, t in preemptions}
        self.made = []
        self.step = 0
        self.package_dir = package_dir
        self.main = threading.Semaphore(0)
        self.interleaving = []
        self.dead = False

    # -- run by the simulated threads ------------------------------------------
    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.package_dir):
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "line" and self.lines:
            self.point()
        return self._line

    def _body(self, task):
        task.baton.acquire()
        _current.task = task
        if not self.dead:
            sys.settrace(self._trace)
            try:
                task.func()
            except BaseException as e:      # noqa: BLE001
                task.error = e
            finally:
                sys.settrace(None)
        task.done = True
        _current.task = None
        self._hand_over(None)

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.blocked_on is None]

    def _choose(self, ready, forced):
        """Who runs next; `forced` when the running task cannot continue."""
        if self.script is not None:
            want = self.script.get(self.step)
            for t in ready:
                if t.index == want:
                    return t
            return ready[0] if forced else None
        if forced:
            t = ready[self.rng.randrange(len(ready))]
            if t is not ready[0]:
                self.made.append([self.step, t.index])
            return t
        if self.rng.random() < self.rate:
            return ready[self.rng.randrange(len(ready))]
        return None

    def point(self):
        """The running task may lose the baton here."""
        task = _current.task
        if self.dead:
            return
        self.step += 1
        hub.steps += 1
        ready = self._runnable()
        nxt = self._choose(ready, False)
        if nxt is None or nxt is task:
            return
        if self.script is None:
            self.made.append([self.step, nxt.index])
        self.interleaving.append((self.step, nxt.index))
        hub.note("switch", nxt.index)
        nxt.baton.release()
        task.baton.acquire()

    def block(self, lock, may_time_out=False):
        task = _current.task
        if self.dead:
            raise SimDeadlock("simulated threads wait for each other")
        task.blocked_on = lock
        task.timed, task.timed_out = may_time_out, False
        self._hand_over(task)
        if self.dead:
            raise SimDeadlock("simulated threads wait for each other")
        return not task.timed_out

    def wake(self, lock):
        for t in self.tasks:
            if t.blocked_on is lock:
                t.blocked_on = None

    def _hand_over(self, task):
        """`task` cannot continue (blocked), or has finished (None)."""
        self.step += 1
        ready = self._runnable()
        if not ready:
            # nobody can run: simulated time passes until the first timeout
            timed = [t for t in self.tasks if not t.done and t.timed and t.blocked_on is not None]
            if timed:
                timed[0].timed_out, timed[0].blocked_on = True, None
                ready = timed[:1]
        if not ready:
            ready = [t for t in self.tasks if not t.done]
            if not ready:
                self.main.release()
                return
            self.dead = True            # everybody who waits is told so
            for t in ready:
                t.blocked_on = None
        nxt = ready[0] if self.dead else self._choose(ready, True)
        hub.note("switch", nxt.index)
        if nxt is task:
            return
        nxt.baton.release()
        if task is not None:
            task.baton.acquire()

    # -- run by the coordinator ----------------------------------------------
    def run(self):
        SCHED[0] = self
        old, hub.switch = hub.switch, self._event
        try:
            for t in self.tasks:
                t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
                t.thread.start()
            self.step += 1
            first = self._choose(self._runnable(), True)
            first.baton.release()
            self.main.acquire()
            for t in self.tasks:
                t.thread.join()
        finally:
            SCHED[0] = None
            hub.switch = old
        return [t.error for t in self.tasks]

    def _event(self):
        if getattr(_current, "task", None) is not None:
            self.point()
