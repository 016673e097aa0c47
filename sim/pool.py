"""Pools of worker processes under a simulated scheduler.

Stand-ins for multiprocessing.Pool and concurrent.futures.ProcessPoolExecutor.
Workers are real forked processes with their own memory, but exactly one of them
works at a time: the coordinator decides which worker takes which task, when
each one delivers, how fast it is, and whether and where it fails or dies.
Functions, arguments and results travel pickled, as they do in the real ones.

Pool: a task whose worker died is never answered (a new worker is started, the
caller waits forever: reported as SimDeadlock).  Executor: a dead worker breaks
the executor, every pending future fails with BrokenProcessPool.
"""
import concurrent.futures
import concurrent.futures.process as cfp
import io
import itertools
import multiprocessing
import multiprocessing.pool
import os
import pickle
import random
import signal
import struct
import types
import weakref
from multiprocessing.reduction import ForkingPickler

from .hub import SimDeadlock, hub

_real_Pool = multiprocessing.Pool
_real_Executor = concurrent.futures.ProcessPoolExecutor


def dumps(obj):
    buf = io.BytesIO()
    ForkingPickler(buf, pickle.HIGHEST_PROTOCOL).dump(obj)
    return buf.getvalue()


def _dump_result(ok, value):
    try:
        return dumps((ok, value))
    except Exception as e:      # noqa: BLE001
        return dumps((False, multiprocessing.pool.MaybeEncodingError(e, value)))


def _write(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _read(fd):
    def exactly(n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                return None
            out += b
        return out
    head = exactly(8)
    if head is None:
        return None
    return exactly(struct.unpack("<Q", head)[0])


class WorkerProcess:
    def __init__(self, core, index):
        self.core = core
        self.index = index
        self.busy_until = 0.0
        self.speed = core.rng.choice([0.2, 1.0, 1.0, 3.0, 20.0])
        self.dead = False
        self.tasks = 0
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for other in core.workers:
                    for fd in (other.fd_in, other.fd_out):
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                self._serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.fd_in, self.fd_out = w1, r2

    def _serve(self, fd_in, fd_out):
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        hub.tag = hub.tag * 1000 + self.index + 1
        hub.pools = []
        hub.switch = None
        if self.core.initializer is not None:
            try:
                self.core.initializer(*self.core.initargs)
            except BaseException:      # noqa: BLE001
                os._exit(87)
        while True:
            data = _read(fd_in)
            if data is None:
                os._exit(0)
            fault, blob = pickle.loads(data)
            hub.arm(fault)
            start = hub.steps
            try:
                hub.event("task")
                func, batch = pickle.loads(blob)
                out = []
                ok, value = True, out
                for args, kw in batch:
                    out.append(func(*args, **kw))
            except BaseException as e:      # noqa: BLE001
                ok, value = False, e
            fired = hub.disarm()
            self._reply(fd_out, ok, value, fired, hub.steps - start)

    def _reply(self, fd_out, ok, value, fired, steps):
        _write(fd_out, pickle.dumps((fired, steps)))
        _write(fd_out, _dump_result(ok, value))

    def execute(self, blob, fault):
        """Runs one batch; None if the worker died."""
        try:
            _write(self.fd_in, pickle.dumps((fault, blob)))
        except BrokenPipeError:
            self._reap()
            return None
        head = _read(self.fd_out)
        body = _read(self.fd_out) if head is not None else None
        if body is None:
            self._reap()
            return None
        fired, steps = pickle.loads(head)
        hub.steps += steps
        ok, value = pickle.loads(body)
        return ok, value, fired, steps

    def _reap(self):
        self.dead = True
        self.stop()

    def stop(self):
        if self.pid:
            for fd in (self.fd_in, self.fd_out):
                os.close(fd)
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(self.pid, 0)
            self.pid = 0


class Core:
    """What both kinds of pools share: workers, a queue, and the scheduler."""

    def __init__(self, n, initializer, initargs, kind):
        if n is None:
            n = os.cpu_count() or 1
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        cfg = hub.pool_cfg or {}
        self.kind = kind
        self.asked = n
        self.initializer = initializer
        self.initargs = initargs
        self.rng = random.Random("pool/%s/%d" % (cfg.get("seed", 0), len(hub.pools)))
        self.cfg = cfg
        self.n = min(n, cfg.get("max_workers", 8))
        self.workers = []
        self.queue = []             # (ticket, blob)
        self.ready = []             # executed, not delivered yet: (time, ticket, outcome)
        self.answers = {}
        self.broken = False
        self.released = False
        self.now = 0.0
        self.n_tasks = 0
        self.history = []
        self.records = []
        self.starts = 0
        self.late = 0               # batches submitted after the first failure
        self.failed = []            # (arguments, error) of batches that raised
        self.state = {"released": False, "kind": kind, "tasks": 0}
        hub.pools.append(self)
        hub.note("pool", kind, n)

    def _worker(self):
        """A free worker takes the next task; more are started on demand."""
        free = [w for w in self.workers if w.busy_until <= self.now]
        if not self.cfg.get("in_order"):
            self.rng.shuffle(free)
        if len(self.workers) < self.n and (not free or self.rng.random() < 0.5):
            self.starts += 1
            if self.cfg.get("spawn") == self.starts:
                self.fired("no-process@start")
                raise BlockingIOError(11, "Resource temporarily unavailable")
            w = WorkerProcess(self, len(self.history) + len(self.workers))
            self.workers.append(w)
            return w
        return free[0] if free else None

    def _fault_for(self, task_no):
        for f in self.cfg.get("faults", []):
            if f["task"] == task_no and f.get("pool", 0) == hub.pools.index(self):
                return {"site": f["site"], "n": f["n"], "exc": f["exc"]}
        return None

    def _start_one(self):
        w = self._worker()
        if w is None or not self.queue:
            return False
        ticket, blob, fault = self.queue.pop(0)
        hub.event("task")
        out = w.execute(blob, fault)
        duration = w.speed * self.rng.uniform(0.5, 2.0)
        w.tasks += 1
        w.busy_until = self.now + duration
        self.ready.append((w.busy_until, len(self.history), ticket, out, w))
        self.history.append((ticket, w.index))
        if out is None:
            self.fired("die@worker")
        elif out[2] is not None:
            self.fired(out[2]["exc"] + "@" + out[2]["site"])
        return True

    def fired(self, kind):
        kind = "worker:" + kind
        hub.fired_kinds[kind] = hub.fired_kinds.get(kind, 0) + 1

    def step(self):
        """One step of the simulated machine; False when nothing can happen."""
        if self.broken:
            return False
        progressed = False
        while self.queue and self._start_one():
            progressed = True
        if not self.ready:
            return progressed
        self.ready.sort(key=lambda r: (r[0], r[1]))
        at, _, ticket, out, w = self.ready.pop(0)
        self.now = max(self.now, at)
        hub.clock += 0.0
        hub.note("deliver", ticket, out is None or out[0])
        if out is None:
            if w in self.workers:
                self.workers.remove(w)
            if self.kind == "executor":
                self.broken = True
                self._break()
            return True
        self.answers[ticket] = out[:2]
        return True

    def _break(self):
        for t in [r[2] for r in self.ready] + [q[0] for q in self.queue]:
            self.answers[t] = (False, cfp.BrokenProcessPool(
                "A process in the process pool was terminated abruptly while the "
                "future was running or pending."))
        self.ready, self.queue = [], []
        self.lost = True
        self.stop()

    def submit(self, func, batch):
        if self.released:
            raise RuntimeError("cannot schedule new futures after shutdown")
        if self.broken:
            raise cfp.BrokenProcessPool("A child process terminated abruptly, "
                                        "the process pool is not usable anymore")
        if self.state.get("closed"):
            raise ValueError("Pool not running")
        ticket = self.n_tasks
        self.n_tasks += 1
        self.late += bool(self.failed or self.broken)
        self.state["tasks"] += 1
        self.queue.append((ticket, dumps((func, batch)), self._fault_for(ticket)))
        if self.cfg.get("eager") and self.rng.random() < 0.5:
            self.step()
        return ticket

    def wait(self, ticket):
        hub.event("wait")
        while ticket not in self.answers:
            if self.kind == "executor" and self.broken:
                return (False, cfp.BrokenProcessPool("terminated abruptly"))
            if not self.step():
                raise SimDeadlock("the answer of task %d never comes" % ticket)
        return self.answers[ticket]

    def cancel(self, ticket):
        for q in self.queue:
            if q[0] == ticket:
                self.queue.remove(q)
                self.answers[ticket] = (False, concurrent.futures.CancelledError())
                return True
        return False

    def drain(self):
        while self.step():
            pass

    def stop(self):
        for w in self.workers:
            w.stop()
        self.workers = []

    def release(self):
        if not self.released:
            self.released = True
            self.state["released"] = True
            hub.note("release")
        self.stop()

    def fail(self, args_list, error):
        for a in args_list:
            self.failed.append((a, type(error).__name__ + ": " + str(error)[:200]))

    def record(self, args_list, values):
        for a, v in zip(args_list, values):
            self.records.append((a, v))


def _chunks(items, size):
    it = iter(items)
    while True:
        c = list(itertools.islice(it, size))
        if not c:
            return
        yield c


class SimFuture:
    def __init__(self, core, ticket):
        self.core, self.ticket = core, ticket
        self.callbacks = []

    def result(self, timeout=None):
        ok, value = self.core.wait(self.ticket)
        if not ok:
            raise value
        return value[0]

    def exception(self, timeout=None):
        ok, value = self.core.wait(self.ticket)
        return None if ok else value

    def done(self):
        if self.ticket not in self.core.answers:
            self.core.step()
        return self.ticket in self.core.answers

    def cancelled(self):
        a = self.core.answers.get(self.ticket)
        return bool(a) and isinstance(a[1], concurrent.futures.CancelledError)

    def running(self):
        return False

    def cancel(self):
        return self.core.cancel(self.ticket)

    def add_done_callback(self, fn):
        self.core.wait(self.ticket)
        fn(self)


def _sim_as_completed(fs, timeout=None):
    pending = list(fs)
    if not any(isinstance(f, SimFuture) for f in pending):
        yield from _real_as_completed(pending, timeout)
        return
    while pending:
        done = [f for f in pending if f.ticket in f.core.answers]
        for f in done:
            pending.remove(f)
            yield f
        if pending and not done:
            if not pending[0].core.step():
                pending[0].core.wait(pending[0].ticket)


class SimExecutor:
    """Simulated concurrent.futures.ProcessPoolExecutor."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), **kw):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._core = Core(max_workers, initializer, initargs, "executor")
        self._core.ref = weakref.ref(self)

    def submit(self, fn, /, *args, **kwargs):
        return SimFuture(self._core, self._core.submit(fn, [(args, kwargs)]))

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        core = self._core
        calls = [(args, {}) for args in zip(*iterables)]
        parts = list(_chunks(calls, chunksize))
        tickets = [core.submit(fn, part) for part in parts]

        def results():
            todo = list(zip(tickets, parts))
            try:
                while todo:
                    ticket, part = todo[0]
                    ok, value = core.wait(ticket)
                    todo.pop(0)
                    if not ok:
                        core.fail([c[0] for c in part], value)
                        raise value
                    core.record([c[0] for c in part], value)
                    yield from value
            finally:
                for ticket, _ in todo:
                    core.cancel(ticket)
        return results()

    def shutdown(self, wait=True, *, cancel_futures=False):
        core = self._core
        if core.released:
            return
        if cancel_futures:
            for q in list(core.queue):
                core.cancel(q[0])
        if not core.broken:
            core.drain()
        core.release()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False


class SimAsyncResult:
    def __init__(self, pool, tickets, parts, single, callback=None, error_callback=None):
        self.pool, self.tickets, self.parts, self.single = pool, tickets, parts, single
        self.callback, self.error_callback = callback, error_callback

    def get(self, timeout=None):
        # Pool.map: the first exception is raised once every chunk is back
        core = self.pool._core
        out, error = [], None
        for ticket, part in zip(self.tickets, self.parts):
            ok, value = core.wait(ticket)
            if not ok:
                core.fail([c[0] for c in part], value)
                error = error or value
            else:
                core.record([c[0] for c in part], value)
                out.extend(value)
        if error is not None:
            raise error
        return out[0] if self.single else out

    def wait(self, timeout=None):
        for t in self.tickets:
            self.pool._core.wait(t)

    def ready(self):
        self.pool._core.step()
        return all(t in self.pool._core.answers for t in self.tickets)

    def successful(self):
        return all(self.pool._core.answers[t][0] for t in self.tickets)


class SimPool:
    """Simulated multiprocessing.Pool."""

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        self._core = Core(processes, initializer, initargs, "pool")
        self._core.ref = weakref.ref(self)

    def _map(self, fn, calls, chunksize, single=False):
        core = self._core
        calls = list(calls)
        if chunksize is None:
            lo = core.cfg.get("chunk")
            if lo:
                chunksize = lo
            else:
                chunksize, extra = divmod(len(calls), core.asked * 4)
                if extra:
                    chunksize += 1
        parts = list(_chunks(calls, max(1, chunksize)))
        return SimAsyncResult(self, [core.submit(fn, p) for p in parts], parts, single)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, [((x,), {}) for x in iterable], chunksize)

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, [(tuple(x), {}) for x in iterable], chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._map(func, [(tuple(args), dict(kwds))], 1, single=True)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        parts = [self._map(func, [((x,), {})], 1) for x in iterable]

        def results():
            for p in parts:
                yield p.get()[0]
        return results()

    def imap_unordered(self, func, iterable, chunksize=1):
        parts = [self._map(func, [((x,), {})], 1) for x in iterable]

        def results():
            todo = list(parts)
            while todo:
                done = [p for p in todo if all(t in self._core.answers for t in p.tickets)]
                for p in done:
                    todo.remove(p)
                    yield p.get()[0]
                if todo and not done and not self._core.step():
                    yield todo.pop(0).get()[0]
        return results()

    def close(self):
        self._core.state["closed"] = True

    def terminate(self):
        self._core.queue = []
        self._core.release()

    def join(self):
        if not (self._core.state.get("closed") or self._core.released):
            raise ValueError("Pool is still running")
        self._core.drain()
        self._core.release()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def leaks(cores=None):
    """Pools whose workers were neither released nor garbage collected."""
    import gc
    cores = hub.pools if cores is None else cores
    for c in cores:             # exceptions hold the frames that hold the pool
        c.answers.clear()
        c.ready = []
    gc.collect()
    return [c.kind for c in cores
            if not c.released and not c.state.get("closed") and c.ref() is not None]


def stop_all():
    for c in hub.pools:
        c.stop()


_real_as_completed = concurrent.futures.as_completed


def _make_pool(*a, **kw):
    return SimPool(*a, **kw) if hub.active else _real_Pool(*a, **kw)


def _make_executor(*a, **kw):
    return SimExecutor(*a, **kw) if hub.active else _real_Executor(*a, **kw)


def install():
    multiprocessing.Pool = _make_pool
    multiprocessing.pool.Pool = _make_pool
    multiprocessing.context.BaseContext.Pool = lambda self, *a, **kw: _make_pool(*a, **kw)
    concurrent.futures.ProcessPoolExecutor = _make_executor
    cfp.ProcessPoolExecutor = _make_executor
    concurrent.futures.as_completed = _sim_as_completed
    _ = types
