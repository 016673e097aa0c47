"""Runs one simulated execution in a process of its own.

``fork_call`` runs a function in a fork of the current (import-only) process, so
that every run and every oracle evaluation starts from the same pristine state.
"""
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from .boot import real_time
from .hub import StepBudget, SimDeadlock, TooBig, hub
from . import act, boot, pool

CPU_LIMIT = 120          # CPU seconds of one simulated process (typical: < 2)
WALL_LIMIT = 600
MEM_LIMIT = 6 << 30
_BASE = [None]


def scratch_base():
    if _BASE[0] is None:
        _BASE[0] = tempfile.mkdtemp(prefix="verif-sim-")
    return _BASE[0]


def remove_scratch():
    if _BASE[0] is not None:
        shutil.rmtree(_BASE[0], ignore_errors=True)
        _BASE[0] = None


def _quiet():
    fd = os.open(os.devnull, os.O_RDWR)
    for i in (0, 1, 2):
        os.dup2(fd, i)
    os.close(fd)
    sys.stdout = open(1, "w", closefd=False)
    sys.stderr = open(2, "w", closefd=False)


def fork_call(func, *args, cpu=CPU_LIMIT, wall=WALL_LIMIT, scratch=True):
    """-> ("ok", value) | ("exc", text) | ("signal", n) | ("exit", n) | ("wall", s)"""
    folder = tempfile.mkdtemp(dir=scratch_base()) if scratch else None
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setsid()
            _quiet()
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if folder:
                os.chdir(folder)
            try:
                out = ("ok", func(*args))
            except BaseException:      # noqa: BLE001
                out = ("exc", traceback.format_exc())
            hub.active = False
            data = pickle.dumps(out)
            while data:
                n = os.write(w, data[:1 << 16])
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = real_time() + wall
    timed_out, status = False, None
    while True:
        if real_time() > end:
            timed_out = True
            _kill_group(pid)
            break
        if select.select([r], [], [], 2.0)[0]:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
            continue
        # a grandchild may hold the pipe open after the child has gone
        done, st = os.waitpid(pid, os.WNOHANG)
        if done:
            status = st
            break
    os.close(r)
    if status is None:
        _, status = os.waitpid(pid, 0)
    _kill_group(pid)
    _cleanup(folder)
    return _outcome(chunks, status, timed_out, wall)


def _kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def _cleanup(folder):
    if folder:
        shutil.rmtree(folder, ignore_errors=True)


def _outcome(chunks, status, timed_out, wall):
    if timed_out:
        return ("wall", wall)
    if os.WIFSIGNALED(status):
        return ("signal", os.WTERMSIG(status))
    data = b"".join(chunks)
    if not data:
        return ("exit", os.WEXITSTATUS(status))
    return pickle.loads(data)


def start(budget=3_000_000):
    hub.reset()
    hub.budget = budget
    hub.active = True


def _execute(prop, program):
    import random
    import numpy as np
    start()
    random.seed(1)
    np.random.seed(1)
    try:
        obs = prop.execute(program)
        end = "done"
    except StepBudget:
        obs, end = {"log": []}, "no progress: step budget exhausted"
    except SimDeadlock as e:
        obs, end = {"log": []}, "deadlock: %s" % e
    except TooBig as e:
        obs, end = {"log": []}, "void"
    hub.active = False
    pool.stop_all()
    import hashlib
    hub.note("outcome", hashlib.sha1(pickle.dumps(obs.get("log"))).hexdigest())
    stats = {"steps": hub.steps, "events": dict(hub.total), "fired": dict(hub.fired_kinds),
             "sim_s": round(hub.clock - 1.7e9, 3), "digest": hub.digest(), "nlog": hub.nlog}
    if hub.fs is not None:
        act.add_io(hub.fs)
    stats["io"] = dict(act.IO)
    return {"obs": obs, "end": end, "stats": stats}


class HarnessError(Exception):
    pass


class Oracle:
    """Evaluates reference computations in pristine forks, once per settings."""

    def __init__(self, table):
        self.table = table
        self.memo = {}
        self.evaluations = 0

    def __call__(self, name, args):
        import json
        key = name + json.dumps(args, sort_keys=True)
        if key not in self.memo:
            self.evaluations += 1
            if len(self.memo) > 4000:
                self.memo.clear()
            out = fork_call(_oracle, self.table[name], args)
            if out[0] == "signal" and out[1] == signal.SIGKILL or out[0] == "wall":
                raise HarnessError("oracle %s: %r" % (name, out))
            if out[0] != "ok":
                out = ("ok", {"error": "process ended: %r" % (out,)})
            self.memo[key] = out[1]
        return self.memo[key]


def _oracle(func, args):
    start(budget=30_000_000)
    import numpy as np
    np.random.seed(1)
    try:
        return func(args)
    except TooBig:
        return {"void": True}
    except Exception as e:      # noqa: BLE001
        return {"error": "%s: %s" % (type(e).__name__, e)}


def run_program(prop, program, oracle):
    """-> (violations, stats). Raises HarnessError when there is no verdict."""
    out = fork_call(_execute, prop, program)
    if out[0] == "ok":
        res = out[1]
        if res["end"] == "void":
            return [], dict(res["stats"], void=1)
        if res["end"] != "done":
            return [{"kind": "progress", "detail": res["end"]}], res["stats"]
        v = prop.judge(program, res["obs"], oracle)
        res["stats"]["measure"] = res["obs"].get("measure")
        res["stats"]["made"] = res["obs"].get("made")
        return v, res["stats"]
    blank = {"steps": 0, "events": {}, "fired": {}, "sim_s": 0.0, "digest": repr(out[:2]), "nlog": 0}
    if out[0] == "exc":
        if "MemoryError" not in out[1] and boot.PACKAGE_DIR in out[1]:
            # the package raised where no operation of the program may
            return [{"kind": "raises", "detail": "unexpected: " + out[1].strip()[-300:]}], blank
        raise HarnessError("the run failed: " + out[1])
    if out[0] == "signal" and out[1] in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE,
                                         signal.SIGBUS, signal.SIGILL):
        return [{"kind": "crash", "detail": "the process died of signal %d" % out[1]}], blank
    if out[0] == "signal" and out[1] == signal.SIGXCPU:
        return [{"kind": "progress", "detail": "no end within %d CPU seconds" % CPU_LIMIT}], blank
    raise HarnessError("the run ended with %r" % (out[:2],))


__all__ = ["fork_call", "run_program", "Oracle", "HarnessError", "start", "time"]


def warm():
    """Fills the caches of the libraries (not of the package) before forking."""
    import gc
    import numpy as np
    import sympy as sp
    from scipy import optimize
    from scipy.constants import hbar, physical_constants
    from scipy.integrate import odeint
    from skimage import measure
    from .oracles import MODELS
    meV = physical_constants["electron volt"][0] * 1e-3
    for model in MODELS.values():
        names = ["kx", "ky", "kz", "a", "b", "c", "mu", "t", "tp", "tpp", "tz"]
        sym = tuple(sp.Symbol(n, real=True) for n in names)
        e = sp.sympify(model)
        v = [sp.diff(e, sp.Symbol(k)) * meV / hbar * 1e-10 for k in ("kx", "ky", "kz")]
        sp.lambdify(sym, e, "numpy")
        sp.lambdify(sym, v, "numpy")
    odeint(lambda y, t: -y, [1.0], [0, 1])
    optimize.brentq(lambda x: x, -1, 1)
    x = np.add.outer(np.linspace(-1, 1, 5), np.linspace(-1, 1, 5)**2)
    measure.find_contours(x, 0.1)
    measure.marching_cubes(np.add.outer(x, np.linspace(-1, 1, 5)), 0.1)
    gc.collect()
    gc.freeze()
