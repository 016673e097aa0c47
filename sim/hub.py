"""The simulator's hub: every seam reports here, and the hub decides.

One hub exists per simulated process.  It owns the simulated clock, the counters
of fault points, the armed fault, the event log digest and (when there are
simulated threads) the hook of the thread scheduler.  While ``active`` is False
every seam is transparent.
"""
import ast
import dis
import hashlib
import os
import sys


class StepBudget(BaseException):
    """The run used more simulated steps than it may: no progress."""


class SimDeadlock(BaseException):
    """Nothing is runnable any more although somebody waits."""


class TooBig(BaseException):
    """A grid far beyond the sizes a simulated run may use: run is void."""


EXC = {
    "KeyboardInterrupt": lambda: KeyboardInterrupt("injected"),
    "MemoryError": lambda: MemoryError("injected"),
    "RuntimeError": lambda: RuntimeError("injected"),
    "FloatingPointError": lambda: FloatingPointError("injected"),
    "ValueError": lambda: ValueError("injected"),
    "OSError": lambda: OSError(5, "injected"),
    "TypeError": lambda: TypeError("injected"),
    "StopIteration": lambda: StopIteration("injected"),
    "SystemExit": lambda: SystemExit(3),
    "LinAlgError": lambda: __import__("numpy").linalg.LinAlgError("injected"),
}


_with_cache = {}


def _with_lines(code):
    """Line numbers of with statements and where they are entered."""
    found = _with_cache.get(code)
    if found is None:
        found = _with_cache[code] = {
            i.positions.lineno: i.offset for i in dis.get_instructions(code)
            if i.opname == "BEFORE_WITH"}
    return found


_unguardable = {}


def _cleanup_lines(filename):
    """Lines where no idiom of the language protects a clean-up against an interrupt: the
    ``try:`` itself (after what it is to undo) and the statements of its ``finally`` block."""
    found = _unguardable.get(filename)
    if found is None:
        found = set()
        with open(filename, "rb") as file:
            tree = ast.parse(file.read())
        for node in ast.walk(tree):
            if isinstance(node, ast.Try):
                found.add(node.lineno)
                for last in node.finalbody:
                    found.update(range(last.lineno, last.end_lineno + 1))
        _unguardable[filename] = found
    return found


class Hub:
    package_dir = "/"           # set once the package is imported

    def __init__(self):
        self.reset()

    def reset(self):
        self.active = False
        self.steps = 0
        self.budget = 3_000_000
        self.log = hashlib.sha1()
        self.nlog = 0
        self.count = {}          # events per site since the fault was armed
        self.total = {}          # events per site over the run
        self.fault = None        # {"site":, "n":, "exc":} armed
        self.fired = None        # the fault that fired last
        self.fired_kinds = {}
        self.clock = 1.7e9
        self.clock_script = None  # callable advancing the clock
        self.clock_reads = 0
        self.switch = None       # scheduler hook: called at every event
        self.cpu = {"physical": 8, "logical": 16}
        self.uuid_n = 0
        self.pool_cfg = None     # configuration of the simulated pools
        self.pools = []
        self.de_iter = 1
        self.nfev = None         # cap for lmfit
        self.lm_scale = False    # scale down the effort of lmfit's global optimisers
        self.lm_results = []
        self.de_results = []
        self.fs = None           # simulated disk (see fs.py)
        self.draw = False        # render the pages of PDF files
        self.tag = 0
        self.integrating = False    # inside the integrator of the trajectories
        self.locks = 0           # locks of the package held

    # -- log ---------------------------------------------------------------
    def note(self, *what):
        self.nlog += 1
        self.log.update(repr(what).encode())

    def digest(self):
        return self.log.hexdigest()

    # -- faults ------------------------------------------------------------
    def arm(self, fault):
        self.fault = dict(fault) if fault else None
        self.fired = None
        self.count = {}
        if self.fault and self.fault["site"] == "line":
            sys.settrace(self._trace)

    def _trace(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(self.package_dir):
            return self._line

    def _line(self, frame, event, arg):
        """A line of the package begins (lines inside the integrator are passed over)."""
        # (a failure inside the handling of another failure is not injected)
        if event == "line" and self.fault is not None and not self.integrating \
                and not self.locks and sys.exc_info()[1] is None \
                and frame.f_lineno not in _cleanup_lines(frame.f_code.co_filename):
            # The end of a with block, which has the line number of its beginning, is no fault
            # point: the interpreter does not guarantee __exit__ for an interrupt right there.
            if frame.f_lasti <= _with_lines(frame.f_code).get(frame.f_lineno, frame.f_lasti):
                self.event("line")
        return self._line

    def disarm(self):
        if sys.gettrace() == self._trace:
            sys.settrace(None)
        fired, self.fault, self.fired = self.fired, None, None
        return fired

    def event(self, site, size=0):
        """A fault point was reached."""
        if not self.active:
            return
        self.steps += 1
        if self.steps > self.budget:
            self.active = False
            raise StepBudget()
        self.total[site] = self.total.get(site, 0) + 1
        n = self.count[site] = self.count.get(site, 0) + 1
        self.note(site)
        f = self.fault
        if f is not None and f["site"] == site and n == f["n"]:
            self.fault = None
            self.fired = f
            kind = f["exc"] + "@" + site
            self.fired_kinds[kind] = self.fired_kinds.get(kind, 0) + 1
            self.note("fault", kind)
            if f["exc"] == "die":
                os._exit(86)
            raise EXC[f["exc"]]()
        if self.switch is not None:
            self.switch()

    # -- clock -------------------------------------------------------------
    def now(self):
        self.clock_reads += 1
        if self.clock_script is not None:
            self.clock += self.clock_script()
        else:
            self.clock += 0.001
        return self.clock


hub = Hub()
