"""Performing one operation under an armed fault (kernel or disk)."""
import contextlib
import io
import os
import re

from . import fs
from .hub import StepBudget, SimDeadlock, TooBig, hub


SCRATCH = re.compile(r"[^\s'\"]*/verif-sim-\w+/\w+")


class Outcome:
    def __init__(self, ok, value, fired):
        self.ok, self.value, self.fired = ok, value, fired
        self.error = None if ok else value


def attempt(func, fault=None, disk=None, text=None):
    """-> Outcome. fault: armed in the hub; disk: configuration of a simulated disk."""
    if fault:
        hub.arm(fault)
    if disk is not None:
        hub.fs = fs.Disk(os.getcwd(), disk)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            ok, value = True, func()
    except (StepBudget, SimDeadlock, TooBig):
        raise
    except BaseException as e:      # noqa: BLE001
        ok, value = False, type(e).__name__ + ": " + SCRATCH.sub("<run>", str(e))[:300]
    fired = hub.disarm() if fault else None
    if disk is not None:
        add_io(hub.fs)
        fired = hub.fs.fired or fired
        hub.fs = None
    return Outcome(ok, value, fired)


IO = {}


def add_io(disk):
    for k, n in disk.steps.items():
        IO[k] = IO.get(k, 0) + n
