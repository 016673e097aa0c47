"""Puts every source of nondeterminism behind a seam, then imports the package.

Import this module first, before numpy or the package.  Nothing here changes what
a seam returns while ``hub.active`` is False, apart from the numba JIT compiler,
which is switched off (kernels run as the plain Python/numpy functions they are).
"""
import os
import sys
import warnings

os.environ["NUMBA_DISABLE_JIT"] = "1"
os.environ["OPENBLAS_NUM_THREADS"] = "1"
os.environ["OMP_NUM_THREADS"] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
# The same floating-point code paths on every host (as in the repository's test run)
os.environ.setdefault("NPY_DISABLE_CPU_FEATURES",
                      "AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")
warnings.simplefilter("ignore")

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import functools                                           # noqa: E402
import inspect                                             # noqa: E402
import marshal                                             # noqa: E402
import threading                                           # noqa: E402
import time                                                # noqa: E402
import types                                               # noqa: E402
import uuid                                                # noqa: E402

from .hub import TooBig, hub                               # noqa: E402

# --- clock -----------------------------------------------------------------
_real_time = time.time
real_time = time.monotonic


def _sim_time():
    return hub.now() if hub.active else _real_time()


time.time = _sim_time

_real_sleep = time.sleep


def _sim_sleep(seconds):
    if hub.active:
        hub.event("sleep")
        hub.clock += max(0, seconds)
    else:
        _real_sleep(seconds)


time.sleep = _sim_sleep

# --- unique names ------------------------------------------------------------
_real_uuid4 = uuid.uuid4


def _sim_uuid4():
    if hub.active:
        hub.uuid_n += 1
        return uuid.UUID(int=(0xD57 << 100) + (hub.tag << 40) + hub.uuid_n)
    return _real_uuid4()


uuid.uuid4 = _sim_uuid4

# --- locks made by the package ------------------------------------------------
from . import sched                                        # noqa: E402

_real_Lock, _real_RLock = threading.Lock, threading.RLock


def _from_package(depth=2):
    name = sys._getframe(depth).f_globals.get("__name__", "")
    return name.startswith("cuprates_transport")


def _sim_Lock():
    return sched.SimLock(False) if _from_package() else _real_Lock()


def _sim_RLock():
    return sched.SimLock(True) if _from_package() else _real_RLock()


threading.Lock, threading.RLock = _sim_Lock, _sim_RLock

import numpy as np                                         # noqa: E402
import numba                                               # noqa: E402
import scipy.integrate                                     # noqa: E402
import scipy.optimize                                      # noqa: E402
import skimage.measure                                     # noqa: E402
import psutil                                              # noqa: E402

# --- compiled kernels ----------------------------------------------------------
MAX_GRID = 3_000_000
_kernel_globals = None


def _lambdify_globals():
    global _kernel_globals
    if _kernel_globals is None:
        g = {}
        exec("import numpy; from numpy import *; from numpy.linalg import *", g)
        _kernel_globals = g
    return _kernel_globals


def _rebuild_kernel(code, name):
    return Kernel(types.FunctionType(marshal.loads(code), _lambdify_globals(), name))


class Kernel:
    """Stands for the numba dispatcher of a lambdified function."""

    def __init__(self, func):
        self.py_func = func
        self.__name__ = getattr(func, "__name__", "kernel")
        self.__doc__ = getattr(func, "__doc__", None)

    def __call__(self, *args, **kw):
        if hub.active:
            for x in args:
                if getattr(x, "size", 0) > MAX_GRID:
                    raise TooBig(x.size)
            hub.event("kernel")
            if not hub.integrating:
                hub.event("kernel_out")
        return self.py_func(*args, **kw)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        f = self.py_func
        return _rebuild_kernel, (marshal.dumps(f.__code__), f.__name__)


def _sim_jit(*a, **kw):
    if a and callable(a[0]):
        return Kernel(a[0])

    def deco(func):
        return Kernel(func)
    return deco


numba.jit = numba.njit = _sim_jit

# --- sympy: lambdify is a pure function, printing code is slow -----------------------
import sympy                                               # noqa: E402

_real_lambdify = sympy.lambdify
_lambdified = {}


def _memo_lambdify(args, expr, modules=None, *a, **kw):
    try:
        key = (tuple(args), tuple(expr) if isinstance(expr, list) else expr, modules, a,
               tuple(sorted(kw.items())))
        found = _lambdified.get(key)
    except TypeError:
        return _real_lambdify(args, expr, modules, *a, **kw)
    if found is None:
        found = _lambdified[key] = _real_lambdify(args, expr, modules, *a, **kw)
    return types.FunctionType(found.__code__, found.__globals__, found.__name__,
                              found.__defaults__)


sympy.lambdify = _memo_lambdify

# --- numerical kernels: fault points ---------------------------------------------
_real_odeint = scipy.integrate.odeint


def _sim_odeint(func, y0, t, *a, **kw):
    if not hub.active:
        return _real_odeint(func, y0, t, *a, **kw)
    hub.event("odeint")

    def callback(*args):
        hub.event("odeint_cb")
        return func(*args)
    before, hub.integrating = hub.integrating, True
    try:
        return _real_odeint(callback, y0, t, *a, **kw)
    finally:
        hub.integrating = before


scipy.integrate.odeint = _sim_odeint


def _point(module, name, site):
    real = getattr(module, name)

    def wrapper(*a, **kw):
        hub.event(site)
        return real(*a, **kw)
    wrapper.__name__ = name
    wrapper.real = real
    setattr(module, name, wrapper)


_point(skimage.measure, "marching_cubes", "marching")
_point(skimage.measure, "find_contours", "contour")
_point(np.linalg, "inv", "inv")

# --- processors ---------------------------------------------------------------
_real_cpu_count = psutil.cpu_count
_real_os_cpu_count = os.cpu_count


def _sim_cpu_count(logical=True):
    if not hub.active:
        return _real_cpu_count(logical)
    return hub.cpu["logical" if logical else "physical"]


def _sim_os_cpu_count():
    return hub.cpu["logical"] if hub.active else _real_os_cpu_count()


psutil.cpu_count = _sim_cpu_count
os.cpu_count = _sim_os_cpu_count

# --- optimisers: number of steps ------------------------------------------------
_real_de = scipy.optimize.differential_evolution


def _sim_de(func, bounds, *a, **kw):
    if hub.active:
        if hub.lm_scale:
            kw["maxiter"] = hub.de_iter
        kw.setdefault("maxiter", hub.de_iter)
        hub.event("de")
    res = _real_de(func, bounds, *a, **kw)
    if hub.active:
        hub.de_results.append([float(v) for v in res.x])
    return res


scipy.optimize.differential_evolution = _sim_de

# --- pools of worker processes -----------------------------------------------------
from . import pool                                         # noqa: E402
pool.install()

# --- disk ----------------------------------------------------------------------
from . import fs                                           # noqa: E402
fs.install()

import tqdm                                                # noqa: E402
tqdm.tqdm.monitor_interval = 0

import lmfit                                               # noqa: E402
import lmfit.minimizer                                     # noqa: E402

_real_minimize = lmfit.minimizer.Minimizer.minimize


def _watched(fcn, records):
    """The residual function of a fit, with the candidates it gets recorded."""
    def residual(params, *a, **kw):
        x = {k: float(p.value) for k, p in params.items()}
        entry = [x, None, None]
        records.append(entry)
        try:
            value = fcn(params, *a, **kw)
        except BaseException as e:      # noqa: BLE001
            entry[2] = "%s: %s" % (type(e).__name__, str(e)[:200])
            raise
        entry[1] = value.copy() if hasattr(value, "copy") else value
        return value
    return residual


EFFORT = {"shgo": {"n": 20, "iters": 1}, "ampgo": {"totaliter": 1, "maxiter": 1},
          "dual_annealing": {"maxiter": 2}}


def _sim_minimize(self, method="leastsq", params=None, **kws):
    if not hub.active:
        return _real_minimize(self, method=method, params=params, **kws)
    if hub.nfev is not None:
        self.max_nfev = hub.nfev
    if hub.lm_scale:        # less effort of the global optimisers
        self.kws = dict(self.kws, **EFFORT.get(method, {}))
    mine = {"method": method, "records": [], "params": None}
    hub.lm_results.append(mine)
    self.userfcn = _watched(self.userfcn, mine["records"])
    hub.event("minimize")
    out = _real_minimize(self, method=method, params=params, **kws)
    mine.update(aborted=bool(getattr(out, "aborted", False)),
                params={k: float(p.value) for k, p in out.params.items()})
    return out


lmfit.minimizer.Minimizer.minimize = _sim_minimize

import matplotlib                                          # noqa: E402
matplotlib.use("Agg")
import matplotlib.pyplot as plt                            # noqa: E402
from . import figs                                         # noqa: E402
figs.install()
import logging                                             # noqa: E402
logging.getLogger("matplotlib.font_manager").disabled = True

import cuprates_transport                                  # noqa: E402
from cuprates_transport import bandstructure, conductivity, scattering, admr  # noqa: E402,F401
from cuprates_transport import (fitting_admr_parallel_multiT as PM,           # noqa: E402,F401
                                fitting_admr_parallel_oneT as PO,
                                fitting_admr_series_oneT as SO,
                                fitting_admr_series_multi_T as SM)

BandStructure = bandstructure.BandStructure
Conductivity = conductivity.Conductivity
ADMR = admr.ADMR

# --- knobs of the discretisation -----------------------------------------------------
# The doping of a band is by default summed over a 500**3 grid, and the marching
# squares start from a 501**2 grid: simulated runs use small grids instead.
ROUGH = [41]


def _small(r):
    """Large grids are mapped to small ones of different sizes."""
    r = int(r)
    return r if r <= 26 else 15 + (r * 7) % 12


def _capped(func):
    """The method, on a small grid whatever the resolution it is given"""
    signature = inspect.signature(func)

    @functools.wraps(func)
    def method(*a, **kw):
        if not hub.active:
            return func(*a, **kw)
        bound = signature.bind(*a, **kw)
        bound.apply_defaults()
        for name, value in bound.arguments.items():
            if name in ("res_x", "res_y", "res_z"):
                bound.arguments[name] = _small(value)
            elif name == "resolution":
                bound.arguments[name] = [_small(r) for r in value]
        return func(*bound.args, **bound.kwargs)
    return method


for _name, _func in list(vars(BandStructure).items()):
    if (inspect.isfunction(_func) and not _name.startswith("__")
            and {"res_x", "res_y", "res_z", "resolution"} & set(inspect.signature(_func).parameters)):
        setattr(BandStructure, _name, _capped(_func))
_real_band_init = BandStructure.__init__


def _band_init(self, *a, **kw):
    _real_band_init(self, *a, **kw)
    if hub.active:
        self.res_xy_rough = ROUGH[0]


_band_init.__wrapped__ = _real_band_init
BandStructure.__init__ = _band_init

PACKAGE_DIR = os.path.dirname(os.path.realpath(cuprates_transport.__file__))
if not PACKAGE_DIR.startswith(os.path.realpath(REPO)):
    raise SystemExit("the package was imported from " + PACKAGE_DIR)
hub.package_dir = PACKAGE_DIR
