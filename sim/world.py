"""Programs over bands, computations and sweeps, and the model of their settings.

A program is a list of operations (JSON).  The world performs each one on real
objects and, in parallel, on plain settings dictionaries.  Whatever the objects
report is logged together with the settings under which it has to hold; the
judge asks the oracles what a fresh computation with those settings reports.
"""
import contextlib
import copy
import io
import os
import pickle

import numpy as np

from . import oracles
from .boot import ADMR, Conductivity, bandstructure
from .hub import StepBudget, SimDeadlock, TooBig, hub


def clone(x):
    return copy.deepcopy(x)


class Band:
    def __init__(self, obj, spec):
        self.obj = obj
        self.spec = spec          # settings of the model
        self.eps = None           # energy of the current surface, None if absent
        self.last_eps = None      # last requested energy
        self.maybe = False        # after a failed discretisation: may be absent
        self.alt_eps = None       # energy of a failed discretisation
        self.grids = []           # grids n and p may belong to
        self.filled = False       # is the filling there for certain?
        self.level = False        # cells of an interrupted sweep may have left it at 0

    def forget(self):
        self.level = self.filled = False
        self.eps = None
        self.grids = []
        self.alt_eps = None

    def copy(self, obj):
        b = Band(obj, clone(self.spec))
        b.eps, b.last_eps, b.maybe = self.eps, self.last_eps, self.maybe
        b.alt_eps, b.grids, b.level = self.alt_eps, list(self.grids), self.level
        b.filled = self.filled
        return b


class Cond:
    def __init__(self, obj, spec, band):
        self.obj, self.spec, self.band = obj, spec, band


class Sweep:
    def __init__(self, obj, conds, phis, thetas, norm):
        self.obj, self.conds = obj, conds
        self.phis, self.thetas, self.norm = phis, thetas, norm
        self.done = False


class World:
    def __init__(self):
        self.bands, self.conds, self.sweeps = [], [], []
        self.log = []
        self.pos = -1

    # -- performing -----------------------------------------------------------
    def attempt(self, func, fault=None):
        """-> (ok, value or exception name, fault fired)"""
        if fault:
            hub.arm(fault)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                out = True, func()
        except (StepBudget, SimDeadlock, TooBig):
            raise
        except BaseException as e:      # noqa: BLE001
            out = False, type(e).__name__ + ": " + str(e)[:200]
        fired = hub.disarm() if fault else None
        return out[0], out[1], fired

    def record(self, what, **kw):
        kw.update(what=what, pos=self.pos)
        self.log.append(kw)
        hub.note(what, self.pos)

    def run(self, ops):
        for self.pos, op in enumerate(ops):
            self.do(op)

    def do(self, op):
        fault = None
        if isinstance(op, dict):
            fault, op = op["fault"], op["op"]
        getattr(self, "op_" + op[0])(*op[1:], fault=fault)

    # -- bands ------------------------------------------------------------------
    def op_band(self, spec, fault=None):
        ok, obj, _ = self.attempt(lambda: oracles.make_band(spec))
        if not ok:
            self.record("error", op="band", error=obj)
            obj = None
        self.bands.append(Band(obj, clone(spec)))

    def op_set(self, b, key, val, route, fault=None):
        """A band parameter (or the energy scale) by one of the public routes."""
        band = self.bands[b]
        obj = band.obj

        def act():
            if key == "energy_scale":
                obj.energy_scale = val
            elif route == "item":
                obj[key] = val
            elif route == "method":
                obj.set_band_param(key, val)
            elif route == "dict":
                obj.band_params = dict(clone(band.spec["band_params"]), **{key: val})
        ok, err, _ = self.attempt(act)
        if key == "energy_scale":
            band.spec["energy_scale"] = val
        else:
            band.spec["band_params"][key] = val
        band.forget()
        band.maybe = False
        if not ok:
            self.record("error", op="set", error=err)

    def op_surface(self, b, changes, eps, fault=None):
        """Settings of the discretisation, always followed by a new surface."""
        band = self.bands[b]
        for k, v in changes.items():
            band.spec[k] = clone(v)
            setattr(band.obj, k, clone(v))
        band.forget()
        self.op_runband(b, eps)

    def op_runband(self, b, eps, only_surface=False, fault=None):
        band = self.bands[b]
        if only_surface:
            ok, err, fired = self.attempt(
                lambda: band.obj.discretize_fermi_surface(epsilon=eps), fault)
        else:
            ok, err, fired = self.attempt(lambda: band.obj.runBandStructure(epsilon=eps), fault)
        if ok:
            band.eps = band.last_eps = eps
            band.maybe, band.alt_eps, band.level = False, None, False
            if not only_surface:
                band.filled = True
                band.grids = [[10 * r for r in band.spec["resolution"]]]
            if fired:
                self.record("swallowed", op="runband", fault=fired)
        else:
            band.maybe, band.alt_eps, band.filled = True, eps, False
            if not only_surface:
                band.grids.append([10 * r for r in band.spec["resolution"]])
            if not fired:
                self.record("failed", op="runband", error=err, oracle="fermi",
                            args={"band": clone(band.spec), "eps": eps})
            else:
                self.record("interrupted", op="runband", fault=fired, error=err)

    def op_erase(self, b, fault=None):
        band = self.bands[b]
        self.attempt(band.obj.erase_Fermi_surface)
        band.forget()
        band.maybe = False

    def op_doping(self, b, how, grid, fault=None):
        band = self.bands[b]
        f = {"doping": band.obj.doping, "filling": band.obj.filling,
             "module": lambda *grid: bandstructure.doping([band.obj]),
             "update_filling": band.obj.update_filling}[how]
        ok, val, fired = self.attempt(lambda: f(*grid) if grid else f(), fault)
        band.filled = ok
        if not ok:
            band.grids.append(grid)
            if not fired:
                self.record("failed", op=how, error=val, oracle="filling",
                            args={"band": clone(band.spec), "grid": grid})
            return
        band.grids = [grid]
        self.record("value", op=how, value=val, pick="p" if how in ("doping", "module") else "n",
                    oracle="filling", args={"band": clone(band.spec), "grid": grid})

    def op_mass(self, b, fault=None):
        self.attempt(self.bands[b].obj.mass_func, fault)

    def op_dos(self, b, fault=None):
        self.attempt(self.bands[b].obj.dos_epsilon_func, fault)

    def op_perkz(self, b, fault=None):
        self.attempt(lambda: self.bands[b].obj.doping_per_kz(11, 11, 5), fault)

    def op_fixdoping(self, b, target, ptol, how="method", fault=None):
        band = self.bands[b]
        if how == "method":
            def act():
                band.obj.set_mu_to_doping(target, ptol=ptol)
        else:
            def act():
                bandstructure.set_mu_to_doping([band.obj], target, ptol=ptol)
        before = band.spec["band_params"]["mu"]
        ok, err, fired = self.attempt(act, fault)
        mu = band.obj["mu"]
        mu = None if mu is None else float(mu)
        self.record("fixdoping", ok=ok, error=None if ok else err, fired=fired, mu=mu,
                    before=before, target=target, ptol=ptol, band=clone(band.spec))
        if mu is not None:
            band.spec["band_params"]["mu"] = mu
        band.forget()
        band.maybe = False
        # n and p may be there again if they were computed for this mu
        band.grids = [None]

    def op_snapshot(self, b, fault=None):
        """Everything the band exposes, against what its settings demand."""
        band = self.bands[b]
        obj = band.obj
        shown = {}
        for name in oracles.FS:
            v = getattr(obj, name)
            shown[name] = None if v is None else np.array(v)
        shown["points"] = [int(x) for x in obj.number_of_points_per_kz_list]
        for name in ("mass", "dos_epsilon", "n", "p"):
            v = getattr(obj, name)
            shown[name] = None if v is None else float(v)
        back = {}
        for k in band.spec["band_params"]:
            back[k] = [obj[k], obj.get_band_param(k), obj.band_params.get(k)]
        self.record("snapshot", shown=shown, back=back, scale=obj.energy_scale,
                    band=clone(band.spec), eps=band.eps, alt=band.alt_eps,
                    last=band.last_eps, maybe=band.maybe, grids=clone(band.grids))

    # -- computations -------------------------------------------------------------
    def op_cond(self, b, spec, fault=None):
        ok, obj, _ = self.attempt(lambda: oracles.make_cond(spec, self.bands[b].obj))
        if not ok:
            self.record("error", op="cond", error=obj)
            return
        band = self.bands[b].copy(obj.bandObject)
        self.bands.append(band)
        self.conds.append(Cond(obj, clone(spec), len(self.bands) - 1))

    def op_cset(self, c, name, val, fault=None):
        """A setting of the computation."""
        cond = self.conds[c]

        def act():
            if name == "scattering_models":
                cond.obj.scattering_models = list(val)
            else:
                setattr(cond.obj, name, clone(val))
        ok, err, _ = self.attempt(act)
        cond.spec[name] = clone(val)
        if not ok:
            self.record("error", op="cset " + name, error=err)

    def op_sattr(self, c, name, val, fault=None):
        """One scattering parameter, set as an attribute."""
        cond = self.conds[c]
        if name in cond.spec["scattering_params"]:
            setattr(cond.obj, name, val)
            cond.spec["scattering_params"][name] = val

    def op_query(self, c, kind, fault=None):
        """Derived quantities: must not change what later runs report."""
        cond = self.conds[c]
        o, bo = cond.obj, cond.obj.bandObject
        k = np.linspace(-0.5, 0.5, 7)

        def act():
            if kind == "tau":
                o.tau_tot_func(k, k, k, k, k, k)
            elif kind == "tau_eps":
                o.tau_tot_func(k, k, k, k, k, k, 3.0)
            elif kind == "extremes":
                o.tau_total_max(), o.tau_total_min()
            elif kind == "omegac":
                o.omegac_tau_func()
            elif kind == "move":
                o.reset_time()
                o.solve_movement()
                o.t_o_tau_func()
            elif kind == "move_eps":
                o.t_o_tau_func(2.0)
            elif kind == "chambers":
                o.chambers_func()
            elif kind == "sigma_eps":
                o.sigma_epsilon(bo.dos_k, bo.dkf, o.kft, o.vft, o.t_o_tau)
            elif kind == "B_vector":
                o.B_vector = [1, 2, 3]
            elif kind == "dfdE":
                o.dfdE(1.0), o.energyCutOff(0.01)
            elif kind == "phi":
                o.phi_func(k, k, k)
            elif kind == "energy":
                bo.energy_func(k, k, k), bo.velocity_func(k, k, k)
            elif kind == "mass":
                bo.mass_func()
            elif kind == "dos":
                bo.dos_epsilon_func()
            elif kind == "perkz":
                bo.doping_per_kz(11, 11, 5)
            elif kind == "doping":
                bo.doping(11, 11, 5)
            elif kind.startswith("fig"):
                self.draw(getattr(o, kind), kind)
        self.attempt(act, fault)

    FIGURE_ARGS = {"figScatteringColor": {"mesh_xy": 41}, "figScatteringPhi": {"mesh_xy": 41},
                   "figOnekft": {"meshXY": 41}, "figDiscretizeFS2D": {"meshXY": 41},
                   "figParameters": {"fig_show": False},
                   "figADMR": {"fig_show": False, "fig_save": False}}

    def draw(self, method, kind):
        import matplotlib.pyplot as plt
        try:
            method(**self.FIGURE_ARGS.get(kind, {}))
            hub.event(kind)
        finally:
            plt.close("all")

    def op_bandfig(self, b, kind, fault=None):
        """A figure of the band: shows it, and changes nothing of it but the filling it updates."""
        band = self.bands[b]
        ok, _, _ = self.attempt(lambda: self.draw(getattr(band.obj, kind), kind), fault)
        if kind == "figMultipleFS2D":
            if ok:
                band.grids, band.filled = [None], True
            else:
                band.grids.append(None)

    def op_figadmr(self, s, fault=None):
        self.attempt(lambda: self.draw(self.sweeps[s].obj.figADMR, "figADMR"), fault)

    def op_copy(self, c, how, fault=None):
        """The computation is replaced by a copy of itself; the original stays."""
        cond = self.conds[c]

        def act():
            if how == "deepcopy":
                return copy.deepcopy(cond.obj)
            if how == "pickle":
                return pickle.loads(pickle.dumps(cond.obj))
            return oracles.make_cond(cond.spec, cond.obj.bandObject)
        ok, obj, _ = self.attempt(act)
        if not ok:
            self.record("error", op="copy " + how, error=obj)
            return
        band = self.bands[cond.band].copy(obj.bandObject)
        self.bands.append(band)
        self.conds.append(Cond(obj, clone(cond.spec), len(self.bands) - 1))
        # later operations on c act on the copy
        i, j = c, len(self.conds) - 1
        self.conds[i], self.conds[j] = self.conds[j], self.conds[i]
        bi, bj = self.conds[i].band, self.conds[j].band
        self.bands[bi], self.bands[bj] = self.bands[bj], self.bands[bi]
        self.conds[i].band, self.conds[j].band = bj, bi

    def settings(self, c):
        cond = self.conds[c]
        band = self.bands[cond.band]
        return {"band": clone(band.spec), "eps": band.eps, "cond": clone(cond.spec)}

    def op_run(self, c, fault=None):
        cond = self.conds[c]
        band = self.bands[cond.band]
        args = self.settings(c)
        ok, err, fired = self.attempt(cond.obj.runTransport, fault)
        finite = cond.spec["T"] != 0
        if finite:
            args["eps"] = 0          # a finite T run makes its own surfaces
        if ok:
            self.record("run", value=oracles.tensors(cond.obj), args=args, fired=fired,
                        level=band.level and not finite,
                        absent=band.eps is None and not finite)
            if finite:
                band.eps = band.last_eps = 0
                band.maybe, band.alt_eps, band.level = False, None, False
                band.filled = True
                band.grids = [[10 * r for r in band.spec["resolution"]]]
        else:
            self.record("run_failed", error=err, args=args, fired=fired,
                        absent=(band.eps is None or band.maybe or band.level) and not finite)

    # -- sweeps ----------------------------------------------------------------------
    def op_sweep_new(self, conds, phis, thetas, norm, progress, fault=None):
        objs = [self.conds[c].obj for c in conds]

        def act():
            a = ADMR(objs, Btheta_norm=norm, Bphi_array=list(phis), show_progress=progress)
            a.Btheta_array = np.array(thetas)
            return a
        ok, obj, _ = self.attempt(act)
        if not ok:
            self.record("error", op="sweep_new", error=obj)
            return
        self.sweeps.append(Sweep(obj, list(conds), list(phis), list(thetas), norm))

    def op_sweep_range(self, conds, phis, lo, hi, step, norm, progress, fault=None):
        """The angle grid given as minimum, maximum and step."""
        objs = [self.conds[c].obj for c in conds]
        ok, obj, _ = self.attempt(lambda: ADMR(objs, Btheta_min=lo, Btheta_max=hi,
                                               Btheta_step=step, Btheta_norm=norm,
                                               Bphi_array=list(phis), show_progress=progress))
        if not ok:
            self.record("error", op="sweep_new", error=obj)
            return
        thetas = [lo + i * step for i in range(int(round((hi - lo) / step)) + 1)]
        self.sweeps.append(Sweep(obj, list(conds), list(phis), thetas, norm))

    def op_grid(self, s, phis, thetas, norm, fault=None):
        sw = self.sweeps[s]
        if phis is not None:
            sw.obj.Bphi_array = np.array(phis)
            sw.phis = list(phis)
        if thetas is not None:
            sw.obj.Btheta_array = np.array(thetas)
            sw.thetas = list(thetas)
        if norm is not None:
            sw.obj.Btheta_norm = norm
            sw.norm = norm

    def op_sweep(self, s, fault=None):
        sw = self.sweeps[s]
        absent = any(self.bands[self.conds[c].band].eps is None
                     and self.conds[c].spec["T"] == 0 for c in sw.conds)
        level = any(self.bands[self.conds[c].band].level
                    and self.conds[c].spec["T"] == 0 for c in sw.conds)
        maybe = level or any(self.bands[self.conds[c].band].maybe
                    and self.conds[c].spec["T"] == 0 for c in sw.conds)
        nofill = any(not self.bands[self.conds[c].band].filled
                     and self.conds[c].spec["T"] == 0 for c in sw.conds)
        parts = []
        for c in sw.conds:
            st = self.settings(c)
            if st["cond"]["T"] != 0:
                st["eps"] = 0
            parts.append(st)
        args = {"parts": parts, "phis": [float(x) for x in sw.phis],
                "thetas": [float(x) for x in sw.thetas], "norm": sw.norm}
        was = [float(sw.obj.total_filling), float(sw.obj.total_hole_doping)]
        ok, err, fired = self.attempt(sw.obj.runADMR, fault)
        if ok:
            for c in sw.conds:
                cond = self.conds[c]
                band = self.bands[cond.band]
                cond.spec["Bphi"], cond.spec["Btheta"] = float(sw.phis[-1]), float(sw.thetas[-1])
                if cond.spec["T"] != 0:
                    band.eps = band.last_eps = 0
                    band.maybe = band.level = False
                    band.filled = True
                    band.grids = [[10 * r for r in band.spec["resolution"]]]
            sw.done = True
            sw.map = np.array(sw.obj.rhozz_array)
            sw.state = self.used(sw)
            fills = []
            for c in sw.conds:
                band = self.bands[self.conds[c].band]
                fills.append({"band": clone(band.spec), "grids": clone(band.grids)})
            self.record("sweep", args=args, fired=fired, absent=absent, level=level,
                        rhozz=np.array(sw.obj.rhozz_array), rzz=np.array(sw.obj.rzz_array),
                        filling=float(sw.obj.total_filling), fills=fills,
                        hole=float(sw.obj.total_hole_doping))
        else:
            if nofill and not fired or fired and fired["site"] == "line":
                # it stopped at the totals: the field may have reached the last angle
                for c in sw.conds:
                    cond = self.conds[c]
                    now = float(cond.obj.Bphi), float(cond.obj.Btheta)
                    if now == (float(sw.phis[-1]), float(sw.thetas[-1])):
                        cond.spec["Bphi"], cond.spec["Btheta"] = now
            for c in sw.conds:
                if self.conds[c].spec["T"] != 0:
                    self.bands[self.conds[c].band].level = True
            maps = [sw.obj.rhozz_array, sw.obj.rzz_array]
            self.record("sweep_failed", error=err, args=args, fired=fired, totals=[
                            was, [float(sw.obj.total_filling), float(sw.obj.total_hole_doping)]],
                        absent=absent or maybe, nofill=nofill,
                        angles=[[float(self.conds[c].obj.Bphi), float(self.conds[c].obj.Btheta),
                                 float(self.conds[c].spec["Bphi"]),
                                 float(self.conds[c].spec["Btheta"])] for c in sw.conds],
                        maps=[None if m is None else np.array(m) for m in maps])


    def used(self, sw):
        """The settings a written table of this sweep has to show."""
        cond = self.conds[sw.conds[0]]
        band = self.bands[cond.band]
        return clone({"phis": [float(x) for x in sw.phis], "Bamp": cond.spec["Bamp"],
                      "thetas": [float(x) for x in sw.thetas],
                      "energy_scale": band.spec["energy_scale"],
                      "band_params": band.spec["band_params"],
                      "resolution": band.spec["resolution"]})

    def op_table(self, s, folder, filename, fault=None):
        """Writes the table of a sweep (only when it still describes the settings)."""
        sw = self.sweeps[s]
        if not sw.done or self.used(sw) != sw.state:
            return
        if folder:
            os.makedirs(folder, exist_ok=True)
        before = self.listing()
        ok, err, _ = self.attempt(lambda: sw.obj.fileADMR(folder=folder, filename=filename))
        changed = sorted(k for k, v in self.listing().items() if before.get(k) != v)
        text = None
        if len(changed) == 1:
            with open(changed[0]) as f:
                text = f.read()
        self.record("table", ok=ok, error=None if ok else err, changed=changed, text=text,
                    want=os.path.join(folder, filename) if filename else None, folder=folder,
                    used=clone(sw.state), map=sw.map, doping=float(sw.obj.total_hole_doping),
                    name=self.attempt(sw.obj.file_name_func)[1])

    @staticmethod
    def listing():
        out = {}
        for folder, _, names in os.walk("."):
            for name in names:
                path = os.path.normpath(os.path.join(folder, name))
                st = os.stat(path)
                out[path] = (st.st_ino, st.st_mtime_ns, st.st_size)
        return out


_ = Conductivity


# -- judging ---------------------------------------------------------------------------
def bad(kind, entry, detail):
    return {"kind": kind, "pos": entry["pos"], "detail": detail}


def judge_run(e, oracle, out, prefix=""):
    """A completed run against a fresh computation with the same settings."""
    if e["level"]:
        # the completed cells of an interrupted finite-T sweep are completed runs
        at_level = oracle("transport", dict(e["args"], eps=0))
        if "void" in at_level or "error" not in at_level and all(
                oracles.same(e["value"][name], v) for name, v in at_level.items()):
            return
    want = oracle("transport", e["args"])
    if "void" in want:
        return
    if e["absent"]:
        out.append(bad(prefix + "run-without-surface", e,
                       "runTransport delivered although the Fermi surface is absent"))
        return
    if "error" in want:
        # a fresh computation cannot deliver: neither may this one report numbers
        out.append(bad(prefix + "run-beyond-fresh", e,
                       "delivered where a fresh computation raises " + want["error"]))
        return
    for name, v in want.items():
        if not oracles.same(e["value"][name], v):
            out.append(bad(prefix + "run-" + name, e, "%s is %s, a fresh computation with the "
                           "same settings gives %s" % (name, oracles.show(e["value"][name]),
                                                       oracles.show(v))))
            return


def judge_failed(e, oracle, out, prefix=""):
    """A run that raised although no fault struck it."""
    if e["absent"] or e["fired"]:
        return
    want = oracle("transport", e["args"])
    if "error" in want or "void" in want:
        return
    out.append(bad(prefix + "run-raises", e, "raised %s where a fresh computation delivers"
                   % e["error"]))


def judge_sweep(e, oracle, out, prefix="", tol=1e-6):
    if e["level"]:
        return
    want = oracle("sweep", e["args"])
    if "void" in want or "error" in want:
        return
    if e["absent"]:
        out.append(bad(prefix + "sweep-without-surface", e, "a sweep delivered without surface"))
        return
    for name in ("rhozz", "rzz"):
        if not oracles.same(e[name], want[name], tol):
            out.append(bad(prefix + "sweep-" + name, e, "%s map %s, cells on their own give %s"
                           % (name, oracles.show(e[name]), oracles.show(want[name]))))
            return


def judge_sweep_failed(e, oracle, out, prefix=""):
    # (without the filling of every band a sweep cannot state the total one)
    if e["absent"] or e["fired"] or e["nofill"]:
        return
    want = oracle("sweep", e["args"])
    if "error" in want or "void" in want:
        return
    out.append(bad(prefix + "sweep-raises", e, "raised %s although every cell can be computed"
                   % e["error"]))


def judge_common(e, oracle, out):
    """What every program demands: no error without a reason, none swallowed."""
    w = e["what"]
    if w == "error":
        out.append(bad("error", e, "%s raised %s" % (e["op"], e["error"])))
    elif w == "failed":
        want = oracle(e["oracle"], e["args"])
        if "error" not in want and "void" not in want:
            out.append(bad("raises", e, "%s raised %s where a fresh band does not"
                           % (e["op"], e["error"])))
