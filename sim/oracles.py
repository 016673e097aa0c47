"""Reference computations: freshly created objects in a pristine process."""
import numpy as np
from numpy import pi

from . import boot
from .boot import ADMR, BandStructure, Conductivity

MODELS = {
    "full": ("- mu - 2*t*(cos(a*kx) + cos(b*ky))"
             "- 4*tp*cos(a*kx)*cos(b*ky)"
             "- 2*tpp*(cos(2*a*kx) + cos(2*b*ky))"
             "- 2*tz*(cos(a*kx) - cos(b*ky))**2*cos(a*kx/2)*cos(b*ky/2)*cos(c*kz/2)"),
    "simple": "- mu - 2*t*(cos(a*kx) + cos(b*ky)) - 4*tp*cos(a*kx)*cos(b*ky) - 2*tz*cos(c*kz/2)",
    "hole": "mu + 2*t*(cos(a*kx) + cos(b*ky)) - 4*tp*cos(a*kx)*cos(b*ky) - 2*tz*cos(c*kz/2)",
}

BAND_KEYS = ("a", "b", "c", "energy_scale", "band_params", "band_name", "number_of_bz")
COND_KEYS = ("Bamp", "Bphi", "Btheta", "N_time", "rtol", "atol", "T", "dfdE_cut_percent",
             "N_epsilon", "scattering_models", "scattering_params")


def band_kwargs(spec):
    kw = {k: spec[k] for k in BAND_KEYS}
    kw["band_model"] = MODELS[spec["model"]]
    kw["resolution"] = list(spec["resolution"])
    kw["k_max"] = [x * pi for x in spec["k_max"]]
    return kw


def make_band(spec):
    band = BandStructure(**band_kwargs(spec), parallel=False)
    band.resolution = list(spec["resolution"])
    band.march_square = spec["march_square"]
    return band


def make_cond(spec, band):
    return Conductivity(band, **{k: spec[k] for k in COND_KEYS})


def tensors(cond):
    out = {}
    for name in ("sigma", "alpha", "beta", "gamma_tot_max", "gamma_tot_min"):
        v = getattr(cond, name)
        out[name] = None if v is None else np.array(v, dtype=float)
    return out


def transport(args):
    """args: band spec, eps, cond spec."""
    band = make_band(args["band"])
    if args["eps"] is not None:
        band.runBandStructure(epsilon=args["eps"])
    cond = make_cond(args["cond"], band)
    cond.runTransport()
    return tensors(cond)


FS = ("kf", "vf", "dkf", "dks", "dkz", "dos_k")


def fermi(args):
    """args: band spec, eps -> every quantity of the surface at that energy."""
    band = make_band(args["band"])
    band.discretize_fermi_surface(epsilon=args["eps"])
    out = {}
    for name in FS:
        v = getattr(band, name)
        out[name] = None if v is None else np.array(v)
    out["points"] = [int(x) for x in band.number_of_points_per_kz_list]
    band.dos_epsilon_func()
    out["dos_epsilon"] = band.dos_epsilon
    out["mass"] = None
    if band.dks is not None:
        band.mass_func()
        out["mass"] = band.mass
    return out


def filling(args):
    """args: band spec, grid or None (the default one)."""
    band = make_band(args["band"])
    grid = args["grid"]
    n = band.update_filling(*grid) if grid else band.update_filling()
    return {"n": float(n), "p": float(band.p)}


def sweep(args):
    """Each cell on its own: args: list of (band spec, eps, cond spec), phis, thetas, norm."""
    rho = np.empty((len(args["phis"]), len(args["thetas"])))
    for i, phi in enumerate(args["phis"]):
        for j, theta in enumerate(args["thetas"]):
            total = np.zeros((3, 3))
            for one in args["parts"]:
                spec = dict(one["cond"], Bphi=phi, Btheta=theta)
                total = total + transport(dict(one, cond=spec))["sigma"]
            rho[i, j] = np.linalg.solve(total, np.eye(3))[2, 2]
    rzz = np.empty_like(rho)
    thetas = np.array(args["thetas"])
    order = np.argsort(thetas)
    for i in range(len(rho)):
        rzz[i] = rho[i] / np.interp(args["norm"], thetas[order], rho[i][order])
    return {"rhozz": rho, "rzz": rzz}


def curves(args):
    """Simulated curves: args: list of (band spec, cond spec, doping to fix), phis, thetas, norm."""
    bands = []
    for one in args["parts"]:
        band = make_band(one["band"])
        if one.get("fix") is not None:
            band.set_mu_to_doping(one["fix"])
        band.runBandStructure()
        bands.append(band)
    rho = np.empty((len(args["phis"]), len(args["thetas"])))
    for i, phi in enumerate(args["phis"]):
        for j, theta in enumerate(args["thetas"]):
            total = np.zeros((3, 3))
            for one, band in zip(args["parts"], bands):
                cond = make_cond(dict(one["cond"], Bphi=phi, Btheta=theta), band)
                cond.runTransport()
                total = total + cond.sigma
            rho[i, j] = np.linalg.inv(total)[2, 2]
    rzz = np.empty_like(rho)
    thetas = np.array(args["thetas"])
    order = np.argsort(thetas)
    for i in range(len(rho)):
        rzz[i] = rho[i] / np.interp(args["norm"], thetas[order], rho[i][order])
    return {"rhozz": rho, "rzz": rzz, "mu": [float(b["mu"]) for b in bands]}


TABLE = {"curves": curves, "transport": transport, "fermi": fermi, "filling": filling, "sweep": sweep}


def same(x, y, tol=1e-7):
    """Are two results the same up to round-off?"""
    if x is None or y is None:
        return x is None and y is None
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        return False
    bad_x, bad_y = ~np.isfinite(x), ~np.isfinite(y)
    if (bad_x != bad_y).any():
        return False
    ok = ~bad_y
    if not ok.any():
        return True
    scale = np.max(np.abs(y[ok]))
    return bool(np.max(np.abs(x[ok] - y[ok])) <= tol * scale + 1e-300)


def show(v):
    if v is None:
        return "None"
    v = np.asarray(v)
    if v.size > 12:
        return "array%s sum %.9g" % (v.shape, float(np.nansum(v)))
    return np.array2string(v, precision=9, separator=",").replace("\n", "")


_ = (boot, ADMR)
