"""Generators shared by the properties: settings, operations, faults."""


def pick(rng, *xs):
    return xs[rng.randrange(len(xs))]


def num(rng, lo, hi, digits=3):
    return round(rng.uniform(lo, hi), digits)


def param_value(rng, key, zero=0.15):
    if key == "mu":
        return num(rng, -1.3, -0.5)
    if key == "t":
        return pick(rng, 1, 1.0, 0.9, 1.1)
    if rng.random() < zero and key != "tz":
        return pick(rng, 0, 0.0)
    return {"tp": num(rng, -0.2, 0.05), "tpp": num(rng, 0, 0.1),
            "tz": num(rng, 0.03, 0.12)}[key]


def band_spec(rng, march=None, models=("full", "simple", "hole"), name="band_1"):
    model = models[rng.randrange(len(models))]
    keys = ["t", "tp", "tz", "mu"] + (["tpp"] if model == "full" else [])
    a = pick(rng, 3.75, 3.75, 3.9)
    b = a if rng.random() < 0.65 else a + 0.1
    return {"model": model, "a": a, "b": b, "c": pick(rng, 13.2, 13.2, 12.0),
            "energy_scale": pick(rng, 100, 160, 190.0),
            "band_params": {k: param_value(rng, k) for k in keys},
            "resolution": [pick(rng, 5, 7), pick(rng, 5, 7), pick(rng, 3, 5)],
            "k_max": pick(rng, [1, 1, 2], [1, 1, 2], [1, 1, 1]),
            "number_of_bz": pick(rng, 1, 1, 1, 2),
            "march_square": rng.random() < 0.4 if march is None else march,
            "band_name": name}


MODELS = [["isotropic"], ["isotropic", "cos2phi"], ["isotropic", "cos2phi_coskz"],
          ["isotropic", "sin2phi"], ["isotropic", "cos2phi", "sin2phi"], ["cos2phi", "isotropic"]]
SP_KEYS = ["gamma_0", "gamma_k", "power", "power_z", "gamma_k_sin", "power_sin", "gamma_dos_max"]


def sp_value(rng, key):
    if key == "gamma_0":
        return num(rng, 8, 20)
    if key == "gamma_dos_max":
        return num(rng, 5, 20)
    if key.startswith("gamma"):
        return pick(rng, 0, num(rng, 5, 60), num(rng, 5, 60))
    return pick(rng, 1, 2, 6, num(rng, 1, 12))


def scattering_params(rng):
    return {k: sp_value(rng, k) for k in SP_KEYS}


def cond_spec(rng, finite=0.25, zero_field=0.12):
    field = 0 if rng.random() < zero_field else pick(rng, 5, 20, 45, 45.0)
    return {"Bamp": field, "Bphi": pick(rng, 0, 15, 45, 30.5), "Btheta": pick(rng, 0, 20, 75, 90),
            "N_time": pick(rng, 40, 60, 80), "rtol": pick(rng, 1e-4, 1e-5), "atol": 1e-4,
            "T": pick(rng, 4.2, 25, 100) if rng.random() < finite else 0,
            "dfdE_cut_percent": pick(rng, 0.001, 0.01, 0.1), "N_epsilon": pick(rng, 2, 3, 4),
            "scattering_models": list(pick(rng, *MODELS)),
            "scattering_params": scattering_params(rng)}


COND_SETTINGS = ["Bamp", "Bphi", "Btheta", "N_time", "rtol", "atol", "T", "dfdE_cut_percent",
                 "N_epsilon", "scattering_models", "scattering_params"]


def cond_setting(rng, name, state=None):
    if name == "Bamp":
        return pick(rng, 0, 5, 20, 30, 45)
    if name == "Bphi":
        return pick(rng, 0, 10, 45, 60.5, 90)
    if name == "Btheta":
        return pick(rng, 0, 35, 60, 80, 110)
    if name == "N_time":
        return pick(rng, 30, 50, 70, 90)
    if name in ("rtol", "atol"):
        return pick(rng, 1e-3, 1e-4, 1e-6)
    if name == "T":
        return pick(rng, 0, 0, 0, 4.2, 25, 60)
    if name == "dfdE_cut_percent":
        return pick(rng, 0.001, 0.02, 0.2)
    if name == "N_epsilon":
        return pick(rng, 2, 3, 4, 5)
    if name == "scattering_models":
        return list(pick(rng, *MODELS))
    params = scattering_params(rng)
    if rng.random() < 0.15:         # some are not given any more
        for key in rng.sample(SP_KEYS[1:], rng.choice([1, 2, 6])):
            del params[key]
    return params


QUERIES = ["tau", "tau_eps", "extremes", "omegac", "move", "move_eps", "chambers", "sigma_eps",
           "B_vector", "dfdE", "phi", "energy", "mass", "dos", "perkz", "doping"]

FIGURES = ["figParameters", "figScatteringColor", "figScatteringPhi", "figOnekft", "figOnevft",
           "figCumulativevft", "figdfdE"]
BAND_FIGURES = ["figDiscretizeFS2D", "figDiscretizeFS3D", "figMultipleFS2D"]


def change_cond(rng, c):
    """An operation changing one setting of computation c."""
    if rng.random() < 0.25:
        key = pick(rng, *SP_KEYS)
        return ["sattr", c, key, sp_value(rng, key)]
    name = pick(rng, *COND_SETTINGS)
    return ["cset", c, name, cond_setting(rng, name)]


def change_param(rng, b, spec):
    """An operation changing one parameter of band b."""
    if rng.random() < 0.2:
        return ["set", b, "energy_scale", pick(rng, 100, 130, 160, 190), "attr"]
    key = pick(rng, *sorted(spec["band_params"]))
    return ["set", b, key, param_value(rng, key), pick(rng, "item", "method", "dict")]


def surface_change(rng, b, eps=0):
    what = pick(rng, "march_square", "resolution", "number_of_bz", "abc", "k_max")
    if what == "march_square":
        ch = {"march_square": rng.random() < 0.5}
    elif what == "resolution":
        ch = {"resolution": [pick(rng, 5, 7, 9), pick(rng, 5, 7), pick(rng, 3, 5, 7)]}
    elif what == "number_of_bz":
        ch = {"number_of_bz": pick(rng, 1, 2)}
    elif what == "k_max":
        ch = {"number_of_bz": pick(rng, 1, 2)}
    else:
        a = pick(rng, 3.7, 3.8)
        ch = {"a": a, "b": pick(rng, a, a + 0.05), "c": pick(rng, 13.0, 13.3)}
    return ["surface", b, ch, eps]


FAULT_EXC = ["KeyboardInterrupt", "MemoryError", "RuntimeError", "FloatingPointError"]
# "line": any line of the package outside the integrator, "kernel_out": kernels outside of it
SITES = ("kernel", "kernel", "odeint_cb", "odeint", "marching", "contour")
ALL_SITES = SITES + ("kernel_out", "kernel_out", "line", "line", "line")


def kernel_fault(rng, sites=ALL_SITES):
    site = pick(rng, *sites)
    n = {"kernel": pick(rng, 1, 2, 3, 4, 5, rng.randint(1, 60)),
         "odeint_cb": pick(rng, 1, 2, rng.randint(1, 40), rng.randint(1, 200)),
         "odeint": pick(rng, 1, 1, 2, 3, 4), "marching": pick(rng, 1, 2, 3, 4, 5, 6),
         "contour": pick(rng, 1, 2, 3, rng.randint(1, 20)), "inv": pick(rng, 1, 2, 3),
         "kernel_out": pick(rng, 1, 2, 3, rng.randint(1, 20)),
         "line": pick(rng, rng.randint(1, 60), rng.randint(1, 200), rng.randint(1, 900))}[site]
    exc = pick(rng, *FAULT_EXC)
    if site == "inv" and rng.random() < 0.5:
        exc = "LinAlgError"
    return {"site": site, "n": n, "exc": exc}
