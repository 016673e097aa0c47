"""Fits as JSON specs: building the four evaluators, and an independent model of them."""
import copy
import os
import random

import numpy as np
from numpy import pi

from . import gen, oracles
from .boot import PM, PO, SM, SO
from .gen import num, pick

KINDS = ("PM", "PO", "SO", "SM")


# -- encoding: dictionaries with keys that are not strings --------------------------------
def emap(pairs):
    return {"__map__": [[k, v] for k, v in pairs]}


def decode(x):
    if isinstance(x, dict):
        if "__map__" in x:
            return {k: decode(v) for k, v in x["__map__"]}
        out = {}
        for k, v in x.items():
            if k == "model":
                out["band_model"] = oracles.MODELS[v]
            elif k == "k_max":
                out["k_max"] = [i * pi for i in v]
            else:
                out[k] = decode(v)
        return out
    if isinstance(x, list):
        return [decode(v) for v in x]
    return x


# -- generators --------------------------------------------------------------------------
FREE = {
    "tp": ("band", -0.2, 0.05), "tpp": ("band", 0.0, 0.1), "mu": ("band", -1.2, -0.6),
    "tz": ("band", 0.03, 0.12), "energy_scale": ("top", 100, 190), "Bamp": ("top", 20, 45),
    "c": ("top", 12.0, 13.5), "gamma_0": ("scat", 8, 20), "gamma_k": ("scat", 0, 60),
    "power": ("scat", 1, 12), "gamma_dos_max": ("scat", 0, 20), "T": ("top", 5, 30),
    "gamma_k_sin": ("scat", 0, 40), "a": ("top", 3.7, 3.9),
}


def condition(rng, finite=0.0):
    """Everything one band needs at one temperature."""
    model = pick(rng, "full", "simple")
    keys = ["t", "tp", "tz", "mu"] + (["tpp"] if model == "full" else [])
    band_params = {"t": 1, "tp": num(rng, -0.2, 0.05), "tz": num(rng, 0.04, 0.12),
                   "mu": num(rng, -1.2, -0.6), "tpp": num(rng, 0, 0.1)}
    models = pick(rng, ["isotropic"], ["isotropic", "cos2phi"], ["isotropic", "cos2phi"],
                  ["isotropic", "sin2phi"], ["isotropic", "cos2phi_coskz"])
    return {"band_name": "band_1", "model": model, "a": 3.75, "b": pick(rng, 3.75, 3.75, 3.8),
            "c": pick(rng, 13.2, 12.0), "energy_scale": pick(rng, 120, 160, 190.0),
            "band_params": {k: band_params[k] for k in keys},
            "resolution": [pick(rng, 5, 7), pick(rng, 5, 7), 3], "k_max": [1, 1, 2],
            "number_of_bz": 1, "N_time": pick(rng, 30, 40, 50),
            "rtol": pick(rng, 1e-4, 1e-3), "atol": 1e-4, "Bamp": pick(rng, 20, 30, 45),
            "T": pick(rng, 4.2, 20) if rng.random() < finite else 0,
            "dfdE_cut_percent": pick(rng, 0.01, 0.1), "N_epsilon": 2,
            "scattering_models": models, "scattering_params": gen.scattering_params(rng)}


def table(rng, name, lo, hi):
    """A measured file: columns, sorted angles, an order of the rows."""
    n = rng.randint(5, 12)
    theta = sorted(set(round(rng.uniform(lo - 8, hi + 8), 2) for _ in range(n)) | {0.0})
    cols = 2 + rng.choice([0, 1, 2])
    ct, cr = rng.sample(range(cols), 2)
    base, slope = rng.uniform(1e-5, 5e-5), rng.uniform(-0.3, 0.3)
    columns = []
    for c in range(cols):
        if c == ct:
            columns.append(theta)
        elif c == cr:
            columns.append([float("%.6e" % (base * (1 + slope * (x / 90.0)**2
                                                    + 0.02 * rng.random()))) for x in theta])
        else:
            columns.append([num(rng, -5, 5) for _ in theta])
    rows = list(range(len(theta)))
    how = rng.random()
    if how < 0.4:
        rng.shuffle(rows)
    elif how < 0.55:
        rows.reverse()
    return {"name": name, "columns": columns, "rows": rows, "ct": ct, "cr": cr,
            "sep": pick(rng, "\t", " ", "  "), "comment": rng.random() < 0.6}


def free_names(rng, cond, n, finite=False):
    ok = [k for k in FREE if k not in ("T", "tpp")]
    if "tpp" in cond["band_params"]:
        ok.append("tpp")
    if finite and rng.random() < 0.5:
        ok.append("T")
    # at least one that matters of every kind is likely
    names = rng.sample(sorted(ok), n)
    return names


def bounds_of(rng, name):
    _, lo, hi = FREE[name]
    if name in ("tp",) and rng.random() < 0.3:
        return [0, 0.05]
    mid = rng.uniform(lo, hi)
    if rng.random() < 0.5:
        return [lo, hi]
    lo2, hi2 = round(lo + 0.4 * (mid - lo), 4), round(hi - 0.4 * (hi - mid), 4)
    return [lo2, hi2]


def spec_pm(rng, n_free=(1, 3), n_T=(1, 2), bands=(1, 2), finite=0.1, normalized=None):
    Ts = sorted(rng.sample([4, 6, 12.5, 20, 25, 4.2, 12.75], rng.randint(*n_T)))
    if rng.random() < 0.3:
        Ts.reverse()
    nb = rng.randint(*bands)
    names = ["band_%d" % (i + 1) for i in range(nb)]
    params, bounds, data, files = [], [], [], []
    first = {b: dict(condition(rng, finite), band_name=b) for b in names}
    share, bound_all = {}, {b: {} for b in names}
    for _ in range(rng.randint(*n_free)):
        b = pick(rng, *names)
        share[b, pick(rng, *free_names(rng, first[b], 1))] = rng.random() < 0.5
    for T in Ts:
        here = copy.deepcopy(first)
        mine = {b: {} for b in names}
        for b in names:
            if rng.random() < 0.5:
                here[b]["scattering_params"] = gen.scattering_params(rng)
            if rng.random() < 0.3:
                here[b]["Bamp"] = pick(rng, 20, 35, 45)
            here[b]["T"] = first[b]["T"]
        for (b, name), shared in share.items():
            if shared:
                bound_all[b].setdefault(name, bounds_of(rng, name))
            else:
                mine[b][name] = bounds_of(rng, name)
        params.append([T, here])
        bounds.append([T, {b: v for b, v in mine.items() if v or rng.random() < 0.5}])
        phis = rng.sample([0, 15, 30, 45], rng.choice([1, 1, 2]))
        lo, n = pick(rng, 0, 0, 10, 2.625), rng.randint(2, 3)
        step = pick(rng, 20, 25, 30, 21.25, 27.375)
        norm = pick(rng, 0, 0, lo + step)
        for phi in phis:
            name = "data_T%s_phi%s.dat" % (T, phi)
            hi = lo + n * step
            f = table(rng, name, lo, hi)
            files.append(f)
            lo_i, hi_i = (lo, hi) if rng.random() < 0.7 else (lo, hi - rng.choice([0, 5]))
            data.append([T, phi, [len(files) - 1, f["ct"], f["cr"], lo_i, hi_i, step, norm,
                                  pick(rng, 1, 1e-2, 2.5)]])
    if any(bound_all.values()):
        bounds.insert(rng.randrange(len(bounds) + 1),
                      ["all", {b: v for b, v in bound_all.items() if v}])
    if not any(v for _, bb in bounds for v in bb.values()):
        bounds[0][1].setdefault(names[0], {})["gamma_0"] = [8, 20]
    rng.shuffle(data)
    return {"kind": "PM", "params": emap(params), "bounds": emap(bounds), "data": data,
            "files": files, "Ts": [T for T, _ in bounds if T != "all"],
            "normalized": rng.random() < 0.6 if normalized is None else normalized}


def angles_one(rng):
    # (steps that binary fractions represent exactly: the grids are free of round-off)
    lo, n = pick(rng, 0, 0, 10, 2.625), rng.randint(2, 3)
    step = pick(rng, 20, 25, 30, 21.25, 27.375)
    return {"Btheta_min": lo, "Btheta_max": lo + step * n if rng.random() < 0.7
            else lo + step * n + pick(rng, 5, 7.5),
            "Btheta_step": step}


def spec_one(rng, kind, n_free=(1, 3), finite=0.1, normalized=None, fix=0.15):
    member = condition(rng, finite)
    member.update(angles_one(rng))
    n_T = 1 if kind != "SM" else rng.randint(1, 2)
    Ts = rng.sample([4, 6, 12.5, 20, 25, 4.2, 12.75], n_T)
    other = rng.choice([99, Ts[0] + 0.375])       # measured, but not part of the fit
    names = free_names(rng, member, rng.randint(*n_free))
    member["fixdoping"] = pick(rng, 0.15, 0.24) if rng.random() < fix else -2
    member["data_p"] = 0.24
    phis = sorted(rng.sample([0, 15, 30, 45, 60], rng.choice([2, 3])))
    member["Bphi_array"] = phis
    bounds = {n: bounds_of(rng, n) for n in names}
    if kind == "SM":
        member["data_T"] = Ts
        if rng.random() < 0.6:
            member["scattering_params"] = emap([T, gen.scattering_params(rng)] for T in Ts)
        if rng.random() < 0.3:
            member["Bamp"] = emap([T, pick(rng, 20, 30, 45)] for T in Ts)
        if len(Ts) > 1:
            for n in names:
                if FREE[n][0] == "scat" and rng.random() < 0.5:
                    bounds[n] = emap([T, bounds_of(rng, n)] for T in Ts)
    else:
        member["data_T"] = Ts[0]
    files, data = [], []
    for T in Ts + [other]:
        mine = rng.sample(phis, rng.choice([1, 1, 2]))
        if T == other or rng.random() < 0.2:
            mine.append(77)            # not among the azimuths of the fit
        for phi in mine:
            hi = member["Btheta_max"]
            f = table(rng, "data_T%s_phi%s.dat" % (T, phi), member["Btheta_min"], hi)
            files.append(f)
            cut = pick(rng, 200, 200, hi, hi - member["Btheta_step"] * 0.5)
            data.append([T, phi, [len(files) - 1, f["ct"], f["cr"], cut,
                                  float("%.4e" % rng.uniform(1e-5, 6e-5))]])
    rng.shuffle(data)
    spec = {"kind": kind, "member": member, "bounds": bounds, "data": data, "files": files,
            "Ts": Ts, "normalized": rng.random() < 0.6 if normalized is None else normalized}
    if kind == "SM":
        spec["weight"] = pick(rng, 0, 1, 0.5)
    if kind in ("SO", "SM"):
        spec["method"] = "least_square"
    return spec


def make_spec(rng, kind, **kw):
    if kind == "PM":
        return spec_pm(rng, **kw)
    kw.pop("bands", None)
    kw.pop("n_T", None)
    return spec_one(rng, kind, **kw)


def labels(spec):
    """The free parameters in the order of a candidate vector: (T or None, band, name)."""
    out = []
    if spec["kind"] == "PM":
        for T, bb in spec["bounds"]["__map__"]:
            for band, names in bb.items():
                out += [(T, band, n) for n in names]
    elif spec["kind"] == "PO":
        out = [(None, None, n) for n in sorted(spec["bounds"])]
    else:
        for n, b in spec["bounds"].items():
            if isinstance(b, dict):
                out += [(T, None, n) for T in spec["Ts"]]
            else:
                out.append((None, None, n))
    return out


def bounds_list(spec):
    out = []
    for T, band, n in labels(spec):
        if spec["kind"] == "PM":
            out.append(dict((k, v) for k, v in spec["bounds"]["__map__"])[T][band][n])
        else:
            b = spec["bounds"][n]
            out.append(dict((k, v) for k, v in b["__map__"])[T] if isinstance(b, dict) else b)
    return out


def candidate(rng, spec, zero=0.35):
    x = []
    for lo, hi in bounds_list(spec):
        if lo <= 0 <= hi and rng.random() < zero:
            x.append(0 if rng.random() < 0.3 else 0.0)
        else:
            r = rng.random()
            x.append(float(lo) if r < 0.05 else float(hi) if r < 0.1
                     else round(rng.uniform(lo, hi), 6))
    return x


# -- the files ---------------------------------------------------------------------------
def file_text(f):
    style = f.get("style", {})
    number = repr if style.get("fmt", "r") == "r" else lambda v: "%.17e" % v
    lines = []
    if f["comment"]:
        lines.append("# measured curve")
    for k, r in enumerate(f["rows"]):
        if k == 2 and style.get("blank"):
            lines.append("")
        if k == 3 and style.get("middle"):
            lines.append("# 1 2 3")
        lines.append(f["sep"].join(number(c[r]) for c in f["columns"]) + style.get("tail", ""))
    eol = style.get("eol", "\n")
    return eol.join(lines) + (eol if style.get("last", True) else "")


def write_files(spec, folder="data"):
    os.makedirs(folder, exist_ok=True)
    for f in spec["files"]:
        with open(os.path.join(folder, f["name"]), "w", newline="") as out:
            out.write(file_text(f))


def data_dict(spec, folder="data"):
    out = {}
    for T, phi, entry in spec["data"]:
        out[T, phi] = [os.path.join(folder, spec["files"][entry[0]]["name"])] + list(entry[1:])
    return out


# -- the objects --------------------------------------------------------------------------
def build(spec, folder=".", data="data"):
    d = data_dict(spec, data)
    if spec["kind"] == "PM":
        return PM.Fitness(d, decode(spec["params"]), decode(spec["bounds"]), spec["normalized"])
    kw = {"normalized_data": spec["normalized"], "folder": folder}
    member, bounds = decode(spec["member"]), decode(spec["bounds"])
    if spec["kind"] == "PO":
        return PO.FittingADMRParallel(member, bounds, d, **kw)
    cls = SO if spec["kind"] == "SO" else SM
    obj = cls.FittingADMR(member, bounds, d, method=spec["method"], **kw)
    if "weight" in spec:
        obj.weight_rhozz = spec["weight"]
    return obj


def bare(text):
    return "".join(c for c in text if c.isalnum())


def lm_names(spec, names):
    """Names of the free parameters among those of the optimiser, in the order of labels()."""
    out = []
    for T, _, n in labels(spec):
        mine = [k for k in names if k == n or T is not None and
                bare(k) in (bare(n + str(T)), bare(str(T) + n))]
        if not mine:
            return list(names)          # named otherwise: in the order of declaration
        out.append(mine[0])
    return out


def evaluate(spec, obj, x, free=False):
    """Evaluation of candidate x; free: also when it lies outside the bounds."""
    if spec["kind"] == "PM":
        return float(obj.compute_fitness(None if x is None else np.array(x, dtype=float)))
    if spec["kind"] == "PO":
        return float(obj.compute_diff2(np.array(x, dtype=float)))
    pars = copy.deepcopy(obj.pars)
    for name, v in zip(lm_names(spec, list(pars.keys())), x):
        if free:
            pars[name].set(value=v, min=-np.inf, max=np.inf)
        else:
            pars[name].value = v
    return np.array(obj.compute_diff(pars), dtype=float)


# -- the model -------------------------------------------------------------------------------
def settings(spec, x):
    """-> {T: {band: all its settings}} with candidate x applied (T None: one temperature)."""
    if spec["kind"] == "PM":
        out = {T: copy.deepcopy(bands) for T, bands in spec["params"]["__map__"]}
    else:
        out = {}
        for T in spec["Ts"]:
            m = {}
            for k, v in spec["member"].items():
                if isinstance(v, dict) and "__map__" in v:
                    v = dict((a, b) for a, b in v["__map__"])[T]
                m[k] = copy.deepcopy(v)
            m["data_T"] = T
            out[T] = {m["band_name"]: m}
    if x is None:
        return out
    for (T, band, name), v in zip(labels(spec), x):
        for t in (spec["Ts"] if T in (None, "all") else [T]):
            for b, m in out[t].items():
                if band is not None and b != band:
                    continue
                if name in m:
                    m[name] = v
                elif name in m["band_params"]:
                    m["band_params"][name] = v
                else:
                    m["scattering_params"][name] = v
    return out


def part(m):
    """Settings of one band -> specs of the oracles."""
    band = {k: m[k] for k in ("model", "a", "b", "c", "energy_scale", "band_params",
                              "resolution", "k_max", "number_of_bz", "band_name")}
    band["march_square"] = True
    cond = {k: m[k] for k in ("Bamp", "N_time", "rtol", "atol", "T", "dfdE_cut_percent",
                              "N_epsilon", "scattering_models", "scattering_params")}
    cond["Bphi"], cond["Btheta"] = 0, 0
    fix = m.get("fixdoping", -2)
    return {"band": band, "cond": cond, "fix": fix if -1 <= fix <= 1 else None}


def sorted_curve(f, ct, cr):
    theta = np.array(f["columns"][ct], dtype=float)[f["rows"]]
    rho = np.array(f["columns"][cr], dtype=float)[f["rows"]]
    i = np.argsort(theta)
    return theta[i], rho[i]


def measured(spec):
    """-> {T: phis, thetas, norm, rzz, rhozz, rho0} by an independent loader."""
    out = {}
    for T in spec["Ts"]:
        entries = [(phi, e) for t, phi, e in spec["data"] if t == T]
        if spec["kind"] == "PM":
            lo = min(e[3] for _, e in entries)
            hi = max(e[4] for _, e in entries)
            step = min(e[5] for _, e in entries)
            thetas = np.linspace(lo, hi, int((hi - lo) / step))
            norm = entries[-1][1][6]
        else:
            m = spec["member"]
            entries = sorted((x for x in entries if x[0] in m["Bphi_array"]), key=lambda x: x[0])
            n = int((m["Btheta_max"] + m["Btheta_step"] - m["Btheta_min"])
                    / m["Btheta_step"] - 1e-6) + 1
            thetas = m["Btheta_min"] + m["Btheta_step"] * np.arange(n)
            thetas = thetas[thetas < m["Btheta_max"] + m["Btheta_step"] * (1 - 1e-6)]
            thetas = thetas[thetas <= min(e[3] for _, e in entries)]
            norm = 0
        rzz, rho, rho0 = [], [], []
        for phi, e in entries:
            t, r = sorted_curve(spec["files"][e[0]], e[1], e[2])
            r_i = np.interp(thetas, t, r)
            rel = r_i / np.interp(norm, t, r)
            rzz.append(rel)
            rho.append(r_i * e[7] if spec["kind"] == "PM" else rel * e[4])
            rho0.append(None if spec["kind"] == "PM" else e[4])
        out[T] = {"phis": [float(p) for p, _ in entries], "thetas": thetas, "norm": norm,
                  "rzz": np.array(rzz), "rhozz": np.array(rho), "rho0": rho0}
    return out


def curves_args(spec, x, data=None):
    """Arguments of the oracle `curves` for each temperature."""
    data = data or measured(spec)
    st = settings(spec, x)
    out = {}
    for T in spec["Ts"]:
        out[T] = {"parts": [part(m) for m in st[T].values()], "phis": data[T]["phis"],
                  "thetas": [float(t) for t in data[T]["thetas"]], "norm": data[T]["norm"]}
    return out


def expected(spec, x, oracle):
    """-> {"value", "scale", "curves"} or {"error"} or {"void"}: a fresh evaluation of x."""
    data = measured(spec)
    args = curves_args(spec, x, data)
    terms, scale, cv = [], 0.0, {}
    for T in spec["Ts"]:
        c = oracle("curves", args[T])
        if "error" in c or "void" in c:
            return c
        cv[T] = c
        if spec["kind"] == "SM" or spec["normalized"]:
            terms.append((data[T]["rzz"] - c["rzz"]).flatten())
            scale = max(scale, np.max(np.abs(data[T]["rzz"])), np.max(np.abs(c["rzz"])))
        if not spec["normalized"]:
            k = 1 if spec["kind"] == "PM" else 1e5
            if spec["kind"] == "SM":
                for i, rho0 in enumerate(data[T]["rho0"]):
                    d = rho0 - np.interp(0, data[T]["thetas"], c["rhozz"][i])
                    terms.append(np.array([spec["weight"] * d * k]))
                    scale = max(scale, spec["weight"] * rho0 * k)
            else:
                terms.append((data[T]["rhozz"] - c["rhozz"]).flatten() * k)
                scale = max(scale, k * np.max(np.abs(data[T]["rhozz"])),
                            k * np.max(np.abs(c["rhozz"])))
    v = np.concatenate(terms)
    if spec["kind"] in ("PM", "PO"):
        return {"value": float(np.sum(v**2)), "scale": scale**2 * v.size, "curves": cv}
    return {"value": v, "scale": scale, "curves": cv}


def agrees(value, want, tol=1e-7):
    a, b = np.asarray(value, dtype=float), np.asarray(want["value"], dtype=float)
    if a.shape != b.shape:
        return False
    if not np.isfinite(b).all():
        return bool((np.isfinite(a) == np.isfinite(b)).all())
    if not np.isfinite(a).all():
        return False
    return bool(np.max(np.abs(a - b)) <= tol * want["scale"])


_ = random
