"""Parallel fits as JSON programs: run them under a schedule, describe what came out."""
import json
import os
import random

import numpy as np

from . import boot, figs, fits, pool
from .act import attempt
from .gen import pick
from .hub import hub


def make(rng, finite=0.1, iters=(1, 2), n_free=(1, 3), kind=None):
    kind = kind or pick(rng, "PM", "PM", "PO")
    spec = fits.make_spec(rng, kind, finite=finite, n_free=n_free)
    return {"spec": spec, "seed": rng.randrange(10**6), "popsize": pick(rng, 1, 2, 2, 3),
            "mutation": pick(rng, [0.5, 1], [0.5, 1], 0.7), "recombination": pick(rng, 0.7, 0.9, 0.3),
            "iters": rng.randint(*iters)}


CLOCKS = ("steady", "steady", "back", "jump", "stall", "mixed")


def schedule(rng, faults=None):
    cpu = pick(rng, [8, 16], [8, 16], [1, 1], [1, 2], [2, 4], [3, 3], [None, 4], [None, None])
    return {"percent": pick(rng, 100, 100, 60, 34, 5, 200), "num_cpu": pick(rng, None, None, None, 1, 2, 5),
            "cpu": cpu, "clock": pick(rng, *CLOCKS), "pool": {
                "seed": rng.randrange(10**6), "max_workers": pick(rng, 1, 2, 3, 4, 6),
                "in_order": rng.random() < 0.2, "eager": rng.random() < 0.4,
                "chunk": pick(rng, None, None, 1, 2, 5), "faults": faults or []}}


PLAIN = {"percent": 100, "num_cpu": 1, "cpu": [1, 1], "clock": "steady",
         "pool": {"seed": 0, "max_workers": 1, "in_order": True}}


def clock_script(kind, seed):
    if kind == "steady":
        return None
    rng = random.Random("clock/%s" % seed)
    step = {"back": lambda: -rng.uniform(0, 3600), "jump": lambda: rng.uniform(0, 1e6),
            "stall": lambda: 0.0,
            "mixed": lambda: rng.choice([0.0, -86400.0, 3.2e7, 0.01, -1e-3])}[kind]
    return step


def encode(x):
    """Parameters with any keys and numpy scalars -> plain values."""
    if isinstance(x, dict):
        return {"__map__": [[encode(k), encode(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return [encode(v) for v in x]
    if isinstance(x, np.ndarray):
        return [encode(v) for v in x.tolist()]
    if isinstance(x, np.generic):
        return x.item()
    return x


def plain_of(x):
    """encode() undone: dictionaries."""
    if isinstance(x, dict) and "__map__" in x:
        return {k: plain_of(v) for k, v in x["__map__"]}
    if isinstance(x, list):
        return [plain_of(v) for v in x]
    return x


def vector(args):
    """The candidate among the arguments of an evaluation."""
    for a in args:
        if isinstance(a, (np.ndarray, list, tuple)):
            v = np.asarray(a, dtype=object)
            if v.ndim == 1 and all(isinstance(i, (float, np.floating)) for i in v):
                return [float(i) for i in v]
            if isinstance(a, (list, tuple)):
                found = vector(a)
                if found is not None:
                    return found
    return None


def run(program, sch, folder=".", inputs=None, fault=None):
    """One fit -> description of its outcome."""
    spec = program["spec"]
    hub.pool_cfg = sch["pool"]
    hub.cpu = dict(zip(("physical", "logical"), sch["cpu"]))
    hub.clock_script = clock_script(sch["clock"], sch["pool"]["seed"])
    hub.de_iter = program["iters"]
    first = len(hub.pools)
    ours = inputs or (fits.decode(spec["params" if spec["kind"] == "PM" else "member"]),
                      fits.decode(spec["bounds"]), fits.data_dict(spec))
    before = set(os.listdir(folder))
    struck = dict(hub.fired_kinds)
    figs.start()
    mut = program["mutation"]
    kw = {"normalized_data": spec["normalized"], "popsize": program["popsize"],
          "mutation": tuple(mut) if isinstance(mut, list) else mut,
          "recombination": program["recombination"], "percent_workers": sch["percent"],
          "num_cpu": sch["num_cpu"]}
    if "filename" in program:
        kw["filename"] = program["filename"]
    np.random.seed(program["seed"])
    module = boot.PM if spec["kind"] == "PM" else boot.PO
    r = attempt(lambda: module.fit_admr_parallel(*ours, **kw), fault)
    hub.pool_cfg, hub.clock_script = None, None
    cores = hub.pools[first:]
    records = [(vector(a), v) for c in cores for a, v in c.records]
    out = {"ok": r.ok, "error": r.error, "sheets": figs.stop(),
           "new": sorted(set(os.listdir(folder)) - before),
           "n_pools": len(cores), "fired": r.fired, "late": sum(c.late for c in cores),
           "leaks": pool.leaks(cores), "hit": sorted(k for k, n in hub.fired_kinds.items() if n != struck.get(k, 0)), "lost": [bool(getattr(c, "lost", False)) for c in cores],
           "kinds": [c.kind for c in cores],
           "records": [[x, float(v)] for x, v in records
                       if x is not None and isinstance(v, (float, np.floating))],
           "failed": [[vector(a), e] for c in cores for a, e in c.failed],
           "unread": sum(x is None for x, _ in records),
           "history": [[t, w] for c in cores for t, w in c.history]}
    out["made"] = {}
    for name in out["new"]:
        if name.endswith(".json"):
            try:
                with open(os.path.join(folder, name)) as f:
                    out["made"][name] = json.load(f)
            except (OSError, ValueError) as e:
                out["made"][name] = "unreadable: %s" % e
    if r.ok:
        v = r.value
        if spec["kind"] == "PM":
            out["params"] = encode(v.params_dict)
            out["curves"] = {str(T): {"rzz": np.array(v.rzz_sim_dict[T]),
                                      "rhozz": np.array(v.rhozz_sim_dict[T])} for T in spec["Ts"]}
        else:
            out["params"] = encode(v)
            out["curves"] = {}
    return out, (r.value if r.ok else None)


def values(spec, params):
    """The values of the free parameters found in a returned parameter set, per T and band."""
    p = plain_of(params)
    out = []
    for T, band, name in fits.labels(spec):
        if spec["kind"] == "PM":
            places = [(t, p[t]) for t in (spec["Ts"] if T == "all" else [T])]
            here = [(t, bb[band]) for t, bb in places]
        else:
            here = [(None, p)]
        got = []
        for _, m in here:
            for d in (m, m["band_params"], m["scattering_params"]):
                if name in d:
                    got.append(d[name])
                    break
        out.append(got)
    return out


def serial(args):
    """Reference: the same fit, candidates one at a time in one fresh process."""
    fits.write_files(args["spec"])
    out, _ = run(args, PLAIN)
    return out


def same_params(a, b):
    return plain_of(a) == plain_of(b)
