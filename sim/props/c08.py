"""C08: a parallel fit gives the same answer under every worker schedule."""
import copy

import numpy as np

from .. import fits, pfit
from ..oracles import TABLE, same

ID = "C08"
RUNS = {"quick": 200, "thorough": 3200}
RULE = ("Both parallel fits under random schedules of simulated worker processes (how many, which "
        "takes which candidate, when each answers, how fast), reported processor counts and "
        "clocks; the reference is the same fit with its candidates one at a time in a fresh "
        "process.")
SHAPE = "module, free parameters, and the assignment of every candidate to a worker"
REAL = ("the whole package, scipy's differential_evolution, pickling of functions, candidates and "
        "results, worker memory (real forked processes), matplotlib figures")
STUB = ("ProcessPoolExecutor/Pool scheduling (one worker runs at a time, order decided by the "
        "seed), clock, processor count, numba JIT off, PDF rendering, doping grids scaled down")
ORACLES = dict(TABLE, serial=pfit.serial)


def generate(rng, tier):
    program = pfit.make(rng, iters=(1, 2) if tier == "quick" else (1, 4))
    if rng.random() < 0.3:
        program["filename"] = "best"
    program["schedules"] = [pfit.schedule(rng) for _ in range(rng.choice([1, 1, 2]))]
    return program


def execute(program):
    fits.write_files(program["spec"])
    log = [pfit.run(program, s)[0] for s in program["schedules"]]
    return {"log": log, "measure": {
        "fits": len(log), "evaluations": sum(len(e["records"]) for e in log),
        "workers": max(len({w for _, w in e["history"]}) for e in log),
        "shape": [program["spec"]["kind"], fits.labels(program["spec"])]
        + [e["history"] for e in log]}}


def by_candidate(records):
    return sorted(records)


def judge(program, obs, oracle):
    args = {k: program[k] for k in program if k != "schedules"}
    want = oracle("serial", args)
    if "void" in want:
        return []
    if "error" in want and "ok" not in want:
        return [{"kind": "reference", "detail": "the fit one at a time: " + want["error"]}]
    out = []
    for i, got in enumerate(obs["log"]):
        out += differences(program, i, got, want)
    if not out:
        out = samples(program, want, oracle)
    return out


def differences(program, i, got, want):
    here = "fit %d (schedule %s)" % (i, program["schedules"][i]["pool"])
    if got["ok"] != want["ok"]:
        return [{"kind": "ends", "detail": "%s: %s, one at a time: %s"
                 % (here, got["error"] or "returned", want["error"] or "returned")}]
    if not want["ok"]:
        return []
    if not pfit.same_params(got["params"], want["params"]):
        return [{"kind": "answer", "detail": "%s: returned other parameters: %s, one at a time %s"
                 % (here, pfit.values(program["spec"], got["params"]),
                    pfit.values(program["spec"], want["params"]))}]
    for T in want["curves"]:
        for k in ("rzz", "rhozz"):
            if not same(got["curves"][T][k], want["curves"][T][k], 1e-12):
                return [{"kind": "curves", "detail": "%s: other %s curves at T=%s"
                         % (here, k, T)}]
    a, b = by_candidate(got["records"]), by_candidate(want["records"])
    if [x for x, _ in a] != [x for x, _ in b]:
        return [{"kind": "candidates", "detail": "%s: explored other candidates (%d, one at a "
                 "time %d)" % (here, len(a), len(b))}]
    for (x, f), (_, g) in zip(a, b):
        if not same(f, g, 1e-12):
            return [{"kind": "misfit", "detail": "%s: candidate %s got misfit %r, one at a time "
                     "%r" % (here, x, f, g)}]
    if i == 0:
        if got["new"] != want["new"]:
            return [{"kind": "files", "detail": "%s: files %s, one at a time %s"
                     % (here, got["new"], want["new"])}]
        if got["made"] != want["made"]:
            return [{"kind": "files", "detail": "%s: another content of %s"
                     % (here, sorted(got["made"]))}]
    return []


def samples(program, want, oracle):
    """Misfits of some of the candidates, from scratch."""
    if not want["ok"]:
        return []
    recs = [r for r in want["records"] if np.isfinite(r[1])]
    best = min(recs, key=lambda r: r[1], default=None)
    for x, f in [r for r in (recs[-1:] + [best]) if r]:
        ref = fits.expected(program["spec"], x, oracle)
        if "value" in ref and not fits.agrees(f, ref):
            return [{"kind": "misfit", "detail": "candidate %s: misfit %r, from scratch %r"
                     % (x, f, ref["value"])}]
    return []


def nontrivial(program, measure):
    """At least two workers took candidates, or two fits ran."""
    return measure["workers"] >= 2 or measure["fits"] >= 2


def reductions(program):
    if len(program["schedules"]) > 1:
        for s in program["schedules"]:
            yield dict(program, schedules=[s])
    if program["iters"] > 1:
        yield dict(program, iters=1)
    for i, s in enumerate(program["schedules"]):
        for change in ({"clock": "steady"}, {"num_cpu": 2}, {"percent": 100}, {"cpu": [8, 16]}):
            k, v = next(iter(change.items()))
            if s[k] != v:
                new = copy.deepcopy(program)
                new["schedules"][i][k] = v
                yield new
        if s["pool"]["max_workers"] > 2:
            new = copy.deepcopy(program)
            new["schedules"][i]["pool"]["max_workers"] = 2
            yield new
