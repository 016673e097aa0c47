"""C10: a failing worker ends the fit with an error, promptly and without leaks."""
import copy
import json
import os

from .. import fits, gen, pfit
from ..oracles import TABLE
from . import c08

ID = "C10"
RUNS = {"quick": 200, "thorough": 4200}
RULE = ("Parallel fits in which evaluating some candidate raises or kills its worker, a worker "
        "cannot be started, or the caller is interrupted while it waits; then the same fit "
        "without faults, in the same process.")
SHAPE = "module, free parameters, kind and place of the fault, assignment of the candidates"
REAL, STUB = c08.REAL, c08.STUB
ORACLES = dict(TABLE, serial=pfit.serial)


def fault(rng):
    if rng.random() < 0.15:
        return {"site": "task", "n": 1, "exc": "die"}
    f = gen.kernel_fault(rng, ("kernel", "kernel_out", "odeint", "odeint_cb", "contour", "inv", "line"))
    f["n"] = min(f["n"], 40 if f["site"] != "line" else 400)
    if rng.random() < 0.45:
        f["exc"] = "die"
    elif rng.random() < 0.3:
        f["exc"] = rng.choice(["ValueError", "OSError", "TypeError", "StopIteration",
                               "SystemExit", "LinAlgError"])
    return f


def generate(rng, tier):
    program = pfit.make(rng, iters=(1, 2) if tier == "quick" else (1, 3), n_free=(1, 2))
    if program["spec"]["kind"] == "PO" or rng.random() < 0.3:
        program["filename"] = "best"
    program["before"] = rng.choice([None, "old", "old"])
    runs = []
    for _ in range(rng.choice([1, 1, 2])):
        s = pfit.schedule(rng)
        r = {"schedule": s, "fault": None}
        k = rng.random()
        if k < 0.78:
            for _ in range(rng.choice([1, 1, 1, 2])):
                s["pool"]["faults"].append(dict(fault(rng), task=rng.randrange(12)))
        elif k < 0.88:
            s["pool"]["spawn"] = rng.randint(1, 3)
        else:
            r["fault"] = {"site": "wait", "n": rng.randint(1, 12),
                          "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
        runs.append(r)
    runs.append({"schedule": pfit.schedule(rng), "fault": None})
    program["runs"] = runs
    return program


def execute(program):
    fits.write_files(program["spec"])
    if program["before"]:
        with open("best.json", "w") as f:
            f.write('{"old": 1}')
    log = []
    for r in program["runs"]:
        kept = snapshot()
        e, _ = pfit.run(program, r["schedule"], fault=r["fault"])
        e["sheets"] = len(e["sheets"])
        now = snapshot()
        e["changed"] = sorted(k for k in set(kept) | set(now) if kept.get(k) != now.get(k))
        if "filename" in program and e["ok"] and os.path.exists("best.json"):
            with open("best.json") as f:
                e["made"] = {"best.json": json.load(f)}
        log.append(e)
    return {"log": log, "measure": {
        "fits": len(log), "failed": sum(bool(e["hit"]) for e in log),
        "evaluations": sum(len(e["records"]) for e in log),
        "shape": [program["spec"]["kind"], fits.labels(program["spec"])]
        + [[e["hit"], e["ok"], e["history"]] for e in log]}}


def snapshot():
    out = {}
    for name in os.listdir("."):
        if os.path.isfile(name):
            with open(name, "rb") as f:
                out[name] = f.read()
    return out


def judge(program, obs, oracle):
    args = {k: program[k] for k in program if k not in ("runs", "before")}
    want = oracle("serial", args)
    if "void" in want or "error" in want and "ok" not in want:
        return []
    n = len(fits.labels(program["spec"]))
    for i, e in enumerate(obs["log"]):
        what = "fit %d with %s" % (i, ", ".join(e["hit"]) or "no fault")
        if e["leaks"]:
            return [{"kind": "leak", "detail": "%s: workers of %s were not released"
                     % (what, e["leaks"])}]
        if e["hit"]:
            if e["ok"]:
                return [{"kind": "swallowed", "detail": what + " returned a result"}]
            if e["changed"]:
                return [{"kind": "file", "detail": "%s failed and left %s" % (what, e["changed"])}]
            if e["late"] > max(5, program["popsize"] * n):
                return [{"kind": "late", "detail": "%s: %d more batches after the failure"
                         % (what, e["late"])}]
            continue
        if e["ok"] != want["ok"]:
            return [{"kind": "ends", "detail": "%s: %s, a first fit: %s" % (
                what, e["error"] or "returned", want["error"] or "returned")}]
        if e["ok"]:
            ref = dict(want, new=e["new"])
            if e["made"] and want["made"]:
                ref["made"] = dict(zip(e["made"], want["made"].values()))
            else:
                ref["made"] = e["made"]
            prog = dict(program, schedules=[r["schedule"] for r in program["runs"]])
            v = c08.differences(prog, 0, e, ref)
            if v:
                return v
        elif e["changed"]:
            return [{"kind": "file", "detail": "%s failed and left %s" % (what, e["changed"])}]
    return []


def nontrivial(program, measure):
    """A fault struck in one of the fits."""
    return measure["failed"] > 0


def reductions(program):
    runs = program["runs"]
    for i in range(len(runs)):
        if len(runs) > 1:
            yield dict(program, runs=runs[:i] + runs[i + 1:])
    if program["iters"] > 1:
        yield dict(program, iters=1)
    for i, r in enumerate(runs):
        p = r["schedule"]["pool"]
        for j in range(len(p["faults"])):
            new = copy.deepcopy(program)
            del new["runs"][i]["schedule"]["pool"]["faults"][j]
            yield new
        if p["max_workers"] > 1:
            new = copy.deepcopy(program)
            new["runs"][i]["schedule"]["pool"]["max_workers"] = 1
            yield new
