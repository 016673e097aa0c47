"""C04: each cell of an angular sweep equals a stand-alone run at that field angle."""
from .. import gen
from ..oracles import TABLE
from ..world import (World, bad, judge_common, judge_failed, judge_run, judge_sweep,
                     judge_sweep_failed)

ID = "C04"
RUNS = {"quick": 420, "thorough": 6000}
ORACLES = TABLE
RULE = ("Random histories of sweeps over one to three bands: grids, normalisation angles, "
        "settings and parameters change in between, single runs are made in between, and some "
        "sweeps are interrupted at a seeded kernel call.")


def grid(rng):
    phis = rng.sample([0, 15, 30.5, 45, 80, 90, 105, 135, 180, -45], rng.choice([1, 1, 2, 3]))
    if rng.random() < 0.7:
        phis = sorted(phis)
    n = rng.choice([1, 2, 2, 3, 4])
    thetas = sorted(rng.sample([0, 10, 25.5, 40, 65, 90, 105, 115, 140, 180, -25.5], n))
    if rng.random() < 0.2:
        rng.shuffle(thetas)
    return phis, thetas


def generate(rng, tier):
    nb = rng.choice([1, 1, 2, 2, 3])
    ops, specs = [], []
    finite = rng.choice([0, 0, 0.3])
    first = gen.cond_spec(rng, finite=finite)
    for i in range(nb):
        spec = gen.band_spec(rng, name="band_%d" % i)
        specs.append(spec)
        cs = gen.cond_spec(rng, finite=finite) if rng.random() < 0.5 else dict(first)
        ops += [["band", spec], ["runband", 2 * i, 0], ["cond", 2 * i, cs]]
    conds = list(range(nb))
    if rng.random() < 0.3:
        lo = rng.choice([0, 10])
        step = rng.choice([20, 35])
        lo, hi = lo, lo + step * rng.choice([1, 2])
        if rng.random() < 0.25:
            lo, hi, step = hi, lo, -step
        ops.append(["sweep_range", conds, grid(rng)[0][:2], lo, hi, step, rng.choice([0, 20]),
                    False])
    else:
        phis, thetas = grid(rng)
        ops.append(["sweep_new", conds, phis, thetas, rng.choice([0, 0, 30, 90]),
                    rng.random() < 0.3])
    if nb > 1 and rng.random() < 0.3:
        phis, thetas = grid(rng)
        ops.append(["sweep_new", conds[:1], phis, thetas, 0, False])
    ns = sum(op[0].startswith("sweep_") for op in ops)
    for _ in range(rng.randint(1, 5)):
        i = rng.randrange(nb)
        k = rng.choice(["cset", "cset", "param", "grid", "norm", "run", "fault", "angle", "query", "figure"])
        if k == "cset":
            ops.append(gen.change_cond(rng, i))
        elif k == "param":
            ops += [gen.change_param(rng, 2 * i + 1, specs[i]), ["runband", 2 * i + 1, 0]]
        elif k == "grid":
            phis, thetas = grid(rng)
            ops.append(["grid", rng.randrange(ns), phis if rng.random() < 0.6 else None,
                        thetas if rng.random() < 0.6 else None, None])
        elif k == "norm":
            ops.append(["grid", rng.randrange(ns), None, None, rng.choice([0, 15, 45, 90])])
        elif k == "run":
            ops.append(["run", i])
        elif k == "angle":
            ops.append(["cset", i, rng.choice(["Bphi", "Btheta"]), rng.choice([5, 33, 77])])
        elif k == "query":
            ops.append(["query", i, rng.choice(gen.QUERIES)])
        elif k == "figure":
            if rng.random() < 0.5:
                ops.append(["figadmr", rng.randrange(ns)])
            else:
                ops.append(["query", i, rng.choice(gen.FIGURES)])
        else:
            ops.append({"op": ["sweep", rng.randrange(ns)], "fault": gen.kernel_fault(rng)})
        if rng.random() < 0.5:
            ops.append(["sweep", rng.randrange(ns)])
    ops.append(["sweep", 0])
    return {"ops": ops}


def execute(program):
    w = World()
    w.run(program["ops"])
    sweeps = [e for e in w.log if e["what"] == "sweep"]
    return {"log": w.log, "measure": {
        "sweeps": len(sweeps), "cells": sum(e["rhozz"].size for e in sweeps),
        "interrupted": sum(e["what"] == "sweep_failed" and bool(e["fired"]) for e in w.log),
        "shape": [op[0] if isinstance(op, list) else [op["op"][0], op["fault"]["site"]]
                  for op in program["ops"]] + [[len(e["args"]["phis"]), len(e["args"]["thetas"])]
                                               for e in sweeps]}}


def judge(program, obs, oracle):
    out = []
    for e in obs["log"]:
        what = e["what"]
        if what == "sweep" and not e["fired"]:
            shape = (len(e["args"]["phis"]), len(e["args"]["thetas"]))
            for name in ("rhozz", "rzz"):
                if e[name].shape != shape:
                    out.append(bad("shape", e, "%s map has shape %s, the angle grid %s"
                                   % (name, e[name].shape, shape)))
                    break
            else:
                judge_sweep(e, oracle, out)
        elif what == "sweep_failed":
            judge_sweep_failed(e, oracle, out)
        elif what == "run":
            judge_run(e, oracle, out)
        elif what == "run_failed":
            judge_failed(e, oracle, out)
        else:
            judge_common(e, oracle, out)
    return out


def nontrivial(program, measure):
    """At least two completed sweeps, or one after an interrupted one."""
    return measure["sweeps"] >= 2 or (measure["sweeps"] and measure["interrupted"])
