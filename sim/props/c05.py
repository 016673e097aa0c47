"""C05: sweep bookkeeping and written tables describe the sweep that was run."""
import itertools
import os
import re

import numpy as np

from .. import gen
from ..oracles import TABLE, same, show
from ..world import World, bad, judge_common, judge_failed, judge_sweep_failed

ID = "C05"
RUNS = {"quick": 600, "thorough": 9000}
ORACLES = TABLE
RULE = ("Random histories of sweeps over one to three bands, parameter changes, dopings, doping "
        "queries on other grids, interrupted sweeps and table writes (own and default names).")


def angles(rng):
    phis = rng.sample([0, 15, 30.5, 45, 80], rng.choice([1, 1, 2, 3]))
    thetas = sorted(rng.sample([0, 10, 25.5, 40, 65, 90, 105], rng.choice([1, 2, 3])))
    if rng.random() < 0.2:
        rng.shuffle(thetas)
    return phis, thetas


def generate(rng, tier):
    nb = rng.choice([1, 1, 2, 2, 3])
    finite = rng.choice([0, 0, 0.2])
    ops, specs = [], []
    names = rng.random() < 0.7
    for i in range(nb):
        spec = gen.band_spec(rng, name="band_%d" % (i if names else 1))
        if rng.random() < 0.15:
            spec["band_params"]["M"] = rng.choice([0, 0.1, 0.25])
        specs.append(spec)
        ops += [["band", spec], ["runband", 2 * i, 0],
                ["cond", 2 * i, gen.cond_spec(rng, finite=finite)]]
    conds = list(range(nb))
    phis, thetas = angles(rng)
    ops.append(["sweep_new", conds, phis, thetas, rng.choice([0, 30]), rng.random() < 0.3])
    ns = 1
    if nb > 1 and rng.random() < 0.4:
        phis, thetas = angles(rng)
        ops.append(["sweep_new", rng.sample(conds, nb - 1), phis, thetas, 0, False])
        ns = 2
    for _ in range(rng.randint(1, 4 if tier == "quick" else 7)):
        i = rng.randrange(nb)
        b = 2 * i + 1
        k = rng.choice(["param", "param", "cset", "grid", "doping", "fix", "fault", "none", "query",
                        "figure", "surface"])
        s = rng.randrange(ns)
        if k == "param":
            if rng.random() < 0.3 and "M" not in specs[i]["band_params"] or rng.random() < 0.7:
                ops.append(gen.change_param(rng, b, {"band_params": {
                    n: v for n, v in specs[i]["band_params"].items() if n != "M"}}))
            ops.append(["runband", b, rng.choice([0, 0, 1.5])])
        elif k == "cset":
            ops.append(["cset", i, "Bamp", rng.choice([5, 20, 30, 45.5])])
        elif k == "grid":
            phis, thetas = angles(rng)
            ops.append(["grid", s, phis if rng.random() < 0.6 else None,
                        thetas if rng.random() < 0.6 else None, None])
        elif k == "doping":
            ops.append(["doping", b, rng.choice(["doping", "filling", "update_filling"]),
                        rng.choice([[15, 13, 5], [9, 11, 7], [11, 11, 5]])])
        elif k == "fix":
            ops += [["fixdoping", b, rng.choice([0.15, 0.22, 0.3]), 0.02,
                     rng.choice(["method", "function"])], ["runband", b, 0]]
        elif k == "surface":
            # the surface without the filling: no total can be stated until that is known
            ops += [gen.change_param(rng, b, {"band_params": {
                n: v for n, v in specs[i]["band_params"].items() if n != "M"}}),
                ["runband", b, 0, True]]
            if rng.random() < 0.5:
                ops += [["sweep", s], ["doping", b, "update_filling", [11, 9, 5]]]
        elif k == "query":
            ops.append(["query", i, rng.choice(["mass", "dos", "chambers", "extremes", "phi"])])
        elif k == "figure":
            what = rng.random()
            if what < 0.4:
                ops += [["sweep", s], ["figadmr", s], ["table", s, "", None]]
            elif what < 0.7:
                ops.append(["query", i, rng.choice(gen.FIGURES)])
            else:
                ops.append(["bandfig", b, rng.choice(gen.BAND_FIGURES)])
        elif k == "fault":
            ops += [["sweep", s], {"op": ["sweep", s], "fault": gen.kernel_fault(rng)},
                    ["table", s, "", None]]
            continue
        ops.append(["sweep", s])
        if rng.random() < 0.6:
            ops.append(["table", s, rng.choice(["", "out", "out/deep"]),
                        rng.choice([None, None, "table.dat", "other.dat"])])
    ops += [["sweep", 0], ["table", 0, "", None]]
    return {"ops": ops}


def execute(program):
    w = World()
    w.run(program["ops"])
    sweeps = [e for e in w.log if e["what"] == "sweep"]
    return {"log": w.log, "measure": {
        "sweeps": len(sweeps), "tables": sum(e["what"] == "table" for e in w.log),
        "interrupted": sum(e["what"] == "sweep_failed" and bool(e["fired"]) for e in w.log),
        "shape": [op[0] if isinstance(op, list) else [op["op"][0], op["fault"]["site"]]
                  for op in program["ops"]] + [len(e["fills"]) for e in sweeps]}}


def judge_totals(e, oracle, out):
    # (after an interrupted change the filling may be on either grid; where it is not known at
    # all, a sweep that completes has to have computed it)
    choices = []
    for f in e["fills"]:
        found = [oracle("filling", {"band": f["band"], "grid": grid})
                 for grid in (f["grids"] or [None])]
        choices.append([one["n"] for one in found if "n" in one])
        if len(choices[-1]) < len(found):
            return
    totals = [sum(one) for one in itertools.product(*choices)]
    if not any(same(e["filling"], total) for total in totals):
        out.append(bad("filling", e, "total filling %.9g, the fillings of the bands sum to %s"
                       % (e["filling"], " or ".join("%.9g" % total for total in totals))))
    elif not abs(e["hole"] - (1 - e["filling"])) < 1e-6:
        out.append(bad("hole-doping", e, "total hole doping %.9g, one minus the total filling "
                       "is %.9g" % (e["hole"], 1 - e["filling"])))


def judge_table(e, out):
    used = e["used"]
    if not e["ok"]:
        out.append(bad("table-raises", e, "fileADMR raised " + e["error"]))
        return
    if len(e["changed"]) != 1:
        out.append(bad("table-files", e, "fileADMR changed %s" % e["changed"]))
        return
    path = e["changed"][0]
    if e["want"] is not None and os.path.normpath(e["want"]) != path:
        out.append(bad("table-name", e, "written to %s instead of %s" % (path, e["want"])))
        return
    p = "p%.3f" % e["doping"]
    if p == "p-0.000":
        return
    if p not in e["name"] or e["want"] is None and p not in os.path.basename(path):
        out.append(bad("table-doping", e, "the default name %s does not carry %s"
                       % (e["name"], p)))
        return
    lines = e["text"].splitlines()
    header = lines[0].lstrip("# ").rstrip("\t").split("\t")
    try:
        data = np.array([[float(x) for x in line.split()] for line in lines[1:]
                         if not line.startswith("#")])
    except ValueError as err:
        out.append(bad("table-text", e, "cannot be read back: %s" % err))
        return
    thetas, rho = np.array(used["thetas"]), e["map"]
    n = len(used["phis"])
    if data.ndim != 2 or data.shape[0] != len(thetas) or data.shape[1] < 1 + n:
        out.append(bad("table-shape", e, "table of shape %s for %d polar and %d azimuthal angles"
                       % (data.shape, len(thetas), n)))
        return
    if not np.allclose(data[:, 0], thetas, rtol=2e-7, atol=1e-12):
        out.append(bad("table-theta", e, "first column %s, angles %s"
                       % (show(data[:, 0]), show(thetas))))
    for i in range(n):
        if not np.allclose(data[:, 1 + i], rho[i], rtol=2e-7, atol=0, equal_nan=True):
            out.append(bad("table-rho", e, "column of azimuth %s is %s, the sweep gave %s"
                           % (used["phis"][i], show(data[:, 1 + i]), show(rho[i]))))
            return
    named = [re.search(r"phi\s*=\s*([-0-9.eE+]+)", h) for h in header[1:1 + n]]
    if all(named) and not np.allclose([float(m.group(1)) for m in named], used["phis"]):
        out.append(bad("table-phi", e, "header %s for azimuths %s" % (header, used["phis"])))
        return
    want = [("B[T]", used["Bamp"], 1e-6), ("t[meV]", used["energy_scale"], 0.51)]
    want += [(k, v, 5.1e-4) for k, v in sorted(used["band_params"].items()) if k != "t"]
    want += [(k, v, 1e-6) for k, v in zip(("res_x", "res_y", "res_z"), used["resolution"])]
    if len(header) != data.shape[1] or any(k not in header for k, _, _ in want):
        out.append(bad("table-header", e, "header %s for %d columns" % (header, data.shape[1])))
        return
    for k, v, tol in want:
        col = data[:, header.index(k)]
        if not (np.abs(col - v) <= tol * max(1, abs(v))).all():
            out.append(bad("table-" + k, e, "column %s is %s, the sweep used %s"
                           % (k, show(col), v)))
            return


def judge(program, obs, oracle):
    out = []
    for e in obs["log"]:
        what = e["what"]
        if what == "sweep" and not e["fired"]:
            if not e["absent"]:
                judge_totals(e, oracle, out)
        elif what == "sweep_failed":
            judge_sweep_failed(e, oracle, out)
            # (a fault between the lines that store maps and totals comes too late)
            if not (e["fired"] and e["fired"]["site"] == "line") and e["totals"][0] != e["totals"][1]:
                out.append(bad("totals", e, "a failed sweep changed filling and hole doping from "
                               "%s to %s" % tuple(e["totals"])))
        elif what == "table":
            judge_table(e, out)
        elif what == "run_failed":
            judge_failed(e, oracle, out)
        else:
            judge_common(e, oracle, out)
    return out


def nontrivial(program, measure):
    """At least two completed sweeps and one written table were checked."""
    return measure["sweeps"] >= 2 and measure["tables"] >= 1
