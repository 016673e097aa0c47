"""C03: Fermi-surface data are never stale with respect to the band parameters."""
from .. import gen
from ..oracles import FS, TABLE, same, show
from ..world import World, bad, judge_common

ID = "C03"
RUNS = {"quick": 700, "thorough": 12000}
ORACLES = TABLE
RULE = ("Random programs over one band: parameter changes by every route, energies, "
        "discretisations, dopings, fixing the doping, each possibly struck by a fault at a "
        "seeded kernel call; after every operation all exposed quantities are compared with "
        "those of a fresh band.")


def generate(rng, tier):
    spec = gen.band_spec(rng)
    ops = [["band", spec]]
    b = 0
    if rng.random() < 0.3:      # the band inside a computation
        ops += [["runband", 0, 0], ["cond", 0, gen.cond_spec(rng, finite=0, zero_field=1)]]
        b = 1
    faults = rng.choice([0, 0.3])
    for _ in range(rng.randint(3, 9 if tier == "quick" else 15)):
        k = rng.choice(["set", "set", "set", "runband", "runband", "disc", "doping", "mass",
                        "dos", "fix", "surface", "erase", "perkz", "run", "figure"])
        op = None
        if k == "set":
            ops.append(gen.change_param(rng, b, spec))
            if rng.random() < 0.2:
                key = rng.choice(sorted(spec["band_params"]))
                ops.append(["set", b, key, rng.choice([0, 0.0]), rng.choice(["item", "method",
                                                                             "dict"])])
                ops.append(["snapshot", b])
                ops.append(["set", b, key, gen.param_value(rng, key, 0), "item"])
        elif k == "runband":
            op = ["runband", b, rng.choice([0, 0, 1.5, -4])]
        elif k == "disc":
            op = ["runband", b, rng.choice([0, 1.5, 3]), True]
        elif k == "doping":
            op = ["doping", b, rng.choice(["doping", "filling", "update_filling"]),
                  rng.choice([None, [11, 11, 5], [13, 9, 3]])]
            if rng.random() < 0.15:
                op = ["doping", b, "module", None]
        elif k == "mass":
            op = ["mass", b]
        elif k == "dos":
            op = ["dos", b]
        elif k == "fix":
            op = ["fixdoping", b, rng.choice([0.1, 0.24, 0.5, -0.3, 0.24, 5]),
                  rng.choice([0.001, 0.01]), rng.choice(["method", "method", "function"])]
        elif k == "surface":
            ops.append(gen.surface_change(rng, b, rng.choice([0, 1])))
        elif k == "erase":
            ops.append(["erase", b])
        elif k == "perkz":
            ops.append(["perkz", b])
        elif k == "figure":
            ops.append(["bandfig", b, rng.choice(gen.BAND_FIGURES)])
        elif k == "run" and b == 1:
            ops.append(["run", 0])
        if op:
            if rng.random() < faults and k in ("runband", "disc", "doping", "fix"):
                sites = ("kernel", "kernel", "marching", "contour")
                op = {"op": op, "fault": gen.kernel_fault(
                    rng, sites + (("line",) * 3 if k != "fix" else ()))}
            ops.append(op)
        ops.append(["snapshot", b])
    return {"ops": ops}


def execute(program):
    w = World()
    w.run(program["ops"])
    present = sum(e["what"] == "snapshot" and e["shown"]["kf"] is not None for e in w.log)
    return {"log": w.log, "measure": {
        "present": present, "changes": sum(op[0] in ("set", "fixdoping", "surface")
                                           for op in program["ops"] if isinstance(op, list)),
        "shape": [op[0] if isinstance(op, list) else [op["op"][0], op["fault"]["site"]]
                  for op in program["ops"]]}}


def judge_snapshot(e, oracle, out):
    for k, seen in e["back"].items():
        want = e["band"]["band_params"][k]
        for v in seen:
            if v is None or v != want:
                out.append(bad("read-back", e, "parameter %s reads %r, last set to %r"
                               % (k, v, want)))
                return
    if e["scale"] != e["band"]["energy_scale"]:
        out.append(bad("read-back", e, "energy scale reads %r" % e["scale"]))
    shown = e["shown"]
    present = [n for n in FS + ("mass", "dos_epsilon") if shown[n] is not None]
    energies = []
    for eps in (e["eps"], e["alt"], e["last"], 0):
        if eps is not None and eps not in energies:
            energies.append(eps)
    if e["eps"] is not None and e["alt"] is None:
        energies = [e["eps"]]
    if present or shown["points"]:
        wrong = None
        for eps in energies:
            want = oracle("fermi", {"band": e["band"], "eps": eps})
            if "void" in want:
                return
            if "error" in want:
                wrong = wrong or "%s present, but a fresh band raises %s" % (present, want["error"])
                continue
            bad_ones = [n for n in present if not same(shown[n], want[n])]
            if shown["points"] and shown["points"] != want["points"]:
                bad_ones.append("number_of_points_per_kz_list")
            if not bad_ones:
                wrong = None
                break
            n = bad_ones[0]
            wrong = "%s is %s, not that of the current settings at energy %r (%s)" % (
                n, show(shown.get(n, shown["points"])), eps, show(want.get(n, want["points"])))
        if wrong:
            out.append(bad("stale-surface", e, wrong))
    if e["eps"] is not None and not e["maybe"]:
        for n in ("kf", "vf", "dkf", "dos_k"):
            if shown[n] is None:
                out.append(bad("absent", e, "%s is absent right after a discretisation" % n))
                break
    if shown["n"] is not None or shown["p"] is not None:
        seen = []
        grids = list(e["grids"]) or [None]
        for g in grids:
            want = oracle("filling", {"band": e["band"], "grid": g})
            if "error" in want or "void" in want:
                return
            seen.append(want)
        # (interrupted between the two, they may belong to different grids, both current)
        ok = all(shown[n] is None or any(abs(shown[n] - want[n]) < 1e-9 for want in seen)
                 for n in ("n", "p"))
        if not ok:
            out.append(bad("stale-filling", e, "n=%r p=%r, a fresh band has %r"
                           % (shown["n"], shown["p"], seen)))


def judge(program, obs, oracle):
    out = []
    for e in obs["log"]:
        what = e["what"]
        if what == "snapshot":
            judge_snapshot(e, oracle, out)
        elif what == "value":
            want = oracle(e["oracle"], e["args"])
            if "error" in want or "void" in want:
                continue
            if abs(float(e["value"]) - want[e["pick"]]) > 1e-9:
                out.append(bad("filling", e, "%s returned %r, a fresh band gives %r"
                               % (e["op"], e["value"], want[e["pick"]])))
        elif what == "fixdoping":
            judge_fix(e, oracle, out)
        elif what in ("swallowed",):
            out.append(bad("swallowed", e, "%s ended normally although %s struck" %
                           (e["op"], e["fault"])))
        elif what in ("run", "run_failed", "interrupted"):
            pass
        else:
            judge_common(e, oracle, out)
    return out


def filling_at(oracle, band, mu):
    params = dict(band["band_params"], mu=mu)
    return oracle("filling", {"band": dict(band, band_params=params), "grid": None})


def judge_fix(e, oracle, out):
    lo, hi = [filling_at(oracle, e["band"], mu) for mu in (-10, 10)]
    if any("error" in x or "void" in x for x in (lo, hi)):
        return
    reachable = (lo["p"] - e["target"]) * (hi["p"] - e["target"]) <= 0
    if e["ok"]:
        if e["fired"]:
            out.append(bad("swallowed", e, "fixing the doping hid %s" % e["fired"]))
            return
        if not reachable:
            return
        d = 2 * e["ptol"] + 1e-6
        below, above = [filling_at(oracle, e["band"], e["mu"] + s) for s in (-d, d)]
        x, y = below["p"] - e["target"], above["p"] - e["target"]
        if x * y > 0:
            out.append(bad("doping", e, "mu=%r realises p=%.6f..%.6f, asked for %r"
                           % (e["mu"], below["p"], above["p"], e["target"])))
    elif not e["fired"] and reachable:
        out.append(bad("doping-raises", e, "raised %s although p=%r is reachable"
                       % (e["error"], e["target"])))


def nontrivial(program, measure):
    """A setting changed and some snapshot exposed a surface."""
    return measure["changes"] > 0 and measure["present"] > 0
