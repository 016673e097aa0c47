"""C09: a parallel fit returns the best candidate with every free parameter applied."""
import copy

import numpy as np

from .. import fits, pfit
from ..oracles import TABLE, same, show
from . import c08

ID = "C09"
RUNS = {"quick": 240, "thorough": 4000}
RULE = ("Both parallel fits with random free parameters of every kind (band, scattering, "
        "measurement; shared or per temperature; one or two bands) and worker schedules; what is "
        "returned, saved and drawn is compared with the recorded candidates and with simulations "
        "made from scratch.")
SHAPE = "module, free parameters with their sharing, normalisation, number of candidates"
REAL, STUB = c08.REAL, c08.STUB
ORACLES = TABLE


def generate(rng, tier):
    program = pfit.make(rng, iters=(1, 2) if tier == "quick" else (1, 3), n_free=(1, 4),
                        finite=0.15)
    if rng.random() < 0.5:
        program["filename"] = "best"
    program["schedule"] = pfit.schedule(rng)
    program["again"] = rng.random() < 0.3
    if rng.random() < 0.12:         # a parameter that is declared free but may not move
        pin_one(program["spec"], rng)
    return program


def pin_one(spec, rng):
    b = spec["bounds"]
    if spec["kind"] == "PM":
        for _, bands in b["__map__"]:
            for names in bands.values():
                for n in names:
                    lo, hi = names[n]
                    names[n] = [round((lo + hi) / 2, 3)] * 2
                    return
    else:
        n = rng.choice(sorted(b))
        b[n] = [round(sum(b[n]) / 2, 3)] * 2


def execute(program):
    spec = program["spec"]
    fits.write_files(spec)
    inputs = (fits.decode(spec["params" if spec["kind"] == "PM" else "member"]),
              fits.decode(spec["bounds"]), fits.data_dict(spec))
    kept = copy.deepcopy(inputs)
    e, obj = pfit.run(program, program["schedule"], inputs=inputs)
    e["inputs"] = inputs == kept
    if e["ok"] and program["again"] and spec["kind"] == "PM":
        e["again"] = float(obj.compute_fitness())
    return {"log": [e], "measure": {
        "evaluations": len(e["records"]), "free": len(fits.labels(spec)), "ok": int(e["ok"]),
        "shape": [spec["kind"], fits.labels(spec), spec["normalized"], len(e["records"])]}}


ANGLES = ("Bphi_array", "Btheta_min", "Btheta_max", "Btheta_step")


def untouched(spec, params):
    """-> list of places where undeclared parameters changed."""
    got = pfit.plain_of(params)
    want = pfit.plain_of(pfit.encode(fits.decode(spec["params" if spec["kind"] == "PM"
                                                      else "member"])))
    free = set()
    for T, band, name in fits.labels(spec):
        for t in (spec["Ts"] if T in (None, "all") else [T]):
            free.add((t, band, name))
    out = []

    def compare(a, b, t, band, path):
        for k in sorted(set(a) | set(b), key=str):
            if (t, band, k) in free:
                continue
            if spec["kind"] == "PO" and (k in ANGLES or k == "mu" and -1 <= b_fix <= 1):
                continue
            if k not in a or k not in b:
                out.append("%s/%s %s" % (path, k, "is gone" if k in b else "is new"))
            elif isinstance(a[k], dict) and isinstance(b[k], dict):
                compare(a[k], b[k], t, band, path + "/" + str(k))
            elif a[k] != b[k]:
                out.append("%s/%s is %r, it was %r" % (path, k, a[k], b[k]))
    b_fix = want.get("fixdoping", -2)
    if spec["kind"] == "PM":
        if set(got) != set(want):
            return ["temperatures %s" % sorted(got)]
        for t in want:
            for band in want[t]:
                compare(got[t].get(band, {}), want[t][band], t, band, "%s/%s" % (t, band))
    else:
        compare(got, want, spec["Ts"][0], None, "member")
    return out


def judge(program, obs, oracle):
    spec, e = program["spec"], obs["log"][0]
    if not e["inputs"]:
        return [{"kind": "inputs", "detail": "the caller's dictionaries were modified"}]
    if not e["ok"]:
        # no candidate can be simulated, or not this one
        for x in candidates(spec, e):
            want = fits.expected(spec, x, oracle)
            if "value" not in want:
                return []
        return [{"kind": "raises", "detail": "the fit raised %s %s" % (e["error"], e["failed"][:1])}]
    labels, vals = fits.labels(spec), pfit.values(spec, e["params"])
    fixed = spec["kind"] == "PO" and -1 <= spec["member"]["fixdoping"] <= 1
    for (T, band, name), v, (lo, hi) in zip(labels, vals, fits.bounds_list(spec)):
        where = "%s (T=%s, band %s)" % (name, T, band)
        if not v:
            return [{"kind": "missing", "detail": where + " is not among the returned parameters"}]
        if len(set(v)) > 1:
            return [{"kind": "shared", "detail": where + " has the values %s" % v}]
        if not lo <= v[0] <= hi and not (fixed and name == "mu"):
            return [{"kind": "bounds", "detail": where + " = %r out of [%r, %r]" % (v[0], lo, hi)}]
    bad = untouched(spec, e["params"])
    if bad:
        return [{"kind": "undeclared", "detail": bad[0]}]
    x = [v[0] for v in vals]
    if e["records"]:
        fs = [f for _, f in e["records"] if not np.isnan(f)]
        mine = [f for y, f in e["records"] if y == x]
        if fixed and not mine:
            mu = [i for i, (_, _, n) in enumerate(labels) if n == "mu"]
            mine = [f for y, f in e["records"]
                    if all(y[i] == x[i] for i in range(len(x)) if i not in mu)]
        if fs and not mine:
            return [{"kind": "foreign", "detail": "the returned parameters %s were never "
                     "evaluated" % x}]
        if fs and min(mine) > min(fs):
            best = min(e["records"], key=lambda r: r[1])
            return [{"kind": "best", "detail": "returned misfit %r (%s), but %s had %r"
                     % (min(mine), x, best[0], best[1])}]
        # every declared parameter took effect in what was compared
        for y, f in [min(e["records"], key=lambda r: r[1]), e["records"][0]]:
            want = fits.expected(spec, y, oracle)
            if "value" in want and np.isfinite(f) and not fits.agrees(f, want):
                return [{"kind": "effect", "detail": "candidate %s for %s: misfit %r, simulated "
                         "from scratch with it %r" % (y, [n for _, _, n in labels], f,
                                                      want["value"])}]
    want = fits.expected(spec, x, oracle)
    if "value" not in want:
        return []
    if "again" in e and not fits.agrees(e["again"], want):
        return [{"kind": "misfit", "detail": "the returned object has misfit %r, its parameters "
                 "%r" % (e["again"], want["value"])}]
    for T, cv in want["curves"].items():
        if spec["kind"] == "PM":
            for k in ("rzz", "rhozz"):
                if not same(e["curves"][str(T)][k], cv[k]):
                    return [{"kind": "curves", "detail": "T=%s: the returned %s is not the one of "
                             "the returned parameters: %s, from scratch %s"
                             % (T, k, show(e["curves"][str(T)][k]), show(cv[k]))}]
    if spec["kind"] == "PO":
        return saved(program, e, want)
    return []


def candidates(spec, e):
    lows = [lo for lo, _ in fits.bounds_list(spec)]
    highs = [hi for _, hi in fits.bounds_list(spec)]
    mid = [(a + b) / 2 for a, b in zip(lows, highs)]
    return [y for y, _ in e["failed"] if y] or [lows, highs, mid]


def saved(program, e, want):
    spec = program["spec"]
    files = list(e["made"])
    if len(files) != 1 or "filename" in program and files != [program["filename"] + ".json"]:
        return [{"kind": "file", "detail": "result files %s" % files}]
    got = e["made"][files[0]]
    if not isinstance(got, dict) or got != pfit.plain_of(e["params"]):
        return [{"kind": "file", "detail": "%s does not hold the returned parameters" % files[0]}]
    return drawn(spec, e["sheets"], want)


def drawn(spec, sheets, want):
    """The first page compares the measured curves with the simulated ones."""
    cv = want["curves"]
    thetas = {T: fits.measured(spec)[T]["thetas"] for T in spec["Ts"]}
    lines = [ln for s in sheets for ln in s["lines"]]
    if not sheets:
        return [{"kind": "figure", "detail": "no comparison figure was saved"}]
    for T in spec["Ts"]:
        sim = cv[T]["rzz"] if spec["normalized"] else cv[T]["rhozz"] * 1e5
        for i, row in enumerate(sim):
            if not any(same(x, thetas[T], 1e-9) and same(y, row) for x, y in lines):
                return [{"kind": "figure", "detail": "no line of the figure is the simulated "
                         "curve at T=%s, azimuth %d" % (T, i)}]
    return []


def nontrivial(program, measure):
    """The fit returned and at least five candidates were compared."""
    return measure["ok"] and measure["evaluations"] >= 5


def reductions(program):
    if program["iters"] > 1:
        yield dict(program, iters=1)
    if program["schedule"]["pool"]["max_workers"] > 1:
        yield dict(program, schedule=pfit.PLAIN)
    if program["popsize"] > 1:
        yield dict(program, popsize=1)
