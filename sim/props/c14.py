"""C14: a serial fit runs to completion and delivers the optimiser's answer."""
import copy
import json
import os

import numpy as np

from .. import figs, fits, pfit
from ..act import attempt
from ..gen import pick
from ..hub import hub
from ..oracles import TABLE, show
from .c09 import ANGLES, drawn

ID = "C14"
RUNS = {"quick": 260, "thorough": 4500}
RULE = ("Serial fits with every supported method and free parameters of every kind, stopped by "
        "their own criteria or by a limit of evaluations, several on one object, with faults in "
        "simulations and in the final save (failing, short and full-disk writes), retried saves "
        "and clocks that jump; the answer recorded at the optimiser is compared with the object, "
        "the file and the figure.")
SHAPE = "class, method, free parameters, and for every operation the fault and how it ended"
REAL = ("the package, lmfit, scipy's optimisers, json, the io stack above the raw file, "
        "matplotlib except for rendering")
STUB = ("raw file writes (cut into pieces, failing), effort of the global optimisers (fewer "
        "iterations), clock, rendering of PDF pages, numba JIT off, doping grids scaled down")
ORACLES = TABLE
METHODS = {"SO": ("least_square", "shgo", "differential_evolution", "ampgo"),
           "SM": ("least_square", "shgo", "differential_evolution", "ampgo", "dual_annealing")}


def save_disk(rng):
    cfg = {"seed": rng.randrange(10**6)}
    if rng.random() < 0.6:
        cfg.update(piece=pick(rng, 3, 50, 300), buffer=pick(rng, 200, 512))
    r = rng.random()
    if r < 0.25:
        cfg["fault"] = {"op": "space", "n": pick(rng, 0, 1, rng.randint(0, 2500))}
    else:
        op = pick(rng, "open_w", "open_w", "write", "write", "close", "replace")
        cfg["fault"] = {"op": op, "n": pick(rng, 1, 1, 2, 3), "how": pick(
            rng, "EIO", "ENOSPC", "EACCES")}
    return cfg


def generate(rng, tier):
    kind = pick(rng, "SO", "SM")
    spec = fits.make_spec(rng, kind, finite=0.08, fix=0.16)
    spec["method"] = pick(rng, *METHODS[kind])
    ops, name = [], None
    for k in range(pick(rng, 1, 1, 2, 2, 3)):
        method = spec["method"] if k == 0 or rng.random() < 0.5 else pick(rng, *METHODS[kind])
        name = pick(rng, "fit", "fit", "other", None)
        op = {"op": ["fit", name, method, pick(rng, 4, 10, 25, 60)]}
        r = rng.random()
        if r < 0.35:
            op["disk"] = save_disk(rng)
        elif r < 0.5:
            op["fault"] = {"site": "odeint", "n": rng.randint(1, 300),
                           "exc": pick(rng, "RuntimeError", "MemoryError", "KeyboardInterrupt")}
        elif r < 0.6:
            op["disk"] = {"seed": 1, "piece": 20, "buffer": 64}
        ops.append(op)
        if rng.random() < 0.4 or "fault" in op.get("disk", {}):
            for _ in range(pick(rng, 1, 1, 2)):
                op = {"op": ["save", pick(rng, name, "again")]}
                if rng.random() < 0.35:
                    op["disk"] = save_disk(rng)
                ops.append(op)
        if rng.random() < 0.2:
            ops.append({"op": ["eval", fits.candidate(rng, spec)]})
    return {"spec": spec, "ops": ops, "clock": pick(rng, *pfit.CLOCKS), "seed": rng.randrange(10**6)}


def params_of(spec, obj):
    return pfit.encode(obj.member_dict if spec["kind"] == "SM" else obj.member)


def slurp(path):
    with open(path) as f:
        return f.read()


def execute(program):
    spec = program["spec"]
    fits.write_files(spec)
    os.makedirs("out")
    inputs = (fits.decode(spec["member"]), fits.decode(spec["bounds"]), fits.data_dict(spec))
    hub.clock_script = pfit.clock_script(program["clock"], program["seed"])
    hub.lm_scale = True
    np.random.seed(program["seed"])
    log = []
    r = attempt(lambda: fits.build(spec, folder="out"))
    if not r.ok:
        return {"log": [{"what": "build", "ok": False, "error": r.error}],
                "measure": {"fits": 0, "evaluations": 0, "shape": []}}
    obj = r.value
    for pos, op in enumerate(program["ops"]):
        what = op["op"]
        e = {"what": what[0], "pos": pos, "fits": []}
        before = {f: stamp("out/" + f) for f in os.listdir("out")}
        first = len(hub.lm_results)
        start = params_of(spec, obj)
        if what[0] == "fit":
            obj.method, hub.nfev = what[2], what[3]
            figs.start()
            r = attempt(lambda: obj.runFit(filename=what[1]), fault=op.get("fault"),
                        disk=op.get("disk"))
            e["sheets"] = figs.stop()
            hub.nfev = None
            for m in hub.lm_results[first:]:
                e["fits"].append(answer(spec, m))
        elif what[0] == "save":
            r = attempt(lambda: obj.save_member_to_json(filename=what[1]), disk=op.get("disk"))
        else:
            r = attempt(lambda: fits.evaluate(spec, obj, what[1]))
        e.update(ok=r.ok, error=r.error, fired=r.fired, start=start, params=params_of(spec, obj))
        e["new"] = {f: slurp("out/" + f) for f in sorted(os.listdir("out"))
                    if f.endswith(".json") and stamp("out/" + f) != before.get(f)}
        e["pages"] = [f for f in sorted(os.listdir("out")) if f.endswith(".pdf")]
        log.append(e)
        hub.note(what[0], r.ok)
    _ = inputs
    return {"log": log, "measure": {
        "fits": sum(e["what"] == "fit" and e["ok"] for e in log),
        "evaluations": sum(len(m["records"]) for e in log for m in e["fits"]),
        "ended": sum(not m["aborted"] for e in log for m in e["fits"] if m["x"]),
        "struck": sum(bool(e["fired"]) for e in log),
        "shape": [spec["kind"], sorted({n for _, _, n in fits.labels(spec)})]
        + [[o["op"][0], o["op"][2] if o["op"][0] == "fit" else "", e["ok"],
            (e["fired"] or {}).get("op") or (e["fired"] or {}).get("exc")]
           for o, e in zip(program["ops"], log)]}}


def stamp(path):
    s = os.stat(path)
    return s.st_ino, s.st_size, s.st_mtime_ns


def answer(spec, m):
    """What the optimiser was given and what it answered, in the order of labels()."""
    def x_of(values):
        return [values[n] for n in fits.lm_names(spec, list(values))]
    return {"method": m["method"], "aborted": m.get("aborted", False),
            "x": x_of(m["params"]) if m["params"] else None,
            "records": [[x_of(x), None if v is None else np.array(v, dtype=float), err]
                        for x, v, err in m["records"]]}


def untouched(spec, start, params):
    """-> places where settings other than the free parameters changed."""
    got, old = pfit.plain_of(params), pfit.plain_of(start)
    if spec["kind"] == "SO":
        got, old = {spec["Ts"][0]: got}, {spec["Ts"][0]: old}
    fixed = -1 <= spec["member"]["fixdoping"] <= 1
    free = {(t, n) for T, _, n in fits.labels(spec) for t in (spec["Ts"] if T is None else [T])}
    out = []

    def compare(a, b, t, path):
        for k in sorted(set(a) | set(b), key=str):
            if (t, k) in free or k in ANGLES or fixed and k == "mu":
                continue
            if k not in a or k not in b:
                out.append("%s/%s %s" % (path, k, "is gone" if k in b else "is new"))
            elif isinstance(a[k], dict) and isinstance(b[k], dict):
                compare(a[k], b[k], t, path + "/" + str(k))
            elif a[k] != b[k]:
                out.append("%s/%s is %r, it was %r" % (path, k, a[k], b[k]))
    if set(got) != set(old):
        return ["temperatures %s" % sorted(got)]
    for t in got:
        compare(got[t], old[t], t, str(t))
    return out


def held(spec, params):
    """-> [[T, band, name, [values at its temperatures]]]"""
    p = pfit.plain_of(params)
    if spec["kind"] == "SO":
        p = {spec["Ts"][0]: p}
    out = []
    for T, _, name in fits.labels(spec):
        got = []
        for t in (spec["Ts"] if T is None else [T]):
            m = p[t]
            got += [d[name] for d in (m, m["band_params"], m["scattering_params"])
                    if name in d][:1]
        out.append([T, name, got])
    return out


def as_saved(params):
    """The text of a saved file, read back."""
    return json.loads(json.dumps(jsonable(pfit.plain_of(params))))


def jsonable(x):
    if isinstance(x, dict):
        return {k if isinstance(k, str) else json.dumps(k): jsonable(v) for k, v in x.items()}
    return x


def check_params(spec, e, x):
    fixed = -1 <= spec["member"]["fixdoping"] <= 1
    for (T, name, got), v in zip(held(spec, e["params"]), x):
        if fixed and name == "mu":
            continue
        if not got or any(g != v for g in got):
            return "%s (T=%s) is %r, the optimiser's answer is %r" % (name, T, got, v)
    return None


def judge(program, obs, oracle):
    spec = program["spec"]
    live = False        # a serial fit saves what it has simulated: not before that
    for e in obs["log"]:
        if e["what"] == "build":
            return [{"kind": "raises", "detail": "building the fit: " + e["error"]}]
        v = judge_one(program, spec, e, oracle, live)
        if v:
            return [dict(v, pos=e["pos"])]
        live = live or e["what"] == "eval" and e["ok"] or \
            any(v is not None for m in e["fits"] for _, v, _ in m["records"])
    return []


def judge_one(program, spec, e, oracle, live):
    op = program["ops"][e["pos"]]
    what = op["op"]
    if e["fired"] and e["ok"]:
        return {"kind": "swallowed", "detail": "%s returned although %s struck"
                % (what[:3], e["fired"])}
    if e["what"] == "eval":
        want = fits.expected(spec, what[1], oracle)
        if "value" not in want:
            return None
        if not e["ok"]:
            return {"kind": "raises", "detail": "evaluating %s raised %s" % (what[1], e["error"])}
        return None
    if e["what"] == "save":
        if not e["ok"]:
            if not e["fired"] and live and simulable(spec, e, oracle):
                return {"kind": "raises", "detail": "saving raised " + e["error"]}
            return None
        return saved(what[1], e)
    # a fit
    if not e["fits"]:
        if e["ok"]:
            return {"kind": "idle", "detail": "the fit returned and no optimiser was run"}
        return {"kind": "raises", "detail": "%s raised %s" % (what[:3], e["error"])}
    last = e["fits"][-1]
    for x, v, err in pick_records(last["records"]):
        want = fits.expected(spec, x, oracle)
        if "value" in want and v is not None and np.isfinite(v).all() \
                and not fits.agrees(v, want):
            return {"kind": "effect", "detail": "candidate %s of %s: residuals %s, simulated from "
                    "scratch with it %s" % (x, [n for _, _, n in fits.labels(spec)], show(v),
                                            show(want["value"]))}
    x = last["x"]
    if x is None:
        if e["ok"]:
            return {"kind": "swallowed", "detail": "the fit returned although its optimiser "
                    "did not"}
        if e["fired"] or "AbortFitException" in e["error"] or "QhullError" in e["error"]:
            # (the limit of evaluations, where lmfit does not catch it; shgo with few points)
            return None
        if any(v is not None and v.size < len(r) for r, v, _ in last["records"]):
            return None         # fewer measured points than free parameters
        failed = [r for r in last["records"] if r[1] is None or not np.isfinite(r[1]).all()]
        if failed:      # a candidate that cannot be simulated
            want = fits.expected(spec, failed[-1][0], oracle)
            if "value" not in want or not np.isfinite(want["value"]).all():
                return None
        return {"kind": "raises", "detail": "%s raised %s" % (what[:3], e["error"])}
    bad = check_params(spec, e, x)
    if bad:
        return {"kind": "answer", "detail": "%s%s: %s" % (
            what[:3], "" if e["ok"] else " (failed: %s)" % e["error"], bad)}
    bad = untouched(spec, e["start"], e["params"])
    if bad:
        return {"kind": "undeclared", "detail": bad[0]}
    want = fits.expected(spec, x, oracle)
    if not e["ok"]:
        if e["fired"] or "value" not in want:
            return None
        return {"kind": "raises", "detail": "%s raised %s after the optimiser's answer"
                % (what[:3], e["error"])}
    bad = saved(what[1], e)
    if bad:
        return bad
    if what[1] is not None and what[1] + ".pdf" not in e["pages"]:
        return {"kind": "figure", "detail": "no %s.pdf" % what[1]}
    if "value" not in want:
        return None
    bad = fixed_mu(spec, e, want)
    if bad:
        return {"kind": "doping", "detail": bad}
    bad = drawn(spec, e["sheets"], want)
    return bad[0] if bad else None


def fixed_mu(spec, e, want):
    """A fit at a fixed doping delivers the potential that realises it, at every temperature."""
    if not -1 <= spec["member"]["fixdoping"] <= 1:
        return None
    p = pfit.plain_of(e["params"])
    for T in spec["Ts"]:
        mu, = want["curves"][T]["mu"]
        got = (p if spec["kind"] == "SO" else p[T])["band_params"]["mu"]
        if not isinstance(got, float) or not abs(got - mu) < 5e-3:
            return "mu at T=%s is %r, the doping %g is realised by %r" % (
                T, got, spec["member"]["fixdoping"], mu)
    return None


def pick_records(records):
    """Three of the candidates: the first, one in the middle, the last."""
    n = len(records)
    return [records[i] for i in sorted({0, n // 2, n - 1})] if n else []


def simulable(spec, e, oracle):
    x = [got[0] for _, _, got in held(spec, e["params"])]
    return "value" in fits.expected(spec, x, oracle)


def saved(name, e):
    new = e["new"]
    if name is not None:
        new = {k: v for k, v in new.items() if k == name + ".json"}
    if len(new) != 1:
        return {"kind": "file", "detail": "saved as %r: new files %s" % (name, sorted(e["new"]))}
    file, text = next(iter(new.items()))
    try:
        doc = json.loads(text)
    except ValueError as err:
        return {"kind": "file", "detail": "%s is not JSON: %s" % (file, err)}
    if doc != as_saved(e["params"]):
        return {"kind": "file", "detail": "%s does not hold the parameters of the fit" % file}
    return None


def nontrivial(program, measure):
    """A fit returned and at least four candidates were compared."""
    return measure["fits"] and measure["evaluations"] >= 4


_ = copy
