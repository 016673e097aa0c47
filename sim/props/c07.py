"""C07: the misfit of a candidate depends on that candidate alone."""
import copy
import pickle

import numpy as np

from .. import fits, gen
from ..act import attempt
from ..hub import hub
from ..oracles import TABLE, show

ID = "C07"
RUNS = {"quick": 440, "thorough": 7000}
ORACLES = TABLE
RULE = ("Random sequences of candidates (zeros, bounds, repeats) on the evaluators of all four "
        "fitting modules and on copies of them; some evaluations are interrupted or cannot read "
        "their data; saves and reloads of the data come in between.")


def generate(rng, tier):
    kind = rng.choice(fits.KINDS)
    spec = fits.make_spec(rng, kind)
    pool = [fits.candidate(rng, spec) for _ in range(rng.randint(2, 3))]
    ops = []
    for _ in range(rng.randint(3, 6 if tier == "quick" else 10)):
        e = rng.randrange(3)
        x = rng.choice(pool)
        if rng.random() < 0.4 and len(pool) < 5:
            # a neighbour: one coordinate changed, sometimes to zero
            x = list(x)
            i = rng.randrange(len(x))
            lo, hi = fits.bounds_list(spec)[i]
            x[i] = 0.0 if lo <= 0 <= hi and rng.random() < 0.5 else round(rng.uniform(lo, hi), 6)
            pool.append(x)
        k = rng.choice(["eval"] * 6 + ["fault"] * 3 + ["ship", "none", "aside", "wild"])
        if k == "eval":
            ops.append(["eval", e, x])
        elif k == "fault":
            op = {"op": ["eval", e, x], "fault": gen.kernel_fault(
                rng, ("kernel", "odeint", "odeint_cb", "contour", "inv", "kernel_out", "line", "line"))}
            if kind in ("SO", "SM") and rng.random() < 0.4:
                op = {"op": ["eval", e, x], "disk": {
                    "seed": rng.randrange(1000), "frag": rng.random() < 0.5,
                    "fault": {"op": rng.choice(["open_r", "read"]), "n": rng.randint(1, 4),
                              "how": rng.choice(["EIO", "ENOENT", "EACCES", "EMFILE"])}}}
            ops.append(op)
            ops.append(["eval", e, x if rng.random() < 0.4 else rng.choice(pool)])
        elif k == "ship":
            ops.append(["ship", e, rng.choice(["pickle", "deepcopy"])])
        elif k == "none":
            ops.append(["none", e])
        elif k == "aside":
            ops.append(["aside", e, rng.choice(["save", "data"])])
        else:
            ops.append(["wild", e, rng.choice([0, 1, 2])])
    x = rng.choice(pool)
    ops += [["eval", 0, x], ["eval", 1, x]]
    return {"spec": spec, "ops": ops}


def execute(program):
    spec = program["spec"]
    fits.write_files(spec)
    log = []
    first = attempt(lambda: fits.build(spec))
    if not first.ok:
        return {"log": [{"what": "build", "pos": -1, "error": first.error}],
                "measure": {"evaluated": 0, "struck": 0, "shape": [spec["kind"]]}}
    objs = [first.value]
    last = [None]
    for pos, op in enumerate(program["ops"]):
        fault, disk = None, None
        if isinstance(op, dict):
            fault, disk, op = op.get("fault"), op.get("disk"), op["op"]
        i = op[1] % len(objs)
        if op[0] == "eval":
            r = attempt(lambda: fits.evaluate(spec, objs[i], op[2]), fault, disk)
            last[i] = op[2]
            log.append({"what": "eval", "pos": pos, "on": i, "x": op[2], "ok": r.ok,
                        "value": r.value, "fired": r.fired})
        elif op[0] == "none" and spec["kind"] == "PM":
            r = attempt(lambda: fits.evaluate(spec, objs[i], None))
            log.append({"what": "eval", "pos": pos, "on": i, "x": last[i], "ok": r.ok,
                        "value": r.value, "fired": None})
        elif op[0] == "ship":
            how = op[2] if spec["kind"] in ("PM", "PO") else "deepcopy"
            r = attempt(lambda: copy.deepcopy(objs[i]) if how == "deepcopy"
                        else pickle.loads(pickle.dumps(objs[i])))
            if r.ok:
                objs.append(r.value)
                last.append(last[i])
            else:
                log.append({"what": "ship", "pos": pos, "error": r.error})
        elif op[0] == "aside":
            if op[2] == "save":
                attempt(lambda: objs[i].save_member_to_json(filename="aside"))
            elif spec["kind"] != "PM":
                attempt(objs[i].load_and_interp_data)
        elif op[0] == "wild":
            # a candidate without Fermi surface somewhere: may fail
            names = [n for _, _, n in fits.labels(spec)]
            x = [(-40.0 if n == "mu" else 0.0 if n in ("energy_scale", "Bamp") else v)
                 for n, v in zip(names, [b[0] for b in fits.bounds_list(spec)])]
            if "mu" in names or op[2]:
                attempt(lambda: fits.evaluate(spec, objs[i], x))
                last[i] = x
        hub.note(op[0], pos)
    done = [e for e in log if e["what"] == "eval"]
    return {"log": log, "measure": {
        "evaluated": sum(e["ok"] for e in done), "struck": sum(bool(e["fired"]) for e in done),
        "copies": len(objs) - 1, "zeros": sum(e["x"] is not None and 0 in e["x"] for e in done),
        "shape": [spec["kind"], spec["normalized"],
                  sorted({n for _, _, n in fits.labels(spec)})]
        + [[e["on"], e["ok"], bool(e["fired"])] for e in done]}}


def judge(program, obs, oracle):
    spec = program["spec"]
    out = []
    for e in obs["log"]:
        if e["what"] != "eval":
            out.append({"kind": e["what"], "pos": e["pos"], "detail": "raised " + e["error"]})
            continue
        if e["fired"]:
            if e["ok"]:
                out.append({"kind": "swallowed", "pos": e["pos"], "detail":
                            "a misfit was reported although %s struck" % e["fired"]})
            continue
        want = fits.expected(spec, e["x"], oracle)
        if "void" in want:
            continue
        if "error" in want:
            if e["ok"] and np.isfinite(np.asarray(e["value"])).all():
                out.append({"kind": "beyond-fresh", "pos": e["pos"], "detail": "misfit %s where a "
                            "fresh simulation raises %s" % (show(e["value"]), want["error"])})
            continue
        if not e["ok"]:
            out.append({"kind": "raises", "pos": e["pos"], "detail": "candidate %s raised %s"
                        % (e["x"], e["value"])})
        elif not fits.agrees(e["value"], want):
            out.append({"kind": "misfit", "pos": e["pos"], "detail":
                        "%s candidate %s for %s: misfit %s, from scratch %s" % (
                            spec["kind"], e["x"], [n for _, _, n in fits.labels(spec)],
                            show(e["value"]), show(want["value"]))})
    return out


def nontrivial(program, measure):
    """At least three candidates evaluated on one evaluator or its copies."""
    return measure["evaluated"] >= 3
