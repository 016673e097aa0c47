"""C12: a saved fit result can be reloaded to resume with identical outcome."""
import copy
import json
import os

import numpy as np

from .. import figs, fits, gen, pfit
from ..act import attempt
from ..hub import hub
from ..oracles import TABLE, same, show
from .c09 import drawn

ID = "C12"
RUNS = {"quick": 600, "thorough": 9000}
RULE = ("Random histories of evaluations, saves under shared names, loads into the same, used or "
        "differently initialised objects, retried after disk errors, with reads and writes cut "
        "into pieces; the last file is also reloaded in a pristine process.")
SHAPE = "kind of fit, free parameters and the sequence of evaluations, saves and loads"
STUB = ("raw file reads and writes (cut into pieces, failing), clock, numba JIT off, PDF "
        "rendering, doping grids scaled down")


def digits(rng, spec, x):
    """Candidates with all the digits an optimiser gives them."""
    return [v if v == 0 else min(max(v + (rng.random() - 0.5) * 1e-7, lo), hi)
            for v, (lo, hi) in zip(x, fits.bounds_list(spec))]


def variant(rng, spec):
    """The same fit, initialised with other values."""
    new = copy.deepcopy(spec)
    bands = [new["member"]] if spec["kind"] != "PM" else \
        [m for _, bb in new["params"]["__map__"] for m in bb.values()]
    mu = {}
    for m in bands:
        for k in m["band_params"]:
            if k != "t" and rng.random() < 0.5:
                m["band_params"][k] = mu.setdefault((m["band_name"], k), gen.param_value(rng, k))
        if rng.random() < 0.5:
            m["energy_scale"] = mu.setdefault(m["band_name"], rng.choice([110, 150.5]))
        if not isinstance(m["Bamp"], dict):
            m["Bamp"] = rng.choice([m["Bamp"], 25])
        m["N_time"] = rng.choice([m["N_time"], 35])
        if "__map__" not in m["scattering_params"] and rng.random() < 0.5:
            m["scattering_params"] = gen.scattering_params(rng)
    return new


def generate(rng, tier):
    kind = rng.choice(fits.KINDS)
    spec = fits.make_spec(rng, kind, finite=0.05)
    specs = [spec] + [variant(rng, spec) for _ in range(rng.choice([0, 1, 1]))]
    xs = [digits(rng, spec, fits.candidate(rng, spec)) for _ in range(rng.randint(1, 3))]
    back = rng.random() < 0.3
    if back and len(xs) == 1:
        xs.append(digits(rng, spec, fits.candidate(rng, spec)))
    names = ["a", "b"] + ([None] if kind != "PM" else [])
    ops, saved, n = [["fresh", 0]], [], 1
    for _ in range(rng.randint(3, 6 if tier == "quick" else 10)):
        k = rng.choice(["eval", "eval", "save", "save", "load", "load", "fresh", "probe"])
        o = rng.randrange(n)
        if k == "eval":
            ops.append(["eval", o, rng.choice(xs)])
        elif k == "save":
            name = rng.choice(names)
            ops.append(op_disk(rng, ["save", o, name], True))
            saved.append(name)
        elif k == "load" and saved:
            ops.append(op_disk(rng, ["load", o, rng.choice(saved)], False))
            r = rng.random()
            if r < 0.5 or r < 0.65 and kind == "PM":
                ops.append(["probe", o])
            elif r < 0.65:
                ops.append(["figure", o])
        elif k == "fresh" and n < 3:
            ops.append(["fresh", rng.randrange(len(specs))])
            n += 1
        elif k == "probe":
            ops.append(["probe", o])
    if back:        # the saved result is returned to after another candidate
        o = rng.randrange(n)
        x, y = rng.sample(xs, 2)
        ops += [["eval", o, x], ["save", o, "b"], ["eval", o, y], ["load", o, "b"],
                [rng.choice(["figure", "figure", "probe"]) if kind != "PM" else "probe", o]]
    o = rng.randrange(n)
    ops += [["save", o, "a"], ["load", rng.randrange(n), "a"]]
    ops.append(["probe", ops[-1][1]])
    if rng.random() < 0.3 and kind != "PM":
        ops.append(["figure", ops[-1][1]])
    return {"specs": specs, "ops": ops}


def op_disk(rng, op, saving):
    r = rng.random()
    if r < 0.55:
        return op
    cfg = {"seed": rng.randrange(1000), "frag": True, "piece": rng.choice([3, 50]),
           "buffer": rng.choice([64, 300])}
    if r > 0.8:
        cfg["fault"] = {"op": rng.choice(["write", "close", "replace", "open_w"] if saving
                                         else ["open_r", "read"]),
                        "n": rng.randint(1, 3), "how": rng.choice(["EIO", "ENOSPC", "EACCES"])}
    return {"op": op, "disk": cfg}


def params_of(spec, obj):
    if spec["kind"] == "PM":
        return pfit.encode(obj.params_dict)
    return pfit.encode(obj.member_dict if spec["kind"] == "SM" else obj.member)


def reload_pm(spec, text, data="data"):
    """The user's way: the temperatures are the keys, as strings."""
    doc = json.loads(text)
    s = dict(spec)
    params = {T: doc[json.dumps(T)] for T in spec["Ts"]}
    return fits.PM.Fitness(fits.data_dict(s, data), params, fits.decode(spec["bounds"]),
                           spec["normalized"])


def load(spec, obj, name):
    """-> the object to use afterwards."""
    if spec["kind"] == "PM":
        with open(name + ".json") as f:
            return reload_pm(spec, f.read())
    obj.json_name = name + ".json"
    obj.load_member_from_json()
    return obj


def values(spec, obj):
    """The free parameters' values found in the object's own parameters."""
    p = pfit.plain_of(params_of(spec, obj))
    out = []
    for T, band, name in fits.labels(spec):
        if spec["kind"] == "PM":
            m = p[spec["Ts"][0] if T in (None, "all") else T][band]
        elif spec["kind"] == "SM":
            m = p[spec["Ts"][0] if T is None else T]
        else:
            m = p
        for d in (m, m["band_params"], m["scattering_params"]):
            if name in d:
                out.append(d[name])
                break
    return out


def initial(spec):
    """The candidate that a probe of the initial settings evaluates: a serial fit gives one value
    to a parameter shared by the temperatures."""
    if spec["kind"] != "SM":
        return None
    st = fits.settings(spec, None)
    out = []
    for T, _, name in fits.labels(spec):
        m, = st[spec["Ts"][0] if T is None else T].values()
        out.append([d[name] for d in (m, m["band_params"], m["scattering_params"])
                    if name in d][0])
    return out


def probe(spec, obj):
    if spec["kind"] == "PM":
        return {"value": float(obj.compute_fitness())}
    return {"value": fits.evaluate(spec, obj, values(spec, obj), free=True)}


def execute(program):
    specs = program["specs"]
    fits.write_files(specs[0])
    log, objs, auto = [], [], [None]
    for pos, op in enumerate(program["ops"]):
        disk = None
        if isinstance(op, dict):
            disk, op = op.get("disk"), op["op"]
        e = {"what": op[0], "pos": pos}
        if op[0] == "fresh":
            r = attempt(lambda: fits.build(specs[op[1]]))
            if r.ok:
                objs.append((specs[op[1]], r.value))
            e["params"] = params_of(*objs[-1]) if r.ok else None
        else:
            if not objs:
                continue
            i = op[1] % len(objs)
            spec, obj = objs[i]
            e["on"] = i
            if op[0] == "eval":
                r = attempt(lambda: fits.evaluate(spec, obj, op[2]))
                e.update(value=r.value if r.ok else None)
            elif op[0] == "save":
                before = set(os.listdir("."))
                r = attempt(lambda: obj.save_member_to_json(
                    **({} if op[2] is None else {"filename": op[2]})), disk=disk)
                name = op[2]
                if name is None:
                    new = sorted(f for f in set(os.listdir(".")) - before
                                 if f.endswith(".json") and not f.startswith("."))
                    if r.ok and len(new) == 1:
                        auto[0] = new[0][:-5]
                    name = auto[0] if len(new) <= 1 else None
                    e["unsure"] = len(new) != 1
                e.update(name=name, params=params_of(spec, obj))
                if name is not None and r.ok:
                    e["text"] = attempt(lambda: slurp(name + ".json")).value
            elif op[0] == "load":
                name = op[2] if op[2] is not None else auto[0]
                if name is None or not os.path.exists(name + ".json"):
                    continue
                r = attempt(lambda: load(spec, obj, name), disk=disk)
                if r.ok:
                    objs[i] = (spec, r.value)
                e.update(name=name, params=params_of(*objs[i]), text=slurp(name + ".json"))
            elif op[0] == "probe":
                r = attempt(lambda: probe(spec, obj))
                if r.ok:
                    e.update(r.value, params=params_of(spec, obj))
            else:
                figs.start()
                r = attempt(lambda: obj.fig_compare(fig_show=False, fig_save=True, figname="fig"))
                e["sheets"] = figs.stop()
        e.update(ok=r.ok, error=r.error, fired=r.fired)
        log.append(e)
        hub.note(op[0], r.ok)
    return {"log": log, "measure": {
        "saves": sum(e["what"] == "save" and e["ok"] for e in log),
        "loads": sum(e["what"] == "load" and e["ok"] for e in log),
        "struck": sum(bool(e["fired"]) for e in log),
        "shape": [specs[0]["kind"], sorted({n for _, _, n in fits.labels(specs[0])})]
        + [[e["what"], e.get("on"), e["ok"], e.get("name")] for e in log]}}


def slurp(path):
    with open(path) as f:
        return f.read()


def strings(x):
    """As JSON keeps it: keys are strings, tuples are lists."""
    if isinstance(x, dict):
        return {k if isinstance(k, str) else json.dumps(k): strings(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [strings(v) for v in x]
    return x


def judge(program, obs, oracle):
    specs = program["specs"]
    model, files, last = [], {}, None      # per object: (number of the spec, candidate) or None
    live = set()            # a serial fit saves what it has simulated: not before that
    fresh = [op[1] for op in map(plain_op, program["ops"]) if op[0] == "fresh"]
    for e in obs["log"]:
        pos, kind = e["pos"], e["what"]
        if kind == "fresh":
            n = fresh[len([m for m in model])] if len(model) < len(fresh) else 0
            if not e["ok"]:
                return [{"kind": "build", "pos": pos, "detail": e["error"]}]
            model.append((n, None))
            continue
        i = e["on"]
        here = model[i]
        if kind in ("eval", "probe", "figure") and e["ok"]:
            live.add(i)
        if e["fired"] and e["ok"]:
            return [{"kind": "swallowed", "pos": pos, "detail": "%s returned although %s struck"
                     % (kind, e["fired"])}]
        if kind == "eval":
            x = plain_op(program["ops"][pos])[2]
            model[i] = (here[0], x) if here is not None else None
            if not e["ok"] and here is not None:
                # a candidate that cannot be simulated, or a violation of C07
                want = fits.expected(specs[here[0]], x, oracle)
                if "value" in want:
                    return [{"kind": "raises", "pos": pos, "detail": "candidate %s raised %s"
                             % (x, e["error"])}]
                model[i] = None
        elif kind == "save":
            if e["ok"]:
                if e["name"] is None or not isinstance(e.get("text"), str):
                    if e.get("unsure"):
                        files.clear()
                    continue
                try:
                    doc = json.loads(e["text"])
                except ValueError as err:
                    return [{"kind": "file", "pos": pos, "detail": "%s.json is not JSON: %s"
                             % (e["name"], err)}]
                want = strings(pfit.plain_of(e["params"]))
                if doc != want:
                    return [{"kind": "file", "pos": pos, "detail": "%s.json: %s"
                             % (e["name"], difference(doc, want))}]
                files[e["name"]] = (model[i], e["params"])
                last = (model[i], e["text"], specs[here[0]] if here else None)
            elif specs[0]["kind"] in ("SO", "SM") and i not in live:
                continue
            elif not e["fired"] and here is not None and simulable(specs, here, oracle):
                return [{"kind": "raises", "pos": pos, "detail": "save raised " + e["error"]}]
            else:
                model[i] = here
        elif kind == "load":
            if e["name"] not in files:
                model[i] = None
                continue
            saved, params = files[e["name"]]
            if not e["ok"]:
                if not e["fired"]:
                    return [{"kind": "raises", "pos": pos, "detail": "load raised " + e["error"]}]
                model[i] = None
                continue
            if pfit.plain_of(e["params"]) != json_like(pfit.plain_of(params)):
                return [{"kind": "parameters", "pos": pos, "detail": "after loading %s.json: %s"
                         % (e["name"], difference(pfit.plain_of(e["params"]),
                                                  json_like(pfit.plain_of(params))))}]
            model[i] = saved
        elif kind in ("probe", "figure") and here is not None:
            if kind == "probe":
                here = model[i] = (here[0], here[1] or initial(specs[here[0]]))
            want = fits.expected(specs[here[0]], here[1], oracle)
            if "value" not in want:
                model[i] = None
                continue
            if not e["ok"]:
                return [{"kind": "raises", "pos": pos, "detail": "%s raised %s" % (kind, e["error"])}]
            if kind == "probe" and not fits.agrees(e["value"], want):
                return [{"kind": "outcome", "pos": pos, "detail": "misfit %s, that of the saved "
                         "parameters is %s" % (show(e["value"]), show(want["value"]))}]
            if kind == "figure":
                v = drawn_for(specs[here[0]], e["sheets"], want)
                if v:
                    return [dict(v[0], pos=pos)]
    return elsewhere(program, last, oracle)


def drawn_for(spec, sheets, want):
    return drawn(spec, sheets, want)


def simulable(specs, here, oracle):
    return "value" in fits.expected(specs[here[0]], here[1], oracle)


def elsewhere(program, last, oracle):
    """The last file, reloaded by a pristine process."""
    if last is None or last[0] is None:
        return []
    (n, x), text, _ = last
    spec = program["specs"][n]
    x = x or initial(spec)
    want = fits.expected(spec, x, oracle)
    if "value" not in want:
        return []
    got = oracle("reload", {"spec": program["specs"][-1], "text": text})
    if "error" in got:
        return [{"kind": "raises", "detail": "reloading in a new process: " + got["error"]}]
    if "void" not in got and not fits.agrees(got["value"], want):
        return [{"kind": "outcome", "detail": "reloaded in a new process: misfit %s, that of the "
                 "saved parameters is %s" % (show(got["value"]), show(want["value"]))}]
    return []


def reload(args):
    spec = args["spec"]
    fits.write_files(spec)
    with open("saved.json", "w") as f:
        f.write(args["text"])
    obj = fits.build(spec)
    obj = load(spec, obj, "saved")
    return probe(spec, obj)


ORACLES = dict(TABLE, reload=reload)


def plain_op(op):
    return op["op"] if isinstance(op, dict) else op


def json_like(x):
    if isinstance(x, dict):
        return {k: json_like(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [json_like(v) for v in x]
    return x


def difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s/%s is %s" % (path, k, "missing" if k not in a else "extra")
            if a[k] != b[k]:
                return difference(a[k], b[k], path + "/" + str(k))
    return "%s is %r, should be %r" % (path, a, b)


def nontrivial(program, measure):
    """At least one save and one load succeeded."""
    return measure["saves"] > 0 and measure["loads"] > 0


_ = (np, same)
