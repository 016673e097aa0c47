"""C13: measured curves are loaded completely and correctly or not at all."""
import copy
import os
import random

import numpy as np

from .. import fits, fs, sched
from ..act import attempt
from ..boot import PACKAGE_DIR, PM
from ..gen import num, pick
from ..hub import SimDeadlock, StepBudget, TooBig, hub
from ..oracles import TABLE, same, show

ID = "C13"
RUNS = {"quick": 1600, "thorough": 25000}
RULE = ("Random histories of loading, reloading, evaluating and saving by fits of all four kinds "
        "whose data files have rows, columns and dictionary entries in any order and any text "
        "style, read in pieces, with failing opens and reads, and files that vanish, are cut or "
        "spoilt and come back; several fits with the same keys and other files are alive at once "
        "and some are loaded by two threads under a random schedule.")
SHAPE = "kind of fit, sizes of the files, and for every operation the fault and how it ended"
REAL = ("the package, numpy.loadtxt, the io stack above the raw file, the file system of a "
        "scratch directory")
STUB = ("raw file reads (cut into pieces, failing), thread scheduling, clock, numba JIT off, doping "
        "grids scaled down")
ORACLES = TABLE
FOLDERS = ("data", "data", "data2")
SPOILT = ("gone", "empty", "garbage", "cut", "folder")


# -- programs -------------------------------------------------------------------------------
def rich(rng, spec, again=False):
    """Files of any length, text style and order of rows."""
    for f in spec["files"]:
        if not again and rng.random() < 0.6:
            ct, cr = f["ct"], f["cr"]
            lo, hi = min(f["columns"][ct]), max(f["columns"][ct])
            n = rng.choice([2, 3, 20, 60, 150])
            theta = sorted({round(rng.uniform(lo, hi), 3) for _ in range(n)} | {lo, hi})
            base = np.interp(theta, f["columns"][ct], f["columns"][cr])
            f["columns"] = [theta if c == ct else
                            [float("%.7e" % (v * (1 + 0.05 * (rng.random() - 0.5)))) for v in base]
                            if c == cr else [num(rng, -5, 5) for _ in theta]
                            for c in range(len(f["columns"]))]
        f["rows"] = list(range(len(f["columns"][0])))
        how = rng.random()
        if how < 0.5:
            rng.shuffle(f["rows"])
        elif how < 0.7:
            f["rows"].reverse()
        f["style"] = {"eol": pick(rng, "\n", "\n", "\r\n"), "tail": pick(rng, "", "", " ", "\t"),
                      "last": rng.random() < 0.8, "blank": rng.random() < 0.2,
                      "middle": rng.random() < 0.2, "fmt": pick(rng, "r", "r", "e")}
    return spec


def vary(rng, spec):
    """Azimuths with ranges and steps of their own."""
    if spec["kind"] == "PM" and rng.random() < 0.6:
        for _, _, e in spec["data"]:
            e[3] += pick(rng, 0, 0, 2.5)
            e[4] += pick(rng, 0, -5, 3)
            e[5] += pick(rng, 0, 0, 2.5)
    return spec


def other_files(rng, spec):
    """The same keys, other measurements."""
    new = copy.deepcopy(spec)
    for f in new["files"]:
        k = rng.uniform(0.5, 2)
        f["columns"][f["cr"]] = [float("%.6e" % (v * k * (1 + 0.2 * rng.random())))
                                 for v in f["columns"][f["cr"]]]
    return new


def generate(rng, tier):
    kind = pick(rng, *fits.KINDS)
    spec = rich(rng, vary(rng, fits.make_spec(rng, kind, finite=0.0)))
    twin = copy.deepcopy(spec)
    rng.shuffle(twin["data"])
    if kind == "PM":        # the declared normalisation angle is that of the last azimuth
        norm = {T: e[6] for T, _, e in spec["data"]}
        for T, _, e in twin["data"]:
            e[6] = norm[T]
    specs = [spec, rich(rng, twin, again=True), rich(rng, other_files(rng, spec), again=True)]
    xs = [fits.candidate(rng, spec) for _ in range(2)]
    ops, n, spoilt = [op_disk(rng, ["build", 0], 0.3)], 1, {}
    for _ in range(rng.randint(4, 8 if tier == "quick" else 14)):
        k = pick(rng, "load", "load", "load", "eval", "build", "look", "spoil", "restore",
                 "keep", "pair")
        o = rng.randrange(n)
        if k == "load":
            ops.append(op_disk(rng, ["load", o], 0.6))
        elif k == "eval" and rng.random() < 0.6:
            ops.append(op_disk(rng, ["eval", o, rng.choice(xs)], 0.4))
        elif k == "build" and n < 4:
            ops.append(op_disk(rng, ["build", rng.randrange(len(specs))], 0.4))
            n += 1
        elif k == "look":
            ops.append(["look", o])
        elif k == "spoil":
            i, folder = rng.randrange(len(spec["files"])), rng.randrange(len(specs))
            spoilt[i] = folder
            ops.append(["spoil", folder, i, pick(rng, *SPOILT), rng.randint(1, 60)])
            if rng.random() < 0.8:
                ops.append(["load", rng.randrange(n)])
                ops.append(["look", ops[-1][1]])
        elif k == "restore" and spoilt:
            ops.append(["restore"])
            spoilt = {}
        elif k == "keep" and kind != "PM":
            ops.append(["keep", o])
        elif k == "pair":
            ops.append(["pair", o, rng.randrange(n), rng.randrange(10**6)])
    ops.append(["restore"])
    for o in range(n):
        ops.append(op_disk(rng, ["load", o], 0.0, frag=0.5))
        ops.append(["look", o])
    if rng.random() < 0.5:
        ops.append(["eval", rng.randrange(n), rng.choice(xs)])
    return {"specs": specs, "ops": ops}


def op_disk(rng, op, p, frag=0.6):
    if rng.random() > max(p, frag):
        return op
    cfg = {"seed": rng.randrange(10**6), "frag": rng.random() < 0.7}
    if rng.random() < 0.5:
        cfg["buffer"] = pick(rng, 16, 64, 300, 1024)
    if rng.random() < p:
        kind = pick(rng, "open_r", "read", "read")
        cfg["fault"] = {"op": kind, "n": rng.randint(1, 4) if kind == "open_r" else
                        pick(rng, 1, 2, 3, rng.randint(1, 60)),
                        "how": pick(rng, "EIO", "EACCES", "ENOENT", "EMFILE") if kind == "open_r"
                        else pick(rng, "EIO", "ENOSPC")}
    return {"op": op, "disk": cfg}


# -- execution -----------------------------------------------------------------------------
def spoil(spec, folder, i, how, n):
    path = os.path.join(folder, spec["files"][i]["name"])
    unspoil(path)
    os.rename(path, path + ".kept")
    with open(path + ".kept") as f:
        text = f.read()
    if how == "empty":
        open(path, "w").close()
    elif how == "garbage":
        lines = text.splitlines(True)
        lines.insert(n % (len(lines) + 1), "--- lost ---\n")
        with open(path, "w") as f:
            f.writelines(lines)
    elif how == "cut":          # the last row has lost its last column
        rows = [ln for ln in text.splitlines() if ln.strip() and not ln.startswith("#")]
        last = rows.pop().split()
        with open(path, "w") as f:
            f.write("\n".join(rows + [" ".join(last[:-1])]) + "\n")
    elif how == "folder":
        os.mkdir(path)


def unspoil(path):
    if os.path.exists(path + ".kept"):
        if os.path.isdir(path):
            os.rmdir(path)
        elif os.path.exists(path):
            os.remove(path)
        os.rename(path + ".kept", path)


class Fit:
    """One fit object and, for the fits over several temperatures, its loaders."""

    def __init__(self, number, spec, folder):
        self.number, self.spec, self.folder = number, spec, folder
        self.obj = fits.build(spec, data=folder)
        self.loaders = {}

    def load(self):
        if self.spec["kind"] != "PM":
            self.obj.load_and_interp_data()
            return
        d = fits.data_dict(self.spec, self.folder)
        for T in self.spec["Ts"]:
            if T not in self.loaders:
                angles = PM.FitAnglesADMR(T, d)
                phis, thetas = angles.create_angles()
                self.loaders[T] = [angles, PM.DataADMR(T, d, phis, thetas)]
            angles, data = self.loaders[T]
            angles.create_angles()
            data.load_data(angles.Btheta_norm)

    def keep(self):
        """The user saves, loads what was saved, and goes on."""
        self.obj.save_member_to_json("kept%d" % self.number)
        self.obj.json_name = "kept%d.json" % self.number
        self.obj.load_member_from_json()

    def matrices(self):
        """-> [[T, {name: array or None}, held by a loader?]]"""
        out, k, o = [], self.spec["kind"], self.obj
        names = ("phis", "thetas", "rzz", "rhozz")
        for T in self.spec["Ts"]:
            if k == "PM":
                out.append([T, dict(zip(names, [get(d, T) for d in (
                    o.phis_dict, o.thetas_dict, o.rzz_data_dict, o.rhozz_data_dict)])), False])
                if T in self.loaders:
                    angles, data = self.loaders[T]
                    out.append([T, dict(zip(names, map(array, (
                        angles.Bphi_array, angles.Btheta_array, data.rzz_data_matrix,
                        data.rhozz_data_matrix)))), True])
            elif k == "SM":
                out.append([T, dict(zip(names, [get(d, T) for d in (
                    o.Bphi_dict, o.Btheta_dict, o.rzz_data_i_dict, o.rhozz_data_i_dict)])), False])
            else:
                out.append([T, dict(zip(names, map(array, (
                    o.Bphi_array, o.Btheta_array, o.rzz_data_matrix, o.rhozz_data_matrix)))), False])
        return out


def get(d, T):
    return array(d[T]) if T in d else None


def array(v):
    return None if v is None else np.array(v, dtype=float)


def execute(program):
    specs = program["specs"]
    folders = ["data", "twin", "data2"]
    for spec, folder in zip(specs, folders):
        fits.write_files(spec, folder)
    log, objs = [], []
    for pos, op in enumerate(program["ops"]):
        disk = None
        if isinstance(op, dict):
            disk, op = op.get("disk"), op["op"]
        e = {"what": op[0], "pos": pos, "seen": []}
        if op[0] == "build":
            r = attempt(lambda: Fit(len(objs), specs[op[1]], folders[op[1]]), disk=disk)
            e["which"] = op[1]
            if r.ok:
                objs.append(r.value)
                e["seen"] = seen(objs, [len(objs) - 1])
        elif op[0] == "spoil":
            spoil(specs[op[1]], folders[op[1]], op[2], op[3], op[4])
            log.append(e)
            continue
        elif op[0] == "restore":
            for folder in folders:
                for name in sorted(os.listdir(folder)):
                    if not name.endswith(".kept"):
                        unspoil(os.path.join(folder, name))
                for name in sorted(os.listdir(folder)):
                    if name.endswith(".kept"):
                        unspoil(os.path.join(folder, name[:-5]))
            log.append(e)
            continue
        else:
            if not objs:
                continue
            i = op[1] % len(objs)
            fit = objs[i]
            e["which"], e["on"] = specs.index(fit.spec), [i]
            if op[0] == "load":
                r = attempt(fit.load, disk=disk)
            elif op[0] == "look":
                r = attempt(lambda: None)
            elif op[0] == "keep":
                r = attempt(fit.keep)
            elif op[0] == "eval":
                r = attempt(lambda: fits.evaluate(fit.spec, fit.obj, op[2]), disk=disk)
                e["value"] = r.value if r.ok else None
            elif op[0] == "pair":
                j = op[2] % len(objs)
                e["on"] = sorted({i, j})
                r = attempt(lambda: pair(objs, i, j, op[3]))
                if r.ok and r.value:
                    r.ok, r.error = False, r.value
            e["seen"] = seen(objs, e["on"])
        e.update(ok=r.ok, error=r.error, fired=r.fired)
        log.append(e)
        hub.note(op[0], r.ok)
    return {"log": log, "measure": {
        "loads": sum(e["what"] in ("load", "build", "pair") and e["ok"] for e in log),
        "failed": sum(not e.get("ok", True) for e in log),
        "struck": sum(bool(e.get("fired")) for e in log),
        "shape": [specs[0]["kind"], [len(f["rows"]) for f in specs[0]["files"]]]
        + [[e["what"], e.get("on"), e.get("ok"), (e.get("fired") or {}).get("op")] for e in log]}}


def seen(objs, which):
    return [[i, objs[i].number, m] for i in which for m in [objs[i].matrices()]]


def pair(objs, i, j, seed):
    """Two threads load at once -> error or None. (One object alone is not shared.)"""
    if i == j:
        objs[i].load()
        return None
    s = sched.Sched([objs[i].load, objs[j].load], rng=random.Random(seed), rate=0.05,
                    package_dir=PACKAGE_DIR)
    hub.fs = fs.Disk(os.getcwd(), {"seed": seed, "frag": True, "buffer": 64})
    try:
        errors = s.run()
    finally:
        hub.fs = None
    if s.dead:
        raise SimDeadlock("the threads wait for each other")
    for e in errors:
        if isinstance(e, (StepBudget, SimDeadlock, TooBig)):
            raise e
        if e is not None:
            return "%s: %s" % (type(e).__name__, e)
    return None


# -- judgement ------------------------------------------------------------------------------
def plain_op(op):
    return op["op"] if isinstance(op, dict) else op


def wrong(got, want, need):
    """Compares the matrices of one temperature."""
    for k in ("phis", "thetas", "rzz", "rhozz"):
        a = got[k]
        if a is None or (k in ("phis", "thetas") and a.size == 0 and not need):
            if need:
                return "%s is missing" % k
            continue
        b = np.array(want[k], dtype=float)
        if a.shape != b.shape or not same(a, b, 1e-9):
            return "%s is %s, the data files give %s" % (k, show(a), show(b))
    return None


def judge(program, obs, oracle):
    specs = program["specs"]
    want = [fits.measured(s) for s in specs]
    number = []         # spec of each object
    sane = {}           # objects in a known state
    spoilt = set()
    for e in obs["log"]:
        pos, kind = e["pos"], e["what"]
        op = plain_op(program["ops"][pos])
        if kind == "spoil":
            spoilt.add((op[1], specs[op[1]]["files"][op[2]]["name"]))
            continue
        if kind == "restore":
            spoilt.clear()
            continue
        if e["fired"] and e["ok"]:
            return [{"kind": "swallowed", "pos": pos,
                     "detail": "%s returned although %s struck" % (kind, e["fired"])}]
        if kind == "build" and e["ok"]:
            number.append(op[1])
        on = e["on"] if kind != "build" else [len(number) - 1] if e["ok"] else []
        hurt = bool(e["fired"]) or any(damaged(specs[number[i]], number[i], spoilt) for i in on
                                       if i < len(number)) \
            or kind == "build" and not e["ok"] and damaged(specs[op[1]], op[1], spoilt)
        if not e["ok"]:
            if not hurt:
                if kind == "eval":
                    w = fits.expected(specs[number[on[0]]], op[2], oracle)
                    if "value" not in w:
                        continue
                if kind == "keep" and specs[0]["kind"] in ("SO", "SM") \
                        and not sane.get(on[0]):
                    continue            # nothing was simulated yet
                return [{"kind": "raises", "pos": pos,
                         "detail": "%s raised %s" % (kind, e["error"])}]
        need = e["ok"] and kind in ("build", "load", "eval", "pair") and not (
            kind == "build" and specs[0]["kind"] in ("SO", "SM"))
        if kind == "eval" and e["ok"]:
            sane[on[0]] = True
        for i, _, found in e["seen"]:
            for T, m, loader in found:
                bad = wrong(m, want[number[i]][T],
                            need and not (loader and kind in ("build", "eval")))
                if bad:
                    return [{"kind": "matrices", "pos": pos, "detail": "after %s%s, T=%s: %s"
                             % (kind, "" if e["ok"] else " failed", T, bad)}]
        if kind == "eval" and e["ok"]:
            w = fits.expected(specs[number[on[0]]], op[2], oracle)
            if "value" in w and not fits.agrees(e["value"], w):
                return [{"kind": "misfit", "pos": pos, "detail": "misfit %s, with all of the data "
                         "%s" % (show(e["value"]), show(w["value"]))}]
    return []


def damaged(spec, number, spoilt):
    """Is a file that this fit reads spoilt?"""
    return any((number, spec["files"][e[0]]["name"]) in spoilt for _, _, e in spec["data"])


def nontrivial(program, measure):
    """At least three loads succeeded, or one failed and another one succeeded."""
    return measure["loads"] >= 3 or measure["failed"] and measure["loads"]

