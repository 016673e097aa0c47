"""C06: independent computations never influence each other."""
import contextlib
import copy
import io
import random

import numpy as np

from .. import boot, fits, gen, oracles, sched
from ..boot import ADMR, BandStructure, Conductivity
from ..hub import SimDeadlock, StepBudget, TooBig, hub
from ..oracles import same, show
from ..world import Band, Cond, Sweep, World, clone

ID = "C06"
RUNS = {"quick": 420, "thorough": 6500}
RULE = ("Two or three computations made from shared dictionaries, lists and bands; their "
        "operations are interleaved in one thread, or run in threads switched at package lines "
        "and kernel events; the caller modifies the shared inputs afterwards.")
SHAPE = "kinds of the computations, mode, and the sequence of thread switches"
STUB = ("numba JIT off (kernels run as Python/numpy), locks simulated, caller threads real but "
        "parked and released one at a time by the scheduler, doping grids scaled down")
DEFAULT_PARAMS = {"t": 1, "tp": -0.136, "tpp": 0.068, "tz": 0.07, "mu": -0.83}


# -- generating ----------------------------------------------------------------------------
def task(rng, kind, inputs, light):
    """Operations of one computation (indices are those of its own world)."""
    spec = inputs["band"]
    if kind == "fit":
        x = [fits.candidate(rng, inputs["fit"]) for _ in range(2)]
        ops = [["fit"]] + [["eval", rng.choice(x)] for _ in range(rng.randint(1, 2 if light else 3))]
        if not light and rng.random() < 0.3:
            ops.insert(2, ["fitsave"])
        return ops
    ops = []
    if kind == "default":
        ops += [["mkdefault"], ["runband", 0, 0], ["mkcond", 0]]
        params = DEFAULT_PARAMS
    elif kind == "frombands":
        ops += [["caller_cond"]]
        params = spec["band_params"]
    else:
        ops += [["mkband"], ["runband", 0, 0], ["mkcond", 0]]
        params = spec["band_params"]
        if rng.random() < 0.35:
            # the same or another model, with a parameter that it does not use
            other = [m for m in ("simple", "hole") if m != spec["model"]]
            name = rng.choice(["M", "lam", "zz", None])
            ops[0] = ["mkvariant", {
                "model": spec["model"] if spec["model"] == "full" or rng.random() < 0.6
                else other[0], "extra": {name: rng.choice([0.3, 0.05])} if name else {}}]
    b = 0 if kind == "frombands" else 1
    if kind == "sweep":
        ops.append(["mksweep", sorted(rng.sample([0, 20, 45, 70, 90], 2))])
    for _ in range(rng.randint(1, 2 if light else 4)):
        k = rng.choice(["cset", "cset", "sattr", "param", "run", "query", "shared", "band", "eps",
                        "fault", "fix"])
        if k == "cset":
            ops.append(gen.change_cond(rng, 0))
        elif k == "sattr":
            key = rng.choice(gen.SP_KEYS)
            ops.append(["sattr", 0, key, gen.sp_value(rng, key)])
        elif k == "param":
            ops += [gen.change_param(rng, b, {"band_params": params}), ["runband", b, 0]]
        elif k == "query":
            ops.append(["query", 0, rng.choice(gen.QUERIES)])
        elif k == "shared":
            if ops[0][0] == "mkvariant" or rng.random() < 0.5:
                ops.append(["cset_shared", 0])
            else:
                ops += [["set_shared", b], ["runband", b, 0]]
        elif k == "band" and kind != "frombands":
            ops += [["set", 0, "mu", gen.param_value(rng, "mu"), "item"], ["runband", 0, 0]]
        elif k == "eps":
            ops.append(["runband", b, rng.choice([0, 2.0])])
        elif k == "fix" and not light:
            ops += [["fixdoping", b, 0.2, 0.02, "method"], ["runband", b, 0]]
        elif k == "fault" and not light:
            ops.append({"op": ["run", 0], "fault": gen.kernel_fault(rng, gen.SITES)})
        if rng.random() < 0.6:
            ops.append(["run", 0])
    ops.append(["sweep", 0] if kind == "sweep" else ["run", 0])
    ops.append(["snapshot", b])
    return ops


BUILD = ("mkband", "mkvariant", "mkdefault", "mkcond", "caller_cond", "mksweep", "fit", "set_shared",
         "cset_shared")


def mutation(rng, inputs):
    k = rng.choice(["params", "params", "sp", "res", "kmax", "sm", "phis", "conds", "band",
                    "band", "fit", "fit", "data"])
    if k == "params":
        key = rng.choice(sorted(inputs["band"]["band_params"]))
        return ["mut", k, key, gen.param_value(rng, key)]
    if k == "sp":
        key = rng.choice(gen.SP_KEYS)
        return ["mut", k, key, gen.sp_value(rng, key)]
    if k == "res":
        return ["mut", k, rng.randrange(3), rng.choice([5, 9])]
    if k == "kmax":
        return ["mut", k, 2, rng.choice([1.0, 3.0])]
    if k == "sm":
        return ["mut", k, rng.choice(["cos2phi", "sin2phi"]), 0]
    if k == "phis":
        return ["mut", k, 0, rng.choice([33, 81])]
    if k == "band":
        return ["mut", k, rng.choice(["mu", "tz", "scale", "run", "doping"]),
                rng.choice([-0.95, -0.7])]
    return ["mut", k, rng.choice(["scattering_params", "band_params", "top"]), rng.choice([3, 9.5])]


def generate(rng, tier):
    threads = rng.random() < 0.55
    band = gen.band_spec(rng)
    cond = gen.cond_spec(rng, finite=0.15)
    if threads:
        cond["N_time"] = rng.choice([20, 30])
        band["resolution"] = [5, 5, 3]
    fit = fits.make_spec(rng, rng.choice(fits.KINDS), finite=0)
    inputs = {"band": band, "cond": cond, "fit": fit, "phis": sorted(rng.sample([0, 15, 45], 2))}
    kinds = [rng.choice(["dicts", "dicts", "frombands", "frombands", "sweep", "fit", "default"])
             for _ in range(2 if threads else rng.choice([2, 2, 3]))]
    if rng.random() < 0.4:
        kinds[1] = kinds[0]
    tasks = [task(rng, k, inputs, threads) for k in kinds]
    program = {"inputs": inputs, "kinds": kinds, "tasks": tasks, "mode": "ops"}
    muts = [mutation(rng, inputs) for _ in range(rng.choice([0, 1, 2, 3]))]
    if threads:
        program.update(mode="threads", early=bool(muts) or rng.random() < 0.5,
                       rate=rng.choice([0.003, 0.01, 0.05, 0.2]), seed=rng.randrange(10**9),
                       lines=rng.random() < 0.7, mutations=muts, preemptions=None)
        return program
    # the order of the operations: any, but the caller modifies inputs after the last build
    last = [max([i for i, op in enumerate(t) if isinstance(op, list) and op[0] in BUILD],
                default=0) for t in tasks]
    order = [i for i, t in enumerate(tasks) for _ in t]
    rng.shuffle(order)
    seen, ready = [0] * len(tasks), 0
    for pos, i in enumerate(order):
        seen[i] += 1
        if seen[i] == last[i] + 1:
            ready = pos + 1
    for m in muts:
        order.insert(rng.randint(ready, len(order)), m)
    program["order"] = order
    return program


# -- performing ----------------------------------------------------------------------------
class Inputs:
    """Everything the caller owns and passes in."""

    def __init__(self, inputs):
        band = inputs["band"]
        self.spec = inputs
        self.params = clone(band["band_params"])
        self.res = list(band["resolution"])
        self.kmax = [x * np.pi for x in band["k_max"]]
        self.sp = clone(inputs["cond"]["scattering_params"])
        self.sm = list(inputs["cond"]["scattering_models"])
        self.phis = list(inputs["phis"])
        self.conds = []
        self.model = oracles.MODELS[band["model"]]
        fit = inputs["fit"]
        if fit["kind"] == "PM":
            self.fit = fits.decode(fit["params"])
        else:
            self.fit = fits.decode(fit["member"])
        self.bounds = fits.decode(fit["bounds"])
        self.data = fits.data_dict(fit)
        self.band = self.make_band()
        self.band.march_square = band["march_square"]
        self.band.runBandStructure()

    def make_band(self, variant=None):
        s = self.spec["band"]
        params, model = self.params, self.model
        if variant:
            params, model = dict(params, **variant["extra"]), oracles.MODELS[variant["model"]]
        b = BandStructure(s["a"], s["b"], s["c"], s["energy_scale"], band_params=params,
                          band_model=model, band_name=s["band_name"],
                          resolution=self.res, k_max=self.kmax, number_of_bz=s["number_of_bz"],
                          parallel=False)
        b.march_square = s["march_square"]
        return b

    def shown(self):
        """What must stay as the caller left it."""
        b = self.band
        band = {"params": dict(b.band_params), "scale": b.energy_scale, "res": list(b.resolution),
                "kmax": list(b.k_max)}
        for name in oracles.FS + ("n", "p"):
            v = getattr(b, name)
            band[name] = None if v is None else np.array(v)
        return {"params": self.params, "res": self.res, "kmax": self.kmax, "sp": self.sp,
                "sm": self.sm, "phis": self.phis, "n_conds": len(self.conds), "fit": self.fit,
                "bounds": self.bounds, "data": self.data, "band": band}

    def mutate(self, what, key, val):
        if what == "params":
            self.params[key] = val
        elif what == "sp":
            self.sp[key] = val
        elif what == "res":
            self.res[key] = val
        elif what == "kmax":
            self.kmax[key] = val
        elif what == "sm":
            self.sm.append(key)
        elif what == "phis":
            self.phis[key] = val
        elif what == "conds":
            del self.conds[:]
        elif what == "data":
            self.data.clear()
        elif what == "band":
            if key == "scale":
                self.band.energy_scale = 111
            elif key == "run":
                self.band.runBandStructure(epsilon=1.0)
            elif key == "doping":
                self.band.doping(9, 9, 5)
            elif key in self.band.band_params:
                self.band[key] = abs(val) / 10 if key == "tz" else val
        else:
            target = self.fit
            if self.spec["fit"]["kind"] == "PM":
                target = target[next(iter(target))]
                target = target[next(iter(target))]
            if key == "top":
                target["energy_scale"] = 100 + val
            else:
                d = target[key]
                for name in d:
                    if not isinstance(d[name], dict):
                        d[name] = val if key == "scattering_params" else val / 50


class SharedWorld(World):
    """One computation: a World whose objects are made from the shared inputs."""

    def __init__(self, inputs, quiet):
        super().__init__()
        self.inputs = inputs
        self.quiet = quiet
        self.fit = None

    def attempt(self, func, fault=None):
        if not self.quiet:
            return super().attempt(func, fault)
        if fault:
            hub.arm(fault)
        try:
            out = True, func()
        except (StepBudget, SimDeadlock, TooBig):
            raise
        except BaseException as e:      # noqa: BLE001
            out = False, type(e).__name__ + ": " + str(e)[:200]
        return out[0], out[1], (hub.disarm() if fault else None)

    def _new(self, make, spec):
        ok, obj, _ = self.attempt(make)
        if not ok:
            self.record("error", op="make", error=obj)
        self.bands.append(Band(obj if ok else None, clone(spec)))

    def op_mkband(self, fault=None):
        self._new(self.inputs.make_band, self.inputs.spec["band"])

    def op_mkvariant(self, variant, fault=None):
        spec = self.inputs.spec["band"]
        self._new(lambda: self.inputs.make_band(variant), dict(
            spec, model=variant["model"],
            band_params=dict(spec["band_params"], **variant["extra"])))

    def op_mkdefault(self, fault=None):
        s = self.inputs.spec["band"]

        def make():
            b = BandStructure(s["a"], s["b"], s["c"], s["energy_scale"], parallel=False)
            b.resolution = [5, 5, 3]
            b.march_square = s["march_square"]
            return b
        self._new(make, dict(s, model="full", band_params=dict(DEFAULT_PARAMS),
                             resolution=[5, 5, 3], k_max=[1, 1, 2], number_of_bz=1))

    def _cond(self, band, spec_band):
        i = self.inputs
        c = i.spec["cond"]
        kw = {k: c[k] for k in oracles.COND_KEYS if not k.startswith("scattering")}
        ok, obj, _ = self.attempt(lambda: Conductivity(
            band, scattering_models=i.sm, scattering_params=i.sp, **kw))
        if not ok:
            self.record("error", op="cond", error=obj)
            return
        self.bands.append(spec_band.copy(obj.bandObject))
        self.conds.append(Cond(obj, clone(c), len(self.bands) - 1))

    def op_mkcond(self, b, fault=None):
        self._cond(self.bands[b].obj, self.bands[b])

    def op_caller_cond(self, fault=None):
        model = Band(None, self.inputs.spec["band"])
        self._cond(self.inputs.band, model)

    def op_mksweep(self, thetas, fault=None):
        i = self.inputs
        i.conds = [c.obj for c in self.conds]
        phis = list(i.phis)

        def act():
            a = ADMR(i.conds, Bphi_array=i.phis, show_progress=False)
            a.Btheta_array = np.array(thetas)
            return a
        ok, obj, _ = self.attempt(act)
        if ok:
            self.sweeps.append(Sweep(obj, list(range(len(self.conds))), phis, thetas, 0))
        else:
            self.record("error", op="mksweep", error=obj)

    def op_set_shared(self, b, fault=None):
        band = self.bands[b]

        def act():
            band.obj.band_params = self.inputs.params
        ok, err, _ = self.attempt(act)
        band.forget()
        if not ok:
            self.record("error", op="set_shared", error=err)

    def op_cset_shared(self, c, fault=None):
        def act():
            self.conds[c].obj.scattering_params = self.inputs.sp
        ok, err, _ = self.attempt(act)
        if not ok:
            self.record("error", op="cset_shared", error=err)

    def op_fit(self, fault=None):
        i, spec = self.inputs, self.inputs.spec["fit"]

        def act():
            kw = {"normalized_data": spec["normalized"]}
            if spec["kind"] == "PM":
                return boot.PM.Fitness(i.data, i.fit, i.bounds, **kw)
            if spec["kind"] == "PO":
                return boot.PO.FittingADMRParallel(i.fit, i.bounds, i.data, folder=".", **kw)
            mod = boot.SO if spec["kind"] == "SO" else boot.SM
            return mod.FittingADMR(i.fit, i.bounds, i.data, folder=".", method="least_square", **kw)
        ok, self.fit, _ = self.attempt(act)
        if not ok:
            self.record("error", op="fit", error=self.fit)

    def op_eval(self, x, fault=None):
        ok, val, _ = self.attempt(lambda: fits.evaluate(self.inputs.spec["fit"], self.fit, x))
        self.record("eval", value=val)

    def op_fitsave(self, fault=None):
        ok, val, _ = self.attempt(lambda: self.fit.save_member_to_json(filename="shared"))
        if not ok:
            self.record("error", op="save", error=val)


def seen(log):
    """The observations of one computation."""
    out = []
    for e in log:
        d = {"what": e["what"], "pos": e["pos"]}
        for k in ("value", "rhozz", "rzz", "filling", "hole", "shown", "back", "mu", "error"):
            if k in e:
                d[k] = e[k] if k != "error" or e[k] is None else str(e[k]).split(":")[0]
        out.append(d)
    return out


def alone(args):
    fits.write_files(args["inputs"]["fit"])
    w = SharedWorld(Inputs(args["inputs"]), False)
    w.run(args["ops"])
    return {"log": seen(w.log)}


ORACLES = {"alone": alone}


def flat(x, path=""):
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            yield from flat(x[k], path + "/" + str(k))
    else:
        yield path, x


def execute(program):
    fits.write_files(program["inputs"]["fit"])
    inputs = Inputs(program["inputs"])
    shadow = Inputs(copy.deepcopy(program["inputs"]))
    threads = program["mode"] == "threads"
    worlds = [SharedWorld(inputs, threads) for _ in program["tasks"]]
    made, switches, errors = None, 0, []

    def mutate(m):
        with contextlib.suppress(KeyError, IndexError, StopIteration):
            inputs.mutate(*m[1:])
        with contextlib.suppress(KeyError, IndexError, StopIteration):
            shadow.mutate(*m[1:])
    if not threads:
        at = [0] * len(worlds)
        for step in program["order"]:
            if isinstance(step, list):
                mutate(step)
                continue
            if at[step] < len(program["tasks"][step]):
                w, op = worlds[step], program["tasks"][step][at[step]]
                w.pos = at[step]
                at[step] += 1
                w.do(op)
                switches += 1
        shape = [program["kinds"], program["order"]]
    else:
        first = [0] * len(worlds)
        with contextlib.redirect_stdout(io.StringIO()):
            if program["early"]:
                for i, (w, t) in enumerate(zip(worlds, program["tasks"])):
                    while first[i] < len(t) and isinstance(t[first[i]], list) \
                            and t[first[i]][0] in BUILD + ("runband",):
                        w.pos = first[i]
                        w.do(t[first[i]])
                        first[i] += 1
            def body(w, t, start):
                def run():
                    for pos in range(start, len(t)):
                        w.pos = pos
                        # whoever assigns shared inputs does so before the caller changes them
                        if program["mutations"] and isinstance(t[pos], list) \
                                and t[pos][0] in BUILD:
                            continue
                        w.do(t[pos])
                return run
            funcs = [body(*z) for z in zip(worlds, program["tasks"], first)]
            if program["mutations"]:
                def caller():
                    for m in program["mutations"]:
                        sched.SCHED[0].point()
                        with contextlib.suppress(KeyError, IndexError, StopIteration):
                            inputs.mutate(*m[1:])
                funcs.append(caller)
            s = sched.Sched(funcs, rng=random.Random(program["seed"]), rate=program["rate"],
                            preemptions=program["preemptions"], package_dir=boot.PACKAGE_DIR,
                            lines=program["lines"])
            errors = s.run()
            for m in program["mutations"]:
                with contextlib.suppress(KeyError, IndexError, StopIteration):
                    shadow.mutate(*m[1:])
        if s.dead:
            raise SimDeadlock("the threads wait for each other")
        for e in errors:
            if isinstance(e, (StepBudget, SimDeadlock, TooBig)):
                raise e
        made, switches = s.made, len(s.interleaving)
        shape = [program["kinds"], [t for _, t in s.interleaving][:60],
                 [x for x, _ in s.interleaving][:60]]
    mine = dict(flat(inputs.shown()))
    want = dict(flat(shadow.shown()))
    want["/n_conds"] = mine["/n_conds"]
    log = [{"task": i, "entries": seen(w.log)} for i, w in enumerate(worlds)]
    log.append({"inputs": [[k, mine.get(k, "gone"), want.get(k, "absent")]
                           for k in sorted(set(mine) | set(want))
                           if not equal(mine.get(k, "gone"), want.get(k, "absent"))],
                "errors": [repr(e) for e in errors if e is not None]})
    return {"log": log, "made": made, "measure": {
        "threads": int(threads), "switches": switches, "shape": shape,
        "entries": sum(len(w.log) for w in worlds)}}


def equal(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    try:
        return same(a, b, 1e-12)
    except (TypeError, ValueError):
        return a == b


def pin(program, stats):
    if program["mode"] != "threads" or stats.get("made") is None:
        return program
    return dict(program, preemptions=stats["made"])


def reductions(program):
    from ..main import list_cuts
    if program.get("preemptions"):
        for smaller in list_cuts(program["preemptions"]):
            yield dict(program, preemptions=smaller)
    if program.get("mutations"):
        for smaller in list_cuts(program["mutations"]):
            yield dict(program, mutations=smaller)
    if program["mode"] == "ops":
        for smaller in list_cuts(program["order"]):
            yield dict(program, order=smaller)


def judge(program, obs, oracle):
    out = []
    for part in obs["log"]:
        if "inputs" in part:
            for path, got, want in part["inputs"][:2]:
                out.append({"kind": "inputs", "detail": "the caller's %s became %s, it was %s"
                            % (path, show_any(got), show_any(want))})
            for e in part["errors"]:
                out.append({"kind": "thread", "detail": "a thread ended with " + e})
            continue
        ops = program["tasks"][part["task"]]
        got = part["entries"]
        if program["mode"] == "ops":
            n = sum(1 for x in program["order"] if x == part["task"])
            ops = ops[:n]
        elif program["mutations"]:
            # the thread skipped assignments of shared inputs
            k = 0
            while program["early"] and k < len(ops) and isinstance(ops[k], list) \
                    and ops[k][0] in BUILD + ("runband",):
                k += 1
            ops = [op if i < k or not (isinstance(op, list) and op[0] in BUILD) else ["nothing"]
                   for i, op in enumerate(ops)]
        ref = oracle("alone", {"inputs": program["inputs"], "ops": ops})
        if "void" in ref:
            continue
        if "error" in ref:
            out.append({"kind": "alone", "detail": "computation %d alone: %s"
                        % (part["task"], ref["error"])})
            continue
        out += compare(part["task"], got, ref["log"])
    return out


def compare(i, got, want):
    for g, w in zip(got, want):
        a, b = dict(flat(g)), dict(flat(w))
        for k in sorted(set(a) | set(b)):
            x, y = a.get(k, "nothing"), b.get(k, "nothing")
            ok = equal(x, y)
            if not ok and not isinstance(x, str) and not isinstance(y, str) \
                    and x is not None and y is not None:
                try:
                    ok = same(x, y, 1e-9)
                except (TypeError, ValueError):
                    pass
            if not ok:
                return [{"kind": "influenced", "detail": "computation %d, operation %d: %s is %s, "
                         "alone it is %s" % (i, g["pos"], k, show_any(x), show_any(y))}]
    if len(got) != len(want):
        return [{"kind": "influenced", "detail": "computation %d made %d observations, alone %d"
                 % (i, len(got), len(want))}]
    return []


def show_any(x):
    try:
        return show(x)
    except (TypeError, ValueError):
        return repr(x)


def nontrivial(program, measure):
    """At least one switch between computations, and something was observed."""
    return measure["switches"] > 1 and measure["entries"] > 0


def _nothing(self, fault=None):
    pass


World.op_nothing = _nothing
