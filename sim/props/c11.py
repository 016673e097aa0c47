"""C11: saving results is all-or-nothing and never silently incomplete."""
import copy
import os
import random

import numpy as np

from .. import fits, fs, gen, oracles, sched
from ..act import attempt
from ..boot import ADMR, PACKAGE_DIR, Conductivity
from ..gen import pick
from ..hub import SimDeadlock, StepBudget, TooBig, hub
from ..oracles import TABLE

ID = "C11"
RUNS = {"quick": 420, "thorough": 7000}
RULE = ("Saves of all four kinds of fits and of sweep tables on a simulated disk that cuts writes "
        "into pieces, reports errors at any step, fills up, or kills the process before, in the "
        "middle of or after any step; or two objects saved to one name at once while a third "
        "thread reads it.")
SHAPE = "kind of object, and for every save: the fault, its place, how the save ended"
REAL = ("the package, json, numpy.savetxt, the io stack above the raw file, the file system of "
        "a scratch directory, killed processes (real forks)")
STUB = ("raw file reads and writes and the os calls (counted, cut, failed or followed by a kill "
        "by the simulated disk), unique names, numba JIT off")
ORACLES = TABLE
ASSUMPTIONS = ["a kill loses user-space buffers and keeps what was handed to the operating system "
               "(process crash, not power loss)"]
KINDS = ("PM", "PO", "SO", "SM", "sweep")
OTHERS = ("best", "best.json.tmp", "best.tmp", ".best.json", "best.json~", "best.json.bak",
          "best_old.json", "tmp.json", "best.dat.tmp", "tmp", "Rzz.dat", "best.json.part",
          "best.json.new", ".best.json.swp", "temp.json", "best.pdf")


def disk(rng, kill):
    cfg = {"seed": rng.randrange(10**6)}
    if rng.random() < 0.7:
        cfg["buffer"] = pick(rng, 16, 64, 200, 512, 1024)
    if rng.random() < 0.5:
        cfg["piece"] = pick(rng, 1, 7, 50, 300)
        cfg["buffer"] = max(cfg.get("buffer", 512), 200)
    if kill:
        op = pick(rng, "*", "*", "*", "write", "write", "open_w", "close", "replace", "remove")
        n = rng.randint(1, 12) if op == "*" else rng.randint(1, 10) if op == "write" else pick(rng, 1, 1, 2)
        cfg["fault"] = {"op": op, "n": n, "how": pick(rng, "kill", "kill_mid", "kill_after")}
    elif rng.random() < 0.3:
        cfg["fault"] = {"op": "space", "n": rng.choice([0, 1, rng.randint(0, 300),
                                                        rng.randint(0, 2500)])}
    elif rng.random() < 0.9:
        op = pick(rng, "write", "write", "write", "open_w", "close", "replace", "fsync", "os_open", "*")
        n = rng.randint(1, 12) if op in ("write", "*") else pick(rng, 1, 1, 2)
        how = pick(rng, "EIO", "ENOSPC", "EACCES") if op != "open_w" else \
            pick(rng, "EACCES", "EMFILE", "ENOENT", "ENOSPC")
        cfg["fault"] = {"op": op, "n": n, "how": how}
    return cfg


def generate(rng, tier):
    kind = pick(rng, *KINDS)
    program = {"kind": kind, "mode": "pair" if rng.random() < 0.25 else "faults",
               "old": pick(rng, None, "junk", "junk", "long"), "link": rng.random() < 0.12,
               "named": rng.random() < 0.75,
               "others": rng.sample(OTHERS, rng.randint(1, 6))}
    if kind == "sweep":
        cond = fits.condition(rng)
        program["sweep"] = {"cond": cond, "phis": sorted(rng.sample([0, 15, 30, 45], rng.choice([1, 2]))),
                            "thetas": sorted(rng.sample([0, 20, 45, 70, 90], rng.choice([2, 3, 4])))}
        xs = [[gen.num(rng, -1.1, -0.7), pick(rng, 20, 30, 45.5)] for _ in range(2)]
    else:
        program["spec"] = fits.make_spec(rng, kind, finite=0, n_free=(1, 2))
        xs = [fits.candidate(rng, program["spec"]) for _ in range(2)]
    program["xs"] = xs
    if program["mode"] == "pair":
        program.update(link=False, seed=rng.randrange(10**9), rate=pick(rng, 0.1, 0.3, 0.5),
                       saves=[rng.randint(1, 2), rng.randint(1, 2)], reads=rng.randint(4, 12),
                       disk={"seed": 1, "buffer": pick(rng, 16, 100), "piece": 40},
                       preemptions=None, named=True)
        return program
    tries = []
    for _ in range(rng.randint(1, 3)):
        kill = rng.random() < 0.5
        tries.append({"x": rng.randrange(2), "kill": kill, "disk": disk(rng, kill)})
    tries.append({"x": rng.randrange(2), "kill": False, "disk": {
        "seed": rng.randrange(1000), "buffer": 100, "piece": pick(rng, 3, 40)}})
    program["ops"] = tries
    return program


class Saver:
    """An object and the way to save it."""

    def __init__(self, program, data):
        self.kind = program["kind"]
        self.spec = program.get("spec")
        if self.kind == "sweep":
            s = program["sweep"]
            one = fits.part(dict(s["cond"]))
            band = oracles.make_band(one["band"])
            self.cond = Conductivity(band, **{k: one["cond"][k] for k in oracles.COND_KEYS})
            band = self.cond.bandObject
            band.runBandStructure()
            self.obj = ADMR([self.cond], Bphi_array=s["phis"], show_progress=False)
            self.obj.Btheta_array = np.array(s["thetas"])
        else:
            self.obj = fits.build(self.spec, data=data)

    def set(self, x):
        if self.kind == "sweep":
            band = self.cond.bandObject
            band["mu"] = x[0]
            self.cond.Bamp = x[1]
            band.runBandStructure()
            self.obj.runADMR()
        else:
            fits.evaluate(self.spec, self.obj, x)

    def save(self, name):
        if self.kind == "sweep":
            self.obj.fileADMR(folder=".", filename=name)
        elif self.kind == "PM":
            self.obj.save_member_to_json(**({"filename": name} if name else {}))
        else:
            self.obj.save_member_to_json(filename=name)

    def suffix(self):
        return ".dat" if self.kind == "sweep" else ".json"


def snapshot(folder="."):
    out = {}
    for root, dirs, files in os.walk(folder):
        for name in files:
            path = os.path.relpath(os.path.join(root, name), folder)
            with fs._open(path if folder == "." else os.path.join(folder, path), "rb") as f:
                out[path] = f.read()
            if os.path.islink(os.path.join(root, name)):
                out[path + " ->"] = os.readlink(os.path.join(root, name)).encode()
    return dict(sorted(out.items()))


def forked(func):
    """Runs func in a child; its exit code."""
    hub.tag += 1
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            func()
            code = 0
        except BaseException:      # noqa: BLE001
            code = 1
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)


def reference(saver, name, folder):
    """What a save without faults writes: {file: content}."""
    os.makedirs(folder)

    def work():
        os.chdir(folder)
        with fs._open(os.devnull, "w") as null:
            import contextlib
            with contextlib.redirect_stdout(null):
                saver.save(name)
    code = forked(work)
    return code, snapshot(folder)


def execute(program):
    home = os.getcwd()
    if program.get("spec"):
        fits.write_files(program["spec"])
    first = attempt(lambda: Saver(program, os.path.join(home, "data")))
    if not first.ok:
        return {"log": [{"what": "build", "error": first.error}],
                "measure": {"saves": 0, "struck": 0, "shape": [program["kind"]]}}
    saver = first.value
    os.makedirs("out")
    os.chdir("out")
    for name in program["others"]:
        with open(name, "w") as f:
            f.write("precious " + name)
    if program["mode"] == "pair":
        return pair(program, saver, home)
    log = []
    name = "best" if program["named"] or program["kind"] == "PM" else None
    if name and program["kind"] == "sweep":
        name = "best.dat"
    dest = None
    for pos, op in enumerate(program["ops"]):
        ready = attempt(lambda: saver.set(program["xs"][op["x"]]))
        if not ready.ok:
            continue
        code, made = reference(saver, name, os.path.join(home, "ref%d" % pos))
        if code or len(made) != 1:
            log.append({"what": "plain", "pos": pos, "code": code, "files": sorted(made)})
            continue
        here, new = next(iter(made.items()))
        if dest is None:
            dest = here
            prepare(program, dest, home)
        before = snapshot()
        if op["kill"]:
            def work():
                hub.fs = fs.Disk(os.getcwd(), op["disk"])
                saver.save(name)
            code = forked(work)
            ended = {86: "killed", 0: "returned"}.get(code, "raised")
            fired = dict(op["disk"]["fault"]) if code == 86 else None
            if fired:
                k = "disk:%s@%s" % (fired["how"], fired["op"])
                hub.fired_kinds[k] = hub.fired_kinds.get(k, 0) + 1
            error = str(code)
        else:
            r = attempt(lambda: saver.save(name), disk=op["disk"])
            ended, fired, error = ("returned" if r.ok else "raised"), r.fired, r.error
        hub.note("save", ended)
        log.append({"what": "save", "pos": pos, "ended": ended, "fired": fired, "error": error,
                    "dest": here, "new": new, "before": before, "after": snapshot()})
    os.chdir(home)
    saves = [e for e in log if e["what"] == "save"]
    return {"log": log, "measure": {
        "saves": len(saves), "struck": sum(bool(e["fired"]) for e in saves),
        "shape": [program["kind"], program["old"], program["link"], program["named"]]
        + [[e["ended"], e["fired"]] for e in saves]}}


def prepare(program, dest, home):
    if program["old"]:
        text = "old content\n" * (400 if program["old"] == "long" else 3)
        path = dest
        if program["link"]:
            os.makedirs(os.path.join(home, "elsewhere"), exist_ok=True)
            path = os.path.join(home, "elsewhere", "kept" + os.path.splitext(dest)[1])
            os.symlink(os.path.join("..", "elsewhere", os.path.basename(path)), dest)
        with open(path, "w") as f:
            f.write(text)


def pair(program, saver, home):
    name = "best.dat" if program["kind"] == "sweep" else "best"
    dest = "best" + saver.suffix()
    prepare(program, dest, home)
    savers, news = [], []
    for i, x in enumerate(program["xs"]):
        mine = saver if i else copy.deepcopy(saver)
        ready = attempt(lambda: mine.set(x))
        if not ready.ok:
            return {"log": [], "measure": {"saves": 0, "struck": 0, "shape": []}}
        code, made = reference(mine, name, os.path.join(home, "ref%d" % i))
        if code or len(made) != 1:
            return {"log": [{"what": "plain", "pos": i, "code": code, "files": sorted(made)}],
                    "measure": {"saves": 0, "struck": 0, "shape": []}}
        savers.append(mine)
        news.append(made[dest])
    before = snapshot()
    seen = []

    def writer(i):
        def run():
            for _ in range(program["saves"][i]):
                savers[i].save(name)
        return run

    def reader():
        for _ in range(program["reads"]):
            sched.SCHED[0].point()
            try:
                with fs._open(dest, "rb") as f:
                    seen.append(f.read())
            except FileNotFoundError:
                seen.append(None)
    import contextlib
    import io
    s = sched.Sched([writer(0), writer(1), reader], rng=random.Random(program["seed"]),
                    rate=program["rate"], preemptions=program["preemptions"],
                    package_dir=PACKAGE_DIR, lines=False)
    hub.fs = fs.Disk(os.getcwd(), program["disk"])
    with contextlib.redirect_stdout(io.StringIO()):
        errors = s.run()
    hub.fs = None
    if s.dead:
        raise SimDeadlock("the threads wait for each other")
    for e in errors:
        if isinstance(e, (StepBudget, SimDeadlock, TooBig)):
            raise e
    after = snapshot()
    os.chdir(home)
    return {"log": [{"what": "pair", "dest": dest, "news": news, "before": before, "after": after,
                     "seen": seen, "errors": [repr(e) for e in errors if e is not None]}],
            "made": s.made, "measure": {
                "saves": sum(program["saves"]), "struck": 0, "switches": len(s.interleaving),
                "shape": [program["kind"], [t for _, t in s.interleaving][:80]]}}


def judge(program, obs, oracle):
    out = []
    for e in obs["log"]:
        if e["what"] == "build":
            return [{"kind": "build", "detail": e["error"]}]
        if e["what"] == "plain":
            return [{"kind": "plain", "detail": "a save without any fault %s, files %s" % (
                "failed" if e["code"] else "returned", e["files"])}]
        here = "%s save" % program["kind"]
        if e["what"] == "pair":
            old = e["before"].get(e["dest"])
            for got in e["seen"]:
                if got != old and got not in e["news"]:
                    out.append(("torn", "a reader saw %s during two %ss at once"
                                % (brief(got, e["news"][0]), here)))
                    break
            if e["errors"]:
                out.append(("raises", "two %ss at once: %s" % (here, e["errors"][0])))
            elif e["after"].get(e["dest"]) not in e["news"]:
                out.append(("torn", "after two %ss at once the file holds %s"
                            % (here, brief(e["after"].get(e["dest"]), e["news"][0]))))
        else:
            got, old, new = (e["after"].get(e["dest"]), e["before"].get(e["dest"]), e["new"])
            how = "%s %d (%s, %s)" % (here, e["pos"], e["fired"] or "no fault", e["ended"])
            if e["ended"] == "returned" and got != new:
                out.append(("incomplete", "%s returned, but the file holds %s"
                            % (how, brief(got, new))))
            elif got not in (old, new):
                out.append(("torn", "%s: the file holds neither the old nor the new content: %s"
                            % (how, brief(got, new))))
            elif e["ended"] == "raised" and not e["fired"]:
                out.append(("raises", "%s: %s" % (how, e["error"])))
        for k in e["before"]:
            if k != e["dest"] and e["after"].get(k) != e["before"][k] \
                    and not (k == e["dest"] + " ->"):
                out.append(("others", "the file %s was changed by a %s" % (k, here)))
                break
        if out:
            return [{"kind": k, "detail": d} for k, d in out]
    return []


def brief(got, new):
    if got is None:
        return "nothing (it is gone)"
    return "%d bytes of %d: %r..." % (len(got), len(new), got[:40])


def pin(program, stats):
    if program["mode"] != "pair" or stats.get("made") is None:
        return program
    return dict(program, preemptions=stats["made"])


def reductions(program):
    from ..main import list_cuts
    if program.get("preemptions"):
        for smaller in list_cuts(program["preemptions"]):
            yield dict(program, preemptions=smaller)
    if len(program.get("ops", [])) > 1:
        for smaller in list_cuts(program["ops"]):
            yield dict(program, ops=smaller)
    if len(program["others"]) > 1:
        for smaller in list_cuts(program["others"]):
            yield dict(program, others=smaller)


def nontrivial(program, measure):
    """A fault struck a save, or two saves were interleaved."""
    return measure["struck"] > 0 or measure.get("switches", 0) > 2
