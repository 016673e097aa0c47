"""python -m sim.main check C01 | replay FILE | selftest C01 [N]

check: seeded search over simulated runs of one property (VERIF_SEED, VERIF_TIER).
"""
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import signal
import subprocess
import sys
import time

from . import boot, runner
from .boot import real_time
from .runner import HarnessError, Oracle, run_program

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
WALL = {"quick": 420, "thorough": 3300}
ALL = ["C%02d" % i for i in range(1, 15)]


def load(pid):
    return importlib.import_module("sim.props." + pid.lower())


def program_of(prop, seed, i, tier):
    rng = random.Random("%s/%s/%d" % (prop.ID, seed, i))
    return prop.generate(rng, tier)


def outcome(violations):
    return [v["kind"] for v in violations]


# -- workers -----------------------------------------------------------------------
def _worker(w, prop, seed, tier, total, stop, deadline, fd):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    runner._BASE[0] = None
    oracle = Oracle(prop.ORACLES)
    res = {"runs": 0, "violations": [], "events": {}, "fired": {}, "steps": 0, "sim_s": 0.0,
           "shapes": set(), "nontrivial": set(), "samples": [], "harness": [], "void": 0,
           "io": {}, "extra": {}, "digests": {}, "out_of_time": 0}
    for i in range(w, total, WORKERS):
        if stop[0] or real_time() > deadline:
            res["out_of_time"] += not stop[0]
            break
        program = program_of(prop, seed, i, tier)
        try:
            v, stats = run_program(prop, program, oracle)
        except HarnessError as e:
            try:        # once more: the machine may have been short of something
                v, stats = run_program(prop, program, oracle)
            except HarnessError:
                res["harness"].append([i, str(e)[-1500:]])
                continue
        res["runs"] += 1
        for k in ("events", "fired", "io"):
            for name, n in stats.get(k, {}).items():
                res[k][name] = res[k].get(name, 0) + n
        res["steps"] += stats["steps"]
        res["sim_s"] += stats["sim_s"]
        res["void"] += stats.get("void", 0)
        res["digests"][i] = stats["digest"]
        m = stats.get("measure")
        if m is not None:
            shape = hashlib.sha1(json.dumps(m.get("shape"), sort_keys=True,
                                            default=str).encode()).hexdigest()[:16]
            res["shapes"].add(shape)
            if prop.nontrivial(program, m):
                res["nontrivial"].add(shape)
            for k, x in m.items():
                if isinstance(x, (int, float)) and not isinstance(x, bool):
                    res["extra"][k] = res["extra"].get(k, 0) + x
        if len(res["samples"]) < 1:
            res["samples"].append({"run": i, "program": program})
        if v:
            res["violations"].append([i, program, v])
            stop[0] = 1
    res["oracles"] = oracle.evaluations
    runner.remove_scratch()
    data = pickle.dumps(res)
    while data:
        n = os.write(fd, data[:1 << 16])
        data = data[n:]


def search(prop, seed, tier, total, wall):
    stop = mmap.mmap(-1, 1)
    deadline = real_time() + wall
    children = []
    for w in range(WORKERS):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                _worker(w, prop, seed, tier, total, stop, deadline, wr)
                code = 0
            except BaseException:      # noqa: BLE001
                import traceback
                traceback.print_exc()
            finally:
                runner.remove_scratch()
                os._exit(code)
        os.close(wr)
        children.append((pid, r))
    results, dead = [], 0
    for pid, r in children:
        data = b""
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        if data:
            results.append(pickle.loads(data))
        else:
            dead += 1
    return results, dead


def merge(results):
    tot = {"runs": 0, "violations": [], "events": {}, "fired": {}, "steps": 0, "sim_s": 0.0,
           "shapes": set(), "nontrivial": set(), "samples": [], "harness": [], "void": 0,
           "io": {}, "extra": {}, "digests": {}, "oracles": 0, "out_of_time": 0}
    for r in results:
        for k, v in r.items():
            if isinstance(v, set):
                tot[k] |= v
            elif isinstance(v, dict):
                for name, n in v.items():
                    if k == "digests":
                        tot[k][name] = n
                    else:
                        tot[k][name] = tot[k].get(name, 0) + n
            elif isinstance(v, list):
                tot[k] += v
            else:
                tot[k] += v
    return tot


# -- minimisation ----------------------------------------------------------------
def list_cuts(items):
    """Smaller lists, big cuts first."""
    n = len(items)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield items[:i] + items[i + size:]
        if size == 1:
            break
        size //= 2


def generic_reductions(program):
    for key in ("ops", "preemptions", "faults"):
        if isinstance(program.get(key), list) and program[key]:
            for smaller in list_cuts(program[key]):
                yield dict(program, **{key: smaller})
    if isinstance(program.get("ops"), list):
        for i, op in enumerate(program["ops"]):
            if isinstance(op, dict) and ("fault" in op or "disk" in op):
                ops = list(program["ops"])
                ops[i] = op["op"]
                yield dict(program, ops=ops)


def minimise(prop, program, kinds, oracle, wall):
    """Smaller programs with the same kind of violation, within `wall` seconds."""
    end = real_time() + wall
    reductions = getattr(prop, "reductions", generic_reductions)
    tried, again = 0, True
    while again and real_time() < end:
        again = False
        for candidate in reductions(program):
            if real_time() > end:
                break
            tried += 1
            try:
                v, _ = run_program(prop, candidate, oracle)
            except HarnessError:
                continue
            if set(outcome(v)) & set(kinds):
                program, again = candidate, True
                break
    return program, tried


def write_replay(prop, seed, i, tier, program, v, digest):
    folder = os.path.join(HERE, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "%s-seed%s-run%d.json" % (prop.ID, seed, i))
    with open(path, "w") as f:
        json.dump({"property": prop.ID, "seed": seed, "run": i, "tier": tier,
                   "program": program, "violations": v, "digest": digest}, f, indent=1)
    return path


def check(pid, seed=None, tier=None, runs=None):
    prop = load(pid)
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    total = runs or prop.RUNS[tier]
    t0 = real_time()
    print("%s seed=%d tier=%s runs=%d repo=%s" % (prop.ID, seed, tier, total, boot.REPO),
          flush=True)
    runner.warm()
    if hasattr(prop, "warm"):
        prop.warm()
    results, dead = search(prop, seed, tier, total, WALL[tier])
    tot = merge(results)
    search_s = real_time() - t0
    code = 0
    if tot["violations"]:
        code = 1
        i, program, v = min(tot["violations"], key=lambda x: x[0])
        oracle = Oracle(prop.ORACLES)
        if hasattr(prop, "pin"):        # the schedule becomes part of the program
            _, stats = run_program(prop, program, oracle)
            pinned = prop.pin(program, stats)
            v2, _ = run_program(prop, pinned, oracle)
            if set(outcome(v2)) & set(outcome(v)):
                program = pinned
        small, tried = minimise(prop, program, outcome(v), oracle, 90)
        v2, stats = run_program(prop, small, oracle)
        if not v2:
            small, v2, stats = program, v, {"digest": "?"}
        path = write_replay(prop, seed, i, tier, small, v2, stats["digest"])
        print("run %d (%d candidates tried to shrink it):" % (i, tried))
        for x in v2[:3]:
            print("  [%s] %s" % (x["kind"], x["detail"]))
        again = subprocess.run([sys.executable, "-m", "sim.main", "replay", path], cwd=HERE,
                               capture_output=True, text=True,
                               env=dict(os.environ, PYTHONHASHSEED="77"))
        print("  replay in a fresh process: %s" %
              {1: "the same violation", 0: "NO violation"}.get(again.returncode, "error"))
        print("VIOLATION property=%s replay=%s" % (prop.ID, path), flush=True)
    elif tot["harness"] or dead or not tot["runs"]:
        code = 2
        print("HARNESS ERROR: %d runs without verdict, %d workers lost"
              % (len(tot["harness"]), dead))
        for i, e in tot["harness"][:3]:
            print("run %d: %s" % (i, e))
    evidence(prop, seed, tier, total, tot, search_s, real_time() - t0, code)
    runner.remove_scratch()
    print("%s: %d runs, %d distinct non-trivial, %d oracle runs, faults %s, %.1f s, exit %d"
          % (prop.ID, tot["runs"], len(tot["nontrivial"]), tot["oracles"],
             json.dumps(tot["fired"], sort_keys=True), real_time() - t0, code), flush=True)
    return code


def evidence(prop, seed, tier, total, tot, search_s, wall, code):
    hours = max(search_s, 1e-9) / 3600
    doc = (prop.__doc__ or "").strip()
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(tot["nontrivial"]),
        "rule": getattr(prop, "RULE", doc) + " Non-trivial: "
        + " ".join((prop.nontrivial.__doc__ or "").split()),
        "samples": tot["samples"][:2],
        "runs_planned": total,
        "distinct_shapes": len(tot["shapes"]),
        "shape_measure": getattr(prop, "SHAPE", "sequence of operation kinds of the run"),
        "runs_per_hour": int(tot["runs"] / hours),
        "seeds_per_hour": int(tot["runs"] / hours),
        "simulated_steps": tot["steps"],
        "simulated_seconds": round(tot["sim_s"], 3),
        "fault_points_passed": tot["events"],
        "disk_steps_passed": tot["io"],
        "faults_injected": tot["fired"],
        "oracle_evaluations": tot["oracles"],
        "counters": {k: round(v, 3) for k, v in tot["extra"].items()},
        "void_runs": tot["void"],
        "workers_out_of_time": tot["out_of_time"],
        "digest_of_runs": hashlib.sha1(json.dumps(sorted(tot["digests"].items()))
                                       .encode()).hexdigest(),
        "real_components": getattr(prop, "REAL", "the whole cuprates_transport package, numpy, "
                                   "scipy (ODEPACK, optimisers), scikit-image, sympy, lmfit, json"),
        "stub_components": getattr(prop, "STUB", "numba JIT off (kernels run as Python/numpy), "
                                   "simulated clock, locks and processor count, doping grids "
                                   "scaled down to at most 27 points per axis"),
    }
    ev = {"property": prop.ID, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": cov, "wall_s": round(wall, 2),
          "violations": len(tot["violations"]),
          "assumptions": getattr(prop, "ASSUMPTIONS", []) + [
              "sampled schedules and faults: a clean batch is evidence, not proof",
              "exit code of this run: %d" % code]}
    folder = os.path.join(HERE, "evidence")
    os.makedirs(folder, exist_ok=True)
    tmp = os.path.join(folder, ".%s.tmp" % prop.ID)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(folder, prop.ID + ".json"))


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    prop = load(doc["property"])
    runner.warm()
    if hasattr(prop, "warm"):
        prop.warm()
    v, stats = run_program(prop, doc["program"], Oracle(prop.ORACLES))
    for x in v:
        print("[%s] %s" % (x["kind"], x["detail"]))
    print("event log digest %s (recorded %s)" % (stats["digest"], doc["digest"]))
    runner.remove_scratch()
    if v:
        print("VIOLATION property=%s replay=%s" % (doc["property"], os.path.abspath(path)))
        return 1
    print("no violation")
    return 0


def selftest(pid, n=40):
    """The same programs twice, other worker counts and hash seeds: same event logs."""
    code = ("import sys,json; from sim import main, runner; runner.warm(); p=main.load(%r)\n"
            "getattr(p,'warm',lambda:None)()\n"
            "main.WORKERS=int(sys.argv[1]); r,_=main.search(p,%d,'quick',%d,600)\n"
            "t=main.merge(r); print(json.dumps([sorted(t['digests'].items()), len(t['violations']),"
            "t['harness'][:2]]))")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    out = []
    for workers, hashseed in ((8, "0"), (3, "123"), (5, "999")):
        r = subprocess.run([sys.executable, "-c", code % (pid, seed, n), str(workers)], cwd=HERE,
                           capture_output=True, text=True,
                           env=dict(os.environ, PYTHONHASHSEED=hashseed))
        if r.returncode:
            print(r.stderr)
            return 2
        out.append(json.loads(r.stdout.strip().splitlines()[-1]))
    a = dict(map(tuple, out[0][0]))
    diff = [i for o in out[1:] for i, d in o[0] if a.get(i) != d]
    print("%s: %d runs, %d differing event logs, violations %s harness %s"
          % (pid, len(a), len(diff), [o[1] for o in out], [o[2] for o in out]))
    return 1 if diff else 0


def main(argv):
    if argv[:1] == ["check"]:
        return check(argv[1], runs=int(argv[2]) if len(argv) > 2 else None)
    if argv[:1] == ["replay"]:
        return replay(argv[1])
    if argv[:1] == ["setup"]:       # nothing to build: the checks import from the tree
        import cuprates_transport
        print("package from", os.path.dirname(cuprates_transport.__file__))
        return 0
    if argv[:1] == ["selftest"]:
        return max(selftest(p, int(argv[2]) if len(argv) > 2 else 40)
                   for p in (ALL if argv[1] == "all" else [argv[1]]))
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except HarnessError as e:
        print("HARNESS ERROR:", e)
        runner.remove_scratch()
        sys.exit(2)

_ = time
