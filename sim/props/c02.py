"""C02: an interrupted or failed run leaves no trace in later results."""
from .. import gen
from ..oracles import TABLE, same, show
from ..world import (World, bad, judge_common, judge_failed, judge_run, judge_sweep,
                     judge_sweep_failed)

ID = "C02"
RUNS = {"quick": 600, "thorough": 9000}
ORACLES = TABLE
RULE = ("Random programs over one or two bands, computations and a sweep; an interrupt, an "
        "allocation failure or a numerical error strikes inside a discretisation, a transport "
        "run or a sweep, at a seeded kernel call; retries and other runs follow.")


def generate(rng, tier):
    two = rng.random() < 0.3
    ops, b, c = [], [], []
    specs = []
    for i in range(2 if two else 1):
        spec = gen.band_spec(rng, name="band_%d" % i)
        specs.append(spec)
        ops += [["band", spec], ["runband", 2 * i, 0],
                ["cond", 2 * i, gen.cond_spec(rng, finite=0.3)]]
        b.append(2 * i + 1)
        c.append(i)
    sweeps = rng.random() < 0.5
    if sweeps:
        phis = rng.sample([0, 20, 45, 70], rng.choice([1, 2]))
        thetas = sorted(rng.sample([0, 15, 40, 65, 90], rng.choice([2, 3])))
        ops.append(["sweep_new", c, phis, thetas, rng.choice([0, 30]), rng.random() < 0.3])
    for _ in range(rng.randint(2, 6 if tier == "quick" else 10)):
        i = rng.randrange(len(b))
        if rng.random() < 0.4:
            ops.append(gen.change_cond(rng, c[i]))
        if rng.random() < 0.3:
            ops.append(gen.change_param(rng, b[i], specs[i]))
            if rng.random() < 0.6:
                ops.append(["runband", b[i], rng.choice([0, 0, 1.5])])
        if rng.random() < 0.1:
            ops.append(gen.surface_change(rng, b[i]))
        kind = rng.choice(["run", "run", "run", "runband", "disc", "query"]
                          + ["sweep"] * (2 * sweeps))
        op = {"run": ["run", c[i]], "runband": ["runband", b[i], rng.choice([0, 2.0, -2.5])],
              "disc": ["runband", b[i], rng.choice([0, 2.0, -2.5]), True],
              "query": rng.choice([["query", c[i], rng.choice([q for q in gen.QUERIES
                                                              if q != "doping"])],
                                   [rng.choice(["perkz", "dos", "mass"]), b[i]],
                                   ["doping", b[i], rng.choice(["doping", "filling"]),
                                    [11, 11, 5]]]),
              "sweep": ["sweep", 0]}[kind]
        fault = gen.kernel_fault(rng)
        if kind == "sweep" and rng.random() < 0.2:
            fault = dict(fault, site="inv", n=rng.randint(1, 4))
        ops.append({"op": op, "fault": fault})
        r = rng.random()
        if r < 0.35:
            ops.append(op)                       # simply retry
        elif r < 0.6:
            ops.append(["run", c[i]])
        elif r < 0.7:
            ops.append({"op": op, "fault": gen.kernel_fault(rng)})
            ops.append(["run", c[i]])
        elif r < 0.8:
            ops += [["cset", c[i], "T", rng.choice([0, 20])], ["run", c[i]]]
        elif sweeps:
            ops.append(["sweep", 0])
        if kind in ("runband", "disc") and rng.random() < 0.5:
            ops.append(["run", c[i]])
        elif kind == "query" and rng.random() < 0.7:
            ops += [["runband", b[i], rng.choice([0, 0, 2.0])], ["run", c[i]]]
    ops += [["run", i] for i in c]
    return {"ops": ops}


def execute(program):
    w = World()
    w.run(program["ops"])
    fired = [e for e in w.log if e.get("fired") or e["what"] == "interrupted"]
    shape = [op[0] if isinstance(op, list) else [op["op"][0], op["fault"]["site"],
                                                 min(op["fault"]["n"], 9)]
             for op in program["ops"]]
    after = sum(e["what"] in ("run", "sweep") and e["pos"] > fired[0]["pos"]
                for e in w.log) if fired else 0
    return {"log": w.log, "measure": {"struck": len(fired), "runs_after": after, "shape": shape}}


def judge(program, obs, oracle):
    out = []
    maps = {}
    for e in obs["log"]:
        what = e["what"]
        if what in ("run", "sweep") and e["fired"]:
            out.append(bad("swallowed", e, "%s reported a result although %s struck it"
                           % (what, e["fired"])))
        elif what == "swallowed":
            out.append(bad("swallowed", e, "%s ended normally although %s struck it"
                           % (e["op"], e["fault"])))
        elif what == "run":
            judge_run(e, oracle, out)
        elif what == "run_failed":
            judge_failed(e, oracle, out)
        elif what == "sweep":
            judge_sweep(e, oracle, out)
            maps[0] = e
        elif what == "sweep_failed":
            judge_sweep_failed(e, oracle, out)
            if 0 in maps:
                line = e["fired"] and e["fired"]["site"] == "line"
                for m, name in zip(e["maps"], ("rhozz", "rzz")):
                    if not same(m, maps[0][name], 1e-12):
                        # (a fault between the lines that store the maps comes too late)
                        if line and same(m, oracle("sweep", e["args"]).get(name), 1e-6):
                            maps.clear()
                            break
                        out.append(bad("maps", e, "a failed sweep changed the %s map from %s to %s"
                                       % (name, show(maps[0][name]), show(m))))
                        break
        else:
            judge_common(e, oracle, out)
    return out


def nontrivial(program, measure):
    """A fault struck inside a computation and a later run was compared."""
    return measure["struck"] > 0 and measure["runs_after"] > 0
