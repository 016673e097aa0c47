"""C01: transport results depend only on the current settings, not on history."""
from .. import gen
from ..oracles import TABLE
from ..world import World, judge_common, judge_failed, judge_run

ID = "C01"
RUNS = {"quick": 700, "thorough": 12000}
ORACLES = TABLE


def generate(rng, tier):
    spec = gen.band_spec(rng)
    ops = [["band", spec], ["runband", 0, 0]]
    if rng.random() < 0.15:
        ops.pop()
    ops.append(["cond", 0, gen.cond_spec(rng)])
    b, c = 1, 0
    weights = {"set": rng.choice([1, 3, 6]), "param": rng.choice([0, 1, 3]),
               "surface": rng.choice([0, 1]), "query": rng.choice([0, 1, 3]),
               "copy": rng.choice([0, 0, 1]), "run": 4, "runband": rng.choice([0, 1, 1]),
               "figure": rng.choice([0, 0, 1]),
               "retemp": rng.choice([0, 1]), "back": rng.choice([0, 1])}
    kinds = [k for k, w in weights.items() for _ in range(w)]
    for _ in range(rng.randint(4, 14 if tier == "quick" else 22)):
        k = rng.choice(kinds)
        if k == "set":
            for _ in range(rng.choice([1, 1, 2, 3])):
                ops.append(gen.change_cond(rng, c))
        elif k == "param":
            ops.append(gen.change_param(rng, b, spec))
            if rng.random() < 0.75:
                ops.append(["runband", b, 0])
        elif k == "surface":
            ops.append(gen.surface_change(rng, b))
        elif k == "query":
            ops.append(["query", c, gen.pick(rng, *gen.QUERIES)])
        elif k == "figure":
            if rng.random() < 0.3:
                ops.append(["bandfig", b, gen.pick(rng, *gen.BAND_FIGURES)])
            else:
                ops.append(["query", c, gen.pick(rng, *gen.FIGURES)])
        elif k == "copy":
            ops.append(["copy", c, gen.pick(rng, "deepcopy", "pickle", "rebuild")])
        elif k == "runband":
            ops.append(["runband", b, gen.pick(rng, 0, 0, 2.0, -3)])
        elif k == "retemp":
            # there and back again
            ops += [["cset", c, "T", gen.pick(rng, 10, 25)], ["run", c], ["cset", c, "T", 0]]
        elif k == "back":
            old = gen.pick(rng, 0, 20, 45)
            ops += [["cset", c, "Bamp", gen.pick(rng, 0, 30)], ["run", c], ["cset", c, "Bamp", old]]
        else:
            ops.append(["run", c])
    ops.append(["run", c])
    if rng.random() < 0.1:
        # scattering from the density of states exists without field only
        at = rng.randint(3, len(ops))
        ops[at:at] = [["cset", c, "Bamp", 0],
                      ["cset", c, "scattering_models", ["isotropic", "gamma_dos_func"]], ["run", c],
                      ["cset", c, "scattering_models", ["isotropic"]]]
    return {"ops": ops}


def execute(program):
    w = World()
    w.run(program["ops"])
    runs = sum(e["what"] == "run" for e in w.log)
    return {"log": w.log, "measure": {"runs": runs, "shape": [op[0] for op in program["ops"]]}}


def judge(program, obs, oracle):
    out = []
    for e in obs["log"]:
        if e["what"] == "run":
            judge_run(e, oracle, out)
        elif e["what"] == "run_failed":
            judge_failed(e, oracle, out)
        else:
            judge_common(e, oracle, out)
    return out


def nontrivial(program, measure):
    """At least two completed runs, or one after some change of settings."""
    return measure["runs"] >= 2
