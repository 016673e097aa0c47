"""Writes /verif/MANIFEST.json from the list of checks that exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -m sim.main check "
TECH = {
 "C01": "deterministic simulation: seeded operation histories against fresh computations",
 "C02": "deterministic simulation with fault injection at kernel calls; later results against fresh computations",
 "C03": "deterministic simulation with fault injection: seeded band histories, every exposed quantity against a fresh band",
 "C04": "deterministic simulation with fault injection: seeded sweep histories, cells against stand-alone runs",
 "C05": "deterministic simulation with fault injection: seeded sweep and table-writing histories against a bookkeeping model",
 "C06": "deterministic simulation: seeded thread and operation schedules, each computation against itself run alone",
 "C07": "deterministic simulation with fault injection: seeded candidate histories in all four evaluators against independent misfits",
 "C08": "deterministic simulation: seeded worker-pool schedules, clocks and hosts against in-order evaluation",
 "C09": "deterministic simulation: seeded worker-pool schedules, returned answer against the recorded evaluations",
 "C10": "deterministic simulation with fault injection: workers raise, die or run out of memory under seeded schedules",
 "C11": "deterministic simulation with fault injection: disk errors, short writes, full disk and kills at every I/O step",
 "C12": "deterministic simulation with fault injection: seeded evaluate/save/load histories against a model",
 "C13": "deterministic simulation with fault injection: fragmented and failing reads against an independent loader",
 "C14": "deterministic simulation with fault injection: seeded fits and save faults against the recorded optimiser result",
}
NOTE = {
 "C01": "Seeded sample of operation histories (bounded length) on small grids; trusts a fresh object in a pristine process as reference, and numba-off kernels.",
 "C02": "Seeded sample of interruption points (kernel and solver calls, four error kinds) in bounded histories; the error is injected at seams, not between arbitrary bytecodes.",
 "C03": "Seeded sample of bounded band histories on small grids; reference is a fresh band in a pristine process.",
 "C04": "Seeded sample of bounded sweep histories; reference computes every cell in a fresh object.",
 "C05": "Seeded sample of bounded histories; totals, file name and table columns recomputed from the settings in force.",
 "C06": "Seeded sample of schedules: operations interleaved, and threads switched at line granularity of package code; real threads parked and released one at a time.",
 "C07": "Seeded sample of candidate sequences; misfits recomputed from scratch (own loader, own sum) in pristine processes.",
 "C08": "Seeded sample of pool schedules (workers, assignment, order, speeds, clock); pools are simulated, workers are real forked processes run one at a time.",
 "C09": "Seeded sample of fits with few generations; every evaluation is recorded at the pool and compared with what is returned.",
 "C10": "Seeded sample of failure points in workers; simulated pool semantics follow multiprocessing.Pool and ProcessPoolExecutor.",
 "C11": "Seeded sample of I/O faults and kill points over save sequences; durable state is what reached the operating system (process kill, not power loss).",
 "C12": "Seeded sample of save/load histories; JSON compared exactly, curves and misfit to round-off in pristine processes.",
 "C13": "Seeded sample of read faults, fragmentations, row orders and reloads; matrices recomputed by an independent loader.",
 "C14": "Seeded sample of fits (optimisers capped to few evaluations) and save faults; the optimiser's own result is recorded at the seam.",
}
NA = {
 "N01": "pure function of the inputs (accuracy of the formula and its discretisation): no schedule, clock, fault or history in it",
 "N02": "pure function of the inputs (symmetry of one computed tensor): nothing for a simulator to decide",
 "N03": "pure function of the inputs (geometry of the discretisation): nothing for a simulator to decide",
 "N04": "pure function of the inputs (counting of states): nothing for a simulator to decide",
 "N05": "pure function of the inputs (accuracy of the orbit integration): nothing for a simulator to decide",
 "N06": "pure function of the inputs (scattering formulas): nothing for a simulator to decide",
 "N07": "pure function of the inputs (low-temperature limit): nothing for a simulator to decide",
 "N08": "the only schedule is that of threads inside the compiled numba runtime, which cannot be put under a simulator (the simulator runs the kernels uncompiled)",
 "N09": "pure function of the settings (what a figure shows); judging drawn figures is outside the family",
}
have = [p for p in sorted(TECH) if os.path.exists(os.path.join(HERE, "sim", "props", p.lower() + ".py"))]
for p in TECH:
    if p not in have:
        NA[p] = "check under construction"
doc = {
 "version": 1,
 "setup_cmd": "/opt/venv/bin/python -m sim.main setup",
 "checks": [{"property": p, "quick_cmd": PY + p, "thorough_cmd": "env VERIF_TIER=thorough " + PY + p, "technique": TECH[p],
             "level": "exploration", "level_note": NOTE[p]} for p in have],
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
 "notes": "No hooks in /repo: every seam is put in place from outside before the package is "
          "imported (sim/boot.py). Replay a violation with: /opt/venv/bin/python -m sim.main replay FILE",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(have), "checks")
