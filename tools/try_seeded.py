"""Runs the checks against planted bugs, in scratch copies of /repo.

usage: try_seeded.py [-a] [ID ...]     (-a: every claimed check against each bug, not only its own)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir(os.path.join(HERE, "seeded")))
claimed = [c["property_id"] if "property_id" in c else c.get("id") for c in
           json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]


def one(bug):
    folder = os.path.join(HERE, "seeded", bug)
    prop = json.load(open(os.path.join(folder, "meta.json")))["property"]
    base = tempfile.mkdtemp(prefix="try-")
    try:
        repo = os.path.join(base, "repo")
        shutil.copytree(os.environ.get("VERIF_REPO", "/repo"), repo, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(folder, "patch.diff")], cwd=repo, check=True)
        lines = []
        for p in (claimed if every else [prop]):
            t = time.time()
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            r = subprocess.run(["/opt/venv/bin/python", "-m", "sim.main", "check", p], cwd=HERE, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            first = next((l for l in r.stdout.splitlines() if l.startswith("VIOLATION")), "")
            detail = [l for l in r.stdout.splitlines() if re.search(r"kind|violat", l)][:2]
            lines.append("%-28s %s rc=%d %4.0f s %s %s" % (bug, p, r.returncode, time.time() - t,
                         first[:90], "" if r.returncode in (0, 1) else r.stdout[-400:]))
        return "\n".join(lines)
    finally:
        shutil.rmtree(base, ignore_errors=True)


jobs = int(os.environ.get("JOBS", "1"))
with ThreadPoolExecutor(jobs) as pool:
    for text in pool.map(one, ids):
        print(text, flush=True)
