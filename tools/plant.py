"""Makes /verif/seeded/<id>/ from a specification of planted bugs and confirms it.

usage: plant.py SPEC.py [ID ...]

SPEC.py defines PREAMBLE (python text put at the head of every demonstration) and BUGS, a list of
dicts: id, property, needs, breaks, edits [(file, old, new)], demo (python text), data {name: text}.
Everything happens in a scratch copy of /repo, which is removed at the end.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run in the repository: 0 if the property holds, not 0 if it does not
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg NUMBA_CPU_NAME=generic OPENBLAS_NUM_THREADS=1
export REPO=$(pwd)
exec timeout 280 /opt/venv/bin/python "$here/demo.py"
'''
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(repo):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               NUMBA_CPU_NAME="generic", NUMBA_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1",
               NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")
    xml = os.path.join(repo, ".junit.xml")
    out = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
               "-n", "6", "--dist", "loadscope", "--continue-on-collection-errors",
               "-o", "python_files=test_*.py tests.py", "-o", "junit_family=xunit2",
               "--junitxml=" + xml, "tests"], cwd=repo, env=env)
    import xml.etree.ElementTree as ET
    passed = set()
    for case in ET.parse(xml).iter("testcase"):
        if not any(child.tag in ("failure", "error", "skipped") for child in case):
            passed.add(case.get("classname") + "::" + case.get("name"))
    os.remove(xml)
    for f in os.listdir(repo):
        if f.startswith("Rzz_") and f.endswith(".pdf"):
            os.remove(os.path.join(repo, f))
    return sorted(STABLE - passed), out.stdout[-3000:]


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    wanted = sys.argv[2:]
    base = tempfile.mkdtemp(prefix="plant-")
    bad = []
    try:
        repo = os.path.join(base, "repo")
        shutil.copytree(os.environ.get("VERIF_REPO", "/repo"), repo, symlinks=True)
        for bug in mod.BUGS:
            if wanted and bug["id"] not in wanted:
                continue
            folder = os.path.join(HERE, "seeded", bug["id"])
            shutil.rmtree(folder, ignore_errors=True)
            os.makedirs(folder)
            run(["git", "checkout", "-q", "--", "."], cwd=repo)
            problems = []
            for name, old, new in bug["edits"]:
                path = os.path.join(repo, "cuprates_transport", name)
                text = open(path, newline="").read()
                crlf = "\r\n" in text
                text = text.replace("\r\n", "\n")
                if text.count(old) != 1:
                    problems.append("%s: %d matches of %r" % (name, text.count(old), old[:60]))
                    continue
                text = text.replace(old, new)
                open(path, "w", newline="").write(text.replace("\n", "\r\n") if crlf else text)
            diff = subprocess.run(["git", "diff", "--binary"], cwd=repo, stdout=subprocess.PIPE).stdout
            open(os.path.join(folder, "patch.diff"), "wb").write(diff)
            preamble = getattr(mod, "PREAMBLES", {}).get(bug.get("preamble"), mod.PREAMBLE)
            open(os.path.join(folder, "demo.py"), "w").write(preamble + bug["demo"])
            open(os.path.join(folder, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(folder, "demo.sh"), 0o755)
            for name, text in bug.get("data", {}).items():
                open(os.path.join(folder, name), "w").write(text)
            json.dump({"property": bug["property"], "needs": bug["needs"],
                       "what_it_breaks": bug["breaks"]},
                      open(os.path.join(folder, "meta.json"), "w"), indent=1)
            demo = [os.path.join(folder, "demo.sh")]
            if not problems:
                patched = run(demo, cwd=repo)
                if patched.returncode == 0:
                    problems.append("demo passes with the patch")
                missing, log = tests(repo)
                if missing:
                    problems.append("tests fail with the patch: %s\n%s" % (missing, log))
                run(["git", "checkout", "-q", "--", "."], cwd=repo)
                plain = run(demo, cwd=repo)
                if plain.returncode != 0:
                    problems.append("demo fails without the patch: " + plain.stdout[-1500:])
                print(bug["id"], "patched:", patched.returncode, patched.stdout.strip().splitlines()[-1:],
                      "| plain:", plain.returncode, flush=True)
            for p in problems:
                print("   PROBLEM", bug["id"], p, flush=True)
            if problems:
                bad.append(bug["id"])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print("BAD:", bad)


main()
