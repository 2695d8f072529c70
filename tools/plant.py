"""Build and confirm a planted bug: plant.py SPEC.py  (development only; no check uses this).

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new), ...], needs, breaks, demo), ...].
For each: scratch copy, patch, 279 tests, demo on both trees; kept in /verif/seeded/<id>/ when all confirm.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

REPO, SEED = "/repo", "/verif/seeded"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg")
DEMO_SH = '#!/bin/bash\n# exit 0 where the property holds\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, timeout=300):
    env = dict(ENV, PYTHONPATH=cwd)
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def one(b, only_ids):
    out = os.path.join(SEED, b["id"])
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        copy = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", REPO, copy], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit does not match once (%d): %s" % (s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=copy, capture_output=True, text=True).stdout
        t = run([PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "-x", "tests"], copy)
        if t.returncode:
            return "TESTS FAIL: " + " | ".join(l for l in t.stdout.splitlines() if "FAILED" in l)[:300]
        d = os.path.join(tmp, "demo")
        os.mkdir(d)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        bad = run(["bash", os.path.join(d, "demo.sh")], copy)
        good = run(["bash", os.path.join(d, "demo.sh")], REPO)
        if good.returncode or not bad.returncode:
            return "DEMO: clean rc %d, patched rc %d\n%s\n%s" % (good.returncode, bad.returncode, good.stderr[-600:], bad.stderr[-600:])
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        for n in ("demo.sh", "demo.py"):
            shutil.copy(os.path.join(d, n), out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return "kept: " + (bad.stderr.strip().splitlines() or ["?"])[-1][:160]
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:]
    for b in bugs:
        if not ids or b["id"] in ids:
            print(b["id"], b["property"], "->", one(b, ids), flush=True)
