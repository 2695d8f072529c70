"""Run checks against planted bugs: run_seeded.py [--all] [ID ...]  (development only).

Each bug is applied to a scratch copy of /repo (VERIF_REPO); prints which checks raise an alarm.
By default only the bug's own property is run; --all runs every check.
"""
import json, os, shutil, subprocess, sys, tempfile

ALL = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir("/verif/seeded"))
props = ["C%02d" % i for i in range(1, 28)]
for i in ids:
    d = "/verif/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        copy = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=copy, capture_output=True, text=True)
        if r.returncode:
            print(i, "PATCH FAILS", r.stderr, flush=True)
            continue
        hits = []
        for p in props if ALL else [meta["property"]]:
            r = subprocess.run(["python3-vt", "check.py", p], cwd=os.environ.get("VERIF_DIR", "/verif"), capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_EVIDENCE=tmp))
            if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
                hits.append(p)
            elif r.returncode != 0:
                hits.append(p + "(rc%d)" % r.returncode)
            if not ALL and r.returncode == 1:
                print("   ", [l for l in r.stdout.splitlines() if l.strip()][-3:], flush=True)
        own = meta["property"] in hits
        print(i, meta["property"], "caught" if own else "MISSED", hits if ALL else "", flush=True)
    finally:
        shutil.rmtree(tmp)
