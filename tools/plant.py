#!/usr/bin/env python3
"""plant.py ID [--checks P1,P2|auto] [--no-tests]
Confirm a planted bug (seeded/ID) in a scratch copy of /repo: the demo passes on
the plain copy and fails on the patched one, the stable tests still pass, and
say which checks report it.  Development aid; no check reads seeded/."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
IGN = ["--ignore=skada/datasets/tests/test_%s.py" % n for n in ("amazon_review", "mnist_usps", "office", "office_home")]


def demo(d, copy):
    env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    lay = tempfile.mkdtemp(prefix="demo-")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(d, f), lay)
    p = subprocess.run(["bash", os.path.join(lay, "demo.sh")], cwd=copy, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    shutil.rmtree(lay)
    return p.returncode, p.stdout[-600:]


def main():
    bid = sys.argv[1]
    d = os.path.join(VERIF, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    checks = [meta["property"]]
    if "--checks" in sys.argv:
        v = sys.argv[sys.argv.index("--checks") + 1]
        checks = [] if v == "none" else v.split(",")
    top = tempfile.mkdtemp(prefix="plant-")
    copy = os.path.join(top, "repo")
    ok = True
    try:
        subprocess.run(["cp", "-a", os.environ.get("PLANT_BASE", "/repo"), copy], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=copy, check=True)
        rc, o = demo(d, copy)
        print(bid, "demo on plain tree:", rc, "" if rc == 0 else o)
        ok &= rc == 0
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy, check=True)
        rc, o = demo(d, copy)
        print(bid, "demo on patched tree:", rc, o.strip().split("\n")[-1][:300])
        ok &= rc != 0
        if "--no-tests" not in sys.argv:
            env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
            p = subprocess.run([PY, "-m", "pytest", "skada", "-q", "-n", "8", "-p", "no:cacheprovider", "--color=no", "--timeout=300", *IGN],
                               cwd=copy, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(bid, "tests:", p.stdout.strip().split("\n")[-1])
            if p.returncode:
                ok = False
                print("\n".join(x for x in p.stdout.split("\n") if x.startswith("FAILED"))[:1500])
        for c in checks:
            env = dict(os.environ, VERIF_REPO=copy, PYTHONPATH=copy)
            p = subprocess.run([PY, "-B", os.path.join(VERIF, "check.py"), c, "--tier", "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            lines = [x for x in p.stdout.strip().split("\n") if x]
            print(bid, "check", c, "rc", p.returncode, "|", " | ".join(lines[-5:])[:700])
        print(bid, "CONFIRMED" if ok else "NOT CONFIRMED")
    finally:
        shutil.rmtree(top, ignore_errors=True)


main()
