"""Determinism of the simulation itself: the same seed gives the same runs, whatever
the number of worker processes, the hash seed of the interpreter or the repetition."""
import os

from . import runner


def digests(pid, seed, runs, workers, hashseed):
    os.environ["VERIF_HASHSEED"] = str(hashseed)
    os.environ["VERIF_LOGDIGEST"] = "1"
    logs = []
    import contextlib
    import io
    import shutil
    ev = os.path.join(runner.VERIF, "evidence", pid + ".json")
    keep = open(ev).read() if os.path.exists(ev) else None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            rc = runner.main_check(pid, "quick", seed, nworkers=workers, seconds=600, runs=runs, logs=logs)
    finally:
        if keep is not None:
            with open(ev, "w") as f:
                f.write(keep)
        os.environ.pop("VERIF_HASHSEED", None)
        os.environ.pop("VERIF_LOGDIGEST", None)
        del shutil
    return rc, {m["i"]: (m["d"], m["v"]) for m in logs}


def main(args):
    from props import REGISTRY
    runs = int(os.environ.get("VERIF_SELFTEST_RUNS", "24"))
    bad = 0
    for pid in args or sorted(REGISTRY):
        seed = int(os.environ.get("VERIF_SEED", "1"))
        rc, a = digests(pid, seed, runs, 8, 0)
        _, b = digests(pid, seed, runs, 3, 0)
        _, c = digests(pid, seed, runs, 8, 12345)
        _, d = digests(pid, seed + 1, runs, 8, 0)
        ids = sorted(a)
        diff_w = [i for i in ids if b.get(i) != a[i]]
        diff_h = [i for i in ids if c.get(i) != a[i]]
        moved = sum(d.get(i) != a[i] for i in ids)
        ok = rc == 0 and len(ids) == runs and not diff_w and not diff_h and moved > 0
        bad += not ok
        print("%s %s runs=%d rc=%d differ(workers)=%s differ(hashseed)=%s other seed differs in %d" % (
            "ok " if ok else "BAD", pid, len(ids), rc, diff_w[:6], diff_h[:6], moved), flush=True)
    return 1 if bad else 0
