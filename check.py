#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]      run one property's simulated search
check.py --replay FILE                      re-run a replay file in a fresh process
check.py --selftest [ID ...]                determinism: same seeds, different worker counts / hash seeds"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix == "/usr":
    if not os.environ.get("VERIF_REEXEC"):
        os.environ["VERIF_REEXEC"] = "1"
        os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from sim import runner  # noqa: E402

for _k, _v in runner.PY_ENV.items():
    os.environ.setdefault(_k, _v)
sys.path.insert(0, runner.REPO)


def main(argv):
    if argv and argv[0] == "--worker":
        pid, tier, seed, k, n, sec, runs, path = argv[1:9]
        return runner.worker(pid, tier, int(seed), int(k), int(n), float(sec), int(runs), path)
    if argv and argv[0] == "--replay-inner":
        return runner.replay_inner(argv[1])
    if argv and argv[0] == "--replay":
        return 1 if runner.replay_file(argv[1]) else 0
    if argv and argv[0] == "--selftest":
        from sim import selftest
        return selftest.main(argv[1:])
    if argv and argv[0] == "--setup":
        # nothing to compile: check that the code under test imports from /repo
        import skada
        ok = os.path.realpath(skada.__file__).startswith(os.path.realpath(runner.REPO) + os.sep)
        print("skada imported from", skada.__file__)
        return 0 if ok else 2
    tier = os.environ.get("VERIF_TIER", "quick")
    seconds = runs = None
    args = list(argv)
    pid = args.pop(0)
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seconds":
            seconds = float(args.pop(0))
        elif a == "--runs":
            runs = int(args.pop(0))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.main_check(pid, tier, seed, seconds=seconds, runs=runs)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
