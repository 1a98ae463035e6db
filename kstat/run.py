"""python3 -m kstat.run C01 [C02 ...]  -- run static checks against /repo."""
import importlib
import os
import sys


def main(argv):
    rc = 0
    for pid in argv:
        mod = importlib.import_module("kstat.checks.%s" % pid.lower())
        r = mod.check().finish()
        rc = max(rc, r) if rc != 1 and r != 1 else 1
    return rc


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # same order of sets in every run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "kstat.run"] + sys.argv[1:])
    sys.exit(main(sys.argv[1:]))
