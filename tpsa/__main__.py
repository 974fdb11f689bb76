import os
import sys

if os.environ.get("PYTHONHASHSEED") is None:
    # one order of sets in every run: the same source gives the same verdict and evidence
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-m", "tpsa"] + sys.argv[1:])

from . import checks  # noqa: E402


def main(argv):
    if not argv:
        print("usage: python -m tpsa <property id> [...]")
        return 2
    code = 0
    for p in argv:
        c = checks.run(p)
        code = max(code, c) if c != 1 else 1
    return code


sys.exit(main(sys.argv[1:]))
