#!/usr/bin/env python3
"""check.py C01 [--replay FILE]: decide one property on the working tree of /repo.

VERIF_SEED and VERIF_TIER (quick, thorough) are taken from the environment."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import boot, runner  # noqa: E402


def main(argv):
    prop = argv[0]
    if "--replay" in argv:
        import tempfile

        boot.ensure_deps()
        path = os.path.abspath(argv[argv.index("--replay") + 1])
        with tempfile.TemporaryDirectory() as d:
            got, text = runner.replay_file(prop, path, d)
        print(text.strip())
        if got in ("yes", "hang"):
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0 if got == "no" else 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    return runner.main(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
