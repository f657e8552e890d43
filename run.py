"""Entry point of every check: ``./check C01`` or ``./check C01 --replay FILE``."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if __name__ == "__main__":
    try:
        from lib import boot  # noqa: F401  (sets up sys.path, imports the code under test)
        from lib import core
        pid = sys.argv[1]
        if pid == "--selftest":
            from lib import selftest
            selftest.main()
            sys.exit(0)
        mod = importlib.import_module("props." + pid.lower())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    try:
        code = core.main(pid, mod, sys.argv[2:])
    except core.HarnessError:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
