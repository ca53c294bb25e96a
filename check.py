#!/opt/veriftools/pyvenv/bin/python
"""Usage: check.py PROPERTY quick|thorough
          check.py PROPERTY replay FILE"""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    try:
        if sys.argv[1:] == ["selftest"]:
            import hypothesis
            sys.path.append("/opt/venv/lib/python3.12/site-packages")
            import ply
            import nessaid_readline  # noqa: F401
            print("hypothesis", hypothesis.__version__, "ply", ply.__version__)
            sys.exit(0)
        from vlib import env  # noqa: F401
        from vlib.core import main
        status = main()
    except SystemExit:
        raise
    except BaseException:
        # Exit 1 is reserved for violations.
        traceback.print_exc()
        status = 3
    sys.stdout.flush()
    sys.exit(status)
