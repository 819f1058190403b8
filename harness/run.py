#!/usr/bin/env python3
"""run.py ID [--case NAME INDEX] : run the check of one property."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "shims")]


def main():
    import importlib
    import tempfile
    import traceback
    prop = sys.argv[1]
    only = sys.argv[3:5] if "--case" in sys.argv else None
    os.environ.setdefault("TZ", "UTC")
    # nothing the checks run may write in a real home directory
    home = tempfile.mkdtemp(prefix="verif-home-")
    os.environ["HOME"] = home
    import shutil
    try:
        import vh
        import catalog
        level = {x["id"]: x["level"] for x in catalog.P}[prop]
        try:
            mod = importlib.import_module(f"checks.{prop}")
        except Exception as ex:
            if vh._origin(ex) == "repo":  # the code under test does not even load
                traceback.print_exc()
            raise
        return vh.run(prop, level, mod, only)
    finally:
        shutil.rmtree(home, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
