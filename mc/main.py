import importlib
import os
import sys

from . import engine


def run():
    pid = sys.argv[1]
    if pid == "selftest":
        from . import selftest

        selftest.run()
        return
    mod = importlib.import_module(f"checks.{pid.lower()}")
    check = mod.CHECK
    assert check.ID == pid
    try:
        code = engine.main(check, sys.argv[2:])
    except engine.HarnessError as e:
        print("HARNESS ERROR", e)
        code = 2
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    run()
