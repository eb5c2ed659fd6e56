"""Entry point: python -m vf.main <property id>."""
import importlib
import os
import sys
import traceback
import warnings


def main():
    pid = sys.argv[1]
    warnings.filterwarnings("ignore")
    from vf import core

    core.pid = pid
    try:
        mod = importlib.import_module("vf.checks." + pid.lower())
        chk = core.Check(pid)
        try:
            mod.run(chk)
        except core.MachineryError:
            raise
        except Exception as exc:  # the code under test misbehaved outside a guarded step
            tb = "".join(traceback.format_exception(exc))
            chk.violation("unexpected-exception", tb[-1800:], key="exception:" + type(exc).__name__)
        return chk.finish()
    except core.MachineryError as exc:
        print("MACHINERY ERROR:", exc)
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
