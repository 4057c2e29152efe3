import importlib
import sys
import traceback


def main():
    pid = sys.argv[1]
    from pyvc import harness

    harness.setup_paths()
    mod = importlib.import_module("pyvc.checks.%s" % pid.lower())
    rc = harness.run_check(mod)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
