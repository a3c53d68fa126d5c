import importlib
import os
import sys


def main():
    pid = sys.argv[1]
    replay = None
    if "--replay" in sys.argv:
        replay = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
    from mc import core

    try:
        import quantum_systems
    except BaseException as e:  # the tree does not even import
        import traceback

        traceback.print_exc()
        return 2
    if not os.path.abspath(quantum_systems.__file__).startswith("/repo/"):
        print("quantum_systems imported from", quantum_systems.__file__)
        return 2
    module = importlib.import_module(f"mc.checks.{pid.lower()}")
    return core.run(pid, module, replay)


if __name__ == "__main__":
    sys.exit(main())
