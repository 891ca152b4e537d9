import importlib
import os
import sys
import threading
import faulthandler


def main():
    pid = sys.argv[1].upper()
    for stream in (sys.stdout, sys.stderr):
        stream.reconfigure(errors="backslashreplace")
    from vf import core
    os.environ.pop("LD_PRELOAD", None)  # only this process has the virtual clock
    sys.path.insert(0, os.path.join(core.REPO, "src"))
    sys.dont_write_bytecode = True

    # Watchdog: a hang is inconclusive, never a verdict.
    limit = int(os.environ.get("VF_WATCHDOG", "840" if os.environ.get("VERIF_TIER") != "thorough" else "5400"))

    def fire():
        print("INCONCLUSIVE property=%s watchdog after %d s" % (pid, limit), flush=True)
        faulthandler.dump_traceback()
        if core.CURRENT and core.CURRENT[0].violations:     # stuck, but something was already wrong
            code = core.report(core.CURRENT[0], 3)
            sys.stdout.flush()
            os._exit(code)
        os._exit(3)

    t = threading.Timer(limit, fire)
    t.daemon = True
    t.start()
    try:
        module = importlib.import_module("vf.checks." + pid.lower())
        import psion
        got = os.path.realpath(os.path.dirname(psion.__file__))
        assert got == os.path.realpath(os.path.join(core.REPO, "src", "psion")), got
    except Exception as exc:
        import traceback
        traceback.print_exc()
        print("INCONCLUSIVE property=%s cannot load the code: %r" % (pid, exc))
        sys.stdout.flush()
        os._exit(2)
    code = core.run(pid, module)
    sys.stdout.flush()
    os._exit(code)


main()
