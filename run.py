#!/usr/bin/env python3
"""python3 run.py Cxx [--thorough]: runs one check. Exit 0: held; 1: VIOLATION; 2: the check could not run."""
import importlib, os, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if '--thorough' in sys.argv:
    os.environ['VERIF_TIER'] = 'thorough'
sys.dont_write_bytecode = True
from vlib import core

def watchdog():
    """A tree on which everything is slow or hangs still gets an answer when violations are known."""
    time.sleep(780 if not core.THOROUGH else 10 ** 7)
    rep = core.CURRENT
    if rep is not None and rep.violations:
        rep.violations = list(rep.violations)
        rc = rep.finish()
        sys.stdout.flush()
        core.stop_all()
        os._exit(rc)

def main():
    pid = sys.argv[1]
    threading.Thread(target=watchdog, daemon=True).start()
    mod = importlib.import_module('checks.' + pid)
    try:
        rep = mod.run()
        rc = rep.finish()
    except core.TreeError as e:
        rep = core.CURRENT
        rep.violation('harness/tree-failure', str(e), str(e))
        rc = rep.finish()
    except core.CheckError as e:
        print('CHECK-ERROR property=%s %s' % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    return rc

sys.exit(main())
