#!/usr/bin/env python3
"""check.py ID...: run the check of a property (see MANIFEST.json)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import common


def main():
    if sys.argv[1:] == ['--build']:
        common.build()
        return 0
    rc = 0
    for pid in sys.argv[1:]:
        mod = importlib.import_module('checks.' + pid.lower())
        c = common.Check(pid)
        try:
            try:
                minimum = mod.run(c) or 1
            except common.Hung:
                minimum = 1 << 40
                print('too many executions did not end')
            rc = max(rc, c.finish(minimum))
        except common.HarnessError as e:
            print('error: %s' % e, file=sys.stderr)
            return 2
        except Exception:
            traceback.print_exc()
            if c.violations:
                c.finish()
                return 1
            return 2
    return rc


if __name__ == '__main__':
    r = main()
    sys.stdout.flush()
    sys.exit(r)
