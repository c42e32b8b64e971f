#!/usr/bin/env python3
"""usage: check.py ID [quick|thorough]   -- decide one property (see MANIFEST.json)"""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    import vlib
    try:
        return importlib.import_module('check_' + pid).main()
    except vlib.MachineError as e:
        print('CHECK-ERROR property=%s: %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('CHECK-ERROR property=%s' % pid)
        return 3


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
