#!/usr/bin/env python3
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    pid = sys.argv[1]
    mod = importlib.import_module('check_' + pid.lower())
    chk = vlib.Check(pid, getattr(mod, 'LEVEL', 'model_checking'))
    try:
        mod.run(chk)
    except vlib.Machinery as e:
        print('MACHINERY ERROR', e, file=sys.stderr)
        sys.exit(2)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if tb and os.path.realpath(tb[-1].filename).startswith(os.path.realpath(vlib.REPO) + '/'):
            # the code under test raised where the specification says the call succeeds
            traceback.print_exc()
            chk.reject('uncaught', [f'{type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}'])
        else:
            traceback.print_exc()
            sys.exit(3)
    sys.exit(chk.finish())


main()
