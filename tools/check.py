#!/usr/bin/env python3
"""check.py <property>: decides one property against /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
def main():
    prop = sys.argv[1]
    try:
        if prop == 'setup':   # nothing is kept between runs; only see that the tools work
            vlib.build('vh'); print('setup ok'); return
        for modname in ('checks_codec', 'checks_json', 'checks_transport', 'checks_server', 'checks_fault', 'checks_data', 'checks_err', 'checks_fact','checks_coerce', 'checks_gen', 'checks_rpc'):
            try:
                mod = importlib.import_module(modname)
            except ModuleNotFoundError as x:
                if x.name != modname: raise
                continue
            f = getattr(mod, 'check_' + prop, None)
            if f:
                c = vlib.Check(prop)
                f(c)
                c.finish()
        raise vlib.CheckError('no check for ' + prop)
    except vlib.CheckError as x:
        print('CHECK ERROR:', x, file=sys.stderr); sys.exit(2)
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
main()
