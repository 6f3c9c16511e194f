"""Entry point of every check: run.py <property> [quick|thorough]"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'checks'))
import vlib   # noqa: E402


def main():
    if sys.argv[1] == '--drive':
        check = importlib.import_module(sys.argv[2].lower())
        vlib.drive_main(check, sys.argv[3], sys.argv[4])
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    check = importlib.import_module(prop.lower())
    try:
        return vlib.run_check(check, prop, tier, seed)
    except Exception:
        traceback.print_exc()
        print('%s: the check could not be carried out' % prop)
        return 3


sys.exit(main())
