#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough]   |   check.py --replay FILE
   check.py --determinism ID N            (event-log comparison, see DESIGN.md)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main(argv):
    from sim import driver
    try:
        if argv[0] == '--replay':
            return driver.replay(argv[1])
        if argv[0] == '--determinism':
            from sim import determinism
            return determinism.main(argv[1:])
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in argv:
            tier = argv[argv.index('--tier') + 1]
        return driver.check(argv[0], tier, int(os.environ.get('VERIF_SEED', '1')))
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print('HARNESS-ERROR %s: %s' % (type(e).__name__, e))
        return 3


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
