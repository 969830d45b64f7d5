#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   or   check.py --replay FILE"""
import os
import random
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
from vlib import CheckError
from engine import Engine
import props


def main():
    if sys.argv[1] == '--replay':
        return props.replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    eng = Engine(prop, tier, seed)
    try:
        props.PROPS[prop](eng, random.Random(seed * 7919 + sum(map(ord, prop))))
        return eng.finish(**props.meta(prop, tier))
    except CheckError as x:
        print('ERROR property=%s %s' % (prop, x))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        eng.close()


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
