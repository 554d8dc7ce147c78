#!/usr/bin/env python3
"""check.py Cxx [--thorough]: decide one property on /repo's working tree."""
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from kc import spec


def go():
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    rc.append(spec.main(sys.argv[1], tier, seed))


rc = []
threading.stack_size(512 << 20)
t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0] if rc else 1)
