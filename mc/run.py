import argparse
import os
import sys

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default='quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay', default=None)
    a = ap.parse_args()
    from mc import core
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    rc = core.main(a.pid, a.tier, seed, a.replay)
    sys.stdout.flush()
    sys.exit(rc)
