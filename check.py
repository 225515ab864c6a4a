#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property.

Exit 0: it held on everything explored.  Exit 1, with VIOLATION lines: it is
broken.  Exit 2: the machinery failed.
"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kv import props    # noqa: E402
from kv.core import Check    # noqa: E402
from kv.tlc import MachineryError    # noqa: E402


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = Check(pid, tier, seed)
    try:
        getattr(props, pid)(c)
    except MachineryError as e:
        print('machinery failure: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return c.finish()


if __name__ == '__main__':
    sys.exit(main(sys.argv))
