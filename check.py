#!/usr/bin/env python3
"""check.py PROPERTY [ROOT]: decides one property from the source of cheval. Exit 0 held, 1 violated, 2 no answer."""
import sys
import traceback
import os

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.lib import Broken, Check  # noqa: E402
from sa.rules import RULES, WITNESSES  # noqa: E402


def main():
    pid = sys.argv[1]
    root = sys.argv[2] if len(sys.argv) > 2 else '/repo'
    try:
        c = Check(pid, root)
    except Exception as e:
        print(f'NO ANSWER property={pid}: {e}')
        return 2
    failed = []
    followed = []
    for part in RULES[pid]:     # parts that cannot be applied to this tree leave the others their say
        n_ob, n_und = len(c.obs), len(c.undecided)
        try:
            part(c)
            if part.__module__ in WITNESSES:
                followed.append(len(c.obs) > n_ob and len(c.undecided) == n_und)
        except Broken as e:
            failed.append(str(e))
            followed.append(part.__module__ not in WITNESSES)
            c.skip('applies', 'source', f'{part.__module__}: {e}')
        except Exception as e:
            traceback.print_exc()
            failed.append(f'the analysis failed: {e}')
            followed.append(part.__module__ not in WITNESSES)
            c.skip('applies', 'source', f'{part.__module__}: the analysis failed: {e}')
    c.settle(bool(followed) and all(followed))
    if failed and not c.viol and (len(failed) == len(RULES[pid]) or not c.obs):
        print(f'NO ANSWER property={pid}: {failed[0]}')
        return 2
    return c.report()


if __name__ == '__main__':
    sys.exit(main())
