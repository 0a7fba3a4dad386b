#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decide one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vf


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import rtcheck, e2echeck, pusccheck, adacheck, bercheck, xercheck
    if pid in e2echeck.RUN:
        return e2echeck.RUN[pid](tier).finish()
    if pid == 'P28':
        chk = pusccheck.check(tier)
    elif pid == 'P11':
        chk = bercheck.check(tier)
    elif pid == 'P12':
        chk = xercheck.check(tier)
    elif pid == 'P13':
        chk = adacheck.check(tier)
    elif pid in rtcheck.GROUPS:
        chk = rtcheck.primitives(pid, tier)
    else:
        chk = {'P08': rtcheck.patching, 'P09': rtcheck.robust, 'P10': rtcheck.streaming}[pid](tier)
    return chk.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except vf.Broken as e:
        print('BROKEN:', e)
        rc = 3
    sys.exit(rc)
