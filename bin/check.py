#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import *

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


TRACE_CFG = "SPECIFICATION Spec\nCONSTRAINT Progress\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"
GEN_CFG = "SPECIFICATION Spec\n%s\nCHECK_DEADLOCK FALSE\n"

import checks_net, checks_lib  # noqa  (registered below)
for m in (checks_net, checks_lib):
    CHECKS.update(m.CHECKS)

if __name__ == "__main__":
    sys.exit(vlib.main(CHECKS))
