#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property of /verif/properties.jsonl on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, engine, tdt, subs, factory, sysio

CHECKS = {}
for m in (engine, tdt, subs, factory, sysio):
    CHECKS.update(m.CHECKS)
vlib.main(CHECKS)
