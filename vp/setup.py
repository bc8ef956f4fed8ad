#!/usr/bin/env python3
"""setup_cmd: builds every harness once (the checks rebuild whatever is out of date)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from checks import CHECKS
bad = [c for c in sorted(CHECKS) if not check.do_build(c)]
print('built', len(CHECKS) - len(bad), 'harnesses; failed:', bad)
sys.exit(1 if bad else 0)
