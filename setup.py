#!/usr/bin/env python3-vt
"""checks that the tools the framework needs are present (nothing is built ahead: every check builds from /repo)"""
import shutil, sys
sys.path.insert(0, '.')
missing = [t for t in ('clang++-18', 'opt-18', 'cvc5') if not shutil.which(t)]
import z3
from dv import llir, core, contracts, loops, summaries
if missing:
    print('missing tools:', missing)
    sys.exit(1)
print('ok: z3', z3.get_version_string())
