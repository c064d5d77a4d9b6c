#!/usr/bin/env python3-vt
"""replay.py HARNESS.cc CONTRACT TOKENS...  -- run one contract natively (ASan+UBSan) on one concrete input"""
import sys, os, tempfile, shutil
import check
h, name, toks = sys.argv[1], sys.argv[2], sys.argv[3:]
wd = tempfile.mkdtemp(prefix='vp_replay_')
try:
    exe = check.native_build(os.path.join(check.HERE, 'harness', h), wd)
    bad, txt = check.native_run(exe, name, toks)
    print(txt)
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(wd, ignore_errors=True)
