#!/usr/bin/env python3
"""Re-runs a replay file against /repo's working tree: replay.py FILE"""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from registry import HARNESS
path = sys.argv[1]
text = open(path, encoding="utf-8").read()
pid = re.search(r"^property: (\S+)", text, re.M).group(1)
m = re.search(r"^harness: (\S+)", text, re.M)
harness = m.group(1) if m else HARNESS[pid][0]
rc, out = B.build([harness])
if rc:
    sys.stderr.write(out); sys.exit(2)
env = dict(os.environ, LC_ALL="C.UTF-8", ASAN_OPTIONS="symbolize=1", UBSAN_OPTIONS="symbolize=1:print_stacktrace=1")
sys.exit(subprocess.run([os.path.join(B.OUT, harness), "--prop", pid, "--replay", path], env=env).returncode)
