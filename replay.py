#!/usr/bin/env python3
"""replay.py FILE: runs the failing input of a VIOLATION line against /repo's current tree."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
d = json.load(open(sys.argv[1]))
if "failing_input" not in d:
    print("no failing input: the failed obligations are")
    for f in d["failed_obligations"]:
        print(f["rendered"])
    sys.exit(0)
rc, e = check.build_harness(d["property"])
if rc:
    sys.exit("harness does not build: " + e[-2000:])
sys.exit(subprocess.call([os.path.join(check.HTARGET, "debug/vharness"), d["property"], "--replay", sys.argv[1]]))
