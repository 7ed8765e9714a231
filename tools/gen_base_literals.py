#!/usr/bin/env python3
"""Records the numeric literals of /repo's sources in lib/base_literals.json (run after a commit in /repo)."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import driver
i, f = driver.literal_counts()
json.dump({"ints": {str(k): i[k] for k in sorted(i)}, "floats": {repr(k): f[k] for k in sorted(f)}}, open(driver.BASE_LITERALS, "w"), indent=0)
open(driver.BASE_LITERALS, "a").write("\n")
