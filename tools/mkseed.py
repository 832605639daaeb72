#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY: makes seeded/ID from the change in the scratch copy /tmp/seed/repo.
Reads needs / what_it_breaks from stdin (two lines)."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop = sys.argv[1:3]
d = os.path.join(ROOT, "seeded", i)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/seed/repo", "diff"], stdout=subprocess.PIPE).stdout
assert diff, "no change"
open(os.path.join(d, "patch.diff"), "wb").write(diff)
needs, breaks = sys.stdin.read().strip().split("\n")
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
          open(os.path.join(d, "meta.json"), "w"), indent=1)
