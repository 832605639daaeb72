#!/usr/bin/env python3
"""Applies small changes to /repo one at a time and says which quick checks notice (a tool for the
author; no check uses it).  usage: tools/mutate.py FILE.py [name...]
FILE.py defines M = [(name, file, old, new, "C03 C04 ..."), ...]"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], stdout=subprocess.PIPE).stdout == b""
for name, f, old, new, props in ns["M"]:
    if only and name not in only:
        continue
    p = "/repo/rust-src/src/gridstore/" + f
    src = open(p).read()
    n = src.count(old)
    if n < 1:
        print("%-28s does not apply" % name)
        continue
    try:
        open(p, "w").write(src.replace(old, new, 1))
        res = []
        for q in props.split():
            r = subprocess.run([sys.executable, "-B", V + "/bin/check", q, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode(errors="replace")
            v = out.count("VIOLATION property")
            res.append("%s:%s" % (q, {0: "quiet", 1: "CAUGHT"}.get(r.returncode, "error %d" % r.returncode)))
            if r.returncode == 2:
                print(out[-800:])
        print("%-28s %s" % (name, "  ".join(res)), flush=True)
    finally:
        open(p, "w").write(src)
