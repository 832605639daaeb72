#!/usr/bin/env python3
"""Prints the event a replay file is about."""
import json, sys
d = json.load(open(sys.argv[1]))
e = d["detail"]["event"]
print(d["what"], d["detail"]["tlc"])
def n32(p): return p[0] * 65536 + p[1]
for s in d["detail"]["scenario"]["steps"]:
    if s["e"] == "open":
        print({k: s[k] for k in ("s", "b", "zoom", "type", "radius", "bboxes")})
    if s["e"] == "insert" and len(sys.argv) > 2:
        print(s["b"], n32(s["key"]["p"]), s["key"]["l"], [(x["r"], x["s"], x["x"], x["y"], n32(x["id"])) for x in s["entries"]])
print(e["e"], e["opts"])
def m(x): return "r%d s%d %d,%d #%d h%d ml%d sd%s" % (x["r"], x["s"], x["x"], x["y"], n32(x["id"]), x["h"], x["ml"], x["sd"])
for i, p in enumerate(e["pms"]):
    print("pm", i + 1, {k: p[k] for k in p if k != "keys"})
    for k, s in zip(p["keys"], e["streams"][i]):
        print("   key", k["id"], "near" if k["nearby"] else "", k["len"], k["key"]["kind"], n32(k["key"]["start"]), n32(k["key"]["end"]), len(s["out"]))
        for x in s["out"][:int(sys.argv[2]) if len(sys.argv) > 2 else 6]:
            print("       ", m(x))
print(len(e["contexts"]), "contexts")
for c in e["contexts"][:int(sys.argv[2]) if len(sys.argv) > 2 else 12]:
    print(c["r"], c["mask"], " | ".join("i%d p%d m%s " % (x["idx"], x["pm"], x["mask"]) + m(x) for x in c["entries"]))
