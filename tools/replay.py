#!/usr/bin/env python3
"""replay.py FILE: runs a rejected segment again on the current tree and validates it"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
r = json.load(open(sys.argv[1]))
cmds = []
for e in r["segment"]:
    c = json.loads(e)
    for k in ("res", "abort", "why"):
        c.pop(k, None)
    if c["op"] not in ("reset", "s_reset"):
        cmds.append(c)
lib.build_harness(r["profile"], (r["binary"],))
ev = lib.execute([cmds], r["profile"], r["binary"])
rej, _, _ = lib.validate(ev)
for e in ev[0][-3:]:
    print(e[:2000])
print("REJECTED: %s %s" % (rej[0].event[:2000], rej[0].why) if rej else "accepted")
sys.exit(1 if rej else 0)
