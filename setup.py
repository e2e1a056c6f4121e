#!/usr/bin/env python3
"""Prebuilds every library variant and harness the checks use (object cache in build/)."""
import sys
import build as B
from plan import PLAN
want = {}
for p in PLAN.values():
    for r in p["runs"]:
        want.setdefault((r["variant"], tuple(r.get("defs", ())), tuple(r.get("link", ()))), set()).add(r["harness"])
for (v, d, l), h in sorted(want.items()):
    B.build(v, sorted(h), d, l)
print("built", len(want), "variants")
