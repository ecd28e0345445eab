#!/usr/bin/env python3
"""Prints the table of seeded bugs for DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAUGHT = {  # other checks seen to catch it as well
    "launch-queue-kept": "C20", "only-known-errors": "C09",
}
print("| Change | Property | What it needs | Check that catches it |")
print("|---|---|---|---|")
for n in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", n, "meta.json")))
    by = m["property"] + (f", {CAUGHT[n]}" if n in CAUGHT else "")
    print(f"| {n} | {m['property']} | {m['needs']} | {by} |")
