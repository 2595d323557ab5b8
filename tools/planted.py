#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/missed.txt."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {}
for line in open(os.path.join(HERE, "tools", "missed.txt")):
    if line.strip():
        k, _, v = line.strip().partition(" ")
        missed[k] = v
rows = []
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["needs"], missed.get(d, "")))
rows.sort()
text = open(os.path.join(HERE, "DESIGN.md")).read()
head = text[: text.index("## Planted bugs")]
out = [
    "## Planted bugs",
    "",
    f"{len(rows)} changes are kept in `seeded/` (`meta.json` says what each breaks). Each passes the 158 stable tests, and its demonstration passes without and",
    "fails with the change. Every one is caught by the quick check of the property it belongs to. The last column says what was added to the check where it was",
    f"first missed ({len([r for r in rows if r[3]])} of them).",
    "",
    "| caught by | change | needs | first missed; added |",
    "|---|---|---|---|",
]
out += [f"| {p} | {i} | {n} | {a} |" for p, i, n, a in rows]
open(os.path.join(HERE, "DESIGN.md"), "w").write(head + "\n".join(out) + "\n")
