#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d[json.load(open(f))["property"]].append(os.path.basename(os.path.dirname(f)))
s = open(here + "/DESIGN.md").read()
s = re.sub(r"(?m)^\* C\d\d: (?=[a-z0-9-]+(, [a-z0-9-]+)*$).*\n?", "", s[s.index("## Planted bugs"):]), s[:s.index("## Planted bugs")]
tail, head = s
open(here + "/DESIGN.md", "w").write(head + tail.rstrip("\n") + "\n\n" + "".join(f"* {k}: {', '.join(v)}\n" for k, v in sorted(d.items())))
