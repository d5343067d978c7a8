#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
text = open(path).read().split("## Planted changes")[0]
text += "## Planted changes\n\nEach is caught by the quick check of its own property (the one named).\n\n| change | caught by | needs |\n|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(f))
    text += f"| `{os.path.basename(os.path.dirname(f))}` | {m['property']} | {m['needs']} |\n"
open(path, "w").write(text)
