#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 6) from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "/")))
head = "## 6. Planted bugs\nEach was confirmed (tests pass, demonstration fails) and is reported by the check of its property; other properties' checks may report it too.\n\n| id | caught by | what it breaks |\n|---|---|---|\n"
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = re.sub(r"\n## 6\. Planted bugs.*?(?=\n## 7|\Z)", "", s, flags=re.S).rstrip("\n")
open(p, "w").write(s + "\n\n" + head + "\n".join(rows) + "\n")
