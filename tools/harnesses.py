#!/usr/bin/env python3
"""Prints a table of the harnesses: property, name, doc comment, bounds (quick/thorough)."""
import re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(root + "/h/p/c*")):
    print(f"\n**{os.path.basename(d).upper()}**\n")
    for f in sorted(glob.glob(d + "/*.go")):
        lines = open(f).read().split("\n")
        for i, l in enumerate(lines):
            m = re.match(r"func (H_\w+)\(\)", l)
            if not m: continue
            doc, j = [], i - 1
            while j >= 0 and lines[j].startswith("//"): doc.insert(0, lines[j][2:].strip()); j -= 1
            body, j = [], i
            while lines[j] != "}" and not (j == i and l.endswith("}")): body.append(lines[j]); j += 1
            body.append(lines[j] if j == i else "")
            ps = re.findall(r'nd\.Param\("(\w+)", (\d+), (\d+)\)', "\n".join(body))
            doc = " ".join(doc); doc = re.sub(r"^%s:? *" % m.group(1), "", doc)
            seen, b = set(), []
            for p in ps:
                if p not in seen: seen.add(p); b.append("%s=%s/%s" % p)
            print(f"- `{m.group(1)}`" + (f" {doc}" if doc else "") + (f" ({', '.join(b)})" if b else ""))
