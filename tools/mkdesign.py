#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (fixes, harnesses, planted bugs) in place of their markers."""
import json, os, re, subprocess, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def put(s, tag, body):
    b, e = f"<!-- {tag} -->", f"<!-- /{tag} -->"
    body = b + "\n" + body.strip("\n") + "\n" + e
    if b in s: return s[:s.index(b)] + body + s[s.index(e) + len(e):]
    return re.sub(rf"^{tag}$", lambda _: body, s, flags=re.M)
s = open(root + "/DESIGN.md").read()
rows = []
for l in open(root + "/KNOWN_FINDINGS.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m: rows.append("| %s | %s | %s |" % m.groups())
s = s.replace("| property | commit | defect |\n|---|---|---|\n", "", 1) if "<!-- FIXES -->" not in s else s
s = put(s, "FIXES", "| property | commit | defect |\n|---|---|---|\n" + "\n".join(rows))
s = put(s, "HARNESSES", subprocess.run(["python3", root + "/tools/harnesses.py"], capture_output=True, text=True).stdout)
res = {}
for l in open(root + "/tools/caught.txt"):
    a = l.split(); res[a[0]] = a[1:]
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f))
    rows.append(f"| {i} | {m['needs']} | {' '.join(res.get(i, ['not run']))} |")
s = put(s, "SEEDED", "| id | needs | check |\n|---|---|---|\n" + "\n".join(rows))
open(root + "/DESIGN.md", "w").write(s)
