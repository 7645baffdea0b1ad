#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, harness comments, seeded/*/meta.json and tools/seed_results.txt."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(root + "/tools/design_head.md").read()
doc = {}
src = ""
for f in sorted(glob.glob(root + "/harness/h/*.go")):
    s = open(f).read()
    for m in re.finditer(r'((?:^//.*\n)+)^func (C\d\d_\w+)\(\)', s, re.M):
        text = " ".join(l[2:].strip() for l in m.group(1).strip().split("\n"))
        doc[m.group(2)] = re.sub(r'^' + m.group(2) + r': ', '', text)
    for m in re.finditer(r'^func (C\d\d_\w+)\(\) \{\n(.*?)^\}', s, re.M | re.S):
        ps = re.findall(r'sym\.Param\("(\w+)", (\d+), (\d+)\)', m.group(2))
        if ps:
            seen = []
            for n, q, t in ps:
                x = f"{n} {q}/{t}"
                if x not in seen:
                    seen.append(x)
            doc[m.group(1)] = doc.get(m.group(1), "") + " (" + ", ".join(seen) + ")"
out += "## 6. How each property is decided\n\nPer harness: what is arbitrary; in parentheses the bounds quick/thorough that are parameters.\n\n"
for l in open(root + "/properties.jsonl"):
    p = json.loads(l)
    out += f"### {p['id']} {p['title']}\n\n"
    a = p["anchors"]
    out += "Anchored in: " + "; ".join(f"{x['name']} ({x['where']})" for x in a["mechanism"]) + ".\n\n"
    for k in sorted(doc):
        if k.startswith(p["id"]):
            out += f"* `{k}`: {doc[k]}\n"
    out += "\n"
res = {}
f = root + "/tools/seed_results.txt"
if os.path.exists(f):
    for l in open(f):
        w = l.split(None, 2)
        if len(w) >= 2:
            res[w[0]] = w[1:]
out += "## 7. Planted bugs\n\nEach was written from a property's text and the code, builds, passes the stable tests and has a demonstration.\n`quick` of the property's own check was run against them; the last column names the\nharnesses that reported the bug. `CNN?`: it was seen to be reported when it was planted, but which harness did is not\nrecorded and it was not run again. MISSED: the check reports only the known finding of its property and stays quiet;\nfor C07 and C15 a raw run of the executor shows that finding on any tree, and it was mistaken for a catch at first\n(so C07? and C15? are the least certain rows). What they need (see the column) is outside what the\nharnesses of C07 and C15 explore.\n\n| bug | needs | caught by |\n|---|---|---|\n"
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = d.split("/")[-2]
    r = res.get(i)
    out += f"| {i} | {m['needs']} | {'not run' if not r else r[0]} |\n"
open(root + "/DESIGN.md", "w").write(out)
