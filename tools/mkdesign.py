#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.*.md, the checks' bounds and the planted bugs."""
import json, glob, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
b, notes = {}, {}
for f in glob.glob(V + "/harness/mc/c*.go"):
    s = open(f).read()
    for m in re.finditer(r'register\(&check\{id: "(C\d\d)"(.*?)\}\)\n', s, re.S):
        body = m.group(2)
        q = re.search(r'bounds:\s*"((?:[^"\\]|\\.)*)"', body)
        b[m.group(1)] = q.group(1).replace('\\"', '"') if q else ""
        n = re.search(r'notes:\s*\[\]string\{(.*?)\}', body, re.S)
        notes[m.group(1)] = re.findall(r'"((?:[^"\\]|\\.)*)"', n.group(1)) if n else []
out = open(V + "/tools/design.head.md").read()
for i in sorted(props):
    out += f"**{i} {props[i]['title']}** ({man[i]['technique'].split(': ',1)[1]}). {b[i]}."
    if notes[i]:
        out += " Excluded or assumed: " + "; ".join(notes[i]) + "."
    out += "\n\n"
out += open(V + "/tools/design.tail.md").read()
out += "| bug | property | what it breaks | result |\n|---|---|---|---|\n"
res = {}
if os.path.exists(V + "/tools/seed-results.json"):
    res = json.load(open(V + "/tools/seed-results.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda d: (len(os.path.basename(os.path.dirname(d)).split("-")[0]), d)):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out += f"| {n} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {res.get(n, 'caught')} |\n"
open(V + "/DESIGN.md", "w").write(out)
