#!/usr/bin/env python3
"""Writes DESIGN.md from design.tmpl, properties.jsonl, MANIFEST.json, the evidence of the last run
(argument: its folder) and seeded/. Run by hand after editing."""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev = sys.argv[1] if len(sys.argv) > 1 else V + "/evidence"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
regs = {}
for f in glob.glob(V + "/checker/*.go"):
    for m in re.finditer(r'register\("(C\d\d)",\s*"((?:[^"\\]|\\.)*)"', open(f).read()):
        regs[m.group(1)] = (m.group(2), os.path.basename(f))
notes = {}
exec(open(V + "/tools/design_notes.py").read())
na = {x["property_id"] if "property_id" in x else x.get("property", x.get("id")): x["reason"] for x in man["not_applicable"]}
t, n = "", ""
for p in props:
    i = p["id"]
    if i in na:
        n += f"* **{i} {p['title']}** — {na[i]}\n"
        continue
    e = json.load(open(f"{ev}/{i}.json"))["coverage"]
    oracle, bounds, tests = notes[i]
    t += f"### {i} {p['title']}\n\n"
    t += f"*Analysed* ({regs[i][1]}): {regs[i][0]}. "
    t += f"{e['obligations']} obligations at {e['instances']} instances"
    a = e["analysed"]
    if a: t += f"; {a['contexts']} contexts, {a['instructions']} instructions"
    t += ".\n"
    t += f"*Rules*: {', '.join(f'{k} {v}' for k, v in e['rules'].items())}.\n"
    t += f"*Oracle*: {oracle}\n*Bounds*: {bounds}\n*Beyond tests*: {tests}\n\n"
if not n: n = "None yet.\n"
rows = "| bug | property | what it does | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    s = os.path.basename(d[:-1])
    rows += f"| {s} | {m['property']} | {m['what_it_breaks']} | {caught.get(s.split('-')[0], '-')} |\n"
o = open(V + "/tools/design.tmpl").read().replace("@@TABLE@@", t.strip()).replace("@@NA@@", n.strip()).replace("@@SEEDS@@", rows.strip())
open(V + "/DESIGN.md", "w").write(o)
