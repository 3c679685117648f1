#!/usr/bin/env python3
"""Generates DESIGN.md from design.in.md, filling in the per-property bounds from MANIFEST.json and the table of planted bugs."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
props = [json.loads(l) for l in open("properties.jsonl")]
checks = {c["property"]: c for c in json.load(open("MANIFEST.json"))["checks"]}
text = open("tools/design.in.md").read()
detail = dict(re.findall(r"^%% (C\d+)\n(.*?)(?=^%%)", text, re.S | re.M))
common = " Enumeration is complete within the bounds"
out = []
for p in props:
    i = p["id"]
    out.append("### %s. %s\n" % (i, p["title"]))
    out.append("*Explored*: " + checks[i]["level_note"].split(common)[0].strip() + "\n")
    out.append(detail.get(i, "").strip() + "\n")
text = re.sub(r"^%% C\d+\n.*^%% end\n", lambda m: "\n".join(out), text, flags=re.S | re.M)
seeds = []
results = dict(l.strip().split(None, 1) for l in open("tools/seed_results.txt"))
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), results.get(d, "not run yet")))
text = text.replace("%%SEEDS%%", "| planted bug | property | needs | check result |\n|---|---|---|---|\n" + "\n".join(seeds))
open("DESIGN.md", "w").write(text)
