#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_props.txt, the doc comments of the harnesses, known-findings.txt and seeded/."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(l) for l in open("properties.jsonl")]
docs = {}
for f in sorted(glob.glob("harness/h/*.go")):
    for m in re.finditer(r"((?://[^\n]*\n)+)func ([A-Z]\d\d_\w+)\(", open(f).read()):
        t = " ".join(l[2:].strip() for l in m.group(1).split("\n") if l)
        docs[m.group(2)] = t[len(m.group(2)) + 1:].strip()
prose = {}
for b in open("tools/design_props.txt").read().split("\n\n"):
    k, _, t = b.strip().partition(": ")
    prose[k] = t.replace("\n", " ")
out = open("tools/design_head.md").read()
out += "## 4. The properties\n\nFor each: how it is decided and against what oracle, then the harnesses with their bounds.\n\n"
for p in props:
    out += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], prose.get(p["id"], ""))
    for h in sorted(docs):
        if h.startswith(p["id"] + "_"):
            out += "* `%s`: %s\n" % (h, docs[h])
    out += "\n"
out += open("tools/design_tail.md").read()
out += "\n## 7. Planted bugs\n\n`seeded/<id>/`; all compile, pass the 434 tests, and have a demonstration. Which check catches which:\n\n| bug | property | what it needs | caught by the quick check |\n|---|---|---|---|\n"
res = json.load(open("tools/seeds.json"))
for d in sorted(glob.glob("seeded/*/meta.json")):
    i = d.split("/")[1]
    m = json.load(open(d))
    out += "| %s | %s | %s; %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|"), res.get(i, "?"))
open("DESIGN.md", "w").write(out)
