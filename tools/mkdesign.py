#!/usr/bin/env python3
# Writes /verif/DESIGN.md from tools/design.tmpl, the properties, the claims, the contracts and the planted bugs.
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {}
def c(id, note, level="proof"):
    CLAIMED[id] = (level, note)
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
funcs, externs = {}, {}
for f in sorted(glob.glob(V + "/contracts/*.spec")):
    cur = None
    exts = []
    for l in open(f):
        m = re.match(r"(func|interface|extern) (\S+)", l)
        if m:
            cur = (m.group(1), m.group(2), os.path.basename(f))
        m = re.match(r"\s+property (.*)", l)
        if m and cur:
            for p in re.split(r"[ ,]+", m.group(1).strip()):
                funcs.setdefault(p, []).append(cur)
har = {}
for f in sorted(glob.glob(V + "/harness/**/*_test.go", recursive=True)):
    m = re.match(r"([a-z]\d\d)_", os.path.basename(f))
    if m:
        har.setdefault(m.group(1).upper(), []).append(os.path.relpath(f, V + "/harness"))
known = [l.strip() for l in open(V + "/KNOWN_FINDINGS.txt") if l.strip()]
out, na = [], []
for p in props:
    i = p["id"]
    if i not in CLAIMED:
        na.append(f"* **{i}** {p['title']}: {NA.get(i, 'no check has been built for it yet')}.")
        continue
    lv, note = CLAIMED[i]
    out.append(f"### {i}. {p['title']}  ({lv})\n")
    out.append(note + "\n")
    fs = funcs.get(i, [])
    if fs:
        specs = sorted({x[2] for x in fs})
        out.append("Under contract (" + ", ".join(specs) + "): " + ", ".join("`%s`%s" % (x[1], " (interface)" if x[0] == "interface" else "") for x in fs) + ".\n")
    if i in har:
        out.append("Bounded harness: " + ", ".join("`%s`" % h for h in har[i]) + ".\n")
    k = [l for l in known if "property=" + i + " " in l]
    for l in k:
        out.append("* " + l)
    if k:
        out.append("")
seeds = ["| id | property | needs | what it breaks | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', '')} |")
t = open(V + "/tools/design.tmpl").read()
t = t.replace("PROPERTIES_HERE", "\n".join(out)).replace("NA_HERE", "\n".join(na)).replace("SEEDS_HERE", "\n".join(seeds))
open(V + "/DESIGN.md", "w").write(t)
