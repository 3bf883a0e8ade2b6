#!/usr/bin/env python3
"""DESIGN.md from tools/design/*.md, checks.json, properties.jsonl, MANIFEST.json, seeded/ and tools/design/caught.txt"""
import json, os
V = "/verif"
rd = lambda p: open(os.path.join(V, p)).read()
checks = json.loads(rd("checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
man = json.loads(rd("MANIFEST.json"))
o = rd("tools/design/head.md") + "\n## 2. Property by property\n\n"
for p in props:
    c = checks.get(p["id"])
    o += "### %s %s\n\n" % (p["id"], p["title"])
    if not c:
        continue
    o += "*Contracts:* %s. *Key obligations:* %s.\n\n" % (", ".join("`contracts/%s.vs`" % m for m in c["contracts"]) or "none", ", ".join("`%s`" % t for t in c.get("theorems", [])) or "-")
    o += c["note"] + "\n\n"
    if c.get("outside"):
        o += "*Outside the contracts:* " + "; ".join(c["outside"]) + ".\n\n"
    b = c.get("budget", [25, 240])
    o += "*Bounded stage:* `harness/src/bin/%s.rs`, %d s quick / %d s thorough on 5 / 8 workers.\n\n" % (c["bin"], b[0], b[1])
    if c.get("why"):
        o += c["why"] + "\n\n"
o += "## 3. Not applicable\n\n"
for n in man.get("not_applicable", []):
    o += "* %s: %s\n" % (n.get("property") or n.get("id"), n["reason"])
o += "\n" + rd("tools/design/tail.md") + "\n"
res = {}
for l in rd("tools/design/caught.txt").splitlines():
    w = l.split(None, 1)
    if len(w) == 2:
        res[w[0]] = w[1]
o += "| change | property | needs | caught |\n|---|---|---|---|\n"
for s in sorted(os.listdir(V + "/seeded")):
    m = json.loads(rd("seeded/%s/meta.json" % s))
    o += "| %s | %s | %s | %s |\n" % (s, m["property"], m["needs"].replace("|", "/"), res.get(s, "not run"))
open(V + "/DESIGN.md", "w").write(o)
