#!/usr/bin/env python3
"""Regenerates /verif/DESIGN.md from tools/design/* and the committed data."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(here, ".."); D = os.path.join(here, "design")
exec(open(os.path.join(D, "props.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = [open(os.path.join(D, "head.md")).read()]
for p in props:
    i = p["id"]
    out.append("\n**%s - %s.** " % (i, p["title"]))
    if i in na:
        out.append("Not applicable: " + na[i] + "\n"); continue
    how, lim = P[i]
    out.append(how[0].upper() + how[1:] + ("\n*Limits:* " + lim if lim else "") + "\n")
t = open(os.path.join(D, "tail.md")).read()
kf = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
t = t.replace("@FIXED@", "\n".join("- %s `%s`: %s" % (f["property"], f["commit"], f["what"]) for f in kf if f["status"] == "fixed"))
t = t.replace("@KNOWN@", "\n".join("- %s `%s`: %s" % (f["property"], f["key"], f["what"]) for f in kf if f["status"] == "known"))
sd = os.path.join(V, "seeded"); rows = ["| change | property | what it breaks | also caught by |", "|---|---|---|---|"]
also = json.load(open(os.path.join(D, "caught.json"))) if os.path.exists(os.path.join(D, "caught.json")) else {}
ids = sorted(os.listdir(sd)) if os.path.isdir(sd) else []
for d in ids:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "\\|"), ", ".join(x for x in also.get(d, []) if x != m["property"])))
t = t.replace("@NSEED@", str(len(ids))).replace("@SEEDS@", "\n".join(rows))
out.append(t)
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
