#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, tools/design_parts.py, known_findings.txt and seeded/."""
import json, os, sys, glob, textwrap
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
import design_parts as D
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
man = json.load(open(root + "/MANIFEST.json"))
claimed = {c["property"]: c for c in man["checks"]}
known = [l.strip() for l in open(root + "/known_findings.txt") if l.strip() and not l.startswith("#")]
out = [D.HEAD.strip(), ""]
out += ["## Properties", ""]
for p in props:
    i = p["id"]; d = D.PARTS[i]
    out += ["### %s %s" % (i, p["title"]), ""]
    out += ["*" + p["statement"] + "*", ""]
    for name, key in [("Specified", "spec"), ("Model checked", "model"), ("Bound to the code", "bind"), ("Cost", "cost"), ("Beyond the tests", "why"), ("Not covered", "left")]:
        if d.get(key): out += textwrap.wrap("- **%s**: %s" % (name, d[key]), 100, subsequent_indent="  ", break_long_words=False, break_on_hyphens=False)
    fx = [l for l in known if l.startswith("fixed: property=%s " % i)]
    kn = [l for l in known if l.startswith("known: property=%s " % i)]
    if fx: out += textwrap.wrap("- **Defects repaired**: " + "; ".join("%s (%s)" % (l.split(" ", 3)[3], l.split(" ", 3)[2]) for l in fx) + ".", 100, subsequent_indent="  ", break_long_words=False, break_on_hyphens=False)
    if kn: out += textwrap.wrap("- **Known finding**: " + "; ".join(l.split(" ", 2)[2] for l in kn), 100, subsequent_indent="  ", break_long_words=False, break_on_hyphens=False)
    out += [""]
out += [D.SEEDED.strip(), "", "| change | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f)); sid = os.path.basename(os.path.dirname(f))
    one = lambda s: " ".join(s.split()).replace("|", "/")
    out.append("| %s | %s | %s | %s |" % (sid, m["property"], one(m["needs"]), D.CAUGHT.get(sid, m["property"])))
out += ["", D.TAIL.strip(), ""]
open(root + "/DESIGN.md", "w").write("\n".join(out))
