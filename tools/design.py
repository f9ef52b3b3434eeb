#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between markers) from known_findings.json, MANIFEST.json and tools/seeds.json."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def part(s, name, body):
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    return re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: a + "\n" + body.strip() + "\n" + b, s, flags=re.S)


def main():
    p = os.path.join(V, "DESIGN.md")
    s = open(p).read()
    k = json.load(open(os.path.join(V, "known_findings.json")))
    by = {}
    for x in k:
        if x["status"] == "fixed":
            by.setdefault(x["property"], []).append("%s %s" % (x["key"], x["what"].split(x["key"])[-1].strip()))
    s = part(s, "FINDINGS", "\n".join("* %s: %s" % (i, "; ".join(by[i])) for i in sorted(by)))
    s = part(s, "KNOWN", "\n".join("* %s: %s." % (x["property"], x["what"].rstrip(".")) for x in k if x["status"] == "known"))
    m = json.load(open(os.path.join(V, "MANIFEST.json")))
    s = part(s, "NAPP", "\n".join("* %s: %s" % (x["property"], x["reason"]) for x in m["not_applicable"]) or "none")
    sp = os.path.join(V, "tools", "seeds.json")
    if os.path.exists(sp):
        rows = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
        for i, x in sorted(json.load(open(sp)).items()):
            rows.append("| %s | %s: %s | %s | %s |" % (i, x["property"], x["what_it_breaks"], x["needs"], x["caught"]))
        s = part(s, "SEEDS", "\n".join(rows))
    open(p, "w").write(s)


if __name__ == "__main__":
    main()
