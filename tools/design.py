#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md (between the markers) from the harnesses' doc comments, the findings file and the planted bugs."""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
har = {}
for f in sorted(glob.glob(H + "/harness/**/*.go", recursive=True)):
    doc = []
    for line in open(f):
        if line.startswith("//"):
            doc.append(line[2:].strip())
            continue
        m = re.match(r"func (VH_(C\d\d)_\w+)\(\)", line)
        if m:
            first = []
            d = dict(bounds="", outside="")
            key = None
            for l in doc:
                mm = re.match(r"(bounds|outside|time|opt\w*):\s*(.*)", l)
                if mm:
                    key = mm.group(1)
                    d[key] = mm.group(2)
                elif key:
                    d[key] += " " + l
                else:
                    first.append(l)
            t = re.sub(r"^VH_\w+:?\s*", "", " ".join(first))
            har.setdefault(m.group(2), []).append((m.group(1), os.path.relpath(f, H + "/harness"), t, d))
        doc = []
out = []
for p in props:
    out.append("### %s — %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("Anchored in: " + ", ".join(p["anchors"]["files"]) + "\n")
    for n, f, t, d in har.get(p["id"], []):
        s = "- `%s` (%s): %s" % (n, os.path.dirname(f), t)
        if d["bounds"]:
            s += " *Bounds:* " + d["bounds"] + "."
        if d["outside"]:
            s += " *Outside:* " + d["outside"] + "."
        out.append(s)
    out.append("")
fixed = json.load(open(H + "/KNOWN_FINDINGS.json"))["fixed"]
fx = "\n".join("- " + (x if isinstance(x, str) else json.dumps(x)) for x in fixed)
seeds = []
caught = {}
p = os.path.join(H, "tools", "caught.json")
if os.path.exists(p):
    caught = json.load(open(p))
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    j = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    seeds.append("| %s | %s | %s | %s |" % (i, j["property"], j["what_it_breaks"].replace("|", "/"), caught.get(i, "?")))
sd = "| change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(seeds)
s = open(H + "/DESIGN.md").read()
for name, text in (("harnesses", "\n".join(out)), ("fixed", fx), ("seeds", sd)):
    b, e = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = s.index(b) + len(b), s.index(e)
    s = s[:i] + "\n" + text + "\n" + s[j:]
open(H + "/DESIGN.md", "w").write(s)
