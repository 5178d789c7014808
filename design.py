#!/usr/bin/env python3
"""Writes DESIGN.md: design/head.md, one entry per property (propdefs, registry, harness bodies, design/notes.md,
KNOWN_FINDINGS, seeded/*/meta.json), design/tail.md."""
import fnmatch, glob, json, os, re, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from propdefs import DEFS
from registry import PROPS
bodies = {}
for f in glob.glob(V + "/harness/*.cpp"):
    for m in re.finditer(r'^\s*PBT(?:_T)?\((\w+), *([\d.]+)(?:, *[\d.]+)?, *"((?:[^"\\]|\\.)*)"\)', open(f).read(), re.M):
        bodies.setdefault(os.path.basename(f), []).append((m.group(1), m.group(3).replace('\\"', '"')))
notes = dict(re.findall(r'^(C\d\d): (.*)$', open(V + "/design/notes.md").read(), re.M))
find = {}
for l in open(V + "/KNOWN_FINDINGS"):
    m = re.match(r'(\S+) property=(\S+) (.*)', l)
    if m and not l.startswith('#'): find.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(f)); seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(f)), j))
caught = json.load(open(V + "/design/caught.json"))
out = [open(V + "/design/head.md").read().rstrip() + "\n"]
for d in sorted(DEFS, key=lambda d: d["id"]):
    p = d["id"]
    o = [f"### {p} {d['title']}\n", f"*Deciding step*: {d['technique']}.  "]
    if d["note"]: o.append(f"*Bounds*: {d['note']}.  ")
    o.append(f"*Beyond the tests*: {d['why']}.  ")
    for j in PROPS[p]["jobs"]:
        bs = [b for b in bodies[j["src"]] if any(fnmatch.fnmatch(b[0], pat) for pat in j["only"])]
        assert bs, (p, j)
        o.append(f"*Bodies* (`harness/{j['src']}`, builds {', '.join(j['configs'])}; a case is non-trivial when): " + "; ".join(f"`{n}`: {r}" for n, r in bs) + ".  ")
    if p in notes: o.append(f"*Not judged*: {notes[p]}  ")
    fx = [x for x in find.get(p, []) if x[0] == "fixed:"]; kf = [x for x in find.get(p, []) if x[0] != "fixed:"]
    if fx: o.append("*Repaired*: " + "; ".join("%s (%s)" % tuple(reversed(x[1].split(" ", 1))) for x in fx) + ".  ")
    if kf: o.append("*Listed findings*: " + "; ".join(f"`{i}`: {w}" for i, w in kf) + ".  ")
    if p in seeds: o.append("*Planted bugs*: " + "; ".join(f"`{i}` ({caught.get(i, 'not run')}): {j['what_it_breaks']}" for i, j in seeds[p]) + ".  ")
    out.append("\n".join(o) + "\n")
out.append(open(V + "/design/tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
