#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, properties.jsonl, evidence/ and seeded/ and design_tail.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = sys.argv[1] if len(sys.argv) > 1 else V + "/evidence"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/not_applicable.json"))
man = json.load(open(V + "/MANIFEST.json"))
tech = {c.get("property", c.get("id")): c.get("technique", "") for c in man.get("checks", man.get("claims", []))}
seeds = {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    seeds.setdefault(m["property"], []).append((d, m["what_it_breaks"]))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Per property", ""]
for p in props:
    i = p["id"]
    if i in na:
        continue
    e = json.load(open(f"{EV}/{i}.json"))
    c = e["coverage"]
    out += [f"### {i} {p['title']}", "", f"*Method*: {tech.get(i) or 'value-flow analysis'}. {c['explanation']}", "",
            f"*Cost and size*: {e['wall_s']:.0f} s; {c['obligations']} obligations over {c['functions_evaluated']} library functions.", "",
            "*Why tests cannot settle it*: " + p["why_tests_cant"], "", "*Rules*:", ""]
    for n, x in sorted(c["rules"].items()):
        out.append(f"- `{n}` ({x['instances']} instances): {x['rule']}")
    if i in seeds:
        out += ["", "*Planted changes caught by this check*: " + "; ".join(f"`{d}` ({w})" for d, w in seeds[i]) + "."]
    out.append("")
out += ["## Not applicable", ""]
for p in props:
    if p["id"] in na:
        out += [f"- **{p['id']} {p['title']}**: {na[p['id']]}"]
out += ["", open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(sum(1 for _ in open(V + "/DESIGN.md")), "lines")
