#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from plan.py."""
import json, os
import plan
V = os.path.dirname(os.path.abspath(__file__))
with open(f"{V}/properties.jsonl", "w") as f:
    for i, p in list(plan.PROPS.items()) + list(getattr(plan, "UNCLAIMED", {}).items()):
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=p["quantifier"], why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])), ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="python3 check.py setup",
         checks=[dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                      technique="solver-based symbolic execution of the LLVM IR of the crate (own executor, Z3), bounded; counterexamples replayed natively",
                      level="model_checking",
                      level_note=f"All inputs within: {p['bounds']}." + (f" Outside: {p['outside']}." if p["outside"] else "")) for i, p in plan.PROPS.items()],
         not_applicable=[dict(property=i, reason=r) for i, r in plan.NOT_APPLICABLE.items()])
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")

# the tables of DESIGN.md
import re


def names(hs):
    return ", ".join(f"`{h if isinstance(h, str) else h[0]}`" for h in hs)


def fill(s, mark, text):
    return re.sub(rf"<!-- {mark} -->\n.*?<!-- /{mark} -->", lambda _: f"<!-- {mark} -->\n{text}<!-- /{mark} -->", s, flags=re.S)


try:
    exp = json.load(open(f"{V}/expected.json"))
except OSError:
    exp = {}


def cost(hs):
    return round(sum(exp.get(h if isinstance(h, str) else h[0], {}).get("wall_s", 0) for h in hs))


s = open(f"{V}/DESIGN.md").read()
t = ["| id | property | quick harnesses | added by thorough | bounds (quick) | bounds (thorough) | left out | cost (s) |\n|---|---|---|---|---|---|---|---|\n"]
for i, p in plan.PROPS.items():
    bt = p["bounds_thorough"] if p["bounds_thorough"] != p["bounds"] else "same"
    t.append(f"| {i} | {p['title']} | {names(p['quick'])} | {names(p['thorough']) or '-'} | {p['bounds']} | {bt} | {p['outside'] or '-'} | {cost(p['quick'])} / {cost(p['thorough'])} |\n")
s = fill(s, "table", "".join(t))
s = fill(s, "oracle", "| id | oracle |\n|---|---|\n" + "".join(f"| {i} | {t} |\n" for i, t in plan.ORACLE.items()))
na = "".join(f"* {i}: {r}\n" for i, r in plan.NOT_APPLICABLE.items()) or "None.\n"
s = fill(s, "na", na)
rows = ["| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"]
try:
    caught = json.load(open(f"{V}/seeded/caught.json"))
except OSError:
    caught = {}
for d in sorted(os.listdir(f"{V}/seeded")) if os.path.isdir(f"{V}/seeded") else []:
    try:
        j = json.load(open(f"{V}/seeded/{d}/meta.json"))
    except OSError:
        continue
    rows.append(f"| `{d}` | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {', '.join(caught.get(d, [])) or 'nothing yet'} |\n")
s = fill(s, "seeded", "".join(rows))
with open(f"{V}/DESIGN.md", "w") as f:
    f.write(s)
