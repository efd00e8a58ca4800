#!/usr/bin/env python3
import json, meta, props
B = {"C": "C"}
with open("properties.jsonl", "w") as f:
    for pid, m in sorted(meta.META.items()):
        assert len(m["title"]) <= 80, pid
        f.write(json.dumps(dict(id=pid, title=m["title"], statement=m["statement"],
            quantifier=dict(over=m["over"], text=m["text"]), why_tests_cant=m["why"],
            anchors=dict(files=m["files"], mechanism=[dict(name=a, where=b) for a, b in m["mech"]],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in m["state"]],
                         observe_at=list(m["observe"]), hook_needed=None))) + "\n")
man = dict(version=1, setup_cmd="true",
  hooks=dict(guard="VF_NO_HOOKS", enable="no hooks are needed: the checks compile the repository's sources unchanged, harnesses include them", source_commits=[]),
  checks=[], not_applicable=[],
  notes="Solver-based checking of the real code with CBMC: see DESIGN.md.")
for pid, m in sorted(meta.META.items()):
    if pid in props.PROPS and not m["na"]:
        man["checks"].append(dict(property=pid, quick_cmd=f"python3 run.py {pid} --tier quick",
            thorough_cmd=f"python3 run.py {pid} --tier thorough",
            technique="bounded symbolic execution of the real C sources, SAT solver (CBMC)", level="other",
            level_note="Holds for every value within the stated bounds (" + m["text"] + "); nginx core is modelled. " + m["note"]))
    else:
        assert m["na"], pid
        man["not_applicable"].append(dict(property=pid, reason=m["na"]))
assert set(props.PROPS) <= set(meta.META)
json.dump(man, open("MANIFEST.json", "w"), indent=1)
print(len(man["checks"]), "claimed", len(man["not_applicable"]), "not")
import os, glob
out = open("design_head.md").read().split("@@DESIGN")[0]
out += "## Properties: how each is decided\n\n"
for pid, m in sorted(meta.META.items()):
    out += f"### {pid} {m['title']}\n\n{m['statement']}\n\n"
    if m["na"]:
        out += f"Not claimed: {m['na']}\n\n"
        continue
    p = props.PROPS[pid]
    out += f"Bounds: {m['text']}. {m['note']}\n\n"
    seen = {}
    for q in p["queries"]:
        k = (q["file"], q["entry"])
        seen.setdefault(k, []).append(q)
    for (f, e), qs in seen.items():
        out += f"- `h/{f}:{e}` ({len(qs)} quer{'y' if len(qs)==1 else 'ies'}, {sum(1 for q in qs if q.get('only')!='thorough')} in quick): {qs[0].get('bounds','')}\n"
    for a in p["assumptions"]:
        out += f"- assumes: {a}\n"
    s = [x for x in sorted(glob.glob("seeded/*/meta.json")) if json.load(open(x))["property"] == pid]
    for x in s:
        j = json.load(open(x))
        out += f"- planted bug `{os.path.basename(os.path.dirname(x))}`: {j['what_it_breaks']} (needs {j['needs']}); {j.get('caught', 'not run yet')}\n"
    out += "\n"
out += "## Defects found in the code\n\n"
out += "".join(f"- {l}" for l in open("known_findings.txt"))
if os.path.exists("design_tail.md"):
    out += "\n" + open("design_tail.md").read()
open("DESIGN.md", "w").write(out)
