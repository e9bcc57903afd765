"""Regenerates properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md
from the META/RULE/... literals of checks/c*.py (kept in one place so that the
property texts, the manifest and the checks cannot drift apart)."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
props, checks, design, na = [], [], [], []


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            k = n.targets[0].id
            if k == "META":
                out[k] = {kw.arg: ast.literal_eval(kw.value) for kw in n.value.keywords}
            elif k in ("PROP", "LEVEL", "RULE", "REQUIRE", "ASSUME", "WALL_QUICK", "WALL_THOROUGH"):
                out[k] = ast.literal_eval(n.value)
            elif k == "GROUPS":
                out[k] = ast.unparse(n.value)
    return out


for f in sorted(glob.glob(V + "/checks/c[0-9]*.py")):
    c = consts(f)
    m, pid = c["META"], c["PROP"]
    assert len(m["title"]) <= 80, (pid, len(m["title"]))
    props.append(dict(id=pid, title=m["title"], statement=m["statement"], quantifier=dict(over=m["over"], text=m["q"]),
                      why_tests_cant=m["why"], anchors=dict(files=m["files"], mechanism=[dict(name=a, where=b) for a, b in m["mech"]])))
    base = f"PYTHONHASHSEED=0 {PY} checks/{os.path.basename(f)}"
    checks.append(dict(property=pid, quick_cmd=base, thorough_cmd=base + " --tier thorough", evidence_file=f"evidence/{pid}.json",
                       technique="runtime monitoring: " + m["technique"], level=c["LEVEL"], level_note=m["note"]))
    groups = c["GROUPS"]
    design.append(f"### {pid} {m['title']}\n\n{m['statement']}\n\n"
                  f"- **Quantifier**: {m['q']}.\n- **Why tests cannot settle it**: {m['why']}\n"
                  f"- **Monitor / oracle**: {m['technique']}.\n- **Workload**: {c['RULE']}.\n"
                  + (f"- **Design**: {m['design']}\n" if m.get("design") else "")
                  + f"- **Groups (name: cases quick, thorough)**: `{groups}`\n"
                  + (f"- **Minimum observations (else the run does not count as held)**: `{json.dumps(c['REQUIRE'])}`\n" if c.get("REQUIRE") else "")
                  + f"- **Assurance**: {m['note']}\n")
for l in json.load(open(V + "/tools/not_applicable.json")):
    props.append(l["prop"])
    na.append(dict(property=l["prop"]["id"], reason=l["reason"]))
    design.append(f"### {l['prop']['id']} {l['prop']['title']} (not applicable)\n\n{l['prop']['statement']}\n\nNot claimed: {l['reason']}\n")
open(V + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in props))
json.dump(dict(version=1, setup_cmd=f"{PY} tools/selfcheck.py", checks=checks, not_applicable=na,
               notes="Pure-Python repository: nothing to compile; every check imports /repo/src (and /repo/service) directly, so it sees the working tree as it is. No hooks were needed in /repo: monitors attach at API boundaries and by wrapping from the harness."),
          open(V + "/MANIFEST.json", "w"), indent=1)
kn = json.load(open(V + "/known/findings.json"))
head = open(V + "/tools/design_head.md").read()
tail = open(V + "/tools/design_tail.md").read()
kf = "\n".join(f"- `{k['property']}` [{k['mech']}] {k['what']}" + (f" — {k['why']}" if k.get('why') else "") for k in kn["findings"]) or "(none)"
fx = "\n".join("- " + x for x in kn["fixed"])
open(V + "/DESIGN.md", "w").write(head + "\n## Properties\n\n" + "\n".join(design) + "\n## Known findings (recorded, not repaired)\n\n" + kf +
                                  "\n\n## Defects found and repaired in /repo\n\n" + fx + "\n\n" + tail)
print(len(checks), "checks", len(na), "n/a")
