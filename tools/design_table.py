"""tools/design_table.py: markdown table of the planted bugs, from seeded/*/meta.json"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| Bug | Property (caught by its check) | What it breaks |\n|---|---|---|")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); print("| %s | %s | %s |" % (f.split("/")[-2], d["property"], d["what_it_breaks"].replace("|", "/").replace("\n", " ")[:160]))
