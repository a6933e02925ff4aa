"""Writes MANIFEST.json from properties.jsonl and the check modules present in mc/checks."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"{V}/mc/checks/{i.lower()}.py"
    if os.path.exists(f) and "\nDRAFT" not in open(f).read():
        src = open(f).read()
        level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
        tech = re.search(r'^TECHNIQUE = \(?\s*"(.*?)"\)?$', src, re.M).group(1)
        note = re.search(r'^NOTE = \(\n(.*?)^\)', src, re.M | re.S).group(1)
        note = "".join(re.findall(r'^\s*"(.*)"$', note, re.M))
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none", enable="no hooks are needed: the checks drive public functions of /repo's working tree", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="run.sh <ID> replay <file> re-executes a recorded violation; VERIF_REPO=<dir> points a check at another source tree.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
