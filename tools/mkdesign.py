"""Rewrite the generated parts of DESIGN.md (bounds per check, table of planted bugs)."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def bounds():
    out = ["| id | quick | thorough |", "|---|---|---|"]
    for f in sorted(glob.glob(HERE + "/mc/checks/c[0-9]*.py")):
        m = importlib.import_module("mc.checks." + os.path.basename(f)[:-3])
        out.append("| %s | %s | %s |" % (m.PID, m.BOUND["quick"].replace("|", "/"), m.BOUND["thorough"].replace("|", "/")))
    return "\n".join(out)


def bugs():
    out = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    caught = json.load(open(HERE + "/tools/caught.json"))
    for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
        name = f.split("/")[-2]
        m = json.load(open(f))
        out.append("| %s | %s | %s | %s |" % (name, m["property"], m["needs"].replace("|", "/"), caught.get(name, "not run")))
    return "\n".join(out)


def fixes():
    k = json.load(open(HERE + "/known_findings.json"))
    out = []
    for x in sorted(k["fixed"], key=lambda s: s.split("property=")[1]):
        out.append("* " + x[len("fixed: property="):])
    return "\n".join(out)


def main():
    p = HERE + "/DESIGN.md"
    s = open(p).read()
    for name, fn in (("bounds", bounds), ("bugs", bugs), ("fixes", fixes)):
        a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + "\n" + fn() + "\n" + s[j:]
    open(p, "w").write(s)


main()
