#!/opt/venv/bin/python
"""seed.py SPEC.py [--nocheck] : turn a bug specification into /verif/seeded/<ID>, after confirming it in a scratch copy.

A SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text), LIBS (files of mc/ laid beside it).
seed.py ID        : confirm an existing one again (patch applies, demo, tests, check)."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def main():
    arg = sys.argv[1]
    nocheck = "--nocheck" in sys.argv
    notest = "--notest" in sys.argv
    copy = f"/tmp/seedcopy-{os.getpid()}"
    shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns(".pytest_cache", "docs"))
    try:
        return work(arg, copy, nocheck, notest)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def work(arg, copy, nocheck, notest):
    sh(["git", "checkout", "-q", "--", "."], cwd=copy)
    if arg.endswith(".py"):
        s = runpy.run_path(arg)
        d = f"{V}/seeded/{s['ID']}"
        os.makedirs(d, exist_ok=True)
        for f, old, new in s["EDITS"]:
            t = open(f"{copy}/{f}").read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(f"{copy}/{f}", "w").write(t.replace(old, new))
        _, diff = sh(["git", "diff", "--no-color", "--", "src"], cwd=copy)
        open(d + "/patch.diff", "w").write(diff)
        sh(["git", "checkout", "-q", "--", "."], cwd=copy)
        open(d + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
        for l in s.get("LIBS", ["sim.py"]):
            shutil.copy(f"{V}/mc/{l}", d)
        open(d + "/demo.sh", "w").write("""#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
export TMPDIR=$W HOME=$W NUMBA_CACHE_DIR=$W/numba PYTHONPATH=$D${PYTHONPATH:+:$PYTHONPATH}
mkdir "$W/run"
/opt/venv/bin/python -W ignore "$D/demo.py" "$W/run"
""")
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        sid = s["ID"]
    else:
        sid = arg
        d = f"{V}/seeded/{sid}"
    prop = json.load(open(d + "/meta.json"))["property"]
    env = dict(os.environ, PYTHONPATH=copy + "/src", PYTHONDONTWRITEBYTECODE="1")
    c0, o0 = sh(["bash", d + "/demo.sh"], cwd=copy, env=env, timeout=300)
    rc, o = sh(["git", "apply", d + "/patch.diff"], cwd=copy)
    if rc:
        print(sid, "DOES NOT APPLY", o)
        return 1
    c1, o1 = sh(["bash", d + "/demo.sh"], cwd=copy, env=env, timeout=300)
    print(f"{sid} {prop}: demo clean={c0} patched={c1}", "" if c0 == 0 and c1 != 0 else "  <<<<< BAD\n" + o0[-1500:] + "\n--\n" + o1[-1500:])
    print("   patched demo says:", o1.strip().splitlines()[-1][:200] if o1.strip() else "")
    if not notest:
        w = f"/tmp/seedtest-{os.getpid()}"
        os.makedirs(w)
        e2 = dict(env, NUMBA_CACHE_DIR=w + "/numba")
        rc, o = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-W", "ignore", "--timeout=300", f"--basetemp={w}/pytest"]
                   + [f"--ignore=tests/{t}" for t in ("sorcha/test_demo_chunking.py", "sorcha/test_demo_command_line.py", "sorcha/test_demo_end2end.py",
                                                       "sorcha/test_sorcha_copy_demo_files.py", "ephemeris/test_pixdict.py")]
                   + ["-rf", "-o", "junit_family=xunit2", f"--junitxml={w}/j.xml", "--maxfail=100"], cwd=copy, env=e2)
        sh(["/usr/bin/python3", "/opt/vp/results.py", w + "/out.json", f"junit:{w}/j.xml"])
        got = json.load(open(w + "/out.json"))
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(got["passed"])
        print("   tests:", "pass" if not miss else f"<<<<< {len(miss)} stable tests fail: {sorted(miss)[:4]}")
        shutil.rmtree(w, ignore_errors=True)
    if not nocheck:
        e3 = dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE="/tmp/ev")
        rc, o = sh([V + "/run.sh", prop, "quick"], env=e3)
        lines = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        print("   check:", "CAUGHT" if rc == 1 and lines else f"<<<<< MISSED rc={rc}", o.strip()[-400:].replace("\n", "\n      ") if not lines else lines[0])
    return 0


sys.exit(main())
