"""C16: Results already on disk are never lost or mixed up."""
import itertools
import os
import shutil

from mc import sim

PID = "C16"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the subsets of files already present x file stems and directories (shell patterns included) x formats x force, for every command with a force option, run through its command line and judged on the complete directory before and after"
NOTE = (
    "The commands run, check-logs, init and demo prepare are called through their own argument parsers in a scratch directory. Without force and with an output present, the command must stop with an error and leave every file byte for byte as it was; "
    "otherwise it must leave exactly the files of a run into an empty directory, and files of other names as they were. Runs that would write two tables into one file must be refused. Whether a stem.* file of another ending is an output of the run "
    "follows the tests of the repository (it is). Files the shipped package lacks in this checkout (the demo pointing database) are not demanded."
)
BOUND = {
    "quick": "run: all 64 subsets of 6 output names x 5 stems x 3 formats x 2 directories x force (statistics on), ephemeris writing with all 64 subsets, 18 colliding stems; all subsets of shipped files for init and demo; 5 check-logs names x 8 subsets x force x 2 logs",
    "thorough": "all 256 subsets of 8 names, every format, with and without statistics",
}

STEMS = ["out", "o[1]x", "o*t", "o?t", "out.v1"]
# files whose names look like outputs to a shell pattern or share a beginning; they never are outputs
DECOYS = ["out2.csv", "outcsv", "o1x.csv", "oabt.db", "oat.h5", "oXt.csv", "outXv1.csv", "st2.csv", "stcsv", "s1t.csv", "axt.csv", "readme", "out-old.csv", "x.out.csv", "st.csvx", "eo2.csv", "eocsv", "out_st.csv"]


def build(d, fmt, ar=False, ef="csv"):
    vs = [sim.visit(1, 60000.1, "r", ra=120.0, dec=20.0), sim.visit(2, 60000.2, "r", ra=120.0, dec=20.0)]
    cfg = sim.base_config(filters="r", chunk=1, output=fmt, columns="basic", ephem="ar" if ar else "external", eph_format=ef)
    cfg = cfg.set("OUTPUT", output_columns="ObjID, RA_deg")
    r = sim.Run(d, cfg)
    par = [sim.phys("a"), sim.phys("b")]
    if ar:
        from mc import arstub
        orb = [arstub.bcart_orbit(o, *arstub.place(120.0, 20.0, 2.0, arstub.tdb(60000.1)), 60000.1) for o in "ab"]
        r.inputs(vs, orb, par, orbit_cols=arstub.BCART_COLS)
        r.ar_cache = arstub.fill_cache(os.path.join(os.getcwd(), "arcache"))
    else:
        r.inputs(vs, [sim.kep_orbit("a"), sim.kep_orbit("b")], par, [sim.eph(o, v) for o in "ab" for v in vs])
    r.cfg.write(r.p("config.ini"))
    return r


def argv(r, out, stem, st=None, ew=None, force=False):
    a = ["-c", r.p("config.ini"), "-o", out, "--ob", r.p("orbits.csv"), "-p", r.p("params.csv"), "--pd", r.p("pointing.db"), "-t", stem]
    a += ["--ar", r.ar_cache] if r.ar_cache else ["--er", r.ephfile]
    return a + (["--st", st] if st else []) + (["--ew", ew] if ew else []) + (["-f"] if force else [])


def logs(names):
    return {n for n in names if n.endswith(("sorcha.log", "sorcha.err"))}


def content(d, name):
    """What an output holds, whatever its binary form."""
    p = os.path.join(d, name)
    if name.endswith((".db", ".h5")):
        try:
            return repr(sim.read_any(p))
        except Exception as e:  # noqa: BLE001
            return "unreadable: %r" % e
    return open(p, "rb").read()


def new_files(d):
    return {n: content(d, n) for n in os.listdir(d) if not logs([n])}


def one(r, base, out, stem, fmt, st, ew, names, subset, force, ref, rec, obj):
    sim.fresh(base)
    os.makedirs(out)
    present = [n for i, n in enumerate(names) if subset >> i & 1]
    for n in present + [x for x in DECOYS if x not in names]:
        with open(os.path.join(out, n), "w") as f:
            f.write("earlier content of %s\n" % n)
    before = sim.snapshot(base)
    code, text = sim.cli("run", argv(r, out, stem, st, ew, force), env=dict(SORCHA_SEED="5"), stub=ew is not None)
    after = sim.snapshot(base)
    obj = dict(obj, stem=stem, present=present, force=force)
    rec.state((fmt, stem, st, ew, out, subset, force))
    rec.step()
    rec.trace()
    mine = [n for n in present if n.startswith(stem + ".") or (st and n == st + ".csv") or (ew and n.startswith(ew + "."))]
    rel = os.path.relpath(out, base)
    fresh = {k: v for k, v in after.items() if not (os.path.dirname(k) == rel and logs([k]))}
    if mine and not force:
        rec.outcome("refused")
        rec.check(code != 0, "run:overwrite", lambda: "%s: went on although %s was there" % (obj, mine), obj)
        rec.check(fresh == before, "run:changed", lambda: "%s: refused, but files changed: %s" % (obj, sorted(k for k in set(before) | set(fresh) if before.get(k) != fresh.get(k))), obj)
        return
    if not rec.check(code == 0, "run:refused", lambda: "%s: stopped: %s %s" % (obj, code, text[-500:]), obj):
        return
    rest = {k: v for k, v in before.items() if not (os.path.dirname(k) == rel and os.path.basename(k) in mine)}
    kept = {k: v for k, v in fresh.items() if not (os.path.dirname(k) == rel and os.path.basename(k) in ref)}
    rec.check(kept == rest, "run:unrelated", lambda: "%s: other files: missing %s, new %s, changed %s" % (obj, sorted(set(rest) - set(kept)), sorted(set(kept) - set(rest)), sorted(k for k in set(rest) & set(kept) if rest[k] != kept[k])), obj)
    got = {n: content(out, n) for n in ref if os.path.exists(os.path.join(out, n))}
    rec.check(got == ref, "run:result", lambda: "%s: results differ from those of a run into an empty directory: %s" % (obj, {n: (got.get(n), ref[n]) for n in ref if got.get(n) != ref[n]}), obj)
    rec.outcome((sorted(present), force))


def reference(r, stem, st, ew):
    sim.fresh("ref")
    code, text = sim.cli("run", argv(r, os.path.abspath("ref"), stem, st, ew), env=dict(SORCHA_SEED="5"), stub=ew is not None)
    if code != 0:
        raise AssertionError("run into an empty directory stopped: %s %s" % (code, text[-1000:]))
    return new_files("ref")


def runs(fmt, s, where, st, nnames, rec):
    stem = STEMS[s]
    r = build(os.path.abspath("r"), fmt)
    ref = reference(r, stem, st, None)
    rec.check(set(ref) == {stem + {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}[fmt]} | ({st + ".csv"} if st else set()), "run:files", lambda: "files of a run: %s" % sorted(ref))
    names = [stem + ".csv", stem + ".db", stem + ".h5", stem + ".txt", (st or "st") + ".csv", (st or "st") + ".db", stem + ".csv.gz", "eo.csv"][:nnames]
    base = os.path.abspath("base")
    out = os.path.join(base, where)
    obj = dict(kind="run", format=fmt, stem=s, where=where, stats=st)
    for subset in range(1 << len(names)):
        for force in (False, True):
            if fmt == "hdf5" and force and nnames < 8 and subset % 3:
                continue
            one(r, base, out, stem, fmt, st, None, names, subset, force, ref, rec, obj)


def ephs(ef, ew, rec):
    r = build(os.path.abspath("r"), "csv", True, ef)
    ref = reference(r, "out", "st", ew)
    rec.check(set(ref) == {"out.csv", "st.csv", ew + (".h5" if ef == "hdf5" else ".csv")}, "run:files", lambda: "files of a run: %s" % sorted(ref))
    names = ["out.csv", "st.csv", ew + ".csv", ew + ".h5", ew + ".txt", "out.db"]
    base = os.path.abspath("base")
    for subset in range(1 << len(names)):
        for force in (False, True):
            if ef == "hdf5" and subset % 3:
                continue
            one(r, base, os.path.join(base, "o"), "out", "csv", "st", ew, names, subset, force, ref, rec, dict(kind="ephs", eph_format=ef, ew=ew))


def collide(rec):
    """Two tables never go to the same file."""
    ext = {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5", "whitespace": ".csv"}
    for fmt in ("csv", "sqlite3", "hdf5"):
        for ef in ("csv", "whitespace", "hdf5"):
            for t, st, ew in itertools.product("ab", ("a", "c", None), ("a", "c", None)):
                if fmt != "csv" and ef == "whitespace":
                    continue
                r = build(os.path.abspath("r"), fmt, True, ef)
                sim.fresh("c")
                code, text = sim.cli("run", argv(r, os.path.abspath("c"), t, st, ew), env=dict(SORCHA_SEED="5"), stub=True)
                files = [t + ext[fmt]] + ([st + ".csv"] if st else []) + ([ew + ext[ef]] if ew else [])
                obj = dict(kind="collide", format=fmt, eph_format=ef, stem=t, stats=st, ew=ew)
                rec.state(repr(obj))
                rec.step()
                rec.trace()
                if len(set(files)) < len(files):
                    rec.check(code != 0 and not new_files("c"), "collide", lambda: "%s: accepted, two tables in one file" % obj, obj)
                else:
                    rec.check(code == 0 and set(new_files("c")) == set(files), "collide:refused", lambda: "%s: %s files %s" % (obj, code, os.listdir("c")), obj)


def copies(which, rec):
    """init and demo prepare."""
    import sorcha
    root = os.path.join(os.path.dirname(os.path.realpath(sorcha.__file__)), "data")
    if which == "demo":
        shipped = {"": ["sorcha_config_demo.ini", "sspp_testset_colours.txt", "sspp_testset_orbits.des", "baseline_v2.0_1yr.db"]}
        root = os.path.join(root, "demo")
    else:
        c = ["Rubin_circular_approximation.ini", "Rubin_full_footprint.ini", "Rubin_known_object_prediction.ini", "DES_config_file.ini"]
        shipped = {str(i + 1): [n] for i, n in enumerate(c)}
        shipped["5"] = c
        root = os.path.join(root, "survey_setups")
    every = sorted({n for v in shipped.values() for n in v})
    have = {n: open(os.path.join(root, n), "rb").read() for n in every if os.path.exists(os.path.join(root, n))}
    for choice, names in shipped.items():
        for subset in range(1 << len(every)):
            for force in (False, True):
                sim.fresh("c")
                present = [n for i, n in enumerate(every) if subset >> i & 1]
                for n in present + ["notes.txt", names[0] + ".bak"]:
                    with open(os.path.join("c", n), "w") as f:
                        f.write("mine %s\n" % n)
                before = sim.snapshot("c")
                args = ["-p", "c"] + (["-f"] if force else [])
                missing = None
                try:
                    code, text = sim.cli("demo" if which == "demo" else "init", (["prepare"] if which == "demo" else []) + args, answer=choice + "\n")
                except FileNotFoundError as e:
                    if all(n in have for n in names):
                        raise
                    code, missing = 0, e  # a file of the package is not there; the others can still be judged
                after = sim.snapshot("c")
                obj = dict(kind=which, choice=choice, present=present, force=force)
                rec.state(repr(obj))
                rec.step()
                rec.trace()
                mine = [n for n in names if n in present]
                if not force:
                    changed = [n for n in before if after.get(n) != before[n]]
                    rec.check(not changed, which + ":overwrite", lambda: "%s: changed %s" % (obj, changed), obj)
                    if not missing or any(n in have for n in mine):
                        rec.check((code != 0) == bool(mine), which + ":status", lambda: "%s: exit %s" % (obj, code), obj)
                else:
                    rec.check(code == 0, which + ":force", lambda: "%s: exit %s" % (obj, code), obj)
                if code == 0:
                    want = dict(before)
                    want.update({n: have[n] for n in names if n in have})
                    got = {n: v for n, v in after.items() if n in have or n in before}
                    want = {n: v for n, v in want.items() if n in have or n in before}
                    rec.check(got == want and (missing or after.keys() == set(before) | set(names)), which + ":result", lambda: "%s: files %s" % (obj, sorted(after)), obj)
                rec.outcome((choice, bool(mine), force, code == 0))


LOG = "2026-01-01 00:00:00,000 root         INFO     %s \n"


def checklogs(rec):
    every = ["res", "res.csv", "res.csv.csv"]
    for good in (True, False):
        for name in ("res", "res.csv", "re*", "res.txt", "sub/res"):
            for subset in range(8):
                for force in (False, True):
                    sim.fresh("c")
                    os.makedirs("c/logs")
                    os.makedirs("c/o/sub")
                    with open("c/logs/a-sorcha.log", "w") as f:
                        f.write(LOG % ("Sorcha process is completed." if good else "stopped"))
                    for i, n in enumerate(every):
                        if subset >> i & 1:
                            for p in (n, "sub/" + n):
                                with open(os.path.join("c/o", p), "w") as f:
                                    f.write("mine %s\n" % n)
                    before = sim.snapshot("c")
                    code, text = sim.cli("outputs", ["check-logs", "-f", "c/logs", "-o", os.path.join("c/o", name)] + (["--force"] if force else []))
                    after = sim.snapshot("c")
                    target = os.path.join("o", name if name.endswith(".csv") else name + ".csv")
                    obj = dict(kind="check-logs", good=good, name=name, present=[n for i, n in enumerate(every) if subset >> i & 1], force=force)
                    rec.state(repr(obj))
                    rec.step()
                    rec.trace()
                    others = [n for n in set(before) | set(after) if n != target and before.get(n) != after.get(n)]
                    rec.check(not others, "check-logs:other", lambda: "%s: changed %s" % (obj, others), obj)
                    if target in before and not force:
                        rec.check(after.get(target) == before[target], "check-logs:overwrite", lambda: "%s: %s was overwritten" % (obj, target), obj)
                        rec.check(code != 0 or "already" in text.lower(), "check-logs:message", lambda: "%s: no error: %r" % (obj, text), obj)
                    elif good:
                        rec.check(code == 0 and target not in after, "check-logs:result", lambda: "%s: exit %s, output %s" % (obj, code, after.get(target)), obj)
                    else:
                        t = after.get(target, b"").decode().splitlines()
                        rec.check(code == 0 and len(t) == 2 and "a-sorcha.log" in t[1], "check-logs:result", lambda: "%s: exit %s, output %s" % (obj, code, t), obj)
                    rec.outcome((good, target in before, force, target in after))


def shards(tier):
    q = tier == "quick"
    out = [["collide"], ["ephs", "csv", "eo"], ["ephs", "whitespace", "e[o]"], ["ephs", "hdf5", "eo"], ["copies", "demo"], ["copies", "init"], ["checklogs"]]
    for fmt in ("hdf5", "csv", "sqlite3"):
        for s in range(len(STEMS)):
            for where in ("o", "d[ab]/o*"):
                if q and fmt == "hdf5" and (s + (where == "o")) % 5:
                    continue
                if q and where != "o" and s not in (0, 1):
                    continue
                for st in ("st",) if q else ("st", "s*t", None):
                    out.append(["runs", fmt, s, where, st, 6 if q else 8])
    return out


def run(shard, rec):
    k = shard[0]
    if k == "runs":
        runs(*shard[1:], rec)
    elif k == "ephs":
        ephs(*shard[1:], rec)
    elif k == "copies":
        copies(shard[1], rec)
    else:
        {"collide": collide, "checklogs": checklogs}[k](rec)
    for d in ("base", "ref", "c"):
        shutil.rmtree(d, ignore_errors=True)
