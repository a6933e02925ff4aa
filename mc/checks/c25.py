"""C25: Collating runs into one database keeps every row of every run."""
import collections
import itertools
import math
import os
import shutil
import sqlite3

from mc import sim
from mc.checks import c24

PID = "C25"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of small collections of result databases and input files, and of all short histories of collating and of adding, changing and removing runs; every collation by the real command, its tables compared with a model that adds up the rows of the files present"
NOTE = (
    "The command line tool collates directories holding 0 to 4 result databases (differing columns and column order, no rows, no table, repeated rows, IDs that look like numbers, missing values) in nested directories with awkward names, together with one to three files "
    "per kind of input. All histories up to the stated depth of collating (to an output outside or inside the directory of results, with and without stem and complex parameters) and of adding, replacing and removing runs and inputs are followed, with the multiset of "
    "rows of all files present as the model. The databases of real runs are collated, too. Inputs are whitespace-separated, as the tool documents; values are compared by number, rows without regard to order, and a missing value equals an absent column."
)
BOUND = {
    "quick": "collections of up to 2 of 9 databases x 6 places x 3 stems x 3 outputs, each collated twice; collections of up to 3 of 7 input files per kind; histories of 4 operations out of 10; runs and inputs of 54 sizes from 3 to 40000 rows, of up to 1000 columns; 6 pairs of real runs",
    "thorough": "collections of up to 3 databases and 3 input files, histories of 6 operations, sizes up to 250001 rows, 12 triples of real runs",
}
COLS = ["ObjID", "fieldMJD_TAI", "RA_deg", "optFilter", "trailedSourceMag"]


def rows(tag, n, ids=None):
    return [dict(ObjID=ids[k] if ids else "%s_%d" % (tag, k), fieldMJD_TAI=60000.0 + k / 7.0, RA_deg=(12.5 + 77.7 * k) % 360, optFilter="gri"[k % 3], trailedSourceMag=21.0 + k / 3.0) for k in range(n)]


def kinds(tag):
    """Result databases: (columns, rows, has a table)."""
    two = rows(tag, 2)
    return {
        "plain": (COLS, two),
        "many": (COLS, rows(tag, 5)),
        "order": (["ObjID", "trailedSourceMag", "optFilter", "fieldMJD_TAI", "RA_deg"], two),
        "extra": (COLS + ["object_linked"], [dict(r, object_linked=k % 2) for k, r in enumerate(two)]),
        "other": (COLS[:3] + ["Range_LTC_km", "AstRARate(deg/day)"], [dict(ObjID=r["ObjID"], fieldMJD_TAI=r["fieldMJD_TAI"], RA_deg=r["RA_deg"], **{"Range_LTC_km": 3.1e8 + k, "AstRARate(deg/day)": -0.25 * k}) for k, r in enumerate(two)]),
        "norows": (COLS, []),
        "notable": (None, []),
        "twice": (COLS, two + two[:1]),
        "numbers": (COLS, rows(tag, 4, ["007", "7", "1e3", "0x1F"])),
        "missing": (COLS, [dict(two[0], RA_deg=None, optFilter=None), dict(two[1], trailedSourceMag=None)]),
        "shared": (COLS, rows("same", 3)),  # the same rows in every run of this kind
    }


def write_db(path, spec):
    cols, rs = spec
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        os.remove(path)
    con = sqlite3.connect(path)
    if cols is None:
        con.execute("PRAGMA table_info(sorcha_results)")
        con.commit()
        if not os.path.exists(path):
            open(path, "w").close()
    else:
        import pandas as pd

        df = pd.DataFrame([[r.get(c) for c in cols] for r in rs], columns=cols)
        df.to_sql("sorcha_results", con=con, if_exists="append", index=False)
    con.commit()
    con.close()


TAB = {"params": ["ObjID", "H_r", "g-r", "GS"], "orbits": ["ObjID", "FORMAT", "q", "e", "epochMJD_TDB"], "complex": ["ObjID", "a", "k"]}


def inrows(kind, tag, n, ids=None):
    out = []
    for i in range(n):
        o = ids[i] if ids else "%s_%d" % (tag, i)
        vals = {"params": [o, "%.3f" % (17 + i / 3.0), "0.3", "0.15"], "orbits": [o, "COM", "%.15f" % (1 + i / 7.0), "0.1", "54466"], "complex": [o, "1.5", "%d" % i]}[kind]
        out.append(dict(zip(TAB[kind], vals)))
    return out


def inkinds(kind, tag):
    """Input files: (columns, rows, text in front of or after the rows)."""
    c = TAB[kind]
    two = inrows(kind, tag, 2)
    return {
        "plain": (c, two),
        "order": (c[:1] + c[:0:-1], two),
        "fewer": (c[:-1], [{k: r[k] for k in c[:-1]} for r in two]),
        "more": (c + ["extra"], [dict(r, extra="%d" % (k + 5)) for k, r in enumerate(two)]),
        "numbers": (c, inrows(kind, tag, 4, ["007", "7", "12", "1e3"])),
        "digits": (c, inrows(kind, tag, 3, ["1", "2", "10"])),
        "index": (c + ["INDEX"], [dict(r, INDEX="%d" % (k + 1)) for k, r in enumerate(two)]),
        "norows": (c, []),
        "twice": (c, two + two[1:]),
    }


def write_in(path, spec, sep=" "):
    cols, rs = spec
    with open(path, "w") as f:
        f.write(sep.join(cols) + "\n")
        for r in rs:
            f.write(sep.join(r[c] for c in cols) + "\n")


def norm(v, ident=False):
    if v is None:
        return None
    if ident:
        return v if isinstance(v, str) else ("not text", v)
    try:
        f = float(v)
    except (TypeError, ValueError):
        return v
    return None if math.isnan(f) else float("%.13e" % f)


def bag(rs, drop=()):
    out = collections.Counter()
    for r in rs:
        d = {k: norm(v, k == "ObjID") for k, v in r.items() if k not in drop}
        out[frozenset((k, v) for k, v in d.items() if v is not None)] += 1
    return out


def tables(path):
    con = sqlite3.connect("file:%s?mode=ro" % path.replace("?", "%3f").replace("#", "%23"), uri=True)
    out = {}
    for (t,) in con.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
        cur = con.execute("SELECT * FROM [%s]" % t)
        names = [x[0] for x in cur.description]
        out[t] = [dict(zip(names, r)) for r in cur.fetchall()]
    con.close()
    return out


def collate(out, inputs, results, stem=None, cplx=False):
    a = ["create-sqlite", "-o", out, "-i", inputs, "-r", results] + (["-s", stem] if stem is not None else []) + (["-c"] if cplx else [])
    return sim.cli("outputs", a)


def differ(got, want):
    miss, extra = want - got, got - want
    return "%d rows expected, %d found; missing %s; not expected %s" % (sum(want.values()), sum(got.values()), [sorted(map(str, x)) for x in list(miss)[:2]], [sorted(map(str, x)) for x in list(extra)[:2]])


def judge(rec, tag, what, obj, code, text, out, want):
    """want: {table: rows}. The tables have to hold exactly these rows."""
    rec.check(code == 0, tag + ":error", lambda: "%s: stopped with %s %s" % (what, code, text[-300:]), obj)
    if code != 0:
        return
    t = tables(out)
    for name, rs in want.items():
        w = bag(rs)
        if name not in t:
            rec.violation(tag + ":" + name, "%s: no table %s" % (what, name), obj)
            continue
        # an own column of row numbers is added to the inputs, and their column INDEX is renamed
        drop = () if name == "sorcha_results" else ("index",)
        g = bag([{("INDEX" if k == "orig_index" else k): v for k, v in r.items()} for r in t[name]], drop)
        rec.check(g == w, tag + ":" + name, lambda: "%s: table %s: %s" % (what, name, differ(g, w)), obj)
    rec.check(set(t) - set(want) <= {"complex"}, tag + ":tables", lambda: "%s: tables %s" % (what, sorted(t)), obj)


PLACES = ("res", "res/one", "res/two/deep er", "res/a[1]", "res/t*", "res/o'x")
NAMES = ("run%s.db", "run_%s_a.db", "run-%s.sqlite.db", "other%s.db")
STEMS = (None, "run", "run_")
OUTS = ("outside.db", "res/run_all.db", "res/one/zz.db")


def shards(tier):
    th = tier == "thorough"
    out = [["db", k, i, 8 if k < 3 else 32] for k in range(0, 4 if th else 3) for i in range(8 if k < 3 else 32)]
    out += [["names", k, i, 8] for k in (1, 2) for i in range(8)]
    out += [["in", kind, k, i, 8] for kind in TAB for k in range(0, 4 if th else 3) for i in range(8)]
    out += [["hist", 6 if th else 4, i, 64 if th else 16] for i in range(64 if th else 16)]
    out += [["real", i] for i in range(12 if th else 6)]
    out += [["size", i, 8] for i in range(8)]
    return [s + [tier] for s in out]


def warm():
    import sorcha.utilities.createResultsSQLDatabase  # noqa: F401


def run(shard, rec):
    {"db": db, "names": names, "in": inp, "hist": hist, "real": real, "size": size}[shard[0]](shard, rec)


def basic_inputs(d):
    sim.fresh(d)
    out = {}
    for k in ("params", "orbits"):
        s = inkinds(k, "in")["plain"]
        write_in(os.path.join(d, k + "_1.txt"), s)
        out[k] = s[1]
    return out


def twice(rec, tag, what, obj, out, inputs, results, stem, want, cplx=False, times=2):
    for n in range(times):
        code, text = collate(out, inputs, results, stem, cplx)
        rec.step()
        rec.trace()
        judge(rec, tag, "%s, collated %d times" % (what, n + 1), obj, code, text, out, want)


def db(shard, rec):
    """All collections of k databases in different directories: every kind of content."""
    _, k, i, nsh, tier = shard
    top = os.path.abspath("c")
    words = list(itertools.product(sorted(kinds("x")), repeat=k))
    cases = [(w, o) for w in words for o in range(len(OUTS))]
    for w, o in cases[i::nsh]:
        sim.fresh(top)
        inputs = os.path.join(top, "in")
        want = basic_inputs(inputs)
        os.makedirs(os.path.join(top, "res", "one"))
        all_rows, has = [], False
        for n, kind in enumerate(w):
            spec = kinds("r%d" % n)[kind]
            write_db(os.path.join(top, PLACES[n], NAMES[n % 3] % n), spec)
            has = has or spec[0] is not None
            all_rows += spec[1]
        out = os.path.join(top, OUTS[o])
        obj = dict(shard=shard, w=w, out=OUTS[o])
        rec.state(("db", w, o))
        rec.outcome((w, o == 0))
        what = "results %s, output %s" % (", ".join(w) or "none", OUTS[o])
        if not has:
            code, text = collate(out, inputs, os.path.join(top, "res"))
            rec.step()
            rec.trace()
            rec.check(code != 0 or (os.path.exists(out) and not tables(out).get("sorcha_results")), "db:none", lambda: "%s: %s %s" % (what, code, text[-200:]), obj)
            continue
        twice(rec, "db", what, obj, out, inputs, os.path.join(top, "res"), None, dict(want, sorcha_results=all_rows))
        for n, kind in enumerate(w):  # the files of the runs are as they were
            spec = kinds("r%d" % n)[kind]
            p = os.path.join(top, PLACES[n], NAMES[n % 3] % n)
            t = tables(p)
            rec.check(("sorcha_results" in t) == (spec[0] is not None) and bag(t.get("sorcha_results", [])) == bag(spec[1]), "db:changed", lambda: "%s: run %d holds %s" % (what, n, t), obj)


def names(shard, rec):
    """All placements and names of k databases, with and without stem, and every output location."""
    _, k, i, nsh, tier = shard
    top = os.path.abspath("c")
    cases = list(itertools.product(itertools.product(PLACES, NAMES), repeat=k))
    if k == 2:
        cases = [c for c in cases if c[0][1] <= c[1][1]]
    for c in cases[i::nsh]:
        for stem, o in itertools.product(STEMS, OUTS):
            sim.fresh(top)
            inputs = os.path.join(top, "in")
            want = basic_inputs(inputs)
            os.makedirs(os.path.join(top, "res", "one"))
            sel = []
            for n, (pl, nm) in enumerate(c):
                spec = kinds("r%d" % n)[("plain", "many")[n]]
                write_db(os.path.join(top, pl, nm % n), spec)
                if os.path.basename(nm % n).startswith(stem or ""):
                    sel += spec[1]
            out = os.path.join(top, o)
            obj = dict(shard=shard, c=c, stem=stem, out=o)
            what = "results %s, stem %s, output %s" % (", ".join("%s/%s" % (pl, nm % n) for n, (pl, nm) in enumerate(c)), stem, o)
            rec.state(("names", c, stem, o))
            rec.outcome((stem, o, len(sel)))
            if not sel:
                code, text = collate(out, inputs, os.path.join(top, "res"), stem)
                rec.step()
                rec.trace()
                rec.check(code != 0, "names:none", lambda: "%s: succeeded without results" % what, obj)
                continue
            twice(rec, "names", what, obj, out, inputs, os.path.join(top, "res"), stem, dict(want, sorcha_results=sel), times=2 if k == 1 or o != OUTS[0] else 1)


def inp(shard, rec):
    """All collections of k input files of one kind."""
    _, kind, k, i, nsh, tier = shard
    top = os.path.abspath("c")
    words = list(itertools.product(sorted(inkinds(kind, "x")), repeat=k))
    fn = ("%s_b.txt", "%s.dat", "%sA[2]")
    for j, w in list(enumerate(words))[i::nsh]:
        sim.fresh(top)
        inputs = os.path.join(top, ("in", "in put", "in[1]")[j % 3])
        want = basic_inputs(inputs)
        if kind in want:
            os.remove(os.path.join(inputs, kind + "_1.txt"))
        all_rows = []
        for n, x in enumerate(w):
            spec = inkinds(kind, "i%d" % n)[x]
            write_in(os.path.join(inputs, fn[n] % kind), spec, sep=(" ", "   ", "\t")[(j + n) % 3])
            all_rows += spec[1]
        # files of other names do not belong
        write_in(os.path.join(inputs, "my_%s.txt" % kind), inkinds(kind, "not")["plain"])
        spec = kinds("r")["plain"]
        write_db(os.path.join(top, "res", "run1.db"), spec)
        out = os.path.join(top, "all.db")
        obj = dict(shard=shard, w=w)
        rec.state(("in", kind, w))
        rec.outcome((kind, w))
        what = "%s files %s" % (kind, ", ".join(w))
        if not w:
            code, text = collate(out, inputs, os.path.join(top, "res"), None, kind == "complex")
            rec.step()
            rec.trace()
            rec.check(code != 0, "in:none", lambda: "%s: succeeded without them" % what, obj)
            continue
        want = dict(want, sorcha_results=spec[1])
        want[kind] = all_rows
        twice(rec, "in", what, obj, out, inputs, os.path.join(top, "res"), None, want, kind == "complex")


OPS = ("collate out", "collate in", "collate stem", "collate complex", "add run", "replace run", "remove run", "grow run", "add inputs", "remove inputs")


def hist(shard, rec):
    """Histories of operations; after every collation the database holds what is there at that time."""
    _, depth, i, nsh, tier = shard
    words = [w for w in itertools.product(range(len(OPS)), repeat=depth) if w[-1] < 4 and sum(x < 4 for x in w) <= 3]
    if tier == "thorough":
        words = [w for w in words if sum(x < 4 for x in w) >= 2]
    top = os.path.abspath("h")
    for w in words[i::nsh]:
        sim.fresh(top)
        inputs, res = os.path.join(top, "in"), os.path.join(top, "res")
        ins = {k: {"1": v} for k, v in basic_inputs(inputs).items()}
        s = inkinds("complex", "in")["plain"]
        write_in(os.path.join(inputs, "complex_1.txt"), s)
        ins["complex"] = {"1": s[1]}
        runs = {"run0.db": kinds("r0")["plain"]}
        write_db(os.path.join(res, "run0.db"), runs["run0.db"])
        obj = dict(shard=shard, w=[OPS[x] for x in w])
        rec.state(("hist", w))
        rec.trace()
        n = 0
        others = set()  # databases made inside the results by other collations
        for pos, x in enumerate(w):
            n += 1
            op = OPS[x]
            rec.step()
            if op.startswith("collate"):
                o = {"collate out": "all.db", "collate in": "res/all.db", "collate stem": "res/sub/run_all.db", "collate complex": "all.db"}[op]
                out = os.path.join(top, o)
                os.makedirs(os.path.dirname(out), exist_ok=True)
                stem = "run" if others - {o} or op == "collate stem" else None
                if stem == "run" and "res/sub/run_all.db" in others - {o}:
                    # another collation lies among the results under the name of a run: take it away first
                    os.remove(os.path.join(top, "res/sub/run_all.db"))
                    others.discard("res/sub/run_all.db")
                cplx = op == "collate complex"
                code, text = collate(out, inputs, res, stem, cplx)
                if o.startswith("res"):
                    others.add(o)
                what = "after %s" % ", ".join(OPS[y] for y in w[:pos + 1])
                allr = [r for sp in runs.values() for r in sp[1]]
                if not runs or not all(ins[k] for k in ("params", "orbits") + (("complex",) if cplx else ())):
                    rec.check(code != 0, "hist:none", lambda: "%s: succeeded without files" % what, obj)
                    rec.outcome(("refused", op))
                    if os.path.exists(out):
                        os.remove(out)
                        others.discard(o)
                    continue
                want = {"sorcha_results": allr}
                for k in ("params", "orbits") + (("complex",) if cplx else ()):
                    want[k] = [r for f in ins[k].values() for r in f]
                judge(rec, "hist", what, obj, code, text, out, want)
                rec.outcome((op, len(runs), len(ins["params"]), stem))
            elif op == "add run":
                f = ("run%d.db" if n % 2 else "sub/run%d.db") % n
                runs[f] = kinds("r%d" % n)[("many", "order", "extra")[n % 3]]
                write_db(os.path.join(res, f), runs[f])
            elif op == "replace run" and runs:
                f = sorted(runs)[0]
                runs[f] = kinds("new%d" % n)["plain"]
                write_db(os.path.join(res, f), runs[f])
            elif op == "remove run" and runs:
                f = sorted(runs)[-1]
                del runs[f]
                os.remove(os.path.join(res, f))
            elif op == "grow run" and runs:
                f = sorted(runs)[-1]
                cols, old = runs[f]
                if cols is not None:
                    runs[f] = (cols, old + [dict(old[0], ObjID="grown%d" % n)])
                    write_db(os.path.join(res, f), runs[f])
            elif op == "add inputs":
                for k in ("params", "orbits"):
                    sp = inkinds(k, "n%d" % n)[("more", "numbers")[n % 2]]
                    write_in(os.path.join(inputs, "%s_n%d.txt" % (k, n)), sp)
                    ins[k]["n%d" % n] = sp[1]
            elif op == "remove inputs":
                for k in ("params", "orbits"):
                    if ins[k]:
                        f = sorted(ins[k])[0]
                        del ins[k][f]
                        os.remove(os.path.join(inputs, "%s_%s.txt" % (k, f)))


LARGE = (64, 99, 100, 101, 127, 128, 255, 256, 257, 499, 500, 501, 511, 512, 513, 998, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 4096, 4999, 5000, 5001, 9999, 10000, 10001, 16384, 20001, 32766, 32767, 32768, 40000)


def size(shard, rec):
    """Results and inputs of many sizes, and of many columns, each beside small ones."""
    _, i, nsh, tier = shard
    top = os.path.abspath("c")
    th = tier == "thorough"
    cases = [(n, 0, w) for n in tuple(range(3, 300 if th else 20)) + LARGE + ((65536, 100000, 250001) if th else ()) for w in ("results", "inputs")] + [(3, c, "results") for c in (10, 50, 99, 100, 101, 250, 998)]
    for n, wide, where in cases[i::nsh]:
        sim.fresh(top)
        inputs = os.path.join(top, "in")
        want = basic_inputs(inputs)
        cols, rs = COLS, rows("big", n if where == "results" else 2)
        if wide:
            more = ["col%d" % k for k in range(wide)]
            cols, rs = cols + more, [dict(r, **{c: k + 0.5 * j for k, c in enumerate(more)}) for j, r in enumerate(rs)]
        small = rows("small", 3)
        write_db(os.path.join(top, "res", "run1.db"), (COLS, small))
        write_db(os.path.join(top, "res", "run0.db"), (cols, rs))
        write_db(os.path.join(top, "res", "sub", "run2.db"), (cols, rs[:1]))
        want["sorcha_results"] = small + rs + rs[:1]
        if where == "inputs":
            for k in ("params", "orbits"):
                sp = inrows(k, "big", n)
                write_in(os.path.join(inputs, k + "_0.txt"), (TAB[k], sp))
                want[k] = want[k] + sp
        obj = dict(shard=shard, n=n, columns=wide, where=where)
        rec.state(("size", n, wide, where))
        rec.outcome((where, n, wide))
        twice(rec, "size", "%d rows of %s, %d columns more" % (n, where, wide), obj, os.path.join(top, "all.db"), inputs, os.path.join(top, "res"), None, want, times=1)


def real(shard, rec):
    """Databases of real runs, one of which may have found nothing."""
    import pandas as pd

    _, i, tier = shard
    top = os.path.abspath("top")
    sim.fresh(top)
    res, inputs = os.path.join(top, "results"), os.path.join(top, "inputs")
    os.makedirs(inputs)
    want = collections.Counter()
    sets = [("basic", 16.0), ("all", 16.5), ("basic", 40.0)] if i % 2 == 0 else [("basic", 16.0), ("basic", 40.0), ("basic", 17.0)]
    n = 2 + (tier == "thorough")
    sets = list(itertools.permutations(sets, n))[(i // 2) % 3]
    des = i % 3 == 2
    frames = []
    for k, (cols, mag) in enumerate(sets):
        vs = [sim.visit(1 + j, 60000.9 + j // 2 + 0.02 * (j % 2), "r", ra=120.0, dec=20.0) for j in range(4)]
        name = "DES" if des else "rubin_sim"
        cfg = sim.base_config(survey=name, filters="r", chunk=2, output="sqlite3", columns=cols)
        if des:
            cfg = cfg.set("FADINGFUNCTION", fading_function_on="False")
        if mag > 30:  # every detection is saturated
            cfg = cfg.set("SATURATION", bright_limit="90.0")
        r = sim.Run(os.path.join(top, "work%d" % k), cfg, survey=name)
        ids = ["%03d" % (k * 3 + x) for x in range(3)]
        r.inputs(vs, [sim.kep_orbit(o) for o in ids], [sim.phys(o, mag) for o in ids], [sim.eph(o, v, des=des) if des else sim.eph(o, v) for o in ids for v in vs])
        r.cfg.write(r.p("config.ini"))
        out = os.path.join(res, "job%d" % k)
        os.makedirs(out)
        code, text = sim.cli("run", c24.argv(r, out, "found", None, None) + (["-s", "DES"] if des else []), env=dict(SORCHA_SEED="5"), log=True)
        if code != 0:
            raise AssertionError("run stopped: %s %s" % (code, text[-800:]))
        p = os.path.join(out, "found.db")
        t = tables(p).get("sorcha_results", []) if os.path.exists(p) else []
        rec.check(bool(t) == (mag < 30), "real:setup", lambda: "run with H = %s found %d rows" % (mag, len(t)))
        frames += t
        for kind, src in (("params", "params.csv"), ("orbits", "orbits.csv")):
            df = pd.read_csv(r.p(src), dtype=str)
            df.to_csv(os.path.join(inputs, "%s_%d.txt" % (kind, k)), sep=" ", index=False)
    ins = {kind: [x for f in sorted(os.listdir(inputs)) if f.startswith(kind) for x in pd.read_csv(os.path.join(inputs, f), sep=" ", dtype=str).to_dict("records")] for kind in ("params", "orbits")}
    for o in OUTS:
        out = os.path.join(top, o.replace("res/one", "results/job0").replace("res/", "results/"))
        what = "real runs %s, output %s" % (sets, o)
        rec.state(("real", i, o))
        twice(rec, "real", what, dict(shard=shard), out, inputs, res, "found" if o != OUTS[0] else None, dict(ins, sorcha_results=frames))
        rec.outcome(("real", sets, o))
