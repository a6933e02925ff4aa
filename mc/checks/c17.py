"""C17: The statistics table summarises exactly the reported detections."""
import csv
import itertools
import math
import os
import statistics
import types

import pandas as pd

from mc import sim

PID = "C17"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all small detection tables x linking settings x column types x splits into chunks on the real statistics writer, and of complete runs over surveys, chunk sizes, linking and cuts, against sums made row by row from the reported detections"
NOTE = (
    "Every table over two objects, two filters and three magnitude/phase pairs up to a length, filters as text or as categories with unused members, labels in three orders, is summarised at once and in every split by object; the file must have one row "
    "per object and filter with detections, in any order, with the exact extremes, median and count. Complete runs must give the statistics of their own output file, with the linking columns where they apply, whatever the survey, format, chunk size and cut."
)
BOUND = {
    "quick": "all tables of up to 4 rows over 12 row kinds, settings in turn; all splits of tables of up to 6 objects; tables of 10 lengths up to 10007; 2 surveys x 4 chunk sizes x 3 linking settings x 8 sets of cuts x 3 formats in turn",
    "thorough": "all tables of up to 5 rows; every combination of run settings",
}

LINK = [(False, True), (True, True), (True, False)]
MP = [(20.0, 3.25), (19.123456789012, 117.0), (24.5, 0.0)]
FAR = ("FOV", dict(camera_model="circle", circle_radius=0.15))
# every way of dropping or changing detections on the way to the report
CUTS = {
    "rubin_sim": [
        [], [("SATURATION", dict(bright_limit=22.0))], [], [("EXPERT", dict(mag_limit=22.5))], [("EXPERT", dict(snr_limit=15.0))], [FAR],
        [("FADINGFUNCTION", dict(fading_function_on="True", fading_function_width=0.1, fading_function_peak_efficiency=0.9))],
        [("EXPERT", dict(randomization_on="True", trailing_losses_on="True", vignetting_on="True"))],
    ],
    "DES": [
        [], [("SATURATION", dict(bright_limit=22.0))], [], [("EXPERT", dict(mag_limit=22.5))], [("LINKINGFILTER", dict(des_discovery_on="True"))],
        [("LINKINGFILTER", dict(distance_cut_upper=2.35, distance_cut_lower=2.12))], [("LINKINGFILTER", dict(motion_cut_upper=0.15, motion_cut_lower=0.12))],
        [("FADINGFUNCTION", dict(fading_function_on="True", des_transient_efficency=1.0)), ("LINKINGFILTER", dict(des_discovery_on="True", distance_cut_upper=2.35, distance_cut_lower=2.12))],
    ],
}
ALPHA = list(itertools.product("ab", "rg", range(3)))
IDS = {"a": "007", "b": "x,y"}
COLS = ["ObjID", "optFilter", "number_obs", "min_apparent_mag", "max_apparent_mag", "median_apparent_mag", "min_phase", "max_phase"]


def read(path):
    with open(path, newline="", encoding="utf-8") as f:
        t = list(csv.reader(f))
    return t[0], t[1:]


def expected(rows, linking):
    """rows: dicts with ObjID, optFilter, trailedSourceMag, phase_deg and the linking columns."""
    on, drop = linking
    out = {}
    groups = {}
    for r in rows:
        groups.setdefault((r["ObjID"], r["optFilter"]), []).append(r)
    for k, g in groups.items():
        m, p = [float(r["trailedSourceMag"]) for r in g], [float(r["phase_deg"]) for r in g]
        v = [len(g), min(m), max(m), statistics.median(m), min(p), max(p)]
        if on and not drop:
            v.append(all(str(r["object_linked"]) in ("True", "1", "1.0") for r in g))
        if on:
            v.append(next((float(r["date_linked_MJD"]) for r in g if r["date_linked_MJD"] not in ("", None)), math.nan))
        out[k] = v
    return out


def columns(linking):
    on, drop = linking
    return COLS + (["object_linked"] if on and not drop else []) + (["date_linked_MJD"] if on else [])


def equal(got, want):
    if isinstance(want, bool):
        return got in (want, str(want), int(want), str(int(want)))
    g = math.nan if got in ("", None) else float(got)
    return (math.isnan(g) and math.isnan(want)) or abs(g - want) <= 1e-12 * max(1.0, abs(want))


def compare(names, rows, want, linking, rec, sig, obj):
    if not rec.check(names == columns(linking), sig + ":columns", lambda: "%s: columns %s, expected %s" % (obj, names, columns(linking)), obj):
        return
    keys = [(r[0], r[1]) for r in rows]
    if not rec.check(len(set(keys)) == len(keys) and set(keys) == set(want), sig + ":rows", lambda: "%s: rows for %s, expected %s" % (obj, sorted(keys), sorted(want)), obj):
        return
    for r in rows:
        for n, g, w in zip(names[2:], r[2:], want[r[0], r[1]]):
            rec.check(equal(g, w), "%s:%s" % (sig, n), lambda: "%s: %s of %s is %r, expected %r" % (obj, n, r[:2], g, w), obj)
    rec.outcome(repr(rows))


def table(w, linking, cat, lab):
    rows = [dict(ObjID=IDS[o], optFilter=f, trailedSourceMag=MP[k][0], phase_deg=MP[k][1], object_linked=o == "a", date_linked_MJD=60010.5 if o == "a" else math.nan, i=i) for i, (o, f, k) in enumerate(w)]
    df = pd.DataFrame(rows)
    if cat:
        df["optFilter"] = pd.Categorical(df["optFilter"], categories=list("griuyz"))
    df.index = [list(range(len(w))), [5 * i + 1 for i in range(len(w))][::-1], [0] * len(w)][lab]
    return rows, df


def cfg(linking):
    return types.SimpleNamespace(linkingfilter=types.SimpleNamespace(ssp_linking_on=linking[0], drop_unlinked=linking[1]))


def tables(first, n, rec, exhaustive):
    from sorcha.modules.PPStats import stats
    for j, rest in enumerate(itertools.product(range(len(ALPHA)), repeat=n - 1)):
        w = [ALPHA[i] for i in [first] + list(rest)]
        combos = list(itertools.product(LINK, (0, 1), (0, 1, 2)))
        for linking, cat, lab in combos if exhaustive else [combos[(j * 7 + first) % len(combos)]]:
            rows, df = table(w, linking, cat, lab)
            before = df.copy()
            obj = dict(kind="table", rows=w, linking=linking, category=cat, labels=lab)
            if os.path.exists("t.csv"):
                os.remove("t.csv")
            stats(df, "t", os.getcwd(), cfg(linking))
            rec.trace()
            rec.step()
            rec.state(repr(obj))
            names, got = read("t.csv")
            want = expected(rows, linking)
            compare(names, got, want, linking, rec, "table", obj)
            rec.check(df.equals(before), "table:input", lambda: "%s: the table handed in was changed" % obj, obj)
            if exhaustive:
                ret = stats(df, "t2", os.getcwd(), cfg(linking), return_only=True).reset_index()
                rec.step()
                rec.check(not os.path.exists("t2.csv"), "table:return-only", "a file was written although only the table was asked for")
                compare(list(ret.columns), [list(r) for r in ret.itertuples(index=False)], want, linking, rec, "table:return", obj)


def splits(rec, n):
    """Chunks in every grouping of a sequence of objects."""
    from sorcha.modules.PPStats import stats
    objs = [("o%d" % i, [("r", 0)] * (i % 3) + [("g", 1), ("r", 2)][: 1 + i % 2]) for i in range(n)]
    for cut in range(1 << (n - 1)):
        for linking in LINK:
            chunks, cur = [], []
            for i, o in enumerate(objs):
                cur.append(o)
                if cut >> i & 1 or i == n - 1:
                    chunks.append(cur)
                    cur = []
            if os.path.exists("t.csv"):
                os.remove("t.csv")
            rows = []
            for c in chunks:
                r = [dict(ObjID=o, optFilter=f, trailedSourceMag=MP[k][0] + 0.01 * j, phase_deg=MP[k][1] + 0.1 * j, object_linked=o != "o1", date_linked_MJD=60001.0 if o != "o1" else math.nan)
                     for o, d in c for j, (f, k) in enumerate(d)]
                df = pd.DataFrame(r)
                df["optFilter"] = pd.Categorical(df["optFilter"], categories=list("gri"))
                stats(df, "t", os.getcwd(), cfg(linking))
                rec.step()
                rows += r
            rec.trace()
            obj = dict(kind="split", cut=cut, linking=linking, n=n)
            rec.state(repr(obj))
            names, got = read("t.csv")
            compare(names, got, expected(rows, linking), linking, rec, "split", obj)


def runs(survey, linking, cut, size, fmt, rec):
    des = survey == "DES"
    # nights for the linking of both surveys
    nights = (0, 1, 3, 5, 6, 8, 10, 60, 240, 241) if des else (0, 1, 3, 5, 6, 8, 10)
    mjds = [60000.10 + d + t for d in nights for t in (0.0, 0.03)]
    vs = [sim.visit(3 + i, m, "rgi"[i % 3] if i % 5 else "y", ra=10.0, dec=-5.0) for i, m in enumerate(mjds)]
    ids = ["7", "007", "b b", "ü", "zz"]
    orb = [sim.kep_orbit(o) for o in ids]
    par = [dict(ObjID=o, H_r=18.5 + i, GS=0.15, **{"g-r": 0.3 * i, "i-r": -0.2}) for i, o in enumerate(ids)]
    seen = {"7": range(len(vs)), "007": [0, 1, 2], "b b": range(0, len(vs), 3), "ü": [], "zz": range(len(vs))}
    es = []
    for i, o in enumerate(ids):
        for j in seen[o]:
            t = vs[j]["observationStartMJD"] - 60000.0
            es.append(sim.eph(o, vs[j], ra=10.0 + 0.02 * t + 0.001 * i, dec=-5.0 + 0.002 * t, rng=1.5 + 0.01 * j, r=2.0 + 0.01 * j + 0.1 * i, dra=0.1 + 0.02 * i, des=des))
    cfgr = sim.base_config(survey, filters="r,g,i", chunk=size, output=fmt, columns="all")
    if des:
        cfgr = cfgr.set("FADINGFUNCTION", fading_function_on="False")
    if linking[0]:
        if des:
            return
        cfgr["LINKINGFILTER"] = dict(sim.LINKING, drop_unlinked=linking[1])
    if cut == 2:
        cfgr = cfgr.set("SATURATION", bright_limit=99.0)
    for section, kv in CUTS[survey][cut]:
        cfgr = cfgr.set(section, **kv)
    r = sim.Run("r", cfgr, survey, stats="st").inputs(vs, orb, par, es)
    r.go()
    obj = dict(kind="run", survey=survey, linking=linking, cut=cut, chunk=size, format=fmt)
    rec.trace()
    rec.step(math.ceil(len(ids) / size))
    rec.state(repr(obj))
    rows = r.rows() or []
    p = os.path.join("r", "o", "st.csv")
    if cut == 2:
        rec.check(not rows and not os.path.exists(p), "run:empty", lambda: "%s: statistics without detections" % obj, obj)
        return
    if not rec.check(bool(rows) and os.path.exists(p), "run:missing", lambda: "%s: %d detections, statistics %s" % (obj, len(rows), os.path.exists(p)), obj):
        return
    names, got = read(p)
    if linking == (True, False) and cut == 0:
        rec.check(len({str(x["object_linked"]) for x in rows}) == 2, "run:vacuous", "linked and unlinked objects are both needed to judge the linking columns", obj)
    if cut >= 3 and cut < 7:
        full = sum(vs[j]["filter"] in "rgi" for o in ids for j in seen[o])
        rec.check(linking == (True, True) or len(rows) < full, "run:vacuous", lambda: "%s: nothing was dropped" % obj, obj)
    compare(names, got, expected(rows, linking), linking, rec, "run", obj)
    rec.sample(dict(run=obj, rows=len(got)))
    # the same tables when only returned
    r.cfg.write(r.p("config.ini"))
    res = r.go(return_only=True)
    rec.step()
    if not isinstance(res, tuple) or len(res) != 2:
        rec.violation("run:return", "%s: return_only gives %s" % (obj, type(res)), obj)
        return
    ret = res[1].reset_index()
    compare(list(ret.columns), [list(x) for x in ret.itertuples(index=False)], expected(rows, linking), linking, rec, "run:return", obj)


def sizes(n, rec):
    """Many objects with a few detections each, and an object with many."""
    from sorcha.modules.PPStats import stats
    for many in (False, True):
        for j, linking in enumerate(LINK):
            rows = []
            for i in range(n):
                o = "o%d" % (0 if many and i % 7 else i // 3)
                linked = sum(map(ord, o)) % 2 == 0
                rows.append(dict(ObjID=o, optFilter="rgi"[(i + i // 5) % 3], trailedSourceMag=20.0 + (i * 37 % 101) / 64, phase_deg=5.0 + (i * 53 % 211) / 32, object_linked=linked,
                                 date_linked_MJD=60000.5 + len(o) if linked else math.nan))
            df = pd.DataFrame(rows)
            if j % 2:
                df["optFilter"] = pd.Categorical(df["optFilter"], categories=list("griuyz"))
            if os.path.exists("t.csv"):
                os.remove("t.csv")
            stats(df, "t", os.getcwd(), cfg(linking))
            rec.trace()
            rec.step()
            obj = dict(kind="sizes", n=n, many=many, linking=linking)
            rec.state(repr(obj))
            names, got = read("t.csv")
            compare(names, got, expected(rows, linking), linking, rec, "sizes", obj)


def shards(tier):
    q = tier == "quick"
    out = [["sizes", n] for n in sim.SIZES]
    k = 0
    for survey in ("rubin_sim", "DES"):
        for linking in LINK:
            if survey == "DES" and linking[0]:
                continue
            for cut in range(8):
                for size in (1, 2, 3, 9):
                    for fmt in ("csv", "sqlite3", "hdf5"):
                        k += 1
                        if q and fmt != ("csv", "sqlite3", "csv", "sqlite3", "csv", "hdf5")[k // 3 % 6]:
                            continue
                        out.append(["run", survey, linking, cut, size, fmt])
    out += [["splits", n] for n in ((2, 5, 6) if q else (2, 5, 6, 8))]
    for i in range(len(ALPHA)):
        for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
            out.append(["t", i, n])
    return out


def run(s, rec):
    if s[0] == "t":
        tables(s[1], s[2], rec, s[2] <= 2)
    elif s[0] == "sizes":
        sizes(s[1], rec)
    elif s[0] == "splits":
        splits(rec, s[1])
    else:
        runs(s[1], tuple(s[2]), *s[3:], rec)
