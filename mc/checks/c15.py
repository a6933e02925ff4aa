"""C15: Output files hold exactly the reported rows and columns, in every format."""
import csv
import itertools
import math
import os
import sqlite3
import types
from decimal import Decimal

import numpy as np
import pandas as pd

from mc import sim

PID = "C15"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all histories of chunk writes up to a depth x formats x column settings x roundings on the real writer, and of complete runs per format, survey, chunk size and column setting, read back with independent readers against the rows handed in"
NOTE = (
    "Every sequence of chunks (kinds differ in length and spelling of identifiers, in text with separators, quotes and non-ASCII letters, in missing values and in columns that hold whole numbers only) is written by the real writer "
    "and read back with the csv and sqlite3 modules or as an HDF5 table. The rows, their order, the columns and their order must be those written; rounding is judged in decimal arithmetic and touches the documented columns only. "
    "Complete runs of both surveys in each format must give the table of the csv run with every column, restricted to the configured columns, for chunks that are empty, lose all rows to a filter, or are not written at all."
)
BOUND = {
    "quick": "write histories of depth up to 4 (csv), 3 (sqlite3), 2 (hdf5) over 6 chunk kinds x 6 column settings x 6 roundings; chunks of 10 lengths up to 10007 rows and up to 1001 chunks; 2 surveys x 3 formats x 4 chunk sizes x 4 column settings x 2 cuts",
    "thorough": "depth 5 (csv), 4 (sqlite3), 3 (hdf5); the same runs with every chunk size",
}

POS = ["fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "RATrue_deg", "DecTrue_deg"]
MAG = ["PSFMag", "trailedSourceMag", "trailedSourceMagTrue", "PSFMagTrue", "PSFMagSigma", "trailedSourceMagSigma", "fieldFiveSigmaDepth_mag", "fiveSigmaDepth_mag"]
BASIC = ["ObjID", "fieldMJD_TAI", "fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "optFilter", "trailedSourceMag",
         "trailedSourceMagSigma", "fiveSigmaDepth_mag", "phase_deg", "Range_LTC_km", "RangeRate_LTC_km_s", "Obj_Sun_LTC_km"]
TEXT = ("ObjID", "optFilter", "note", "FORMAT")
# columns of the tables handed to the writer, in an order of their own
COLS = ["phase_deg", "ObjID", "whole", "note"] + POS + ["fieldMJD_TAI", "optFilter"] + MAG + ["Range_LTC_km", "RangeRate_LTC_km_s", "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km",
                                                                                       "Obj_Sun_z_LTC_km", "object_linked"]
VALS = [0.5, 2.5, 359.9999996, -0.0004, 1e-9, 23.4565, 17.0, 1.00049999, 0.1 + 0.2, -89.99999999999]
# identifiers and notes of the rows, whether the whole-number column has a fraction, what is missing
KINDS = [([("a", "n")], 0, ()), ([("00012", "x,y"), ("b b", "longer text")], 0, ()), ([('q"x', "-"), ("1e5", "ü")], 1, ()),
         ([("a", "n")], 1, ("astrometricSigma_deg", "PSFMag")), ([("ü∂ë-with-a-long-name", "'"), ("a", "n"), ("x,y", ";")], 0, ("whole",)), ([("True", "0")], 0, ("trailedSourceMagSigma",))]


def chunk(kind, c):
    ids, frac, missing = KINDS[kind] if kind < len(KINDS) else ([("o%d" % (i // 3), "n") for i in range(kind)], 1, ())  # a long chunk of so many rows
    rows = []
    for i, (o, note) in enumerate(ids):
        r = {}
        for j, col in enumerate(COLS):
            r[col] = VALS[(3 * c + 5 * i + j) % len(VALS)] + (100.0 if col in ("Range_LTC_km",) else 0.0)
        r.update(ObjID=o, note=note, optFilter="ugrizy"[(c + i) % 6], whole=7 + i + (0.5 if frac else 0), object_linked=bool((c + i) % 2))
        r.update(Obj_Sun_x_LTC_km=3.0 * (i + 1), Obj_Sun_y_LTC_km=4.0 * (i + 1), Obj_Sun_z_LTC_km=12.0 * (i + 1) * (-1) ** c)
        for m in missing:
            r[m] = math.nan
        rows.append(r)
    return rows


SETTINGS = ["basic", "basic+linked", "all", ["ObjID", "RA_deg"], ["trailedSourceMag", "Obj_Sun_LTC_km", "optFilter", "ObjID", "phase_deg"], ["Dec_deg", "whole", "ObjID", "note", "fieldMJD_TAI"]]
DECIMALS = [(None, None), (0, None), (None, 0), (3, 2), (7, 3), (0, 0)]


def columns(setting, have):
    """Names in order, or a set when their order is not documented."""
    if isinstance(setting, list):
        return setting
    if setting == "all":
        return set(have) | {"Obj_Sun_LTC_km"}
    return [c for c in BASIC if c in have or c == "Obj_Sun_LTC_km"] + (["object_linked"] if setting == "basic+linked" else [])


def is_rounded(got, x, d):
    """got is x to d decimals, a tie going either way."""
    if math.isnan(x):
        return got is None or math.isnan(got)
    if abs(Decimal(got) - Decimal(x)) > Decimal(10) ** -d / 2 + Decimal(1e-12):
        return False
    s = Decimal(got) * 10 ** d
    return abs(s - s.to_integral_value()) < Decimal("1e-5") and float(repr(got)) == float("%.*f" % (d, got))


def read(path):
    """(names, rows of lists); numbers as floats, text as str, missing as None."""
    if path.endswith(".csv"):
        with open(path, newline="", encoding="utf-8") as f:
            t = list(csv.reader(f))
        return t[0], t[1:]
    if path.endswith(".db"):
        con = sqlite3.connect(path)
        tables = [r[0] for r in con.execute("select name from sqlite_master where type='table'")]
        cur = con.execute("select * from sorcha_results order by rowid")
        out = [d[0] for d in cur.description], [list(r) for r in cur.fetchall()]
        con.close()
        if tables != ["sorcha_results"]:
            raise AssertionError("tables %s" % tables)
        return out
    with pd.HDFStore(path, mode="r") as st:
        keys = [k for k in st.keys() if "/meta/" not in k]  # the categories of text columns are kept beside the table
        if keys != ["/sorcha_results"]:
            raise AssertionError("keys %s" % st.keys())
        df = st["sorcha_results"]
    return list(df.columns), [list(r) for r in df.itertuples(index=False)]


def same(got, want, col, pd_, md):
    if col in TEXT:
        return str(got) == want
    if isinstance(want, bool):
        return got in (want, str(want), int(want))
    try:
        g = math.nan if got in ("", None) else float(got)
    except ValueError:
        return False
    d = pd_ if col in POS else md if col in MAG else None
    if d is not None:
        return is_rounded(g, want, d)
    return (math.isnan(g) and math.isnan(want)) or g == want or (col == "Obj_Sun_LTC_km" and abs(g - want) <= 1e-9 * abs(want))


def compare(path, want, setting, pd_, md, rec, sig, obj):
    if not rec.check(os.path.exists(path), sig + ":missing", lambda: "%s: no output file" % (obj,), obj):
        return
    names, rows = read(path)
    have = set(want[0])
    exp = columns(setting, have)
    ok = set(names) == exp and len(names) == len(exp) if isinstance(exp, set) else names == exp
    if not rec.check(ok, sig + ":columns", lambda: "%s: columns %s, expected %s" % (obj, names, exp), obj):
        return
    if not rec.check(len(rows) == len(want) and all(len(r) == len(names) for r in rows), sig + ":rows", lambda: "%s: %d rows, expected %d: %s" % (obj, len(rows), len(want), rows), obj):
        return
    for i, (r, w) in enumerate(zip(rows, want)):
        for n, g in zip(names, r):
            if not rec.check(same(g, w[n], n, pd_, md), "%s:value:%s" % (sig, n), lambda: "%s: row %d %s is %r, expected %r" % (obj, i, n, g, w[n]), obj):
                return
    rec.outcome((len(rows), tuple(names), repr(rows)))


def config(setting, pd_, md, fmt):
    return types.SimpleNamespace(
        output=types.SimpleNamespace(output_columns="basic" if setting == "basic+linked" else setting, position_decimals=pd_, magnitude_decimals=md, output_format=fmt),
        linkingfilter=types.SimpleNamespace(ssp_linking_on=setting == "basic+linked", drop_unlinked=False))


EXT = {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}


def history(fmt, seq, s, d, rec):
    from sorcha.modules.PPOutput import PPWriteOutput, PPIndexSQLDatabase
    setting, (pd_, md) = SETTINGS[s], DECIMALS[d]
    path = os.path.join("out", "x" + EXT[fmt])
    if os.path.exists(path):
        os.remove(path)
    os.makedirs("out", exist_ok=True)
    obj = dict(kind="history", format=fmt, chunks=seq, setting=s, decimals=d)
    cfg, args = config(setting, pd_, md, fmt), types.SimpleNamespace(outpath="out", outfilestem="x")
    want = []
    rec.trace()
    for c, k in enumerate(seq):
        rows = chunk(k, c)
        df = pd.DataFrame(rows)[COLS]
        # labels as they are left by the filters of a run
        df.index = [i if c % 2 else 5 * i + 3 for i in range(len(rows))]
        before = df.copy()
        PPWriteOutput(args, cfg, df)
        rec.step()
        rec.state((fmt, tuple(seq[: c + 1]), s, d))
        rec.check(df[COLS].equals(before), "history:input", lambda: "%s: the table handed in was changed" % obj, obj)
        for r in rows:
            r["Obj_Sun_LTC_km"] = math.sqrt(r["Obj_Sun_x_LTC_km"] ** 2 + r["Obj_Sun_y_LTC_km"] ** 2 + r["Obj_Sun_z_LTC_km"] ** 2)
        want += rows
    if fmt == "sqlite3":
        PPIndexSQLDatabase(path)
        con = sqlite3.connect(path)
        idx = {tuple(r[2] for r in con.execute("pragma index_info(%s)" % n)) for (n,) in con.execute("select name from sqlite_master where type='index'")}
        con.close()
        cols = columns(setting, set(COLS))
        exp = {(c,) for c in ("ObjID", "fieldMJD_TAI", "optFilter") if c in cols}
        rec.check(idx == exp, "history:index", lambda: "%s: indices %s, expected %s" % (obj, idx, exp), obj)
    rec.check(os.listdir("out") == ["x" + EXT[fmt]], "history:files", lambda: "%s: files %s" % (obj, os.listdir("out")), obj)
    compare(path, want, setting, pd_, md, rec, "history:" + fmt, obj)
    os.remove(path)


def unknown(rec):
    """A column that is not there stops the run instead of being left out."""
    from sorcha.modules.PPOutput import PPWriteOutput
    os.makedirs("out", exist_ok=True)
    for fmt in EXT:
        for setting in (["ObjID", "nope"], ["nope", "ObjID"], ["ObjID", ""], ["nope", "nope2"]):
            rec.state((fmt, tuple(setting)))
            rec.step()
            rec.trace()
            try:
                PPWriteOutput(types.SimpleNamespace(outpath="out", outfilestem="u"), config(setting, None, None, fmt), pd.DataFrame(chunk(1, 0))[COLS])
                ok = False
            except SystemExit as e:
                ok = bool(e.code)
            rec.check(ok and os.listdir("out") == [], "unknown-column", lambda: "%s %s: accepted, files %s" % (fmt, setting, os.listdir("out")))


N = 7
RUN_COLS = {"rubin_sim": [["ObjID", "RA_deg", "trailedSourceMag"], ["H_filter", "optFilter", "inc", "fieldMJD_TAI"]], "DES": [["optFilter", "ObjID", "RA_deg"], ["trailedSourceMag", "inc", "Range_LTC_km"]]}


def build(d, survey, fmt, size, cols, cut, dec):
    des = survey == "DES"
    vs = [sim.visit(10 + i, 60000.1 + 0.01 * i, "rg"[i % 2], ra=10.0 + i, dec=-5.0) for i in range(5)]
    ids = ["7", "007", "obj with a long designation", "b", "c,d".replace(",", ";"), "1e5", "zz"]
    orb = [sim.kep_orbit(o, inc=5 if i % 3 else 5.5, a=2 if i < 3 else 2.25) for i, o in enumerate(ids)]
    par = [dict(ObjID=o, H_r=[18, 19.5, 20, 21, 20.5, 19, 18][i], GS=0.15, **{"g-r": [0, 1, 0.5][i % 3]}) for i, o in enumerate(ids)]
    # the fourth object has no visit at all, the fifth only faint detections
    es = [sim.eph(o, v, rng=[1.5, 1.0, 2.0, 1.0, 3.9, 1.7, 1.2][i], r=[2.2, 1.9, 2.9, 1.9, 4.8, 2.6, 2.1][i], ra=v["fieldRA"] + 0.1234567891 * i, des=des)
          for i, o in enumerate(ids) if i != 3 for j, v in enumerate(vs) if (i + j) % 2 == 0]
    cfg = sim.base_config(survey, filters="r,g", chunk=size, output=fmt, columns=cols)
    if cut:
        cfg = cfg.set("EXPERT", mag_limit=21.0) if not des else cfg.set("SATURATION", bright_limit=19.0).set("EXPERT", mag_limit=24.0)
    if dec:
        cfg = cfg.set("OUTPUT", position_decimals=5, magnitude_decimals=2)
    if des:
        cfg = cfg.set("FADINGFUNCTION", fading_function_on="False")
    return sim.Run(d, cfg, survey).inputs(vs, orb, par, es)


def runs(survey, fmt, size, cut, rec):
    ref = build("ref", survey, "csv", 100, "all", cut, False)
    ref.go()
    want = ref.rows()
    rec.check(bool(want), "run:reference", "the reference run has no detections")
    lists = RUN_COLS[survey]
    for cols in ["all", "basic"] + lists:
        for dec in (False, True):
            r = build("r", survey, fmt, size, cols if isinstance(cols, str) else ", ".join(cols), cut, dec)
            r.go()
            obj = dict(kind="run", survey=survey, format=fmt, chunk=size, columns=cols, cut=cut, rounded=dec)
            rec.trace()
            rec.step(math.ceil(N / size))
            rec.state(repr(obj))
            p = os.path.join("r", "o", "out" + EXT[fmt])
            rec.check(os.listdir(os.path.join("r", "o")) == ["out" + EXT[fmt]], "run:files", lambda: "%s: files %s" % (obj, os.listdir("r/o")), obj)
            compare(p, want, cols, 5 if dec else None, 2 if dec else None, rec, "run", obj)
    rec.sample(dict(survey=survey, format=fmt, chunk=size, rows=len(want), first=want[0]["ObjID"]))


def shards(tier):
    depth = {"csv": 4, "sqlite3": 3, "hdf5": 2} if tier == "quick" else {"csv": 5, "sqlite3": 4, "hdf5": 3}
    out = [["unknown"]]
    for survey in ("rubin_sim", "DES"):
        for fmt in EXT:
            for size in ((1, 2, 3, 100) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 100)):
                for cut in ((0, 1) if tier != "quick" or fmt != "hdf5" or size < 3 else (1,)):
                    out.append(["run", survey, fmt, size, cut])
    out += [["sizes", fmt, n] for fmt in EXT for n in sim.SIZES]
    out.sort(key=lambda s: s[0] != "run" or s[2] != "hdf5")
    for fmt in EXT:
        for k in range(len(KINDS)):
            for s in range(len(SETTINGS)):
                out.append(["h", fmt, k, s, depth[fmt]])
    return out


def run(shard, rec):
    os.environ.setdefault("TZ", "UTC")
    import warnings
    warnings.filterwarnings("ignore")
    if shard[0] == "unknown":
        sim.fresh("out")
        return unknown(rec)
    if shard[0] == "run":
        return runs(*shard[1:], rec)
    if shard[0] == "sizes":
        _, fmt, n = shard
        sim.fresh("out")
        for j, seq in enumerate(([n], [n, 1], [1, n], [n, n + 1])):
            history(fmt, seq, (n + j) % len(SETTINGS), (n // 2 + j) % len(DECIMALS), rec)
        if fmt != "hdf5" and n < 1500:
            history(fmt, [1] * n, 3, 0, rec)  # and as many short ones
        return
    fmt, k, s, depth = shard[1:]
    sim.fresh("out")
    for n in range(0, depth):
        for rest in itertools.product(range(len(KINDS)), repeat=n):
            if n >= 2 and fmt != "hdf5" and (sum(rest) + k) % len(SETTINGS) != s:
                continue
            # all settings and roundings for short histories, one per history (in turn) for longer ones
            ds = range(len(DECIMALS)) if n < (1 if fmt == "hdf5" else 2) else [(sum(rest) + k + s) % len(DECIMALS)]
            for d in ds:
                history(fmt, [k] + list(rest), s, d, rec)


def replay(obj, rec):
    if obj.get("kind") == "history":
        sim.fresh("out")
        return history(obj["format"], obj["chunks"], obj["setting"], obj["decimals"], rec)
    return runs(obj["survey"], obj["format"], obj["chunk"], obj["cut"], rec)
