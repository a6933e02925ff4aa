"""C03: readers return exactly the rows of the file, whatever the reading history."""
import itertools
import os

import pandas as pd

from mc import sim

PID = "C03"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of files x reading histories on the real readers against an in-memory table model"
NOTE = (
    "Every file of up to n rows (all identifier repetition patterns, comment and blank lines, all formats) is read by the real readers "
    "through every history of block reads, reads by name and changes to what was returned before, up to the stated depth; every block "
    "partition of every population is read through the combined reader. Trusted: pandas/PyTables for writing the HDF5 files."
)
BOUND = {
    "quick": "files of 0..3 rows (CSV/whitespace, cached or not, 9 layouts), all reads, all histories of 2 reads (for the larger files of some layouts: of 2 or 3 representative reads); HDF5 files of 1..3 rows in 1 or 2 appends; combined reader: 0..4 objects, all sequences of block sizes; files of 10 lengths up to 10007 rows, blocks of 100 rows and more",
    "thorough": "files of 0..4 rows, all histories of 2 reads and all of 3 over a reduced alphabet, HDF5 files of 1..4 rows in all appends; combined reader: 0..5 objects",
}
COLS = ["ObjID", "H_r", "n", "txt"]
POOL = ["007", "7", "o3", "7.0"]
# layout: lines before the header, positions (row index) before which a blank line stands; "end" blank lines at the end
LAYOUT = {
    "plain": ([], [], 0),
    "comment": (["# made by hand"], [], 0),
    "comments": (["# one", "#two,three,four,five,six", "not a header"], [], 0),
    "blank-first": ([""], [], 0),
    "comment-blank": (["# x", "", "# y", ""], [], 0),
    "blank-mid0": ([], [0], 0),
    "blank-mid1": (["# c"], [1], 0),
    "blank-mid2": ([""], [1, 2], 0),
    "blank-end": ([], [], 2),
}


def patterns(n):
    """All ways identifiers repeat over n rows."""
    def go(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for k in range(m + 1):
            yield from go(p + [k], max(m, k + 1))
    yield from go([], 0)


def table(p):
    return [dict(ObjID=POOL[k % len(POOL)] if k < 4 else "x%d" % k, H_r=[17.25, 20.125, -3.5, 0.0, 18.75][i], n=[5, 0, -2, 12345678901, 7][i],
                 txt=["KEP", "e", "1e5x", "b_c", "Zz"][i]) for i, k in enumerate(p)]


def write(path, rows, sep, layout, cols=COLS):
    pre, blanks, end = LAYOUT[layout]
    s = " " if sep == "whitespace" else ","
    with open(path, "w") as f:
        for ln in pre:
            f.write(ln + "\n")
        f.write(s.join(cols) + "\n")
        for i, r in enumerate(rows):
            if i in blanks:
                f.write("\n")
            f.write(s.join(sim.fmt(r[c]) for c in cols) + "\n")
        f.write("\n" * end)


def ops(rows):
    n = len(rows)
    out = [("rows", s, k) for s in range(n + 2) for k in [None] + list(range(1, n + 2))]
    ids = sorted({r["ObjID"] for r in rows}) + ["nobody"]
    out += [("objs",) + c for m in range(len(ids) + 1) for c in itertools.combinations(ids, m)]
    return out


def few(rows):
    n = len(rows)
    ids = [r["ObjID"] for r in rows]
    return [("rows", 0, 1), ("rows", 1, 1), ("rows", max(n - 1, 0), None), ("objs",) + tuple(sorted(set(ids[:1]))), ("objs",) + tuple(sorted(set(ids[1:]))), ("scribble",)]


def model(rows, op):
    if op[0] == "rows":
        return rows[op[1]:] if op[2] is None else rows[op[1]: op[1] + op[2]]
    ids = set(op[1:])
    return [r for r in rows if r["ObjID"] in ids]


def got(df, cols=COLS):
    return [dict(zip(df.columns, t)) for t in df.itertuples(index=False)]


def equal(want, have, cols=COLS):
    if len(want) != len(have):
        return False
    for a, b in zip(want, have):
        if set(b) != set(cols):
            return False
        for c in cols:
            x, y = a[c], b[c]
            if isinstance(x, str):
                if not isinstance(y, str) or x != y:
                    return False
            elif not abs(float(x) - float(y)) <= 4e-15 * abs(x):
                return False
    return True


class Probe:
    """Executes histories on one kind of reader over one file."""

    def __init__(self, rec, key, make, rows, refusable, obj, cols=COLS):
        self.rec, self.key, self.make, self.rows, self.refusable, self.obj, self.cols = rec, key, make, rows, refusable, obj, cols

    def history(self, hist):
        rec = self.rec
        reader = self.make()
        last = None
        rec.state((self.key, hist))
        rec.trace()
        for i, op in enumerate(hist):
            rec.step()
            if op[0] == "scribble":
                if last is not None and len(last):
                    try:
                        last["H_r"] = 99.0
                        last.loc[last.index[0], "ObjID"] = "broken"
                    except (ValueError, TypeError):  # a read-only result is fine
                        pass
                continue
            try:
                df = reader.read_rows(op[1], op[2]) if op[0] == "rows" else reader.read_objects(list(op[1:]))
            except SystemExit as e:
                rec.outcome("refused")
                rec.check(self.refusable, "refused:" + self.key[0], lambda: "history %s of %s refused: %s" % (hist[: i + 1], self.key, e), dict(self.obj, hist=hist))
                return
            except Exception as e:
                rec.violation("crash:" + self.key[0], "history %s of %s: %r" % (hist[: i + 1], self.key, e), dict(self.obj, hist=hist))
                return
            last = df
            want, have = model(self.rows, op), got(df)
            rec.outcome((self.key[0], len(want)))
            if not equal(want, have, self.cols):
                rec.violation("rows:" + self.key[0], "history %s of %s: got %s, expected %s" % (hist[: i + 1], self.key, have, want), dict(self.obj, hist=hist))
                return

    def all(self, depth3, full2=True, three=True):
        all_ops, some = ops(self.rows), few(self.rows)
        for a in all_ops:
            self.history((a,))
        for a in (all_ops if full2 else some):
            for b in (all_ops if full2 else some):
                self.history((a, b))
        for h in itertools.product(some if depth3 else some[1:], repeat=3) if three else ():
            if h[0] != ("scribble",) and h[-1] != ("scribble",):
                self.history(h)


def csv_case(sep, layout, cache, p, rec, depth3=False, full2=True, hist=None, three=True):
    from sorcha.readers.CSVReader import CSVDataReader
    rows = table(p)
    write("t.csv", rows, sep, layout)
    refusable = "mid" in layout or "end" in layout
    if refusable and not rows:
        return
    if any(b >= len(rows) for b in LAYOUT[layout][1]):
        return
    pr = Probe(rec, (layout, sep, cache, p), lambda: CSVDataReader("t.csv", sep=sep, cache_table=cache), rows, refusable,
               dict(kind="csv", sep=sep, layout=layout, cache=cache, p=p))
    pr.history(tuple(map(tuple, hist))) if hist else pr.all(depth3, full2, three)


def hdf_case(splits, cache, p, rec, depth3=False, full2=True, hist=None, three=True):
    from sorcha.readers.HDF5Reader import HDF5DataReader
    rows = table(p)
    if os.path.exists("t.h5"):
        os.remove("t.h5")
    i = 0
    for k in splits:
        pd.DataFrame(rows[i: i + k]).to_hdf("t.h5", key="data", format="table", append=True, min_itemsize={"ObjID": 8, "txt": 8})
        i += k
    pr = Probe(rec, ("hdf5", tuple(splits), cache, p), lambda: HDF5DataReader("t.h5", cache_table=cache), rows, False,
               dict(kind="hdf", splits=splits, cache=cache, p=p))
    pr.history(tuple(map(tuple, hist))) if hist else pr.all(depth3, full2, three)


def eph_rows(p):
    v = [sim.visit(100 + i, 60000.1 + i, "r") for i in range(5)]
    out = []
    for i, k in enumerate(p):
        e = sim.eph(POOL[k], v[i], ra=10.0 + 0.25 * i, dec=-5.0 + 0.5 * k)
        out.append(e)
    return out


def eph_case(fmt, cache, p, rec, hist=None):
    """The ephemeris reader: same histories, its own columns."""
    from sorcha.readers.EphemerisReader import EphemerisDataReader
    rows = eph_rows(p)
    path = "e.h5" if fmt == "hdf5" else "e.csv"
    sim.write_eph(path, rows, fmt)
    cols = [c for c in sim.EPH_COLS if c != "fieldJD_TDB"]
    rows = [{c: r[c] for c in cols} for r in rows]
    pr = Probe(rec, ("eph-" + fmt, cache, p), lambda: EphemerisDataReader(path, fmt, cache_table=cache), rows, False,
               dict(kind="eph", fmt=fmt, cache=cache, p=p), cols)
    if hist:
        return pr.history(tuple(map(tuple, hist)))
    for a in ops(rows):
        pr.history((a,))
    some = [x for x in few(rows) if x[0] != "scribble"]
    for a in some:
        for b in some:
            pr.history((a, b))


def combined(n, ephpat, order2, sizes, mode, cache, rec, obj):
    """n objects in file order; ephpat: for each ephemeris row the object; order2: row order of the second file."""
    from sorcha.readers.CSVReader import CSVDataReader
    from sorcha.readers.CombinedDataReader import CombinedDataReader
    from sorcha.readers.EphemerisReader import EphemerisDataReader
    names = ["007", "b", "7", "1e3", "z"][:n]
    sim.write_table("a.csv", [dict(ObjID=x, FORMAT="KEP", a=2.0 + i) for i, x in enumerate(names)], ["ObjID", "FORMAT", "a"])
    sim.write_table("b.csv", [dict(ObjID=names[i], H_r=15.0 + i, GS=0.25) for i in order2], ["ObjID", "H_r", "GS"])
    v = [sim.visit(100 + i, 60000.1 + i, "r") for i in range(len(ephpat))]
    eph = [sim.eph(names[k], v[i], ra=10.0 + 0.25 * i) for i, k in enumerate(ephpat)]
    sim.write_eph("e.csv", eph)
    rd = CombinedDataReader(ephem_primary=(mode == "primary"))
    rd.add_aux_data_reader(CSVDataReader("a.csv", sep="csv", cache_table=cache))
    rd.add_aux_data_reader(CSVDataReader("b.csv", sep="csv", cache_table=cache))
    if mode != "aux":
        rd.add_ephem_reader(EphemerisDataReader("e.csv", "csv", cache_table=cache))
    rd.check_aux_object_ids()
    rec.state((n, ephpat, order2, sizes, mode, cache))
    rec.trace()
    at = 0
    total = len(eph) if mode == "primary" else n
    for sz in sizes + (1, None):
        rec.step()
        df = rd.read_aux_block(sz) if mode == "aux" else rd.read_block(sz)
        end = total if sz is None else min(total, at + sz)
        if mode == "aux":
            want = [(x, "", 2.0 + i, 15.0 + i) for i, x in enumerate(names)][at:end]
            have = None if df is None else [(r.ObjID, "", r.a, r.H_r) for r in df.itertuples()]
        else:
            rows = eph[at:end] if mode == "primary" else [e for e in eph if e["ObjID"] in names[at:end]]
            want = [(e["ObjID"], e["FieldID"], 2.0 + names.index(e["ObjID"]), 15.0 + names.index(e["ObjID"])) for e in rows]
            have = None if df is None else [(r.ObjID, r.FieldID, r.a, r.H_r) for r in df.itertuples()]
        if at >= total:
            ok = have is None
        else:
            ok = have == want
        rec.outcome((mode, len(want), at >= total))
        if not ok:
            rec.violation("combined:" + mode, "block %s from %s of %s objects %s ephemeris %s: got %s, expected %s"
                          % (sz, at, n, names, ephpat, have, None if at >= total else want), obj)
            return
        at = end


def sizes(fmt, cache, n, rec):
    """Long files: block by block, and by name."""
    from sorcha.readers.CSVReader import CSVDataReader
    from sorcha.readers.EphemerisReader import EphemerisDataReader
    from sorcha.readers.HDF5Reader import HDF5DataReader
    ids = ["%05d" % (i // 3) if i % 4 else "o%d" % (i * 7 % 1000) for i in range(n)]
    cols = COLS
    if fmt.startswith("eph"):
        vs = [sim.visit(100 + i, 60000.1 + i, "r") for i in range(50)]
        rows = [sim.eph(o, vs[i % 50], ra=10.0 + 0.25 * (i % 800), dec=-5.0) for i, o in enumerate(ids)]
        f = fmt.split("-")[1]
        if os.path.exists("e.x"):
            os.remove("e.x")
        sim.write_eph("e.x", rows, f)
        cols = [c for c in sim.EPH_COLS if c != "fieldJD_TDB"]
        rows = [{c: r[c] for c in cols} for r in rows]

        def make():
            return EphemerisDataReader("e.x", f, cache_table=cache)
    else:
        rows = [dict(ObjID=o, H_r=17.25 + i / 64, n=i * 3 - 5, txt=["KEP", "e", "b_c"][i % 3]) for i, o in enumerate(ids)]
        if fmt == "hdf5":
            pd.DataFrame(rows).to_hdf("t.h5", key="data", format="table", mode="w")
        else:
            write("t.csv", rows, fmt, "comment")

        def make():
            return HDF5DataReader("t.h5", cache_table=cache) if fmt == "hdf5" else CSVDataReader("t.csv", sep=fmt, cache_table=cache)
    pr = Probe(rec, ("sizes-" + fmt, cache, n), make, rows, False, dict(kind="sizes", fmt=fmt, cache=cache, n=n), cols)
    few_ids = tuple(sorted(set(ids)))
    for h in ([("rows", s, k) for s in range(0, n + k, k)] for k in {100, 256, 1000, 1024, n // 2 + 1, n - 1, n, n + 1} if n // k < 20):
        pr.history(tuple(h))
    pr.history((("rows", 0, None), ("rows", n // 2, None), ("rows", n - 1, None), ("rows", n, None)))
    pr.history((("objs", ids[0]), ("objs", ids[-1], "nobody"), ("objs",) + few_ids[1::2], ("objs",) + few_ids[::-1], ("objs",) + few_ids[-40:]))


def compositions(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r


def comb_run(n, mode, cache, rec, deep):
    perms = list(itertools.permutations(range(n)))
    perms = perms if n <= 3 else [perms[0], perms[-1], perms[len(perms) // 2 + 1]]
    pats = [()] + [tuple(range(n)), tuple(reversed(range(n))), tuple(list(range(n)) * 2), tuple(k for k in range(n) for _ in range(2)), tuple(range(0, n, 2)),
            tuple(range(1, n))]
    for pat in sorted(set(pats)):
        total = len(pat) if mode == "primary" else n
        if mode == "aux" and pat:
            continue
        szs = set()
        for c in compositions(min(total, 4 if not deep else 5)):
            szs.add(c)
        szs |= {(total + 1,), (None,), (1, None), (2,) * ((total + 1) // 2 + 1)}
        for sizes in sorted(szs, key=str):
            for o in perms:
                obj = dict(kind="comb", n=n, pat=pat, o=o, sizes=sizes, mode=mode, cache=cache)
                try:
                    combined(n, pat, o, tuple(sizes), mode, cache, rec, obj)
                except (Exception, SystemExit) as e:
                    rec.violation("combined-crash:" + mode, "%s: %r" % (obj, e), obj)


def shards(tier):
    deep = tier == "thorough"
    out = [["sizes", f, c, n] for n in sim.SIZES[::-1] for f in ("csv", "whitespace", "hdf5", "eph-csv", "eph-hdf5") for c in (False, True)]
    top = 4 if deep else 3
    for sep in ("csv", "whitespace"):
        for lay in LAYOUT:
            for cache in (False, True):
                for n in range(top + 1):
                    if n == 4:
                        out += [["csv", sep, lay, cache, list(p), deep] for p in patterns(n)]
                    else:
                        out.append(["csvn", sep, lay, cache, n, deep])
    for cache in (False, True):
        for n in range(1, top + 1):
            for p in patterns(n):
                out.append(["hdf", cache, list(p), deep])
        for fmt in ("csv", "whitespace", "hdf5"):
            for n in range(1, 4):
                out.append(["eph", fmt, cache, n])
        for mode in ("ephem", "aux", "primary"):
            for n in range(0, 6 if deep else 5):
                out.append(["comb", mode, cache, n, deep])
    return out


def run(shard, rec):
    k = shard[0]
    rec.sample(shard)
    if k == "sizes":
        sizes(*shard[1:], rec)
    elif k == "csv":
        csv_case(shard[1], shard[2], shard[3], tuple(shard[4]), rec, False, shard[2] in ("plain", "blank-mid1"))
    elif k == "csvn":
        _, sep, lay, cache, n, deep = shard
        for p in patterns(n):
            rep = p in ((0, 1, 2), (0, 1, 0))  # representatives of the three-row files
            csv_case(sep, lay, cache, p, rec, deep, deep or n < 2 or (lay in ("plain", "comment-blank", "blank-mid1") and sep == "csv" and (n == 2 or p == (0, 1, 0) and not cache)),
                     three=deep or rep)
    elif k == "hdf":
        _, cache, p, deep = shard
        n = len(p)
        for c in compositions(n):
            if deep or len(c) <= 2:
                hdf_case(list(c), cache, tuple(p), rec, False, deep and n < 4, three=deep or (tuple(p) == (0, 1, 0) and c == (2, 1)))
    elif k == "eph":
        for p in patterns(shard[3]):
            eph_case(shard[1], shard[2], p, rec)
    else:
        comb_run(shard[3], shard[1], shard[2], rec, shard[4])


def replay(o, rec):
    k = o["kind"]
    if k == "sizes":
        sizes(o["fmt"], o["cache"], o["n"], rec)
    elif k == "csv":
        csv_case(o["sep"], o["layout"], o["cache"], tuple(o["p"]), rec, hist=o["hist"])
    elif k == "hdf":
        hdf_case(o["splits"], o["cache"], tuple(o["p"]), rec, hist=o["hist"])
    elif k == "eph":
        eph_case(o["fmt"], o["cache"], tuple(o["p"]), rec, hist=o["hist"])
    else:
        combined(o["n"], tuple(o["pat"]), tuple(o["o"]), tuple(o["sizes"]), o["mode"], o["cache"], rec, o)
