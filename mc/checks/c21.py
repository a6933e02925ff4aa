"""C21: A saved ephemeris can be read back with the same results."""
import csv
import itertools
import math
import os

from mc import arstub, sim

PID = "C21"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of histories write-ephemeris -> read-ephemeris of complete runs: every pair of chunk sizes, every file format, identifier families, populations with objects that have no rows, and survey settings, comparing saved file, first and second output"
NOTE = (
    "The first run generates the ephemeris (the real generator over stand-in dynamics) and saves it; the rows it generated are recorded as they leave the generator and have to be in the file, each once, in order and unchanged (an independent reader). The second "
    "run gets the file as its external ephemeris, with every other chunk size, with the objects listed in another order, or with only some of the objects, and its output and statistics have to be those of the first run. Randomised measurements are only compared for equal chunk sizes."
)
BOUND = {
    "quick": "6 objects (2 never in a field, 1 too faint to be observed) x 8 visits (two at one time) x 10 identifier families x 3 formats x all pairs of 4 chunk sizes x culling on/off; 8 populations with all patterns of first and last chunks without rows; 12 survey settings",
    "thorough": "the same with all pairs of 6 chunk sizes and identifier families under all settings",
}

IDS = {
    "plain": ["ob1", "ob2", "ob3", "ob4", "ob5", "ob6"],
    "numbers": ["3", "20", "100", "4", "5", "6"],
    "zeros": ["007", "7", "07", "0", "00", "70"],
    "floats": ["1.0", "1.00", "1", "1e5", "100000", "1E5"],
    "growing": ["a", "bb", "c" * 17, "d" * 40, "e" * 90, "f" * 200],
    "shrinking": ["f" * 200, "e" * 90, "d" * 40, "c" * 17, "bb", "a"],
    "accents": ["é", "naïve", "Ωmega", "日本", "ß", "ñandú"],
    "spaces": ["2010 AB1", "2010 AB", "2010 AB10", "A 1", "1 A", "A  1"],
    "marks": ["a,b", 'a"b', "a'b", "#1", "a;b", "-5"],
    "words": ["True", "False", "inf", "None1", "nan1", "1_000"],
}
CHUNKS = (1, 2, 3, 6, 4, 1000)
FORMATS = ("csv", "whitespace", "hdf5")
T0 = 60000.9
# offset on the sky at T0 [deg], distance, rates [deg/day], H; the fourth and fifth are never in a field, the sixth is too faint
POP = ((0.0, 0.0, 2.0, 0.1, 0.05, 17.0), (0.3, -0.2, 1.1, -0.4, 0.2, 18.0), (-0.4, 0.1, 5.0, 0.03, -0.02, 14.0), (40.0, 0.0, 2.0, 0.1, 0.0, 17.0), (0.0, 50.0, 3.0, 0.0, 0.1, 16.0), (0.1, 0.1, 2.2, 0.1, 0.0, 45.0))

SETTINGS = {
    "plain": {},
    "circle": dict(FOV=dict(camera_model="circle", circle_radius=0.6)),
    "bright": dict(SATURATION=dict(bright_limit=21.0)),
    "maglimit": dict(EXPERT=dict(mag_limit=21.0)),
    "snrlimit": dict(EXPERT=dict(snr_limit=10.0)),
    "losses": dict(EXPERT=dict(trailing_losses_on="True", vignetting_on="True")),
    "linking": dict(LINKINGFILTER=sim.LINKING),
    "unlinked": dict(LINKINGFILTER=dict(sim.LINKING, SSP_number_tracklets=4, drop_unlinked="False")),
    "random": dict(EXPERT=dict(randomization_on="True")),
    "fading": dict(FADINGFUNCTION=dict(fading_function_on="True", fading_function_width=0.1, fading_function_peak_efficiency=0.7)),
    "footprint": dict(FOV=dict(camera_model="footprint", footprint_edge_threshold=2.0)),
    "basic": dict(OUTPUT=dict(output_columns="basic", magnitude_decimals=3, position_decimals=7)),
}
DRAWS = ("random", "fading")


def q(text):
    return '"%s"' % text.replace('"', '""') if any(c in text for c in ' ,"') else text


def same(a, b):
    if isinstance(b, int):
        b = float(b)
    if isinstance(a, int):
        a = float(a)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-13 * max(abs(a), abs(b))
    return str(a) == str(b)


def number(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return x


def read(path):
    if not os.path.exists(path):
        return []
    with open(path, newline="") as f:
        return [{k: (v if k in ("ObjID", "optFilter") else number(v)) for k, v in r.items() if k != "fieldJD_TDB"} for r in csv.DictReader(f)]


def saved(path, form):
    """The rows of a saved ephemeris, read independently of the code."""
    if form == "hdf5":
        import tables

        with tables.open_file(path) as f:
            t = f.get_node("/sorcha_ephemeris/table")
            out = []
            for r in t:
                out.append({n: (r[n].decode("utf-8") if isinstance(r[n], bytes) else float(r[n])) for n in t.colnames if n != "index"})
            return out
    with open(path, newline="") as f:
        return [{k: (v if k == "ObjID" else number(v)) for k, v in r.items()} for r in csv.DictReader(f, delimiter="," if form == "csv" else " ")]


class Recorder:
    """Keeps what the ephemeris generator returned, chunk by chunk."""

    def __init__(self):
        self.rows = []

    def __enter__(self):
        import sorcha.sorcha as s

        self.mod, self.old = s, s.create_ephemeris

        def wrapped(*a, **k):
            got = self.old(*a, **k)
            self.rows.extend(got.to_dict("records"))
            return got

        s.create_ephemeris = wrapped
        return self

    def __exit__(self, *e):
        self.mod.create_ephemeris = self.old


def universe(pop, visits=7):
    t0 = T0 + 2400000.5 - arstub.JD_REF
    base = (150.0, 8.0)
    objs = [(*arstub.place(base[0] + x, base[1] + y, d, t0, rx, ry), h) for x, y, d, rx, ry, h in pop]
    # three nights; the second field of each is far from the objects on some of them
    vis = [sim.visit(201 + i, T0 + (i // 2) + 0.02 * (i % 2), "rg"[i % 2], base[0] - 0.9 * (i // 2) + 0.05 * i, base[1] + 0.3 * (i // 2), rot=17.0 * i) for i in range(visits)]
    # and one at the very time of the first, as of two telescopes
    vis.append(sim.visit(201 + visits, T0, "g", base[0] + 0.2, base[1] - 0.1))
    return objs, vis


def first(d, ids, pop, form, chunk, settings, cull, rec, tag, obj):
    objs, vis = universe(pop)
    cfg = sim.base_config(ephem="ar", filters="r,g", chunk=chunk, eph_format=form).set("EXPERT", brute_force=str(not cull))
    for s, kv in settings.items():
        cfg = cfg.set(s, **kv)
    R = sim.Run(d, cfg, eph_out="eph", stats="stats")
    R.inputs(vis, [arstub.bcart_orbit(q(n), r, v, T0) for n, (r, v, h) in zip(ids, objs)], [sim.phys(q(n), h, "r", {"g-r": 0.5}) for n, (r, v, h) in zip(ids, objs)], None, orbit_cols=arstub.BCART_COLS)
    with Recorder() as got:
        R.go()
    rec.trace()
    path = R.p("o/eph" + (".h5" if form == "hdf5" else ".csv"))
    rec.step(len(got.rows))
    there = os.path.exists(path)
    rec.check(there or not got.rows, tag + ":no-file", lambda: "%d generated rows and no file %s" % (len(got.rows), os.listdir(R.p("o"))), obj)
    if there and (got.rows or form != "hdf5"):
        kept = saved(path, form)
        key = [(r["ObjID"], int(r["FieldID"])) for r in kept]
        want = [(r["ObjID"], int(r["FieldID"])) for r in got.rows]
        rec.check(key == want, tag + ":rows", lambda: "%s, chunks of %d: the file has %d rows %s, generated were %d %s" % (form, chunk, len(key), key[:4], len(want), want[:4]), obj)
        cols = [c for c in kept[0]] if kept else []
        for a, b in zip(kept, got.rows):
            bad = [c for c in cols if not same(a[c], b[c] if not hasattr(b[c], "item") else b[c].item())]
            rec.check(not bad, tag + ":values", lambda: "%s: %s is saved as %r, generated was %r" % (form, bad[0], a[bad[0]], b[bad[0]]), obj)
        rec.check(len(cols) == 23 or not kept, tag + ":columns", lambda: "columns of the file: %s" % cols, obj)
    return R, path, len(got.rows)


def second(d, R, path, ids, pop, order, form, chunk, settings, rec):
    objs, vis = universe(pop)
    cfg = sim.base_config(filters="r,g", chunk=chunk, eph_format=form)
    for s, kv in settings.items():
        cfg = cfg.set(s, **kv)
    S = sim.Run(d, cfg, stats="stats")
    S.inputs(vis, [arstub.bcart_orbit(q(ids[i]), *objs[i][:2], T0) for i in order], [sim.phys(q(ids[i]), objs[i][2], "r", {"g-r": 0.5}) for i in order], None, orbit_cols=arstub.BCART_COLS)
    S.ephfile = path
    S.go()
    rec.trace()
    rec.step()
    return S


def compare(R, S, keep, ordered, rec, tag, text, obj):
    """Output and statistics of the second run against those of the first, for the objects it was given."""
    for what, a, b in (("output", read(R.p("o/out.csv")), read(S.p("o/out.csv"))), ("statistics", read(R.p("o/stats.csv")), read(S.p("o/stats.csv")))):
        a = [r for r in a if keep is None or r["ObjID"] in keep]
        def key(r):
            return (str(r["ObjID"]), str(r.get("FieldID", r.get("fieldMJD_TAI", ""))), str(r.get("optFilter", "")), str(r.get("fieldMJD_TAI", "")))
        if not ordered:
            a, b = sorted(a, key=key), sorted(b, key=key)
        bad = None
        if [key(r) for r in a] != [key(r) for r in b]:
            bad = "%d rows %s, first run %d %s" % (len(b), [key(r)[:2] for r in b][:4], len(a), [key(r)[:2] for r in a][:4])
        else:
            for x, y in zip(a, b):
                if set(x) != set(y):
                    bad = "columns differ: %s" % sorted(set(x) ^ set(y))
                else:
                    w = [c for c in x if not same(x[c], y[c])]
                    if w:
                        bad = "%s of %s is %r, first run %r" % (w[0], key(x)[:2], y[w[0]], x[w[0]])
                if bad:
                    break
        rec.check(not bad, tag + ":" + what, lambda: "%s: %s of the run on the saved ephemeris: %s" % (text, what, bad), obj)
        rec.outcome((what, len(a)))


def shards(tier):
    th = tier == "thorough"
    out = []
    for name in IDS:
        for f in FORMATS:
            for cull in (0, 1):
                out.append(["ids", name, f, cull])
    for s in SETTINGS:
        for f in FORMATS:
            out.append(["set", s, f, "plain"])
            if th:
                out += [["set", s, f, n] for n in IDS if n != "plain"]
    out += [["gaps", k, f] for k in range(8) for f in FORMATS]
    return [x + [tier] for x in out]


def warm():
    import sorcha.sorcha  # noqa: F401


def pairs(ids, pop, form, settings, cull, chunks, draws, rec, tag, obj):
    d = os.getcwd()
    for a in chunks:
        R, path, n = first(os.path.join(d, "run1"), ids, pop, form, a, settings, cull, rec, tag, obj)
        for b in chunks:
            if draws and a != b:
                continue
            rec.state((tag, tuple(ids), form, str(settings), cull, a, b, len(pop)))
            text = "%s, identifiers %s, written in chunks of %d, read in chunks of %d" % (form, ids[:3], a, b)
            if not n and form == "hdf5":
                try:
                    second(os.path.join(d, "run2"), R, path, ids, pop, range(len(pop)), form, b, settings, rec)
                except ValueError as e:
                    rec.violation("empty-hdf5", "an HDF5 ephemeris saved by a run without a single row cannot be read: %s" % e, obj)
                continue
            S = second(os.path.join(d, "run2"), R, path, ids, pop, range(len(pop)), form, b, settings, rec)
            compare(R, S, None, a == b, rec, tag, text, obj)
        if n and not draws:
            for order in (list(range(len(pop)))[::-1], list(range(1, len(pop))), list(range(0, len(pop), 2))):
                rec.state((tag, tuple(ids), form, str(settings), cull, a, "order", tuple(order)))
                S = second(os.path.join(d, "run2"), R, path, ids, pop, order, form, 2, settings, rec)
                compare(R, S, set(ids[i] for i in order), False, rec, tag, "%s, identifiers %s, written in chunks of %d, objects %s read" % (form, ids[:3], a, order), obj)


def run(shard, rec):
    kind, tier = shard[0], shard[-1]
    obj = dict(shard=shard)
    chunks = CHUNKS if tier == "thorough" else CHUNKS[:4]
    if kind == "ids":
        _, name, form, cull, _ = shard
        pairs(IDS[name], POP, form, {}, bool(cull), chunks, False, rec, "ids", obj)
    elif kind == "set":
        _, s, form, name, _ = shard
        pairs(IDS[name], POP, form, SETTINGS[s], False, chunks if tier == "thorough" else (1, 2, 6), s in DRAWS, rec, "set", obj)
    else:
        # which of three objects have rows: none, any, all
        _, k, form, _ = shard
        pop = [POP[i] if k >> i & 1 else POP[3] for i in range(3)]
        pairs(["x", "y2", "z33"], pop, form, {}, False, (1, 2, 3), False, rec, "gaps", obj)
