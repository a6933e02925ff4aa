"""C29: The layout of the input files never changes results."""
import itertools
import os

from mc import arstub, sim
from mc.checks import c11
from mc.checks.c21 import number

PID = "C29"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of layouts of the input files (all row orders, all column swaps and rotations, formats, line and number spellings, visit and column orders of the survey database) on complete runs, against the run with the plain layout"
NOTE = (
    "The same tables (orbits in six formats, physical parameters, complex parameters, ephemerides, survey database) are written in every layout the documentation allows, and every layout is run completely; the rows reported, all their "
    "columns and the statistics must be those of the plain layout. Both surveys, external and generated ephemerides (stand-in dynamics), several chunk sizes and cuts in turn. Random effects are off (the order of rows decides which draw goes to which). "
    "Layouts the documentation rules out (ObjID not first, other capitals, blank lines among the rows) are not judged here."
)
BOUND = {
    "quick": "3 objects, 5 ephemeris rows, 5 visits: all 6^3 joint row orders of orbits, parameters and complex parameters; all 120 orders of the ephemeris rows and of the visits; all column swaps and rotations of every file and of the query; 3 x 2 x 2 x 4 x 4 spellings of every file; every length of the comment before the header up to the hundred lines allowed; all formats; 6 orbit formats; chunk sizes and 5 settings in turn",
    "thorough": "the same with every setting, survey and chunk size",
}

AUXS = ("csv", "whitespace")
EPHS = ("csv", "whitespace", "hdf5")
PRE = {"none": [], "comment": ["# made by hand", "#ObjID,a,b"], "blank": ["", "# ObjID a b", ""]}
GAPS = (" ", "   ", "\t", " \t ")
NUMS = {
    "plain": lambda x: repr(x),
    "exponent": lambda x: "%.16E" % x,
    "plus": lambda x: ("+" if x >= 0 else "") + repr(x),
    "zeros": lambda x: repr(x) + "000" if "e" not in repr(x) else repr(x),
}
SETTINGS = {
    "plain": {},
    "cuts": dict(EXPERT=dict(mag_limit=22.0), SATURATION=dict(bright_limit="19.0,19.3")),
    "effects": dict(EXPERT=dict(trailing_losses_on="True", vignetting_on="True"), FOV=dict(camera_model="circle", circle_radius=1.0)),
    "camera": dict(FOV=dict(camera_model="footprint")),
    "linking": dict(LINKINGFILTER=dict(sim.LINKING, SSP_number_tracklets=1, drop_unlinked="False")),
}
DES_SETTINGS = {
    "plain": {},
    "cuts": dict(EXPERT=dict(mag_limit=22.0), SATURATION=dict(bright_limit="19.0,19.3")),
    "effects": dict(FOV=dict(camera_model="circle", circle_radius=1.0)),
    "camera": dict(FOV=dict(camera_model="footprint")),
    "linking": dict(LINKINGFILTER=dict(distance_cut_lower="1.0", distance_cut_upper="2.25")),
}
FILES = ("orbits", "params", "complex", "eph")
CHUNKS = (1000, 1, 2)
T0 = 60000.9
ORB = {
    "KEP": ("a", "e", "inc", "node", "argPeri", "ma"),
    "COM": ("q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB"),
    "CART": ("x", "y", "z", "xdot", "ydot", "zdot"),
}
VALUES = {
    "KEP": ((2.5, 0.1, 5.0, 10.0, 20.0, 30.0), (3.1, 0.25, 15.5, 110.0, 220.0, 300.0), (1.7, 0.02, 0.5, 310.0, 20.0, 130.0)),
    "COM": ((2.25, 0.1, 5.0, 10.0, 20.0, 60100.0), (2.3, 0.25, 15.5, 110.0, 220.0, 59900.5), (1.6, 0.02, 0.5, 310.0, 20.0, 60003.25)),
    "CART": ((2.5, 0.1, 0.3, 0.001, 0.009, -0.0005), (-1.1, 2.25, 0.155, -0.008, 0.0011, 0.002), (0.17, -2.02, 0.5, 0.0101, 0.002, 0.0013)),
}
VIS_COLS = ["observationId", "observationStartMJD", "visitTime", "visitExposureTime", "filter", "seeingFwhmGeom", "seeingFwhmEff", "fiveSigmaDepth", "fieldRA", "fieldDec", "rotSkyPos", "observationMidpointMJD", "c", "k"]


def orders(n, kind):
    """Column orders: the first stays."""
    r = list(range(1, n))
    yield [0] + r
    if kind == "swap":
        for i, j in itertools.combinations(range(1, n), 2):
            c = list(range(n))
            c[i], c[j] = c[j], c[i]
            yield c
    for k in range(1, n - 1):
        yield [0] + r[k:] + r[:k]
    yield [0] + r[::-1]


def world(survey, ephem, form):
    """Tables: name -> (columns, rows)."""
    if ephem == "ar":
        V = [sim.visit(21 + 4 * j, T0 + j // 2 + 0.02 * (j % 2), "rgrgi"[j], ra=150.0 + 0.1 * j, dec=8.0 - 0.05 * j, depth=24.0 - 0.3 * j, rot=30.0 * j, seeing=0.7 + 0.1 * j) for j in range(5)]
        t0 = T0 + 2400000.5 - arstub.JD_REF
        orb = []
        for o, (x, y, d) in zip("abc", ((0.1, 0.0, 2.0), (-0.4, 0.5, 1.1), (0.3, -0.6, 4.0))):
            r, v = arstub.place(150.0 + x, 8.0 + y, d, t0, 0.1, -0.05)
            orb.append(arstub.bcart_orbit(o, r, v, T0))
        oc = list(arstub.BCART_COLS)
        E = None
    else:
        V = [sim.visit(21 + 4 * j, T0 + j // 2 + 0.02 * (j % 2), "rgrgi"[j], ra=[10.0, 200.0][j % 2], dec=[-5.0, 30.0][j % 2], depth=24.0 - 0.3 * j, rot=30.0 * j, seeing=0.7 + 0.1 * j) for j in range(5)]
        E = []
        for i, (o, j) in enumerate((("a", 0), ("c", 1), ("a", 1), ("b", 2), ("c", 0))):
            v = V[j]
            E.append(sim.eph(o, v, ra=v["fieldRA"] + 0.31 * i - 0.2, dec=v["fieldDec"] - 0.13 * i, rng=1.1 + 0.17 * i, r=2.0 + 0.1 * i, dra=0.1 * i, ddec=0.4 - 0.1 * i, des=survey == "DES"))
        b = form.lstrip("B") if form != "B" else form
        oc = ["ObjID", "FORMAT"] + list(ORB[b]) + ["epochMJD_TDB"]
        orb = [dict(zip(oc, (o, form) + VALUES[b][i] + (60000.0 + i,))) for i, o in enumerate("abc")]
    P = [dict(ObjID=o, H_r=h, GS=g, **{"g-r": c, "i-r": -c / 3}) for o, h, g, c in (("a", 17.5, 0.15, 0.5), ("b", 19.25, 0.3, 0.7), ("c", 18.0, 0.05, 0.4))]
    X = [dict(ObjID=o, amp=a, act=b, other=c) for o, a, b, c in (("a", 0.3, 0.2, 7.5), ("b", -0.1, 1.5, 8.0), ("c", 0.2, 0.0, 9.25))]
    T = {"orbits": (oc, orb), "params": (list(P[0]), P), "complex": (list(X[0]), X)}
    if E:
        T["eph"] = (list(sim.EPH_COLS), E)
    return V, T


def write(path, table, lay, sep):
    cols, rows = table
    cols = [cols[i] for i in lay.get("cols", range(len(cols)))]
    rows = [rows[i] for i in lay.get("rows", range(len(rows)))]
    num = NUMS[lay.get("num", "plain")]
    gap = "," if sep == "csv" else lay.get("gap", " ")
    pre = lay.get("pre", "none")
    lines = (["# made by hand, line %d" % k for k in range(pre)] if isinstance(pre, int) else list(PRE[pre])) + [gap.join(cols)] + [gap.join(num(r[c]) if isinstance(r[c], float) else str(r[c]) for c in cols) for r in rows]
    eol = lay.get("eol", "\n")
    with open(path, "w", newline="") as f:
        f.write(eol.join(lines) + (eol if lay.get("last", True) else ""))


def write_db(path, V, lay):
    import sqlite3

    cols = [VIS_COLS[i] for i in lay.get("cols", range(len(VIS_COLS)))]
    rows = [V[i] for i in lay.get("rows", range(len(V)))]
    if os.path.exists(path):
        os.remove(path)
    con = sqlite3.connect(path)
    con.execute("CREATE TABLE observations (%s)" % ",".join("%s %s" % (c, "TEXT" if c == "filter" else "INTEGER" if c == "observationId" else "REAL") for c in cols))
    con.executemany("INSERT INTO observations VALUES (%s)" % ",".join("?" * len(cols)), [[v[c] for c in cols] for v in rows])
    if lay.get("index"):
        con.execute("CREATE INDEX fix ON observations(%s)" % lay["index"])
    con.commit()
    con.close()


def query(survey, lay):
    qy = sim.LSST_QUERY if survey == "rubin_sim" else sim.DES_QUERY
    head, tail = qy.split(" FROM ")
    fields = [x.strip() for x in head[len("SELECT "):].split(",")]
    fields = [fields[i] for i in lay.get("fields", range(len(fields)))]
    order = lay.get("order", "observationId")
    return "SELECT " + ", ".join(fields) + " FROM observations" + (" order by " + order if order else "")


NFIELD = {"rubin_sim": 11, "DES": 12}


def simulate(survey, ephem, form, setting, chunk, aux, ef, lay):
    """Rows and statistics of a run whose files have the given layouts, in a canonical order."""
    c11.models()
    V, T = world(survey, ephem, form)
    cfg = sim.base_config(survey, filters="r,g", chunk=chunk, ephem=ephem, aux=aux, eph_format=ef).set("LIGHTCURVE", lc_model="mc_lc")
    cfg = cfg.set("INPUT", pointing_sql_query=query(survey, lay.get("db", {})))
    if survey == "DES":
        cfg = cfg.set("FADINGFUNCTION", fading_function_on="False")
    if ephem == "ar":
        cfg = cfg.set("EXPERT", brute_force="False")
    for s, kv in (SETTINGS if survey == "rubin_sim" else DES_SETTINGS)[setting].items():
        cfg = cfg.set(s, **kv)
    R = sim.Run(os.path.join(os.getcwd(), "run"), cfg, survey=survey, stats="stats")
    write_db(R.p("pointing.db"), V, lay.get("db", {}))
    for f in ("orbits", "params", "complex"):
        write(R.p(f + ".csv"), T[f], lay.get(f, {}), aux)
    R.complex = R.p("complex.csv")
    if "eph" in T:
        R.ephfile = R.p("eph.csv")
        le = lay.get("eph", {})
        if ef == "hdf5":
            rows = [T["eph"][1][i] for i in le.get("rows", range(len(T["eph"][1])))]
            sim.write_eph(R.ephfile, rows, ef, [sim.EPH_COLS[i] for i in le.get("cols", range(len(sim.EPH_COLS)))])
        else:
            write(R.ephfile, T["eph"], le, ef)
    R.go()
    return canon(R.rows()), canon(R.stats_rows())


def canon(rows):
    if rows is None:
        return None
    out = []
    for r in rows:
        d = {k: (str(v) if k in ("ObjID", "optFilter") else number(v)) for k, v in r.items()}
        out.append(tuple(sorted(d.items())))
    return sorted(out, key=str_key)


def str_key(t):
    d = dict(t)
    return (d.get("ObjID"), str(d.get("optFilter")), float(d.get("FieldID", 0) or 0))


def close(a, b):
    if a == b:
        return True
    if isinstance(a, float) and isinstance(b, float):
        return (a != a and b != b) or abs(a - b) <= 1e-11 * max(abs(a), abs(b))
    return str(a) == str(b)


def differ(a, b):
    if (a is None) != (b is None):
        return "%s rows against %s" % (a and len(a), b and len(b))
    if a is None:
        return None
    if len(a) != len(b):
        return "%d rows instead of %d" % (len(a), len(b))
    for x, y in zip(a, b):
        dx, dy = dict(x), dict(y)
        if set(dx) != set(dy):
            return "columns %s" % sorted(set(dx) ^ set(dy))
        for k in dx:
            if not close(dx[k], dy[k]):
                return "%s of %s visit %s: %r instead of %r" % (k, dx.get("ObjID"), dx.get("FieldID"), dx[k], dy[k])
    return None


BASE = {}


def judge(key, aux, ef, lay, rec, tag):
    survey, ephem, form, setting, chunk = key
    k = (survey, ephem, form, setting)
    if k not in BASE:
        BASE[k] = simulate(survey, ephem, form, setting, 1000, "csv", "csv", {})
        rec.check(bool(BASE[k][0]), "layout:empty", "the plain run reports nothing: %s" % (k,), None)
    obj = dict(survey=survey, ephem=ephem, form=form, setting=setting, chunk=chunk, aux=aux, eph=ef, layout=lay)
    got = simulate(survey, ephem, form, setting, chunk, aux, ef, lay)
    rec.step()
    rec.trace()
    rec.state((key, aux, ef, repr(lay)))
    for name, g, e in (("rows", got[0], BASE[k][0]), ("statistics", got[1], BASE[k][1])):
        d = differ(g, e)
        rec.outcome((tag, name, len(g or [])))
        rec.check(d is None, "layout:%s:%s" % (tag, name), lambda: "%s: %s" % (obj, d), obj)


def cases(kind):
    """(aux, eph format, layout, external ephemerides needed)"""
    i = 0
    if kind == "rows":
        for a, b, c in itertools.product(itertools.permutations(range(3)), repeat=3):
            yield AUXS[i % 2], EPHS[i % 3], dict(orbits=dict(rows=a), params=dict(rows=b), complex=dict(rows=c)), False
            i += 1
    elif kind == "ephrows":
        for a in itertools.permutations(range(5)):
            yield AUXS[i % 2], EPHS[i % 3], dict(eph=dict(rows=a)), True
            i += 1
    elif kind == "visits":
        for a in itertools.permutations(range(5)):
            yield "csv", "csv", dict(db=dict(rows=a, order=["observationId", None, "observationStartMJD desc", "fieldRA"][i % 4], index=[None, "filter", "fieldRA"][i % 3])), False
            i += 1
    elif kind == "columns":
        for f, n in (("orbits", 9), ("params", 5), ("complex", 4), ("eph", 23)):
            for c in orders(n, "swap"):
                yield AUXS[i % 2], EPHS[i % 3], {f: dict(cols=c)}, f == "eph"
                i += 1
        for c in orders(len(VIS_COLS), "swap"):
            yield "csv", "csv", dict(db=dict(cols=c)), False
        for c in orders(11, "swap"):
            yield "csv", "csv", dict(db=dict(fields=c)), False
    elif kind == "text":
        for f in FILES:
            for pre, eol, last, num in itertools.product(PRE, ("\n", "\r\n"), (True, False), NUMS):
                for gap in (GAPS if pre == "none" or num == "plain" else GAPS[:1]):
                    s = "whitespace" if gap != " " or (i % 2) else "csv"
                    lay = {f: dict(pre=pre, eol=eol, last=last, num=num, gap=gap)}
                    yield (s, EPHS[i % 3], lay, False) if f != "eph" else (AUXS[i % 2], s, lay, True)
                    i += 1
    elif kind == "preamble":  # the header may stand anywhere in the first hundred lines
        for n in range(100):
            for f in FILES:
                yield AUXS[i % 2], AUXS[i // 2 % 2] if f == "eph" else EPHS[i % 3], {f: dict(pre=n)}, f == "eph"
                i += 1
    elif kind == "formats":
        for aux, ef in itertools.product(AUXS, EPHS):
            yield aux, ef, {}, False


KINDS = ("rows", "ephrows", "visits", "columns", "text", "preamble", "formats")


def shards(tier):
    q = tier == "quick"
    for kind in KINDS:
        n = {"rows": 8, "ephrows": 5, "visits": 5, "columns": 16, "text": 16, "preamble": 8, "formats": 4}[kind]
        for part in range(n):
            yield dict(kind=kind, part=part, parts=n, full=not q)


def run(shard, rec):
    kind = shard["kind"]
    i = -1
    keys = []
    for survey in ("rubin_sim", "DES"):
        for ephem in ("external", "ar"):
            forms = ("KEP", "COM", "CART", "BKEP", "BCOM", "BCART") if ephem == "external" else ("BCART",)
            for form in forms if kind in ("formats", "columns", "rows") else forms[:1]:
                for setting in SETTINGS:
                    for chunk in CHUNKS:
                        keys.append((survey, ephem, form, setting, chunk))
    for aux, ef, lay, external in cases(kind):
        i += 1
        if i % shard["parts"] != shard["part"]:
            continue
        ks = [k for k in keys if (not external or k[1] == "external") and not ("fields" in lay.get("db", {}) and k[0] == "DES")]
        if not (shard["full"] or kind == "formats"):
            ks = [ks[(i * 7 + m * (len(ks) // 3 + 1)) % len(ks)] for m in range(1 if kind == "preamble" else 2)]
        for k in ks:
            if k[1] == "ar" and k[0] == "DES" and k[3] != "plain" and not shard["full"]:
                k = k[:3] + ("plain",) + k[4:]
            judge(k, aux, ef, lay, rec, kind)


def replay(v, rec):
    o = v["obj"]
    judge((o["survey"], o["ephem"], o["form"], o["setting"], o["chunk"]), o["aux"], o["eph"], o["layout"], rec, v["sig"].split(":")[1])


def warm():
    import sorcha.des  # noqa: F401
    import sorcha.sorcha  # noqa: F401

    c11.models()
