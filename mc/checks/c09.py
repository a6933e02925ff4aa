"""C09: Circular and per-visit footprints select exactly by position."""
import itertools
import math
import os
import types

import numpy as np
import pandas as pd

from mc import sim
from mc.checks import c08

PID = "C09"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of positions around the circle and around every per-visit detector, of draws for the fill factor, and of short tables, on the real filters against direct geometry"
NOTE = (
    "Positions on both sides of the circle at every bearing, for pointings including the poles and the RA wrap; every sequence of draws around "
    "the fill factor; for per-visit layouts (the DES camera placed at declinations up to 85 degrees and across RA 0, and layouts of very unequal "
    "detectors) points on both sides of every edge, one at a time and together, in several orders and with non-consecutive row labels; complete "
    "runs of both surveys, with and without the internal ephemeris settings. Exact ties with a limit are outside the enumeration."
)
BOUND = {
    "quick": "circle: 7 radii x 7 pointings x 12 bearings x 4 distances x 4 orders; fill: 5 factors x 4^1..4^4 draw sequences x 3 labellings, alone and after the circle; layouts: 6 fields x 2 layouts x all edges x 3 orders + every point on its own; all tables of up to 3 rows over 7 positions; 24 runs",
    "thorough": "circle: 36 bearings, 12 pointings; fill: draws up to 4^6; layouts: 12 fields x 3 layouts, tables up to 4 rows; 40 runs",
}
PT = [(10.0, -5.0), (0.3, 0.0), (359.8, 45.0), (180.0, 90.0), (0.0, -90.0), (123.4, -89.2), (250.0, 60.0), (90.0, 5.0), (270.0, -33.0), (1.0, 80.0), (300.0, 88.5), (179.9, -1.0)]
RADII = [0.0, 0.01, 1.0, 1.75, 2.06, 40.0, 95.0]


def warm():
    import sorcha.sorcha  # noqa: F401
    import sorcha.des  # noqa: F401


def conf(**kw):
    d = dict(camera_model="circle", circle_radius=None, fill_factor=None, footprint_edge_threshold=None, visits_query=None)
    d.update(kw)
    return types.SimpleNamespace(fov=types.SimpleNamespace(**d), simulation=types.SimpleNamespace(ar_ang_fov=1.3, ar_fov_buffer=0.2))


def offset(ra0, dec0, bearing, dist):
    """The position at a distance and bearing from a point (all degrees)."""
    a, d, b, s = (math.radians(x) for x in (ra0, dec0, bearing, dist))
    r = np.array([math.cos(d) * math.cos(a), math.cos(d) * math.sin(a), math.sin(d)])
    e = np.array([-math.sin(a), math.cos(a), 0.0])
    n = np.array([-math.sin(d) * math.cos(a), -math.sin(d) * math.sin(a), math.cos(d)])
    p = math.cos(s) * r + math.sin(s) * (math.cos(b) * n + math.sin(b) * e)
    return math.degrees(math.atan2(p[1], p[0])) % 360.0, math.degrees(math.atan2(p[2], math.hypot(p[0], p[1])))


def orders(n):
    yield "given", list(range(n)), False
    yield "reverse", list(range(n))[::-1], False
    yield "shuffled", [i for k in range(3) for i in range(k, n, 3)], False
    yield "labels", [i for k in range(2) for i in range(k, n, 2)], True


def apply(df, cf, u, visits=None):
    from sorcha.modules.PPApplyFOVFilter import PPApplyFOVFilter
    rng = sim.Draws(u)
    return PPApplyFOVFilter(df, cf, rng, visits=visits, footprint=None), rng


def same(out, df, want, rec, sig, obj, extra=()):
    """out has exactly the rows of df whose v is in want (in the order of df), values unchanged."""
    rec.step(len(df))
    rec.trace()
    got = list(out["v"])
    rec.outcome((sig, len(got)))
    exp = [v for v in df["v"] if v in want]
    if not rec.check(sorted(got) == sorted(exp), sig + ":rows", lambda: "%s: lost %s, wrongly kept %s, of %d" % (obj, sorted(set(exp) - set(got))[:5], sorted(set(got) - set(exp))[:5], len(df)), obj):
        return False
    rec.check([c for c in out.columns if c not in extra] == list(df.columns), sig + ":columns", lambda: "%s: columns %s" % (obj, list(out.columns)), obj)
    a = out.set_index("v")[[c for c in df.columns if c != "v"]]
    b = df.set_index("v").loc[got][[c for c in df.columns if c != "v"]]
    rec.check(a.equals(b), sig + ":values", lambda: "%s: values of kept detections changed" % (obj,), obj)
    return True


def circle(radius, tier, rec):
    pts = PT[:7] if tier == "quick" else PT
    nb = 12 if tier == "quick" else 36
    rows = []
    for (ra0, dec0) in pts:
        for k in range(nb):
            for dd in (-1e-6, 1e-6, -0.3 * radius, 5.0):
                s = radius + dd
                if s < 0 or (radius == 0 and dd < 0):
                    continue
                ra, dec = offset(ra0, dec0, 360.0 * k / nb + 1.0, s)
                rows.append((ra, dec, ra0, dec0, s < radius))
    keep = {i for i, r in enumerate(rows) if r[4]}
    base = pd.DataFrame(dict(ObjID=["o%d" % (i % 9) for i in range(len(rows))], RA_deg=[r[0] for r in rows], Dec_deg=[r[1] for r in rows], fieldRA_deg=[r[2] for r in rows],
                             fieldDec_deg=[r[3] for r in rows], RATrue_deg=0.0, DecTrue_deg=0.0, fieldRotSkyPos_deg=77.0, v=range(len(rows))))
    for name, p, lab in orders(len(rows)):
        df = base.iloc[p].reset_index(drop=True)
        if lab:
            df.index = df.index[::-1] * 2 + 7
        for i in p:
            rec.state((radius, name, i))
        obj = dict(kind="circle", radius=radius, tier=tier, order=name)
        out, rng = apply(df.copy(), conf(circle_radius=radius), [])
        if same(out, df, keep, rec, "circle", obj):
            rec.check(list(out["v"]) == [v for v in df["v"] if v in keep], "circle:order", "rows are in a different order", obj)
        rec.check(rng.asked == 0, "circle:draws", "the circle alone draws random numbers", obj)
    for i in range(0, len(rows), 7):  # each on its own
        df = base.iloc[[i]].reset_index(drop=True)
        out, _ = apply(df.copy(), conf(circle_radius=radius), [])
        rec.state((radius, "alone", i))
        same(out, df, keep, rec, "circle-alone", dict(kind="circle", radius=radius, tier=tier, order="alone"))


def fill(f, n, rec):
    """Every sequence of draws for tables of n rows; alone and after a circle that removes some rows."""
    vals = [0.0 if f > 0 else 1e-9, max(f - 1e-9, 1e-12) if f > 0 else 0.5, min(f + 1e-9, 1.0 - 1e-12) if f < 1 else 0.7, 0.999999]
    # rows of the circle case: r rows outside, at known places
    for u in itertools.product(vals, repeat=n):
        keep0 = {i for i in range(n) if u[i] < f}
        for lab in ("range", "gaps", "reversed"):
            df = pd.DataFrame(dict(ObjID=["o%d" % (i % 2) for i in range(n)], RA_deg=10.0, Dec_deg=5.0, fieldRA_deg=10.0, fieldDec_deg=5.0, v=range(n)))
            if lab == "gaps":
                df.index = [3 * i + 2 for i in range(n)]
            elif lab == "reversed":
                df.index = list(range(n))[::-1]
            obj = dict(kind="fill", f=f, n=n, u=u, labels=lab)
            rec.state((f, u, lab))
            out, rng = apply(df.copy(), conf(fill_factor=f), u)
            same(out, df, keep0, rec, "fill", obj)
            rec.check(rng.asked == n, "fill:draws", lambda: "%s: %d draws for %d detections" % (obj, rng.asked, n), obj)
        # n survivors among n+2 rows; the two outside the circle are put at every pair of places
        for out_at in itertools.combinations(range(n + 2), 2) if n <= 3 else [(0, 2), (1, n + 1)]:
            dec = [9.0 if i in out_at else 5.5 for i in range(n + 2)]
            df = pd.DataFrame(dict(ObjID="a", RA_deg=10.0, Dec_deg=dec, fieldRA_deg=10.0, fieldDec_deg=5.0, v=range(n + 2)))
            ins = [i for i in range(n + 2) if i not in out_at]
            keep = {ins[i] for i in keep0}
            obj = dict(kind="fill", f=f, n=n, u=u, out_at=out_at)
            rec.state((f, u, out_at))
            out, rng = apply(df.copy(), conf(fill_factor=f, circle_radius=1.0), u)
            same(out, df, keep, rec, "circle+fill", obj)


# --- layouts of one visit -------------------------------------------------------------------------------------------------------------
def des_layout(ra0, dec0):
    """The DES camera put on the sky with straight edges in RA and Dec (RA stretched), detector numbers 1.."""
    s = 1.0 / math.cos(math.radians(dec0))
    import csv
    from mc import core
    P = {}
    with open(os.path.join(core.REPO, "src/sorcha/modules/data/DES_ccd_corners.csv")) as f:
        for r in csv.DictReader(f):
            P.setdefault(r["detector"], []).append((float(r["x"]), float(r["y"])))
    return [(i + 1, 23.0 + 0.01 * i, [(ra0 + s * x, dec0 + y) for x, y in c08.ring(p)]) for i, p in enumerate(P.values())]


def odd_layout(ra0, dec0):
    """Detectors of very unequal size and shape."""
    def box(x1, y1, x2, y2, sk=0.0):
        return [(ra0 + x1, dec0 + y1), (ra0 + x2, dec0 + y1 + sk), (ra0 + x2, dec0 + y2 + sk), (ra0 + x1, dec0 + y2)]
    return [(3, 22.0, box(-1.0, -1.0, 1.0, -0.1)), (8, 22.5, box(-1.0, 0.0, -0.9, 0.1)), (9, 22.6, box(-0.8, 0.0, -0.7, 0.1, 0.02)), (1, 23.5, box(-0.5, -0.05, 0.9, 0.02)),
            (40, 21.5, box(1.02, -1.0, 1.1, 1.0)), (41, 21.7, box(-0.2, 0.1, 0.0, 0.9, -0.05)), (42, 21.9, box(0.01, 0.1, 0.03, 0.9, -0.001))]


def single_layout(ra0, dec0):
    return [(5, 24.0, [(ra0 - 0.5, dec0 - 0.4), (ra0 + 0.5, dec0 - 0.3), (ra0 + 0.4, dec0 + 0.4), (ra0 - 0.5, dec0 + 0.35)])]


LAYOUTS = {"des": des_layout, "odd": odd_layout, "single": single_layout}
FIELDS = [(100.0, -30.0), (0.3, -60.0), (359.4, -64.0), (2.1, -60.0), (250.0, -80.0), (357.0, 84.0), (180.0, 2.0), (10.0, -85.0), (0.0, 0.0), (1.4, -40.0), (306.5, -50.8), (359.99, 20.0)]


def around(lay):
    """Points on both sides of every edge, at the centres and in the corners -> (ra unwrapped, dec, detector or None, depth)."""
    polys = [c08.ring(p) for _, _, p in lay]
    pts = []
    for pg in polys:
        cx, cy = sum(p[0] for p in pg) / 4, sum(p[1] for p in pg) / 4
        pts.append((cx, cy))
        for i in range(4):
            (x1, y1), (x2, y2) = pg[i], pg[(i + 1) % 4]
            for f in (0.02, 0.25, 0.5, 0.75, 0.98):
                bx, by = x1 + f * (x2 - x1), y1 + f * (y2 - y1)
                for e in (1e-4, -1e-4):
                    pts.append((bx + e * (cx - bx), by + e * (cy - by)))
    pts += [(lay[0][2][0][0] + 20, lay[0][2][0][1]), (lay[0][2][0][0], lay[0][2][0][1] + 3)]
    x, y = np.array(pts).T
    who = np.full(len(x), -1)
    for i, pg in enumerate(polys):
        who[c08.inside(pg, x, y)] = i
    return x, y, who


def table(x, y, who, vis, ra0, dec0, lay):
    n = len(x)
    return pd.DataFrame(dict(ObjID=["o%d" % (i % 9) for i in range(n)], FieldID=vis, RA_deg=np.asarray(x) % 360.0, Dec_deg=y, fieldRA_deg=ra0, fieldDec_deg=dec0,
                             v=range(n), want=[lay[w][0] if w >= 0 else -1 for w in who], depth=[lay[w][1] if w >= 0 else 0.0 for w in who]))


def judge_visits(df, db, rec, sig, obj, with_ar=True):
    cf = conf(camera_model="visits_footprint", visits_query=sim.VISITS_QUERY)
    if not with_ar:
        cf.simulation = types.SimpleNamespace(ar_ang_fov=None, ar_fov_buffer=None)
    out, rng = apply(df.copy(), cf, [], visits=db)
    keep = {v for v, w in zip(df["v"], df["want"]) if w != -1}
    if same(out, df, keep, rec, sig, obj, ("detectorID", "limMag_perChip")):
        bad = [v for v, d, w, l, p in zip(out["v"], out["detectorID"], out["want"], out["limMag_perChip"], out["depth"]) if int(d) != w or l != p]
        rec.check(not bad, sig + ":detector", lambda: "%s: detection %d given another detector or depth: %s" % (obj, bad[0], out[out["v"] == bad[0]].to_dict("records")), obj)


def visits(layout, fields, rec, with_ar):
    lays = {f: LAYOUTS[layout](*f) for f in fields}
    db = sim.write_visits("visits.db", [(100 + 3 * i, d, m, p) for i, f in enumerate(fields) for d, m, p in lays[f]])
    tabs = []
    for i, f in enumerate(fields):
        x, y, who = around(lays[f])
        tabs.append(table(x, y, who, 100 + 3 * i, f[0], f[1], lays[f]))
        # a visit without detectors in the database
    none = tabs[0].iloc[:5].assign(FieldID=77, want=-1)
    alltab = pd.concat(tabs + [none], ignore_index=True)
    alltab["v"] = range(len(alltab))
    for name, p, lab in orders(len(alltab)):
        df = alltab.iloc[p].reset_index(drop=True)
        if lab:
            df.index = df.index[::-1] * 2 + 7
        for v in p:
            rec.state((layout, tuple(fields), name, v))
        judge_visits(df, db, rec, "visits:" + layout, dict(kind="visits", layout=layout, fields=fields, order=name, with_ar=with_ar), with_ar)


def alone(layout, f, rec, step):
    lay = LAYOUTS[layout](*f)
    db = sim.write_visits("visits.db", [(7, d, m, p) for d, m, p in lay])
    x, y, who = around(lay)
    for i in range(0, len(x), step):
        df = table(x[i:i + 1], y[i:i + 1], who[i:i + 1], 7, f[0], f[1], lay)
        rec.state((layout, f, i))
        judge_visits(df, db, rec, "alone:" + layout, dict(kind="alone", layout=layout, field=f, i=i), False)


def short(length, first, rec):
    """Every table over representative positions of two visits."""
    f1, f2 = (0.3, -60.0), (250.0, -80.0)
    l1, l2 = odd_layout(*f1), des_layout(*f2)
    db = sim.write_visits("visits.db", [(4, d, m, p) for d, m, p in l1] + [(9, d, m, p) for d, m, p in l2])
    c = lambda p, g=0.0: (sum(q[0] for q in p) / 4 + g, sum(q[1] for q in p) / 4)  # noqa: E731
    pos = [(4, f1, c(l1[0][2]), 3, 22.0), (4, f1, c(l1[1][2]), 8, 22.5), (4, f1, c(l1[5][2], 0.5), -1, 0.0), (9, f2, c(l2[0][2]), 1, 23.0), (9, f2, c(l2[30][2]), 31, 23.3),
           (9, f2, (f2[0] + 30, f2[1]), -1, 0.0), (5, f2, c(l2[30][2]), -1, 0.0)]
    for rest in itertools.product(range(7), repeat=length - 1):
        w = (first,) + rest
        df = pd.DataFrame(dict(ObjID=["x%d" % (i % 2) for i in range(length)], FieldID=[pos[i][0] for i in w], RA_deg=[pos[i][2][0] % 360 for i in w], Dec_deg=[pos[i][2][1] for i in w],
                               fieldRA_deg=[pos[i][1][0] for i in w], fieldDec_deg=[pos[i][1][1] for i in w], v=range(length), want=[pos[i][3] for i in w], depth=[pos[i][4] for i in w]))
        rec.state(w)
        judge_visits(df, db, rec, "short", dict(kind="short", length=length, first=first, rows=w), False)


# --- runs -----------------------------------------------------------------------------------------------------------------------------
def full(survey, kind, arg, chunk, rec):
    cfg = sim.base_config(survey, chunk=chunk)
    if survey == "DES":
        cfg = cfg.set("FADINGFUNCTION", fading_function_on="False")
    r = sim.Run(os.path.join(os.getcwd(), "run"), cfg, survey=survey)
    obj = dict(kind="full", survey=survey, what=kind, arg=arg, chunk=chunk)
    fields = FIELDS[:3]
    V = [sim.visit(5 + 3 * i, 60000.1 + i, "rg"[i % 2], ra=a, dec=d) for i, (a, d) in enumerate(fields)]
    rows, want = [], {}

    def add(j, ra, dec, w):
        o = "p%d" % (len(rows) // 3)
        rows.append(sim.eph(o, V[j], ra=float(ra) % 360.0, dec=float(dec), des=survey == "DES"))
        if w is not None:
            want[(o, V[j]["observationId"])] = w
    if kind == "circle":
        r.cfg = cfg.set("FOV", camera_model="circle", circle_radius=arg)
        for k in range(60):
            ra, dec = offset(*fields[k % 3], 6.0 * k, arg + (1e-6 if k % 2 else -1e-6) if arg else 0.0 if k % 4 else 1e-6)
            add(k % 3, ra, dec, True if (k % 2 == 0 and arg > 0) else None)
    elif kind == "fill":
        r.cfg = cfg.set("FOV", camera_model="circle", fill_factor=arg)
        for k in range(60):
            add(k % 3, *offset(*fields[k % 3], 6.0 * k, 1.0), True if arg == 1 else None)
    else:
        r.cfg = cfg.set("FOV", camera_model="visits_footprint", visits_query=sim.VISITS_QUERY)
        lays = [LAYOUTS[arg](*f) for f in fields]
        r.visits_db = sim.write_visits(r.p("visits.db"), [(V[i]["observationId"], d, m, p) for i in range(3) for d, m, p in lays[i]])
        sets = [around(q) for q in lays]
        for k in range(0, min(len(s[0]) for s in sets), 1 if arg == "odd" else 7):
            for j in range(3):
                x, y, who = sets[j]
                add(j, x[k], y[k], (lays[j][who[k]][0], lays[j][who[k]][1]) if who[k] >= 0 else None)
    objs = sorted({x["ObjID"] for x in rows})
    # one detection per object and visit
    uniq = {}
    for x in rows:
        rec.check((x["ObjID"], x["FieldID"]) not in uniq, "harness", "duplicate", obj)
        uniq[(x["ObjID"], x["FieldID"])] = x
    r.inputs(V, [sim.kep_orbit(o) for o in objs], [sim.phys(o, 12.0, "r", {"g-r": 0.5}) for o in objs], rows)
    r.go()
    got = {}
    for x in r.rows() or []:
        k = (x["ObjID"], int(x["FieldID"]))
        rec.check(k not in got, "run:twice", lambda: "%s: %s twice" % (obj, k), obj)
        got[k] = (int(float(x["detectorID"])), x["limMag_perChip"]) if kind == "visits" else True
    rec.state((survey, kind, arg, chunk))
    rec.step(len(rows))
    rec.trace()
    rec.outcome((survey, kind, arg, len(got)))
    rec.check(got == want, "run:" + kind, lambda: "%s: output has %s, by geometry %s" % (obj, sorted(set(got.items()) - set(want.items()))[:4], sorted(set(want.items()) - set(got.items()))[:4]), obj)


def shards(tier):
    out = [["circle", r, tier] for r in RADII]
    for f in (0.0, 0.25, 0.5, 0.9, 1.0):
        for n in range(1, 5 if tier == "quick" else 7):
            out.append(["fill", f, n])
    nf = 6 if tier == "quick" else 12
    for lay in ("des", "odd") if tier == "quick" else LAYOUTS:
        for i in range(0, nf, 2):
            out.append(["visits", lay, FIELDS[i:i + 2], i % 4 == 0])
        for i in range(nf):
            out.append(["alone", lay, FIELDS[i], 17 if lay == "des" and tier == "quick" else 3 if tier == "quick" else 1])
    out += [["visits", lay, FIELDS[:nf], True] for lay in LAYOUTS]
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        out += [["short", n, f] for f in range(7)]
    for survey in ("rubin_sim", "DES"):
        for chunk in (1000, 7):
            out += [["full", survey, "circle", a, chunk] for a in (1.75, 0.5, 0.0)] + [["full", survey, "fill", a, chunk] for a in (0.0, 1.0)]
    for chunk in (1000, 7) if tier == "quick" else (1000, 1, 2, 7):
        out += [["full", "DES", "visits", a, chunk] for a in ("des", "odd", "single")]
    return out


def run(s, rec):
    rec.sample(s)
    if s[0] == "circle":
        circle(s[1], s[2], rec)
    elif s[0] == "fill":
        fill(s[1], s[2], rec)
    elif s[0] == "visits":
        visits(s[1], [tuple(f) for f in s[2]], rec, s[3])
    elif s[0] == "alone":
        alone(s[1], tuple(s[2]), rec, s[3])
    elif s[0] == "short":
        short(s[1], s[2], rec)
    else:
        full(*s[1:], rec)
