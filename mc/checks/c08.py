"""C08: A detection is kept exactly when it lands on a detector."""
import csv
import functools
import itertools
import math
import os
import types

import numpy as np
import pandas as pd

from mc import core, sim

PID = "C08"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of positions around every detector edge x pointings x rotations x thresholds on the real field-of-view filter, against an independent projection and polygon test"
NOTE = (
    "For the LSST and DES cameras shipped with the code, points just inside and just outside every edge of every detector (and just inside and "
    "outside the excluded border) are put on the sky by an independent inverse projection for every pointing and rotation of a set that includes "
    "the poles and the RA wrap; small cameras read from a file are enumerated over all corner orders; every short table over representative "
    "positions is filtered to show that rows are judged on their own; and complete survey runs tie the filter to the output file. "
    "Positions closer than 0.1 arcsec to a limit are outside the enumeration."
)
BOUND = {
    "quick": "189+61 detectors x 4 edges x 3 places x (inside, outside, threshold inside, threshold outside, 0.1 arcsec away) + corners + centres, for 6 pointings x 4 rotations x 4 thresholds (LSST), 3x2x2 (DES); all tables of up to 3 rows over 7 positions; 24 corner orders x 4 cameras x 4 thresholds x 21x21 points; 24 runs",
    "thorough": "14 pointings x 9 rotations x 6 thresholds (LSST), 6x4x4 (DES); all tables of up to 4 rows; 24x24 corner orders of two detectors",
}
ARC = math.pi / 180 / 3600
EPS = 0.1 * ARC
DATA = os.path.join(core.REPO, "src/sorcha/modules/data")
FILES = {"lsst": ("LSST_detector_corners_100123.csv", 1.0), "des": ("DES_ccd_corners.csv", math.pi / 180)}


def warm():
    import sorcha.sorcha  # noqa: F401
    camera("lsst"), camera("des")


def project(ra, dec):
    """Camera angles [rad] of a corner to the focal plane."""
    return math.tan(ra), math.tan(dec) / math.cos(ra)


def ring(pts):
    """Corners put in order around the middle of the detector."""
    cx, cy = sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts)
    return sorted(pts, key=lambda p: math.atan2(p[1] - cy, p[0] - cx))


def load(path, unit):
    out = {}
    with open(path) as f:
        for r in csv.DictReader(f):
            out.setdefault(r["detector"], []).append(project(float(r["x"]) * unit, float(r["y"]) * unit))
    return [(k, ring(v)) for k, v in out.items()]


@functools.lru_cache(None)
def camera(which):
    f, unit = FILES[which]
    return load(os.path.join(DATA, f), unit)


def inside(poly, x, y):
    """Even-odd crossing test."""
    c = np.zeros(len(x), bool)
    n = len(poly)
    for i in range(n):
        (x1, y1), (x2, y2) = poly[i], poly[(i + 1) % n]
        if y1 == y2:
            continue
        hit = ((y1 > y) != (y2 > y)) & (x < (x2 - x1) * (y - y1) / (y2 - y1) + x1)
        c ^= hit
    return c


def edge_distance(poly, x, y):
    d = np.full(len(x), np.inf)
    n = len(poly)
    for i in range(n):
        (x1, y1), (x2, y2) = poly[i], poly[(i + 1) % n]
        ux, uy = x2 - x1, y2 - y1
        L = math.hypot(ux, uy)
        ux, uy = ux / L, uy / L
        t = np.clip((x - x1) * ux + (y - y1) * uy, 0, L)
        d = np.minimum(d, np.hypot(x - x1 - t * ux, y - y1 - t * uy))
    return d


def oracle(cam, x, y, thr):
    """-> index of the detector each point is on (-1 none), and whether the point is too close to a limit to tell."""
    det = np.full(len(x), -1)
    vague = np.zeros(len(x), bool)
    t = 0.0 if thr is None else thr * ARC
    for i, (_, poly) in enumerate(cam):
        xs, ys = [p[0] for p in poly], [p[1] for p in poly]
        near = np.nonzero((x > min(xs) - 2 * EPS) & (x < max(xs) + 2 * EPS) & (y > min(ys) - 2 * EPS) & (y < max(ys) + 2 * EPS))[0]
        if not len(near):
            continue
        d = edge_distance(poly, x[near], y[near])
        ins = inside(poly, x[near], y[near])
        vague[near] |= (d < 0.5 * EPS) | (ins & (np.abs(d - t) < 0.5 * EPS))
        on = ins if thr is None else ins & (d > t)
        det[near[on]] = i
    return det, vague


def places(cam, thr):
    """Points around every edge of every detector of a camera."""
    pts = []
    t = 0.0 if thr is None else thr * ARC
    for _, poly in cam:
        n = len(poly)
        cx, cy = sum(p[0] for p in poly) / n, sum(p[1] for p in poly) / n
        pts.append((cx, cy))
        for i in range(n):
            (x1, y1), (x2, y2) = poly[i], poly[(i + 1) % n]
            L = math.hypot(x2 - x1, y2 - y1)
            nx, ny = -(y2 - y1) / L, (x2 - x1) / L  # inwards for counterclockwise corners
            for f in (0.03, 0.5, 0.97):
                bx, by = x1 + f * (x2 - x1), y1 + f * (y2 - y1)
                for off in ([EPS, -EPS] if t == 0 else [EPS, -EPS, t + EPS, t - EPS]):
                    pts.append((bx + off * nx, by + off * ny))
            for s in (0.0005, -0.0005):
                pts.append((x1 + s * (cx - x1), y1 + s * (cy - y1)))
    pts += [(0.3, 0.3), (1.0, -2.0), (-0.5, 0.0)]
    a = np.array(pts)
    return a[:, 0], a[:, 1]


def to_sky(x, y, ra0, dec0, rot):
    """Inverse of the gnomonic projection about (ra0, dec0), after undoing the rotation by rot [deg] -> ra, dec [deg]."""
    r = math.radians(rot)
    u = x * math.cos(r) + y * math.sin(r)
    v = -x * math.sin(r) + y * math.cos(r)
    a0, d0 = math.radians(ra0), math.radians(dec0)
    # spherical trigonometry form
    rho = np.hypot(u, v)
    c = np.arctan(rho)
    with np.errstate(invalid="ignore", divide="ignore"):
        dec = np.arcsin(np.clip(np.cos(c) * math.sin(d0) + np.where(rho > 0, v * np.sin(c) * math.cos(d0) / rho, 0.0), -1, 1))
    # sin loses accuracy close to the poles: use the other leg there
    num = u * np.sin(c)
    den = rho * math.cos(d0) * np.cos(c) - v * math.sin(d0) * np.sin(c)
    ra = a0 + np.where(rho > 0, np.arctan2(num, den), 0.0)
    with np.errstate(invalid="ignore", divide="ignore"):
        cd = np.where(rho > 0, np.hypot(num, den) / rho, abs(math.cos(d0)))
    dec = np.where(np.abs(dec) > 1.2, np.sign(dec) * np.arccos(np.clip(cd, 0, 1)), dec)
    return np.degrees(ra) % 360.0, np.degrees(dec)


def frame(ra, dec, ra0, dec0, rot):
    n = len(ra)
    return pd.DataFrame(dict(ObjID=["o%d" % (i % 5) for i in range(n)], FieldID=np.arange(n) % 7, RA_deg=ra, Dec_deg=dec,
                             fieldRA_deg=np.broadcast_to(ra0, n).astype(float), fieldDec_deg=np.broadcast_to(dec0, n).astype(float),
                             fieldRotSkyPos_deg=np.broadcast_to(rot, n).astype(float), RATrue_deg=200.0, DecTrue_deg=10.0, v=np.arange(n)))


def conf(thr):
    return types.SimpleNamespace(fov=types.SimpleNamespace(camera_model="footprint", footprint_edge_threshold=thr),
                                 simulation=types.SimpleNamespace(ar_ang_fov=2.0, ar_fov_buffer=0.2))


def ident(x):
    try:
        return str(int(float(x)))
    except ValueError:
        return str(x)


def judge(df, det, vague, cam, fp, thr, rec, sig, obj):
    from sorcha.modules.PPApplyFOVFilter import PPApplyFOVFilter
    out = PPApplyFOVFilter(df.copy(), conf(thr), None, footprint=fp)
    v = df["v"].to_numpy()
    want = {int(r): cam[d][0] for r, d in zip(v, det) if d >= 0}
    unsure = {int(r) for r, x in zip(v, vague) if x}
    got = {}
    rec.step(len(df))
    rec.trace(len(df))
    for r, d in zip(out["v"], out["detectorID"]):
        if r in unsure:
            continue
        if r in got:
            rec.violation(sig + ":twice", "%s: detection %d reported twice (detectors %s, %s)" % (obj, r, got[r], d), obj)
        got[int(r)] = ident(d)
    want = {r: d for r, d in want.items() if r not in unsure}
    rec.outcome((sig, len(want)))
    for r in sorted(set(got) ^ set(want))[:1]:
        row = df[df["v"] == r].iloc[0]
        rec.violation(sig + (":kept" if r in got else ":lost"), "%s: position (%.8f, %.8f) pointing (%s, %s) rotation %s: %s, by geometry %s (%d such)" %
                      (obj, row["RA_deg"], row["Dec_deg"], row["fieldRA_deg"], row["fieldDec_deg"], row["fieldRotSkyPos_deg"], got.get(r, "dropped"), want.get(r, "on no detector"),
                       len(set(got) ^ set(want))), obj)
    bad = [r for r in got if r in want and got[r] != want[r]]
    rec.check(not bad, sig + ":detector", lambda: "%s: detection %d reported on detector %s, lies on %s" % (obj, bad[0], got[bad[0]], want[bad[0]]), obj)
    keep = [r for r in out["v"]]
    src = df.set_index("v").loc[keep]
    same = out.set_index("v")[list(src.columns)]
    rec.check(same.equals(src), sig + ":values", lambda: "%s: values of kept detections changed" % obj, obj)
    rec.check(list(out.columns) == list(df.columns) + ["detectorID"], sig + ":columns", lambda: "%s: columns %s" % (obj, list(out.columns)), obj)


POINT = {
    "quick": [(10.0, -5.0), (0.01, 0.0), (359.99, -60.0), (180.0, 90.0), (123.4, -89.5), (250.0, 89.0)],
    "thorough": [(10.0, -5.0), (0.0, 0.0), (359.99, -60.0), (180.0, 90.0), (0.0, -90.0), (123.4, -89.5), (250.0, 89.0), (90.0, 45.0), (270.0, -30.0), (180.0, 0.0), (45.0, 10.0), (0.5, 80.0), (300.0, 30.0), (359.0, 3.0)],
}
ROT = {"quick": [0.0, 33.0, 180.0, 300.0], "thorough": [0.0, 33.0, 90.0, 145.0, 180.0, 215.0, 300.0, 359.0, -20.0]}
THR = {"quick": [None, 0.5, 2.0, 30.0], "thorough": [None, 0.0, 0.5, 2.0, 10.0, 30.0]}
DES = {"quick": ([0, 3, 2], [0.0, 33.0], [None, 10.0]), "thorough": (list(range(6)), [0.0, 33.0, 180.0, 300.0], [None, 0.5, 2.0, 10.0])}


def whole(which, thr, pointing, rots, rec):
    from sorcha.modules.PPFootprintFilter import Footprint
    cam = camera(which)
    fp = Footprint(None, "rubin_sim" if which == "lsst" else "DES")
    x, y = places(cam, thr)
    det, vague = oracle(cam, x, y, thr)
    for rot in rots:
        ra, dec = to_sky(x, y, pointing[0], pointing[1], rot)
        df = frame(ra, dec, pointing[0], pointing[1], rot)
        for i in range(len(df)):
            rec.state((which, thr, pointing, rot, i))
        judge(df, det, vague, cam, fp, thr, rec, "%s:%s" % (which, thr), dict(kind="whole", which=which, thr=thr, pointing=pointing, rot=rot))


def mixed(which, thr, points, rots, rec):
    """Detections of many visits in one table, each with its own pointing and rotation; in several orders."""
    from sorcha.modules.PPFootprintFilter import Footprint
    cam = camera(which)
    fp = Footprint(None, "rubin_sim" if which == "lsst" else "DES")
    x, y = places(cam, thr)
    x, y = x[::5], y[::5]
    det, vague = oracle(cam, x, y, thr)
    vis = list(itertools.product(points, rots))
    ra, dec, ra0, dec0, rr = (np.zeros(len(x)) for _ in range(5))
    for j, ((a, d), r) in enumerate(vis):
        m = np.arange(len(x)) % len(vis) == j
        ra[m], dec[m] = to_sky(x[m], y[m], a, d, r)
        ra0[m], dec0[m], rr[m] = a, d, r
    df = frame(ra, dec, ra0, dec0, rr)
    for order in ("given", "reverse", "interleaved", "gaps"):
        if order == "given":
            p = np.arange(len(df))
        elif order == "interleaved":
            p = np.concatenate([np.arange(i, len(df), 3) for i in range(3)])
        else:
            p = np.arange(len(df))[::-1]
        d = df.iloc[p].reset_index(drop=True)
        if order == "gaps":
            d.index = d.index * 3 + 5
        for i in range(len(d)):
            rec.state(("mixed", which, thr, order, i))
        judge(d, det[p], vague[p], cam, fp, thr, rec, "mixed:%s" % which, dict(kind="mixed", which=which, thr=thr, order=order))


def small(length, first, rec):
    """Every table of `length` rows over representative positions."""
    from sorcha.modules.PPFootprintFilter import Footprint
    cam = camera("lsst")
    fp = Footprint(None, "lsst")
    ctr = [(sum(p[0] for p in c) / 4, sum(p[1] for p in c) / 4) for _, c in cam]
    c0, c1, c2 = cam[0][1], cam[94][1], cam[188][1]
    pos = [ctr[0], ctr[94], ctr[188], (c0[0][0] * 1.02, c0[0][1] * 1.02),
           (c1[0][0] + 1.0 * ARC * (1 if ctr[94][0] > c1[0][0] else -1), ctr[94][1]), (0.5, 0.1), "antipode"]
    vis = [(0.02, 1.0, 33.0), (200.0, -70.0, 210.0), (359.9, 89.9, 0.0)]
    xs = np.array([p[0] if p != "antipode" else ctr[94][0] for p in pos])
    ys = np.array([p[1] if p != "antipode" else ctr[94][1] for p in pos])
    for thr in (None, 2.0):
        det, vague = oracle(cam, xs, ys, thr)
        det = det.copy()
        det[6] = -1
        for rest in itertools.product(range(len(pos)), repeat=length - 1) if length else [()]:
            w = ((first,) + rest) if length else ()
            sky = [to_sky(xs[i:i + 1], ys[i:i + 1], *vis[(i + j) % 3]) for j, i in enumerate(w)]
            ra, dec = [float(s[0][0]) for s in sky], [float(s[1][0]) for s in sky]
            for j, i in enumerate(w):
                if pos[i] == "antipode":
                    ra[j], dec[j] = (ra[j] + 180.0) % 360.0, -dec[j]
            vv = [vis[(i + j) % 3] for j, i in enumerate(w)]
            df = frame(np.array(ra), np.array(dec), np.array([a[0] for a in vv]), np.array([a[1] for a in vv]), np.array([a[2] for a in vv]))
            rec.state((thr, w))
            judge(df, det[list(w)] if w else det[:0], vague[list(w)] if w else vague[:0], cam, fp, thr, rec, "small", dict(kind="small", length=length, first=first, rows=w, thr=thr))


CAMS = {
    "square": {"0": [(0, 0), (0.01, 0), (0.01, 0.01), (0, 0.01)]},
    "tilted": {"0": [(0.001, -0.004), (0.011, 0.001), (0.008, 0.007), (-0.002, 0.002)], "1": [(-0.012, -0.01), (-0.004, -0.012), (-0.003, -0.002), (-0.011, -0.001)]},
    "trapezium": {"7": [(-0.01, -0.01), (0.01, -0.01), (0.004, 0.008), (-0.004, 0.008)], "3": [(-0.015, 0.009), (0.015, 0.009), (0.015, 0.015), (-0.015, 0.015)]},
    "wide": {"12": [(-0.4, 0.05), (-0.05, 0.05), (-0.05, 0.4), (-0.4, 0.4)], "5": [(0.05, -0.4), (0.4, -0.4), (0.4, -0.05), (0.05, -0.05)], "9": [(-0.02, -0.02), (0.02, -0.02), (0.02, 0.02), (-0.02, 0.02)]},
}


def custom(name, perms, shuffle, rec):
    """A camera read from a file whose corners come in any order."""
    from sorcha.modules.PPFootprintFilter import Footprint
    dets = CAMS[name]
    lines = []
    for (k, pts), perm in zip(dets.items(), itertools.cycle(perms)):
        lines.append([(k, pts[i]) for i in perm])
    if shuffle == "mixed":
        rows = [r for tup in itertools.zip_longest(*lines) for r in tup]
    elif shuffle == "reverse":
        rows = [r for part in lines[::-1] for r in part]
    else:
        rows = [r for part in lines for r in part]
    with open("cam.csv", "w") as f:
        f.write("detector,x,y\n")
        for k, (x, y) in rows:
            f.write("%s,%r,%r\n" % (k, float(x), float(y)))
    cam = load("cam.csv", 1.0)
    half = 0.45 if name == "wide" else 0.02
    g = np.linspace(-half, half, 21)
    px, py = places(cam, 30.0)
    x = np.concatenate([np.repeat(g, 21) + 1e-5, px])
    y = np.concatenate([np.tile(g, 21) + 2e-5, py])
    ra, dec = to_sky(x, y, 0.1, 40.0, 75.0)
    df = frame(ra, dec, 0.1, 40.0, 75.0)
    fp = Footprint("cam.csv")
    for thr in (None, 1.0, 30.0, 1000.0):
        det, vague = oracle(cam, x, y, thr)
        for i in range(len(df)):
            rec.state((name, perms, shuffle, thr, i))
        judge(df, det, vague, cam, fp, thr, rec, "custom:" + name, dict(kind="custom", name=name, perms=perms, shuffle=shuffle, thr=thr))


def full(survey, thr, custom_cam, rand, rec):
    """A complete run: the detections in its output are those on the camera."""
    which = "lsst" if survey == "rubin_sim" else "des"
    cam = camera(which)
    cfg = sim.base_config(survey).set("FOV", camera_model="footprint")
    if survey == "DES":
        cfg = cfg.set("FADINGFUNCTION", fading_function_on="False")
    if thr is not None:
        cfg = cfg.set("FOV", footprint_edge_threshold=thr)
    if rand:
        cfg = cfg.set("EXPERT", randomization_on="True")
    r = sim.Run(os.path.join(os.getcwd(), "run"), cfg, survey=survey, seed=11)
    if custom_cam:
        with open(r.p("cam.csv"), "w") as f:
            f.write("detector,x,y\n")
            for k, pts in CAMS["tilted"].items():
                for q in (2, 0, 3, 1):
                    f.write("%s,%r,%r\n" % (k, float(pts[q][0]), float(pts[q][1])))
        cam = load(r.p("cam.csv"), 1.0)
        cfg = r.cfg = cfg.set("FOV", footprint_path=r.p("cam.csv"))
    vis = [(10.0, -5.0, 20.0), (0.02, 2.0, 111.0), (200.0, -80.0, 300.0)]
    V = [sim.visit(5 + 3 * i, 60000.1 + i, "rg"[i % 2], ra=a, dec=d, rot=q) for i, (a, d, q) in enumerate(vis)]
    if custom_cam:
        px, py = places(cam, thr)
    else:
        px, py = places(cam[::9], thr)
    px, py = px[:180], py[:180]
    det, vague = oracle(cam, px, py, thr)
    rows, want = [], {}
    for i in range(len(px)):
        j = i % 3
        ra, dec = to_sky(px[i:i + 1], py[i:i + 1], *vis[j])
        o = "p%d" % i
        rows.append(sim.eph(o, V[j], ra=float(ra[0]), dec=float(dec[0]), des=survey == "DES"))
        if det[i] >= 0:
            want[o] = cam[det[i]][0]
    objs = [x["ObjID"] for x in rows]
    r.inputs(V, [sim.kep_orbit(o) for o in objs], [sim.phys(o, 12.0, "r", {"g-r": 0.5}) for o in objs], rows)
    r.go()
    out = r.rows() or []
    obj = dict(kind="full", survey=survey, thr=thr, custom_cam=custom_cam, rand=rand)
    rec.state((survey, thr, custom_cam, rand))
    rec.step(len(rows))
    rec.trace()
    if rand:
        # judged by the position that is reported
        want, unsure = {}, set()
        for x in out:
            j = int(x["ObjID"][1:]) % 3
            u, v = fwd(x["RA_deg"], x["Dec_deg"], *vis[j])
            d, vg = oracle(cam, np.array([u]), np.array([v]), thr)
            if d[0] >= 0 or vg[0]:
                want[x["ObjID"]] = cam[d[0]][0] if d[0] >= 0 else None
                if vg[0]:
                    unsure.add(x["ObjID"])
    else:
        unsure = {"p%d" % i for i in range(len(px)) if vague[i]}
    got = {}
    for x in out:
        rec.check(x["ObjID"] not in got, "run:twice", lambda: "%s: detection of %s reported twice" % (obj, x["ObjID"]), obj)
        got[x["ObjID"]] = ident(x["detectorID"])
    for o in unsure:
        got.pop(o, None)
        want.pop(o, None)
    rec.outcome((survey, thr, custom_cam, rand, len(got)))
    rec.check(got == want, "run:%s" % survey, lambda: "%s: output has %s, by geometry %s" % (obj, sorted(set(got.items()) - set(want.items()))[:4], sorted(set(want.items()) - set(got.items()))[:4]), obj)
    rec.check(len(got) > 20, "run:none", lambda: "%s: only %d detections" % (obj, len(got)), obj)


def fwd(ra, dec, ra0, dec0, rot):
    a, d, a0, d0, r = (math.radians(x) for x in (ra, dec, ra0, dec0, rot))
    c = math.sin(d0) * math.sin(d) + math.cos(d0) * math.cos(d) * math.cos(a - a0)
    u = math.cos(d) * math.sin(a - a0) / c
    v = (math.cos(d0) * math.sin(d) - math.sin(d0) * math.cos(d) * math.cos(a - a0)) / c
    return u * math.cos(r) - v * math.sin(r), u * math.sin(r) + v * math.cos(r)


def shards(tier):
    out = []
    for thr in THR[tier]:
        for p in POINT[tier]:
            out.append(["whole", "lsst", thr, p, ROT[tier]])
        out.append(["mixed", "lsst", thr, POINT[tier], ROT[tier]])
    ps, rs, ts = DES[tier]
    for thr in ts:
        for p in ps:
            out.append(["whole", "des", thr, POINT[tier][p], rs])
        out.append(["mixed", "des", thr, POINT[tier], ROT[tier]])
    out.append(["small", 0, 0])
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for f in range(7):
            out.append(["small", n, f])
    P4 = list(itertools.permutations(range(4)))
    for name in CAMS:
        for i in range(0, 24, 6):
            out.append(["custom", name, i, tier])
    for survey in ("rubin_sim", "DES"):
        for thr in (None, 2.0, 20.0):
            for cc in (False, True):
                for rand in (False, True):
                    if not (rand and survey == "DES"):
                        out.append(["full", survey, thr, cc, rand])
    return out


def run(s, rec):
    rec.sample(s)
    if s[0] == "whole":
        whole(s[1], s[2], tuple(s[3]), s[4], rec)
    elif s[0] == "mixed":
        mixed(s[1], s[2], [tuple(p) for p in s[3]], s[4], rec)
    elif s[0] == "small":
        small(s[1], s[2], rec)
    elif s[0] == "custom":
        P4 = list(itertools.permutations(range(4)))
        for p in P4[s[2]: s[2] + 6]:
            seconds = [P4[7]] if s[3] == "quick" else P4
            for q in seconds if len(CAMS[s[1]]) > 1 else [p]:
                for sh in ("given", "reverse", "mixed"):
                    custom(s[1], (p, q), sh, rec)
    else:
        full(*s[1:], rec)


def replay(o, rec):
    k = o["kind"]
    if k == "whole":
        whole(o["which"], o["thr"], tuple(o["pointing"]), [o["rot"]], rec)
    elif k == "mixed":
        mixed(o["which"], o["thr"], POINT["quick"], ROT["quick"], rec)
    elif k == "small":
        small(o["length"], o["first"], rec)
    elif k == "custom":
        custom(o["name"], tuple(map(tuple, o["perms"])), o["shuffle"], rec)
    else:
        full(o["survey"], o["thr"], o["custom_cam"], o["rand"], rec)
