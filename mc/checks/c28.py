"""C28: A DES run reports exactly the detections that pass every configured effect."""
import itertools
import math
import os
import sqlite3

import numpy as np

from mc import sim
from mc.checks import c08
from mc.checks.c07 import discovered
from mc.checks.c08 import ARC, camera, ident, oracle, to_sky
from mc.checks.c09 import des_layout
from mc.checks.c11 import phase
from mc.checks.c12 import sep
from mc.checks.c27 import Const, Near, gnomonic, judge, more

PID = "C28"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all combinations of the effects of a DES run (state = configuration), each executed completely, against an independent per-detection reference pipeline that applies every configured effect once in the documented order"
NOTE = (
    "Every combination of five camera settings, magnitude limit, three fading settings, three saturation settings, distance cut, motion cut and discovery is run from files to output file on a survey of a year and a half with "
    "detections on both sides of every limit; the detections reported and their values must be those of a reference pipeline of scalar formulas. Random draws are replaced by a constant. The queries of the shipped DES "
    "configuration are used where the camera does not need the rotation angle. Objects with a value within 1e-6 of a limit (at most two, asserted) are left out of a comparison."
)
BOUND = {
    "quick": "5 cameras x 2 limits x 3 fading x 3 saturation x 2 distance x 2 motion x 2 discovery = 720 configurations of a survey of 14 objects x 16 visits, 4 chunk sizes and 3 draws in turn",
    "thorough": "720 configurations x 3 draws x 4 chunk sizes",
}

RADIUS, MAG, BR1, BRF, EDGE = 0.8, 23.3, 20.2, {"r": 20.9, "g": 19.6}, 3.0
CAMERAS = ("none", "circle", "footprint", "edge", "visits")
FADING = ("off", "all", "most")
EFF = {"all": None, "most": 0.6}
BRIGHT = ("none", "single", "filters")
DIST, MOTION = (30.0, 38.0), (0.01, 0.9)
UU = (0.5, 0.02, 0.85)
CHUNKS = (5, 1000, 1, 14)
SHIPPED = ("SELECT observationId, observationMidpointMJD as observationMidpointMJD_TAI , visitExposureTime, filter, fiveSigmaDepth as fieldFiveSigmaDepth_mag , fieldRA as fieldRA_deg, fieldDec as fieldDec_deg, c, k "
           "FROM observations order by observationId")
SHIPPED_VISITS = ("SELECT llcra, llcdec, lrcra, lrcdec, urcra, urcdec, ulcra, ulcdec, ra as ra_centre, dec as dec_centre, detectorID, magLim as limMag_perChip  FROM observations WHERE visitId = ?")
NOBJ, NVIS = 14, 16
COL = {"r": 0.0, "g": 0.6}
GAPS = (1.0, 31.0, 45.0, 0.06, 58.0, 61.5, 70.0, 25.0, 0.1, 88.0, 40.0, 30.0, 0.06, 5.0, 92.0)


def warm():
    import sorcha.des  # noqa: F401
    camera("des")


def spots():
    cam = camera("des")
    ctr = sorted(((sum(p[0] for p in c) / len(c), sum(p[1] for p in c) / len(c), c) for _, c in cam), key=lambda q: math.hypot(q[0], q[1]))
    out = []
    for k in (0, 7, 19, 33, 48, len(ctr) - 1):
        x, y, c = ctr[k]
        out.append((x, y))
        (x1, y1), (x2, y2) = c[0], c[1]
        L = math.hypot(x2 - x1, y2 - y1)
        nx, ny = -(y2 - y1) / L, (x2 - x1) / L
        for off in (5.0, 1.0, -4.0):
            out.append(((x1 + x2) / 2 + off * ARC * nx, (y1 + y2) / 2 + off * ARC * ny))
    return out + [(0.018, -0.018), (0.021, 0.021)]


def survey():
    t = [56800.1]
    for g in GAPS:
        t.append(t[-1] + g)
    V = [sim.visit(21 + 5 * j, t[j], "rggrrzgrgrrgzrgr"[j], ra=[40.0, 359.7, 301.0][j % 3], dec=[-5.0, 0.3, -52.0][j % 3], depth=[23.8, 23.2, 24.4][j % 3], rot=[0.0, 90.0, 33.0, 180.0][j % 4],
                   exptime=90.0, visittime=[94.0, 100.0][j % 2], c=[0.93, 0.8, 0.99, 0.7][j % 4], k=[5.0, 2.0, 12.0][j % 3]) for j in range(NVIS)]
    S = spots()
    E = []
    for i in range(NOBJ):
        for j, v in enumerate(V):
            if (i + 2 * j) % 9 == 0:
                continue
            # most visits in the middle of a detector, so that some objects have a long history
            x, y = S[(4 * ((i + j) % 6)) if (i * j) % 3 and i % 5 else (5 * i + 3 * j + i * j) % len(S)]
            if v["filter"] != "z" and i % 4 == 2 and j % 2 == 0:
                x, y = S[0]
            ra, dec = to_sky(np.array([x]), np.array([y]), v["fieldRA"], v["fieldDec"], v["rotSkyPos"])
            dra, ddec = [(0.02, -0.03), (0.3, 0.4), (-0.7, 0.6), (0.004, -0.005), (0.6, -0.6)][(2 * i + j) % 5 if i % 3 else 1]
            r = [29.0, 33.0, 37.5, 55.0, 48.0, 60.0, 30.5][i % 7] + 0.12 * j * [1, -1, 0.1][i % 3]
            E.append((i, j, sim.eph("o%d" % i, v, ra=float(ra[0]), dec=float(dec[0]), rng=r - 0.3, r=r, dra=dra, ddec=ddec, phase=0.2 + 0.1 * i, des=True)))
    H = [4.6 + 0.37 * ((5 * i) % NOBJ) for i in range(NOBJ)]
    return V, E, H


def chips(v):
    """Per-visit detectors a little smaller than those of the camera; some missing."""
    out = []
    for d, m, p in des_layout(v["fieldRA"], v["fieldDec"]):
        cx, cy = sum(q[0] for q in p) / 4, sum(q[1] for q in p) / 4
        if (d + v["observationId"]) % 7:
            out.append((d, m, [(cx + 0.93 * (q[0] - cx), cy + 0.93 * (q[1] - cy)) for q in p]))
    return out


def config(cam, lim, fade, bright, dist, motion, disc, chunk):
    c = sim.base_config("DES", filters="r,g", chunk=chunk)
    if cam == "circle":
        c = c.set("FOV", camera_model="circle", circle_radius=str(RADIUS))
    elif cam in ("footprint", "edge"):
        c = c.set("FOV", camera_model="footprint")
        if cam == "edge":
            c = c.set("FOV", footprint_edge_threshold=str(EDGE))
    elif cam == "visits":
        c = c.set("FOV", camera_model="visits_footprint", visits_query=SHIPPED_VISITS)
    if cam in ("none", "visits", "circle"):
        c = c.set("INPUT", pointing_sql_query=SHIPPED)
    if lim == "mag":
        c = c.set("EXPERT", mag_limit=str(MAG))
    c = c.set("FADINGFUNCTION", fading_function_on=str(fade != "off"))
    if fade != "off" and EFF[fade] is not None:
        c = c.set("FADINGFUNCTION", des_transient_efficency=str(EFF[fade]))
    if bright != "none":
        c = c.set("SATURATION", bright_limit=str(BR1) if bright == "single" else "%s,%s" % (BRF["r"], BRF["g"]))
    if dist:
        c = c.set("LINKINGFILTER", distance_cut_lower=str(DIST[0]), distance_cut_upper=str(DIST[1]))
    if motion:
        c = c.set("LINKINGFILTER", motion_cut_lower=str(MOTION[0]), motion_cut_upper=str(MOTION[1]))
    if disc or dist or motion:
        c = c.set("LINKINGFILTER", des_discovery_on=str(disc))
    return c


def inrange(x, lo, hi):
    return more(x, lo) and more(hi, x)


def expected(V, E, H, cam, lim, fade, bright, dist, motion, disc, u):
    """The detections of one object that pass everything."""
    rows = []
    for i, j, e in E:
        v = V[j]
        if v["filter"] not in COL:
            continue
        pos = [e["Obj_Sun_%s_LTC_km" % c] / sim.AU_KM for c in "xyz"]
        r = math.sqrt(sum(q * q for q in pos))
        m = H[i] + COL[v["filter"]] + 5 * math.log10(e["Range_LTC_km"] / sim.AU_KM * r) + phase("HG", e["phase_deg"], 0.15)
        x = dict(ObjID=e["ObjID"], FieldID=v["observationId"], trailedSourceMagTrue=m, PSFMagTrue=m, trailedSourceMag=m, PSFMag=m, fiveSigmaDepth_mag=v["fiveSigmaDepth"], RA_deg=e["RA_deg"], Dec_deg=e["Dec_deg"],
                 RATrue_deg=e["RA_deg"], DecTrue_deg=e["Dec_deg"])
        if cam == "circle" and not more(RADIUS, sep((e["RA_deg"], e["Dec_deg"]), (v["fieldRA"], v["fieldDec"]))):
            continue
        if cam in ("footprint", "edge"):
            p = gnomonic(e["RA_deg"], e["Dec_deg"], v["fieldRA"], v["fieldDec"], v["rotSkyPos"])
            det, vague = oracle(camera("des"), np.array([p[0]]), np.array([p[1]]), EDGE if cam == "edge" else None)
            if vague[0]:
                raise Near()
            if det[0] < 0:
                continue
            x["detectorID"] = ident(camera("des")[det[0]][0])
        if cam == "visits":
            ra = e["RA_deg"] + (360.0 if e["RA_deg"] - v["fieldRA"] < -180 else -360.0 if e["RA_deg"] - v["fieldRA"] > 180 else 0.0)
            on = [(d, q) for d, q, p in chips(v) if c08.inside(c08.ring(p), np.array([ra]), np.array([e["Dec_deg"]]))[0]]
            if min(c08.edge_distance(c08.ring(p), np.array([ra]), np.array([e["Dec_deg"]]))[0] for _, _, p in chips(v)) < 1e-6:
                raise Near()
            if not on:
                continue
            x["detectorID"], x["limMag_perChip"] = str(on[0][0]), on[0][1]
        if lim == "mag" and not more(MAG, m):
            continue
        if fade != "off":
            eff = 1.0 if EFF[fade] is None else EFF[fade]
            if not more(eff * v["c"] / (1 + math.exp(v["k"] * (m - v["fiveSigmaDepth"]))), u):
                continue
        if bright != "none" and not more(m, BR1 if bright == "single" else BRF[v["filter"]]):
            continue
        rows.append((x, r, math.hypot(e["RARateCosDec_deg_day"], e["DecRate_deg_day"]), (e["ObjID"], e["fieldMJD_TAI"]) + tuple(pos)))
    if dist and not any([inrange(r, *DIST) for _, r, _, _ in rows]):
        rows = []
    if motion:
        rows = [q for q in rows if inrange(q[2], *MOTION)]
    if disc and (not rows or not discovered([q[3] for q in rows])):
        rows = []
    return [q[0] for q in rows]


def combos(cam, lim, fade, dist, variants, rec):
    V, E, H = survey()
    r = sim.Run(os.path.join(os.getcwd(), "run"), sim.base_config("DES", filters="r,g"), survey="DES")
    r.inputs(V, [sim.kep_orbit("o%d" % i) for i in range(NOBJ)], [sim.phys("o%d" % i, H[i], "r", {"g-r": COL["g"]}) for i in range(NOBJ)], [e for _, _, e in E])
    if cam == "visits":
        r.visits_db = sim.write_visits(r.p("visits.db"), [(v["observationId"], d, m, p) for v in V for d, m, p in chips(v)])
        con = sqlite3.connect(r.visits_db)
        con.execute("ALTER TABLE observations RENAME COLUMN ra_centre TO ra")
        con.execute("ALTER TABLE observations RENAME COLUMN dec_centre TO dec")
        con.commit()
        con.close()
    for k, (bright, motion, disc) in enumerate(itertools.product(BRIGHT, (False, True), (False, True))):
        for n in range(variants):
            q = k + CAMERAS.index(cam) + 5 * FADING.index(fade) + 7 * dist + (lim == "mag")
            u, chunk = (UU[q % 3], CHUNKS[q % 4]) if variants == 1 else (UU[n % 3], CHUNKS[n // 3])
            obj = dict(camera=cam, limit=lim, fading=fade, bright=bright, distance=dist, motion=motion, discovery=disc, chunk=chunk, u=u)
            want, unsure = [], set()
            for i in range(NOBJ):
                try:
                    want += expected(V, [e for e in E if e[0] == i], H, cam, lim, fade, bright, dist, motion, disc, u)
                except Near:
                    unsure.add("o%d" % i)
            rec.check(len(unsure) <= 2, "harness:near", lambda: "%s: %s have values close to a limit" % (obj, sorted(unsure)), obj)
            r.cfg = config(cam, lim, fade, bright, dist, motion, disc, chunk)
            r.rngs = Const(u, 0.0)
            r.go()
            got = [x for x in r.rows() or [] if x["ObjID"] not in unsure]
            rec.state(tuple(obj.values()))
            rec.trace()
            rec.outcome((cam, lim, fade, bright, dist, motion, disc, len(want)))
            judge(got, want, "off", rec, "run", obj, ("trailedSourceMagTrue", "PSFMagTrue", "fiveSigmaDepth_mag", "trailedSourceMag", "PSFMag") + (("limMag_perChip",) if cam == "visits" else ()))


def shards(tier):
    return [["run", c, lim, f, d, 1 if tier == "quick" else 12] for c in CAMERAS for lim in ("none", "mag") for f in FADING for d in (False, True)]


def run(s, rec):
    rec.sample(s)
    combos(*s[1:], rec)
