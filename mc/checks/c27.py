"""C27: A run reports exactly the detections that pass every configured effect."""
import itertools
import math
import os

import numpy as np

from mc import sim
from mc.checks.c06 import linked_night
from mc.checks.c08 import ARC, camera, ident, oracle, to_sky
from mc.checks.c10 import prob
from mc.checks.c11 import phase
from mc.checks.c12 import dim, errors, loss, sep
from mc.checks.c14 import Normals, moved

PID = "C27"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all combinations of the effects of a survey run (state = configuration), each executed completely, against an independent per-detection reference pipeline that applies every configured effect once in the documented order"
NOTE = (
    "Every combination of trailing losses, vignetting, randomisation with and without the default signal-to-noise cut, six camera settings, three limits, three fading settings, three saturation settings and three linking "
    "settings is run from files to output file on a survey with detections on both sides of every limit; the detections reported and their values must be those of a reference pipeline of scalar formulas. Random "
    "draws are replaced by constants, so that no order of draws is prescribed; chunk size and constants change from one combination to the next (thorough: all of them). Objects with a value within 1e-6 of a limit (at most two of twelve, asserted) are left out of that comparison."
)
BOUND = {
    "quick": "2 trailing x 2 vignetting x 3 randomisation x 6 cameras x 3 limits x 3 fading x 3 saturation x 3 linking: every other one of 5832 configurations of a survey of 12 objects x 10 visits, with 4 chunk sizes and 3 pairs of draws in turn",
    "thorough": "5832 configurations x 3 pairs of draws x 3 chunk sizes",
}

RADIUS = 1.75
CAMERAS = ("none", "circle", "fill-high", "fill-low", "footprint", "edge")
RAND = ("off", "on", "nocut")
LIMITS = ("none", "snr", "mag")
FADING = ("off", "wide", "steep")
BRIGHT = ("none", "single", "filters")
LINK = ("off", "drop", "keep")
DRAWS = ((0.5, 0.8), (0.03, -1.5), (0.9, 0.0))
CHUNKS = (5, 1000, 1, 12)
SNR, MAG, BR1, BRF, EDGE = 7.0, 22.2, 16.4, {"r": 15.5, "g": 17.9}, 2.0
FADE = {"wide": (0.95, 0.5), "steep": (0.7, 0.05)}
LINKING = dict(sim.LINKING, SSP_number_tracklets=2)


def warm():
    import sorcha.sorcha  # noqa: F401
    camera("lsst")


def spots():
    """Focal plane places, at different distances from the centre: well on a detector, near its edge, in a gap, off the camera."""
    cam = camera("lsst")
    ctr = [(sum(p[0] for p in c) / len(c), sum(p[1] for p in c) / len(c), c) for _, c in cam]
    ctr.sort(key=lambda q: math.hypot(q[0], q[1]))
    out = []
    for k in (0, 60, 120, 170, len(ctr) - 1):
        x, y, c = ctr[k]
        out.append((x, y))
        (x1, y1), (x2, y2) = c[0], c[1]
        L = math.hypot(x2 - x1, y2 - y1)
        nx, ny = -(y2 - y1) / L, (x2 - x1) / L
        for off in (5.0, 1.0, -6.0):  # arcsec inwards from the middle of an edge: inside, closer than the threshold, in the gap
            out.append(((x1 + x2) / 2 + off * ARC * nx, (y1 + y2) / 2 + off * ARC * ny))
    for d in (1.65, 1.85, 2.05):  # the corners of the camera have no detectors
        t = math.tan(math.radians(d)) / math.sqrt(2)
        out.append((t, -t))
    return out


def gnomonic(ra, dec, ra0, dec0, rot):
    """Inverse of c08.to_sky."""
    a, d, a0, d0 = map(math.radians, (ra, dec, ra0, dec0))
    c = math.sin(d0) * math.sin(d) + math.cos(d0) * math.cos(d) * math.cos(a - a0)
    u = math.cos(d) * math.sin(a - a0) / c
    v = (math.cos(d0) * math.sin(d) - math.sin(d0) * math.cos(d) * math.cos(a - a0)) / c
    r = math.radians(rot)
    return u * math.cos(r) - v * math.sin(r), u * math.sin(r) + v * math.cos(r)


NOBJ, NVIS = 12, 10
COL = {"r": 0.0, "g": 0.45}


def survey(des=False):
    """Visits in pairs on successive nights, one of them in a filter that is not observed; every object in every visit."""
    V = [sim.visit(11 + 4 * j, 60000.9 + j // 2 + 0.02 * (j % 2), "rgrrgrigrg"[j], ra=[10.0, 359.6, 200.0][j // 2 % 3], dec=[-5.0, 0.3, -62.0][j // 2 % 3], depth=[24.0, 23.4, 24.6][j % 3],
                   seeing=[0.7, 1.0, 0.85][j % 3], seeingeff=[0.8, 1.2, 1.0][j % 3], rot=[0.0, 33.0, 140.0, 275.0][j % 4], exptime=[30.0, 15.0][j % 2], visittime=[34.0, 19.0][j % 2]) for j in range(NVIS)]
    S = spots()
    E = []
    for i in range(NOBJ):
        for j, v in enumerate(V):
            x, y = S[(5 * i + 3 * j + i * j) % len(S)]
            ra, dec = to_sky(np.array([x]), np.array([y]), v["fieldRA"], v["fieldDec"], v["rotSkyPos"])
            dra, ddec = [(0.0, 0.0), (0.3, -0.2), (-3.0, 4.0), (11.0, 2.5)][(i + j // 2) % 4]
            E.append((i, j, sim.eph("o%d" % i, v, ra=float(ra[0]), dec=float(dec[0]), rng=1.5 + 0.013 * j + 0.007 * i, r=2.1, dra=dra, ddec=ddec, phase=3.0 + i)))
    H = [14.0 + 0.86 * ((7 * i) % NOBJ) for i in range(NOBJ)]
    return V, E, H


def config(trail, vig, rand, cam, lim, fade, bright, link, chunk):
    c = sim.base_config(filters="r,g", chunk=chunk)
    c = c.set("EXPERT", trailing_losses_on=str(trail), vignetting_on=str(vig), randomization_on=str(rand != "off"), default_snr_cut=str(rand != "nocut"))
    if cam in ("circle", "fill-high", "fill-low"):
        c = c.set("FOV", camera_model="circle", circle_radius=str(RADIUS))
        if cam != "circle":
            c = c.set("FOV", fill_factor="0.6" if cam == "fill-high" else "0.4")
    elif cam != "none":
        c = c.set("FOV", camera_model="footprint")
        if cam == "edge":
            c = c.set("FOV", footprint_edge_threshold=str(EDGE))
    if lim == "snr":
        c = c.set("EXPERT", snr_limit=str(SNR))
    elif lim == "mag":
        c = c.set("EXPERT", mag_limit=str(MAG))
    if fade != "off":
        c = c.set("FADINGFUNCTION", fading_function_width=str(FADE[fade][1]), fading_function_peak_efficiency=str(FADE[fade][0]))
    if bright != "none":
        c = c.set("SATURATION", bright_limit=str(BR1) if bright == "single" else "%s,%s" % (BRF["r"], BRF["g"]))
    if link != "off":
        c = c.set("LINKINGFILTER", drop_unlinked=str(link == "drop"), **LINKING)
    return c


class Near(Exception):
    """A value too close to a limit to tell."""


def more(a, b):
    if abs(a - b) < 1e-6:
        raise Near((a, b))
    return a > b


def measured(V, E, H, trail, vig, rand, z):
    """What is measured for every potential detection, before any filter."""
    out = []
    for i, j, e in E:
        v = V[j]
        if v["filter"] not in COL:
            continue
        r = math.sqrt(sum(e["Obj_Sun_%s_LTC_km" % c] ** 2 for c in "xyz")) / sim.AU_KM
        m = H[i] + COL[v["filter"]] + 5 * math.log10(e["Range_LTC_km"] / sim.AU_KM * r) + phase("HG", e["phase_deg"], 0.15)
        rate = (e["RARateCosDec_deg_day"], e["DecRate_deg_day"])
        x = dict(ObjID=e["ObjID"], FieldID=v["observationId"], filter=v["filter"], t=e["fieldMJD_TAI"], trailedSourceMagTrue=m, visit=v)
        x["PSFMagTrue"] = m + (loss(*rate, v["seeingFwhmEff"], v["visitExposureTime"], "circularPSF") if trail else 0.0)
        x["fiveSigmaDepth_mag"] = v["fiveSigmaDepth"] - (dim(sep((e["RA_deg"], e["Dec_deg"]), (v["fieldRA"], v["fieldDec"]))) if vig else 0.0)
        dt = loss(*rate, v["seeingFwhmGeom"], v["visitExposureTime"], "trailedSource") if trail else 0.0
        x["SNRTrailedSourceMag"], x["trailedSourceMagSigma"], x["astrometricSigma_deg"] = errors(m + dt, x["fiveSigmaDepth_mag"], v["seeingFwhmGeom"])
        x["SNRPSFMag"], x["PSFMagSigma"], _ = errors(x["PSFMagTrue"], x["fiveSigmaDepth_mag"], v["seeingFwhmGeom"])
        x["RATrue_deg"], x["DecTrue_deg"] = e["RA_deg"], e["Dec_deg"]
        if rand == "off":
            x.update(trailedSourceMag=m, PSFMag=x["PSFMagTrue"], RA_deg=e["RA_deg"], Dec_deg=e["Dec_deg"])
        else:
            if rand == "on" and not more(x["SNRPSFMag"], 2.0):
                continue
            x["trailedSourceMag"] = m + z * x["trailedSourceMagSigma"]
            x["PSFMag"] = x["PSFMagTrue"] + z * x["PSFMagSigma"] if trail else x["trailedSourceMag"]
            x["RA_deg"], x["Dec_deg"] = moved(e["RA_deg"], e["Dec_deg"], x["astrometricSigma_deg"], (z, z, z))
        out.append(x)
    return out


def on_camera(rows, cam):
    if cam in ("none", "fill-low", "fill-high", "circle"):
        return rows if cam == "none" else [x for x in rows if more(RADIUS, sep((x["RA_deg"], x["Dec_deg"]), (x["visit"]["fieldRA"], x["visit"]["fieldDec"])))]
    xy = [gnomonic(x["RA_deg"], x["Dec_deg"], x["visit"]["fieldRA"], x["visit"]["fieldDec"], x["visit"]["rotSkyPos"]) for x in rows]
    det, vague = oracle(camera("lsst"), np.array([p[0] for p in xy]), np.array([p[1] for p in xy]), EDGE if cam == "edge" else None)
    if vague.any():
        raise Near("detector edge")
    return [dict(x, detectorID=ident(camera("lsst")[d][0])) for x, d in zip(rows, det) if d >= 0]


def filters(rows, lim, fade, bright, link, u):
    """Everything after the camera, whose fill factor is left to the caller."""
    if lim == "snr":
        rows = [x for x in rows if more(x["SNRPSFMag"], SNR)]
    elif lim == "mag":
        rows = [x for x in rows if more(MAG, x["trailedSourceMag"])]
    if fade != "off":
        rows = [x for x in rows if more(prob(x["PSFMag"], x["fiveSigmaDepth_mag"], *FADE[fade]), u)]
    if bright != "none":
        rows = [x for x in rows if more(x["PSFMag"], BR1 if bright == "single" else BRF[x["filter"]])]
    if link == "off":
        return rows
    by = {}
    for x in rows:
        by.setdefault(x["ObjID"], []).append((x["ObjID"], x["t"], x["RA_deg"], x["Dec_deg"]))
    night = {o: linked_night(ds, LINKING["SSP_number_observations"], LINKING["SSP_number_tracklets"], LINKING["SSP_track_window"], LINKING["SSP_separation_threshold"], LINKING["SSP_maximum_time"],
                             LINKING["SSP_night_start_utc"]) for o, ds in by.items()}
    rows = [dict(x, date_linked_MJD=night[x["ObjID"]], object_linked=night[x["ObjID"]] is not None) for x in rows]
    return rows if link == "keep" else [x for x in rows if x["object_linked"]]


class Const(Normals):
    """Every random draw is the same."""

    def __init__(self, u, z):
        super().__init__(lambda i: z)
        self.u = u

    def random(self, size=None):
        return self.u if size is None else np.full(size, self.u)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)


EXACT = ("trailedSourceMagTrue", "PSFMagTrue", "fiveSigmaDepth_mag", "trailedSourceMagSigma", "SNRPSFMag", "SNRTrailedSourceMag", "PSFMagSigma", "trailedSourceMag", "PSFMag")


def judge(rows, want, link, rec, sig, obj, columns=EXACT + ("astrometricSigma_deg",)):
    got = {}
    for x in rows:
        k = (x["ObjID"], int(x["FieldID"]))
        rec.check(k not in got, sig + ":twice", lambda: "%s: %s reported twice" % (obj, k), obj)
        got[k] = x
    exp = {(x["ObjID"], x["FieldID"]): x for x in want}
    rec.step(len(rows))
    d = sorted(set(got) ^ set(exp))
    if not rec.check(not d, sig + (":lost" if d and d[0] in exp else ":extra"), lambda: "%s: %d detections reported, %d pass all effects; e.g. %s %s" %
                     (obj, len(got), len(exp), d[0], "lost" if d[0] in exp else "should not be there"), obj):
        return
    for k, e in exp.items():
        x = got[k]
        for c in columns:
            a, b = float(x[c]), e[c]
            rec.check(abs(a - b) <= 2e-6 * max(1.0, abs(b)) if c != "astrometricSigma_deg" else abs(a - b) <= 1e-6 * b + 1e-12, sig + ":" + c, lambda: "%s: %s of %s is %r, expected %r" % (obj, c, k, a, b), obj)
        for r, dd in (("RA_deg", "Dec_deg"), ("RATrue_deg", "DecTrue_deg")):
            rec.check(sep((float(x[r]), float(x[dd])), (e[r], e[dd])) < 1e-8, sig + ":" + r, lambda: "%s: position of %s %s, expected %s" % (obj, k, (x[r], x[dd]), (e[r], e[dd])), obj)
        if "detectorID" in e:
            rec.check(ident(x["detectorID"]) == e["detectorID"], sig + ":detector", lambda: "%s: %s on detector %s, expected %s" % (obj, k, x["detectorID"], e["detectorID"]), obj)
        if "date_linked_MJD" in e:
            w, v = e["date_linked_MJD"], x["date_linked_MJD"]
            rec.check((v == "" or v != v) if w is None else v == w, sig + ":date", lambda: "%s: %s linked on %r, expected %r" % (obj, k, v, w), obj)
            if link == "keep":
                rec.check(str(x["object_linked"]) == str(w is not None), sig + ":flag", lambda: "%s: %s flagged %r, linked on %r" % (obj, k, x["object_linked"], w), obj)


def combos(trail, vig, rand, cam, lim, variants, rec):
    V, E, H = survey()
    half = sum((CAMERAS.index(cam), LIMITS.index(lim), RAND.index(rand), trail, vig))
    r = sim.Run(os.path.join(os.getcwd(), "run"), sim.base_config(filters="r,g"))
    r.inputs(V, [sim.kep_orbit("o%d" % i) for i in range(NOBJ)], [sim.phys("o%d" % i, H[i], "r", {"g-r": COL["g"]}) for i in range(NOBJ)], [e for _, _, e in E])
    for k, (fade, bright, link) in enumerate(itertools.product(FADING, BRIGHT, LINK)):
        for n in range(variants):
            if variants == 1 and (half + k) % 2:
                continue
            q = k + 2 * CAMERAS.index(cam) + LIMITS.index(lim) + 5 * trail + 7 * vig
            (u, z), chunk = (DRAWS[q % 3], CHUNKS[q // 3 % 4]) if variants == 1 else (DRAWS[n % 3], CHUNKS[(q + n // 3) % 4])
            obj = dict(trail=trail, vignetting=vig, randomisation=rand, camera=cam, limit=lim, fading=fade, bright=bright, linking=link, chunk=chunk, u=u, z=z)
            want, unsure = [], set()
            for i in range(NOBJ):
                try:
                    rows = on_camera(measured(V, [e for e in E if e[0] == i], H, trail, vig, rand, z), cam)
                    if (cam == "fill-high" and u > 0.6) or (cam == "fill-low" and u > 0.4):
                        rows = []
                    want += filters(rows, lim, fade, bright, link, u)
                except Near:
                    unsure.add("o%d" % i)
            rec.check(len(unsure) <= 2, "harness:near", lambda: "%s: %s have values close to a limit" % (obj, sorted(unsure)), obj)
            r.cfg = config(trail, vig, rand, cam, lim, fade, bright, link, chunk)
            r.rngs = Const(u, z)
            r.go()
            got = r.rows()
            got = got and [x for x in got if x["ObjID"] not in unsure]
            rec.state(tuple(obj.values()))
            rec.trace()
            rec.outcome((cam, lim, fade, bright, link, len(want)))
            if want or got is not None:
                judge(got or [], want, link, rec, "run", obj)


def shards(tier):
    return [["run", t, v, rd, cam, lim, 1 if tier == "quick" else 9] for t, v in itertools.product((False, True), repeat=2) for rd in RAND for cam in CAMERAS for lim in LIMITS]


def run(s, rec):
    rec.sample(s)
    combos(*s[1:], rec)
