"""C02: objects are simulated independently of each other and of how their identifiers are spelled."""
import itertools
import math
import os
import sqlite3

from mc import arstub, sim

PID = "C02"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of sub-populations x row orders x identifier spellings on the real pipeline against single-object runs"
NOTE = (
    "Every sub-population (all ordered selections) of a set of objects with different fates, with every identifier spelling scheme, "
    "goes through the real survey simulation; each object must get exactly the rows of its own single-object run under a plain "
    "identifier. Variants cover linking, the footprint, circle and visits-database cameras, DES cuts, DES discovery by triplets and by nights, culling and the internal "
    "ephemeris generator. Trusted: the stand-in for ASSIST/SPICE; random effects are off."
)
BOUND = {
    "quick": "6 object kinds, all ordered selections of 1..2 (3 for the primary variants' 4-kind subset) x 6 identifier schemes x 9 variants",
    "thorough": "6 object kinds, all ordered selections of 1..3 x 7 identifier schemes x 9 variants",
}

SCHEMES = {
    "plain": ["o1", "o2", "o3", "o4"],
    "digits": ["0007", "7", "07", "70"],
    "numeric": ["1e5", "100000", "0x10", "1_000"],
    "float": ["1.0", "1", "1.50", "-0"],
    "words": ["True", "inf", "1e400", "-"],
    "text": ["é-β", "a'b", "S" + "x" * 70, "2003_AB#1"],
    "missing": ["NaN", "None", "null", "NA"],
}
MJD0 = 60000.1
AMBIG = 1e-9


def visits():
    out = []
    for night in range(3):
        for k in range(2):
            out.append(sim.visit(100 + night * 2 + k, MJD0 + night + 0.02 * k, "rg"[k], ra=30.0, dec=-40.0, depth=24.0, rot=20.0 * night))
    return out


VIS = visits()
# kind: which visits have rows, offset from the field centre, brightness, distance, sky rate, colour
KINDS = {
    "A": dict(vis=range(6), off=(0.05, 0.12), H=17.0, r=2.1, rate=0.10, col=0.40),
    "B": dict(vis=range(6), off=(-0.31, 0.22), H=14.0, r=3.1, rate=0.05, col=-0.2),
    "C": dict(vis=[0, 1, 2, 4, 5], off=(0.65, -0.66), H=18.0, r=2.4, rate=0.30, col=1.10),
    "D": dict(vis=[1, 3, 4], off=(-0.12, -1.40), H=17.3, r=1.9, rate=1.50, col=0.0),
    "E": dict(vis=range(6), off=(1.02, 0.85), H=20.5, r=2.2, rate=0.10, col=0.6),
    "N": dict(vis=[], off=(0.3, 0.3), H=17.0, r=2.2, rate=0.10, col=0.6),
}
# DES discovery needs visits over years and objects near and beyond 50 au: A only fits the 90-day window it is entitled to at its
# distance, B has the same nights but only 60 days, C fits 60 days, D has nights enough without triplets, E too few nights
DISC_NIGHTS = [0, 10, 20, 30, 80, 90, 160, 170, 240, 330, 419, 508, 600]
DISC_VIS = [sim.visit(300 + i, MJD0 + n, "rg"[i % 2], ra=30.0, dec=-40.0, depth=24.0, rot=0.0) for i, n in enumerate(DISC_NIGHTS)]


def _nights(*n):
    return [DISC_NIGHTS.index(x) for x in n]


DISC_KINDS = {
    "A": dict(vis=_nights(0, 80, 160, 240, 330, 419, 508), off=(0.05, 0.12), H=3.0, r=60.0, rate=0.0003, col=0.40),
    "B": dict(vis=_nights(0, 80, 160, 240, 330, 419, 508), off=(-0.31, 0.22), H=4.0, r=40.0, rate=0.0004, col=-0.2),
    "C": dict(vis=_nights(0, 10, 20, 90, 170, 330, 508), off=(0.65, -0.66), H=4.5, r=35.0, rate=0.0002, col=0.3),
    "D": dict(vis=_nights(0, 10, 80, 90, 160, 170, 240, 330, 419, 508), off=(-0.12, -0.70), H=2.3, r=70.0, rate=0.0005, col=0.0),
    "E": dict(vis=_nights(0, 10, 20, 30, 330, 508), off=(0.72, 0.55), H=3.5, r=45.0, rate=0.0001, col=0.6),
    "N": dict(vis=[], off=(0.3, 0.3), H=5.0, r=50.0, rate=0.0003, col=0.6),
}
VAR = ["base", "link", "flag", "footprint", "circle", "ar", "des", "des-visits", "des-disc"]


def shards(tier):
    out = []
    for v in VAR:
        schemes = ["plain", "digits", "numeric", "words", "text", "missing"] if tier == "quick" else list(SCHEMES)
        for s in schemes:
            if s == "missing" and v not in ("base", "link"):
                continue
            big = tier == "thorough" or (s == "plain" and v in ("link", "des-visits", "des-disc", "ar"))
            out += [[v, s, k, 3 if big else 2, tier == "thorough"] for k in KINDS]
    return out


def visits_db(path):
    con = sqlite3.connect(path)
    con.execute("create table observations (visitId integer, detectorID integer, ra real, dec real, llcra real, llcdec real, "
                "lrcra real, lrcdec real, urcra real, urcdec real, ulcra real, ulcdec real, magLim real)")
    for v in VIS:
        det = 0
        for iy in range(-6, 7):
            for ix in range(-3, 4):
                det += 1
                w, h = 0.29 / math.cos(math.radians(v["fieldDec"])), 0.145
                cx, cy = v["fieldRA"] + ix * 0.31 / math.cos(math.radians(v["fieldDec"])), v["fieldDec"] + iy * 0.155
                con.execute("insert into observations values (?,?,?,?,?,?,?,?,?,?,?,?,?)",
                            (v["observationId"], det, cx, cy, cx - w / 2, cy - h / 2, cx + w / 2, cy - h / 2, cx + w / 2, cy + h / 2,
                             cx - w / 2, cy + h / 2, 23.5 + 0.01 * det))
    con.commit()
    con.close()


VQ = ("SELECT llcra, llcdec, lrcra, lrcdec, urcra, urcdec, ulcra, ulcdec, ra as ra_centre, dec as dec_centre, detectorID, "
      "magLim as limMag_perChip FROM observations WHERE visitId = ?")


def config(v):
    survey = "DES" if v.startswith("des") else "rubin_sim"
    cfg = sim.base_config(survey=survey, ephem="ar" if v == "ar" or v == "des-visits" else "external", chunk=100)
    if v == "des-disc":
        cfg = cfg.set("FADINGFUNCTION", fading_function_on="False").set("EXPERT", mag_limit=23.6)
        cfg = cfg.set("LINKINGFILTER", des_discovery_on="True")
    elif survey == "DES":
        cfg = cfg.set("FADINGFUNCTION", fading_function_on="False").set("EXPERT", mag_limit=23.6)
        cfg = cfg.set("LINKINGFILTER", motion_cut_upper=1.2, motion_cut_lower=0.01, distance_cut_upper=3.0, distance_cut_lower=1.0)
        if v == "des-visits":
            cfg = cfg.set("FOV", camera_model="visits_footprint", visits_query=VQ).drop("LINKINGFILTER")
            cfg["LINKINGFILTER"] = {}
    else:
        cfg = cfg.set("EXPERT", snr_limit=4.0, trailing_losses_on="True", vignetting_on="True").set("SATURATION", bright_limit="16.5,16.0")
        if v == "link":
            cfg = cfg.set("LINKINGFILTER", **sim.LINKING)
        if v == "flag":
            cfg = cfg.set("LINKINGFILTER", **sim.LINKING).set("LINKINGFILTER", drop_unlinked="False")
        if v == "footprint":
            cfg = cfg.set("FOV", camera_model="footprint", footprint_edge_threshold=2.0)
        if v == "circle":
            cfg = cfg.set("FOV", camera_model="circle", circle_radius=1.2)
        if v == "ar":
            cfg = cfg.set("LINKINGFILTER", **sim.LINKING).set("SIMULATION", ar_fov_buffer=0.2, ar_ang_fov=1.5)
    return survey, cfg


def world(v, pop):
    """pop: list of (identifier, kind). Runs it; returns the rows of the output grouped by identifier."""
    survey, cfg = config(v)
    VIS, KINDS = (DISC_VIS, DISC_KINDS) if v == "des-disc" else (globals()["VIS"], globals()["KINDS"])
    r = sim.Run("run", cfg, survey=survey, stats="stats")
    params = [sim.phys(n, H=KINDS[k]["H"], colours={"g-r": KINDS[k]["col"]}) for n, k in reversed(pop)]
    if cfg["INPUT"]["ephemerides_type"] == "external":
        ephs = []
        for n, k in pop:
            K = KINDS[k]
            for i in K["vis"]:
                w = VIS[i]
                dt = w["observationStartMJD"] - MJD0
                ephs.append(sim.eph(n, w, ra=w["fieldRA"] + K["off"][0] / math.cos(math.radians(40)) + K["rate"] * dt, dec=w["fieldDec"] + K["off"][1],
                                    rng=K["r"] - 0.8, r=K["r"], dra=K["rate"], ddec=0.01, des=survey == "DES"))
        if not ephs:
            return None
        ephs.sort(key=lambda e: (e["FieldID"], -len(e["ObjID"])))
        r.inputs(VIS, [sim.kep_orbit(n) for n, _ in pop], params, ephs)
    else:
        t0 = arstub.tdb(MJD0)
        orbits = []
        for n, k in pop:
            K = KINDS[k]
            ra, dec = (30 + K["off"][0] / math.cos(math.radians(40)), -40 + K["off"][1]) if k != "N" else (200.0, 10.0)
            orbits.append(arstub.bcart_orbit(n, *arstub.place(ra, dec, K["r"] - 0.8, t0, K["rate"] * 0.5, 0.02), epoch=MJD0))
        r.inputs(VIS, orbits, params, None, orbit_cols=arstub.BCART_COLS)
    if v == "des-visits":
        visits_db(r.p("visits.db"))
        r.visits_db = r.p("visits.db")
    r.go()
    by = {}
    for x in r.rows() or []:
        by.setdefault(x["ObjID"], []).append(x)
    st = {}
    for x in r.stats_rows() or []:
        if x["number_obs"]:
            st.setdefault(x["ObjID"], []).append(x)
    return by, st


def same(a, b):
    if len(a) != len(b):
        return "%d rows instead of %d" % (len(b), len(a))
    ka = sorted(a, key=lambda x: (x.get("FieldID", 0), x["optFilter"]))
    kb = sorted(b, key=lambda x: (x.get("FieldID", 0), x["optFilter"]))
    for x, y in zip(ka, kb):
        if list(x) != list(y):
            return "columns %s / %s" % (list(x), list(y))
        for c in x:
            if c == "ObjID":
                continue
            p, q = x[c], y[c]
            if isinstance(p, float) and isinstance(q, float):
                if not (math.isclose(p, q, rel_tol=1e-9, abs_tol=1e-12) or (p != p and q != q)):
                    return "%s: %r instead of %r" % (c, q, p)
            elif str(p) != str(q):
                return "%s: %r instead of %r" % (c, q, p)
    return None


_MEMO = {}


def alone(v, k):
    """The single-object run; also the reference fate of the kind."""
    if (v, k) not in _MEMO:
        w = world(v, [("obj", k)])
        _MEMO[(v, k)] = (w[0].get("obj", []), w[1].get("obj", [])) if w else ([], [])
    return _MEMO[(v, k)]


def case(v, scheme, kinds, rec):
    pop = list(zip(SCHEMES[scheme], kinds))
    obj = dict(variant=v, scheme=scheme, kinds=list(kinds))
    if scheme == "missing":  # one finding, however it shows
        class One:
            def __getattr__(self, n):
                return getattr(outer, n)

            def violation(self, sig, msg, obj=None):
                outer.violation("missing-marker-id", msg, obj)

            def check(self, cond, sig, msg, obj=None):
                return outer.check(cond, "missing-marker-id", msg, obj)
        outer, rec = rec, One()
    want = {n: alone(v, k) for n, k in pop}
    try:
        w = world(v, pop)
    except (Exception, SystemExit) as e:
        rec.violation("crash:%s:%s" % (v, scheme), "population %s cannot be simulated: %r" % (pop, e), obj)
        return
    if w is None:
        return
    by, st = w
    rec.state((v, scheme, kinds))
    rec.step(len(kinds))
    rec.trace()
    rec.outcome((v, tuple(sorted((k, len(want[n][0])) for n, k in pop))))
    for x in set(by) | set(st):
        rec.check(x in want, "ids:%s:%s" % (v, scheme), "identifier %r is reported, population %s" % (x, pop), obj)
    for n, k in pop:
        d = same(want[n][0], by.get(n, []))
        rec.check(d is None, "rows:%s:%s" % (v, scheme), lambda: "object %r (kind %s) in population %s differs from its own run: %s" % (n, k, pop, d), obj)
        d2 = same(want[n][1], st.get(n, []))
        rec.check(d2 is None, "stats:%s:%s" % (v, scheme), lambda: "statistics of %r (kind %s) in %s: %s" % (n, k, pop, d2), obj)


def run(shard, rec):
    v, scheme, first, n, deep = shard
    others = [k for k in KINDS if k != first]
    rec.sample(dict(variant=v, identifiers=SCHEMES[scheme], kinds=KINDS[first] and first))
    for ln in range(1, n + 1):
        pool = others if ln < 3 or deep else [k for k in others if k in "ACN"]
        for rest in itertools.permutations(pool, ln - 1):
            case(v, scheme, (first,) + rest, rec)


def replay(obj, rec):
    case(obj["variant"], obj["scheme"], tuple(obj["kinds"]), rec)
