"""C20: Generated ephemeris rows are geometrically consistent."""
import itertools
import math
import os

from mc import arstub, sim

PID = "C20"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of object directions (poles, RA wrap, opposition, conjunction) x distances x velocities x accelerations x observers x visit times on complete runs of the real generator over stand-in dynamics, every column of every row against an independent computation"
NOTE = (
    "Complete runs of the real generator over stand-in dynamics with a search radius of nearly the whole sky, so that every object gives a row at every visit. All 23 columns are compared with values the check computes on its own in closed form (state of the "
    "object at the light-time corrected epoch; observer and Sun at the visit). Frame and angle conversions are also enumerated directly, against their definitions and each other. The real SPICE and ASSIST data are not available, so their own accuracy is not judged."
)
BOUND = {
    "quick": "34 directions + 14 Sun alignments x 6 distances (0.003 to 700 au) x 5 velocities x 2 accelerations at 4 visit times for each of 6 observatories; 2,600 positions for the conversions",
    "thorough": "the same with 10 distances, 8 velocities, 3 accelerations and 8 visit times; 40,000 positions",
}

T0 = 60123.4
SPEED = 86400.0 / arstub.AU_KM  # km/s -> au/day
DIRS = tuple((ra, dec) for ra in (0.0, 1e-9, 359.9999999, 90.0, 180.0, 222.2, 270.0) for dec in (-60.0, 0.0, 33.3)) + (
    (0.0, 90.0), (0.0, -90.0), (45.0, 89.999), (300.0, -89.999), (123.0, 89.9999999), (31.0, -89.9999), (200.0, 89.99999999999), (0.0, -1e-9), (359.999999999999, 1e-12), (180.00000000001, 0.0), (0.0, 66.56), (90.0, -23.439), (270.0, 66.56))
DISTS = (0.003, 0.1, 1.0, 5.2, 40.0, 700.0)
VELS = ((0.0, 0.0, 0.0), (30.0, 0.0, 0.0), (-12.0, 25.0, 4.0), (0.0, -3.0, 60.0), (-45.0, -45.0, -45.0))
ACCS = ((0.0, 0.0, 0.0), (2e-4, -1e-4, 1.5e-4))
MORE_D, MORE_V, MORE_A = (0.02, 0.35, 2.4, 15.0), ((0.5, 0.5, 0.1), (0.0, 70.0, 0.0), (4.0, -0.3, -20.0)), ((-1e-4, -3e-4, 0.0),)
TIMES = (0.0, 0.49, 3.9, -2.3)
MORE_T = (1e-3, 30.7, 180.0, -365.25)
CODES = ("X05", "W84", "I11", "000", "EQ0", "POL")


def dot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def norm(a):
    return math.hypot(*a)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def angle(a, b):
    return math.degrees(math.atan2(norm(cross(a, b)), dot(a, b)))


def unit(ra, dec):
    a, d = math.radians(ra), math.radians(dec)
    return [math.cos(a) * math.cos(d), math.sin(a) * math.cos(d), math.sin(d)]


def path(o, t):
    dt = t - o["t0"]
    return [o["r"][i] + o["v"][i] * dt + o["acc"][i] * dt * dt / 2 for i in range(3)], [o["v"][i] + o["acc"][i] * dt for i in range(3)]


def put(target, dist, v, acc, t):
    """The state at the epoch t of an object that is at `target` (barycentric) when its light leaves to be seen at t."""
    dt = -dist / arstub.C_AUD
    return [target[i] - v[i] * dt - acc[i] * dt * dt / 2 for i in range(3)]


def truth(o, t, code):
    """Closed-form row for the object at the visit time t (days since JD_REF)."""
    ro, vo = arstub.obs_state(t, code)
    rs, vs = arstub.sun_state(t)
    lt = 0.0
    for _ in range(80):
        p, v = path(o, t - lt)
        n = norm(sub(p, ro)) / arstub.C_AUD
        if n == lt:
            break
        lt = n
    rho = sub(p, ro)
    d = norm(rho)
    n = [x / d for x in rho]
    rr = dot(n, sub(v, vo))
    tau = dot(n, sub(v, vo)) / (arstub.C_AUD + dot(n, v))
    w = [(v[i] * (1 - tau) - vo[i]) / d for i in range(3)]
    perp = [w[i] - dot(w, n) * n[i] for i in range(3)]
    return dict(n=n, d=d, rr=rr, perp=perp, rs=sub(p, rs), vs=sub(v, vs), os=sub(ro, rs), ovs=sub(vo, vs), phase=angle(sub(p, rs), rho), vrel=norm(sub(v, vo)), p=p, ro=ro)


def judge_row(x, o, v, t, code, rec, obj):
    g = truth(o, t, code)
    bad = []

    def near(col, want, tol):
        y = x[col]
        if not (isinstance(y, (int, float)) and abs(y - want) <= tol):
            bad.append("%s = %r, expected %.12g" % (col, y, want))

    k, kv = arstub.AU_KM, arstub.AU_KM / 86400.0
    near("fieldMJD_TAI", v["observationStartMJD"] + v["visitTime"] / 2 / 86400.0, 1e-9)
    near("fieldJD_TDB", t + arstub.JD_REF, 2e-9)
    # positions of the order of the distance and of 1 au, subtracted in double precision; three light-time iterations
    km = 1e-9 * (g["d"] + 1.0) * k
    near("Range_LTC_km", g["d"] * k, 1e-9 * g["d"] * k + 0.01)
    near("RangeRate_LTC_km_s", g["rr"] * kv, 1e-5 * g["vrel"] * kv + 2e-8 * kv + 1e-9)
    dv = norm(o["acc"]) * kv * (6e-10 + (g["vrel"] / arstub.C_AUD + 1e-4) ** 2 * (g["d"] / arstub.C_AUD + 0.01))
    for i, c in enumerate("xyz"):
        near("Obj_Sun_%s_LTC_km" % c, g["rs"][i] * k, km)
        near("Obj_Sun_v%s_LTC_km_s" % c, g["vs"][i] * kv, 1e-7 + dv)
        near("Obs_Sun_%s_km" % c, g["os"][i] * k, 0.5)
        near("Obs_Sun_v%s_km_s" % c, g["ovs"][i] * kv, 2e-6)
    ra, dec = x["RA_deg"], x["Dec_deg"]
    # rounding of positions and of Julian dates, and what the third light-time iteration leaves
    beta = (g["vrel"] + 0.02) / arstub.C_AUD
    pos = 1e-12 * (1 + g["d"]) + (0.02 + g["vrel"]) * (6e-10 + beta**2 * (g["d"] / arstub.C_AUD + 0.01))
    small = math.degrees(pos / g["d"]) + 1e-10
    if not (0 <= ra < 360 and -90 <= dec <= 90):
        bad.append("RA, Dec = %r, %r out of range" % (ra, dec))
    else:
        pole = math.degrees(math.hypot(g["n"][0], g["n"][1]))
        off = angle(unit(ra, dec), g["n"])
        if off > small + min(2e-6, 2e-14 / max(1e-20, math.radians(pole)) * 60):
            bad.append("RA, Dec = %.10f, %.10f is %.3g degrees off" % (ra, dec, off))
        # Rates: the tangential part of the derivative, in the local basis at the reported position
        a, dd = math.radians(ra), math.radians(dec)
        ea, ed = (-math.sin(a), math.cos(a), 0.0), (-math.sin(dd) * math.cos(a), -math.sin(dd) * math.sin(a), math.cos(dd))
        speed = math.degrees(norm(g["perp"]))
        tol = 1e-6 * math.degrees(g["vrel"] / g["d"]) + 1e-10 + (speed * min(1.0, 1e-13 / math.radians(pole)) if pole else 0.0)
        if pole > 1e-10:
            near("RARateCosDec_deg_day", math.degrees(dot(ea, g["perp"])), tol)
            near("DecRate_deg_day", math.degrees(dot(ed, g["perp"])), tol)
        got = math.hypot(x["RARateCosDec_deg_day"], x["DecRate_deg_day"])
        if not abs(got - speed) <= 2e-6 * math.degrees(g["vrel"] / g["d"]) + 1e-9:
            bad.append("speed on the sky = %r, expected %.12g" % (got, speed))
    # arccos resolves angles near 0 and 180 to 2e-8 rad
    s = math.sin(math.radians(g["phase"]))
    near("phase_deg", g["phase"], (3e-6 if s < 1e-4 else 1e-11 / s) + small + math.degrees(pos / norm(g["rs"])))
    rec.check(not bad, "row:" + (bad[0].split(" ")[0].strip(",") if bad else ""), lambda: "%s (%s) seen from %s at MJD %.5f: %s" % (o["name"], o["what"], code, v["observationStartMJD"], "; ".join(bad)), obj)
    # closure: object - Sun and observer - Sun differ by the line of sight
    los = [x["Obj_Sun_%s_LTC_km" % c] - x["Obs_Sun_%s_km" % c] for c in "xyz"]
    rec.check(abs(norm(los) - x["Range_LTC_km"]) <= 1e-9 * (norm(los) + k), "row:closure", lambda: "%s (%s): the Sun states differ by %.9g km, the range is %.9g" % (o["name"], o["what"], norm(los), x["Range_LTC_km"]), obj)
    rec.step()
    rec.outcome((round(math.log10(g["d"]), 1), round(g["phase"] / 20), round(g["rr"] * kv / 5)))


def shards(tier):
    th = tier == "thorough"
    out = []
    for c in CODES:
        for a in range(3 if th else 2):
            for k in range(len(DISTS) + (len(MORE_D) if th else 0)):
                out += [["grid", c, a, k], ["align", c, a, k]]
    out += [["conv", i] for i in range(16 if th else 4)]
    out += [["frame", 0]]
    return [s + [tier] for s in out]


def objects(kind, code, acc, dist, vels, t):
    ro, _ = arstub.obs_state(t, code)
    rs, _ = arstub.sun_state(t)
    objs = []
    if kind == "grid":
        for ra, dec in DIRS:
            u = unit(ra, dec)
            if dec in (90.0, -90.0):
                u = [0.0, 0.0, math.copysign(1.0, dec)]
            objs.append((u, dist, "direction %r %r" % (ra, dec)))
    else:  # in line with the Sun: beyond the observer, between the two, beyond the Sun, and slightly off
        away = sub(ro, rs)
        d = norm(away)
        away = [x / d for x in away]
        side = cross(away, [0.3, -0.5, 0.8])
        side = [x / norm(side) for x in side]
        for s in (1.0, -1.0):
            for off in (0.0, 1e-9, 1e-7, 1e-5, 1e-3, 0.1, 0.7):
                u = [s * math.cos(off) * away[i] + math.sin(off) * side[i] for i in range(3)]
                objs.append((u, dist, "%g rad from the %s" % (off, "antisun" if s > 0 else "Sun")))
    out = []
    for (u, q, what), v in itertools.product(objs, vels):
        v = [x * SPEED for x in v]
        r = put([ro[i] + q * u[i] for i in range(3)], q, v, acc, t)
        out.append(dict(name="o%d" % len(out), what="%s, %g au, velocity %s" % (what, q, [round(x, 5) for x in v]), r=r, v=v, acc=acc, t0=t))
    return out


def rows(kind, code, a, k, rec, tier):
    th = tier == "thorough"
    acc = list((ACCS + MORE_A)[a])
    dist = (DISTS + MORE_D)[k]
    vels = VELS + (MORE_V if th else ())
    # the epoch of the orbits is that of the first visit's middle as the generator sees it
    visits = [sim.visit(10 + i, T0 + dt, "r", (40.0 + 100 * i) % 360, (-20.0, 35.0, 0.0, 80.0)[i % 4]) for i, dt in enumerate(TIMES + (MORE_T if th else ()))]
    mids = [arstub.tdb(v["observationStartMJD"] + v["visitTime"] / 2 / 86400.0) for v in visits]
    epoch = mids[0] + arstub.JD_REF - 2400000.5
    objs = objects(kind, code, acc, dist, vels, mids[0])
    for o in objs:
        o["t0"] = epoch + 2400000.5 - arstub.JD_REF
    obj = dict(shard=[kind, code, a, k, tier])
    d = os.path.join(os.getcwd(), "run")
    cfg = sim.base_config(ephem="ar", filters="r").set("EXPERT", brute_force="True").set("SIMULATION", ar_obs_code=code, ar_ang_fov=179.0, ar_fov_buffer=0.9, ar_healpix_order=1)
    R = sim.Run(d, cfg, eph_out="e")
    R.inputs(visits, [arstub.bcart_orbit(o["name"], o["r"], o["v"], epoch) for o in objs], [sim.phys(o["name"]) for o in objs], None, orbit_cols=arstub.BCART_COLS)
    arstub.ACC[:] = acc
    try:
        R.go()
    finally:
        arstub.ACC[:] = [0.0, 0.0, 0.0]
    rec.trace()
    p = os.path.join(d, "o", "e.csv")
    got = {(x["ObjID"], int(x["FieldID"])): x for x in (sim.read_csv(p) if os.path.exists(p) else [])}
    for o in objs:
        rec.state((kind, code, a, k, o["name"]))
        for v, t in zip(visits, mids):
            x = got.pop((o["name"], v["observationId"]), None)
            if x is not None:
                judge_row(x, o, v, t, code, rec, obj)
            elif dist >= 0.1 and abs(t - mids[0]) < 5:
                rec.violation("row:none", "%s (%s) seen from %s at MJD %.5f has no row" % (o["name"], o["what"], code, v["observationStartMJD"]), obj)
    rec.check(not got, "row:extra", lambda: "rows of unknown object and visit: %s" % list(got)[:3], obj)


def conv(i, rec, tier):
    """RA, Dec -> vector -> RA, Dec on a grid with every special value."""
    import numpy as np
    from sorcha.ephemeris.simulation_geometry import ecliptic_to_equatorial, equatorial_to_ecliptic, ra_dec2vec, vec2ra_dec

    th = tier == "thorough"
    ras = [0.0, 1e-12, 1e-7, 45.0, 90.0, 90.0 - 1e-9, 180.0, 270.0, 359.0, 360.0 - 1e-7, 360.0 - 1e-12, math.nextafter(360.0, 0), 5e-324] + [(k * 137.50776 + 7.0 * i) % 360 for k in range(60 if th else 12)]
    decs = [-90.0, math.nextafter(-90.0, 0), -90 + 1e-9, -90 + 1e-6, -45.0, 0.0, -1e-12, 1e-300, 30.0, 89.9, 90 - 1e-6, 90 - 1e-9, math.nextafter(90.0, 0), 90.0] + [-89 + (k * 11.3 + 3.1 * i) % 178 for k in range(40 if th else 12)]
    obj = dict(shard=["conv", i, tier])
    for ra, dec in itertools.product(ras, decs):
        rec.state(("conv", ra, dec))
        rec.step()
        u = ra_dec2vec(ra, dec)
        w = unit(ra, dec)
        rec.check(norm(sub(list(u), w)) < 1e-14, "conv:vector", lambda: "ra_dec2vec(%r, %r) = %s, expected %s" % (ra, dec, list(u), w), obj)
        for vec in (u, np.nextafter(u, 2 * u), np.nextafter(u, 0 * u)):
            a, d = vec2ra_dec(vec)
            tol = 1e-10 if abs(dec) < 89 else 2.5e-6
            rec.check(0 <= a < 360 and -90 <= d <= 90 and angle(unit(a, d), w) < tol, "conv:angles", lambda: "vec2ra_dec of the direction (%r, %r) gives %r, %r" % (ra, dec, a, d), obj)
        e = equatorial_to_ecliptic(u)
        lon, lat = math.atan2(w[1] * math.cos(arstub.OBL) + w[2] * math.sin(arstub.OBL), w[0]), math.asin(max(-1, min(1, w[2] * math.cos(arstub.OBL) - w[1] * math.sin(arstub.OBL))))
        rec.check(angle(list(e), unit(math.degrees(lon), math.degrees(lat))) < 2.5e-6, "conv:ecliptic", lambda: "the direction (%r, %r) is ecliptic %s, expected longitude %r, latitude %r" % (ra, dec, list(e), math.degrees(lon), math.degrees(lat)), obj)
        rec.check(norm(sub(list(ecliptic_to_equatorial(e)), w)) < 1e-14, "conv:inverse", lambda: "equatorial to ecliptic and back moves (%r, %r) by %g" % (ra, dec, norm(sub(list(ecliptic_to_equatorial(e)), w))), obj)
    rec.trace()
    # an array of positions is converted like each of them
    vs = ra_dec2vec(np.array(ras), np.array([decs[k % len(decs)] for k in range(len(ras))]))
    rec.check(all(norm(sub(list(vs[k]), unit(ras[k], decs[k % len(decs)]))) < 1e-14 for k in range(len(ras))), "conv:array", lambda: "ra_dec2vec of arrays differs from that of the elements", obj)


def frame(rec, tier):
    """Observatory positions from their geocentric coordinates, including zero longitude, sine and cosine."""
    from sorcha.ephemeris.simulation_parsing import Observatory

    ob = Observatory.__new__(Observatory)
    vals = (0.0, 1e-12, 0.5, -0.5, 1.0, -1.0)
    obj = dict(shard=["frame", 0, tier])
    for lon, c, s in itertools.product((0.0, 1e-9, 90.0, 180.0, 289.25, 359.999, -70.0), vals, vals):
        rec.state(("frame", lon, c, s))
        rec.step()
        got = ob.convert_to_geocentric({"Longitude": lon, "cos": c, "sin": s})
        want = (c * math.cos(math.radians(lon)), c * math.sin(math.radians(lon)), s)
        rec.check(None not in got and norm(sub(got, want)) < 1e-14, "frame:place", lambda: "longitude %r, cos %r, sin %r is put at %s, expected %s" % (lon, c, s, got, want), obj)
    for part in ({}, {"Longitude": 1.0}, {"Longitude": 1.0, "cos": 0.5}, {"cos": 0.5, "sin": 0.5}, {"Name": "Hubble"}):
        rec.step()
        rec.check(tuple(ob.convert_to_geocentric(part)) == (None, None, None), "frame:moving", lambda: "the observatory %s without fixed place is put at %s" % (part, ob.convert_to_geocentric(part)), obj)


def warm():
    import sorcha.sorcha  # noqa: F401


def run(shard, rec):
    kind = shard[0]
    if kind in ("grid", "align"):
        rows(*shard[:4], rec, shard[-1])
    elif kind == "conv":
        conv(shard[1], rec, shard[-1])
    else:
        frame(rec, shard[-1])
