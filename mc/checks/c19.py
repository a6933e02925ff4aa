"""C19: The ephemeris search never misses an object in the field."""
import itertools
import math
import os

from mc import arstub, sim

PID = "C19"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of visit time sequences (order and spacing, every sequence up to a length), of field positions x object offsets over the whole sky and of search settings on complete runs of the real generator, against testing every object at every visit directly"
NOTE = (
    "Complete runs of the real generator (spatial index, pickets, interpolation, light time) over stand-in dynamics in which objects move in straight lines. The oracle computes every object's apparent position at every visit on its own: objects within the "
    "search radius (less the bound of the interpolation error that parallax causes) have to be reported once, objects outside it not at all, for every sequence of visit times up to a length, forward and backward, and independent of pixel size, picket "
    "interval and chunking. Objects faster than 3 degrees per day or closer than 0.1 au are outside the bound (the generator documents that it may miss them)."
)
BOUND = {
    "quick": "all sequences of up to 4 visits over 13 time steps (forward and backward, across all picket boundaries) x 7 objects; 20 fields x 8 directions x 9 distances from the centre x 3 motions for 14 settings of radius, buffer, pixel order, picket interval and sub-intervals",
    "thorough": "all sequences of up to 5 visits over 11 steps, of up to 4 over 18; 20 fields for 40 settings; 4 chunk sizes",
}

STEPS = (0.0, 0.2, 0.49, 0.51, 0.8, 1.01, 1.49, 1.52, 2.3, -0.3, -0.7, -1.2, -1.6)
MORE = (-0.49, -0.51, -1.0, 5.0, -9.3)
T0 = 60000.3
T0D = T0 + 2400000.5 - arstub.JD_REF  # the epoch of the orbits is TDB


def unit(ra, dec):
    a, d = math.radians(ra), math.radians(dec)
    return (math.cos(a) * math.cos(d), math.sin(a) * math.cos(d), math.sin(d))


def angle(u, v):
    c = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    return math.degrees(math.atan2(math.sqrt(sum(x * x for x in c)), sum(x * y for x, y in zip(u, v))))


def offset(ra, dec, dist, pa):
    """Position at an angular distance and position angle."""
    a, d, s, p = (math.radians(x) for x in (ra, dec, dist, pa))
    z = math.sin(d) * math.cos(s) + math.cos(d) * math.sin(s) * math.cos(p)
    x = math.cos(d) * math.cos(s) - math.sin(d) * math.sin(s) * math.cos(p)
    y = math.sin(s) * math.sin(p)
    return math.degrees(a + math.atan2(y, x)) % 360.0, math.degrees(math.atan2(z, math.hypot(x, y)))


def seen(r0, v0, t0, mjd_mid, code):
    t = arstub.tdb(mjd_mid)
    ro, _ = arstub.obs_state(t, code)
    p, _ = arstub.apparent(r0, v0, t0, t, ro)
    rho = [a - b for a, b in zip(p, ro)]
    d = math.sqrt(sum(x * x for x in rho))
    return [x / d for x in rho], d


def judge(visits, objs, conf, rec, tag, obj, chunk=1000, code="X05"):
    """objs: (name, r0, v0, t0 [days since JD_REF], epoch MJD). Runs the real code and compares."""
    d = os.path.join(os.getcwd(), "run")
    cfg = sim.base_config(ephem="ar", filters="r", chunk=chunk).set("EXPERT", brute_force="True").set("SIMULATION", ar_obs_code=code, **conf)
    R = sim.Run(d, cfg, eph_out="e")
    R.inputs(visits, [arstub.bcart_orbit(n, r, v, ep) for n, r, v, t, ep in objs], [sim.phys(o[0]) for o in objs], None, orbit_cols=arstub.BCART_COLS)
    R.go()
    rec.trace()
    p = os.path.join(d, "o", "e.csv")
    rows = sim.read_csv(p) if os.path.exists(p) else []
    got = {}
    for x in rows:
        k = (x["ObjID"], int(x["FieldID"]))
        if k in got:
            rec.violation(tag + ":twice", "%s at visit %d is reported twice (%s)" % (k + (conf,)), obj)
        got[k] = x
    fov, buf = float(cfg["SIMULATION"]["ar_ang_fov"]), float(cfg["SIMULATION"]["ar_fov_buffer"])
    for v in visits:
        mid = v["observationStartMJD"] + v["visitTime"] / 2 / 86400.0
        c = unit(v["fieldRA"], v["fieldDec"])
        for n, r, w, t, ep in objs:
            u, dist = seen(r, w, t, mid, code)
            a = angle(u, c)
            has = (n, v["observationId"]) in got
            rec.step()
            rec.outcome((has, round(a / (fov + buf) * 20)))
            slack = max(0.003, 0.0055 / dist) * int(cfg["SIMULATION"]["ar_picket"]) ** 2

            def msg():
                return "%s at visit %d (MJD %.4f, sequence %s), %.4f degrees from the centre (%.3f, %.3f), radius %g + %g: %s (%s)" % (
                    n, v["observationId"], mid, [round(x["observationStartMJD"] - visits[0]["observationStartMJD"], 3) for x in visits][:8], a, v["fieldRA"], v["fieldDec"], fov, buf, "reported" if has else "not reported", conf)
            if a < max(fov if slack < buf else 0.0, fov + buf - slack) - 1e-7:
                rec.check(has, tag + ":missed", msg, obj)
            elif a > fov + buf + 1e-7:
                rec.check(not has, tag + ":outside", msg, obj)
    return got


def shards(tier):
    th = tier == "thorough"
    out = []
    if th:
        out += [["times", 11, 5, a, b] for a in range(11) for b in range(11)]
        out += [["times", 18, 4, a, b] for a in range(18) for b in range(18)]
    else:
        out += [["times", 13, 4, a, b] for a in range(13) for b in range(0, 13)]
    out += [["sky", i, part, c] for i in range(len(SETTINGS) if th else 14) for part in range(4) for c in ((1000, 7, 1) if th and i < 4 else (1000,))]
    out += [["centre", i] for i in range(8)]
    return [s + [tier] for s in out]


OBJS = (  # offset ra, dec at the start; distance; rates [deg/day]
    ("slow", 0.0, 0.1, 2.0, 0.0, 0.0), ("main", -0.2, 0.0, 1.5, 0.25, 0.1), ("apollo", 0.1, -0.2, 0.3, -1.4, 0.9), ("fast", 0.0, 0.0, 0.12, 2.7, -0.6), ("distant", 0.3, 0.3, 40.0, 0.01, -0.01),
    ("edge", 0.55, 0.0, 3.0, 0.0, 0.15), ("out", -0.9, 0.4, 2.5, 0.2, 0.0))


def times(steps, n, a, b, rec, tier):
    """All sequences of n visits; the field of each visit follows one of the objects in turn."""
    S = (STEPS + MORE)[:steps]
    base = (120.0, 15.0)
    t0 = T0D
    objs = [(name, *arstub.place(base[0] + x, base[1] + y, dist, t0, rx, ry), t0, T0) for name, x, y, dist, rx, ry in OBJS]
    if a == 0 and b == 0:
        words = [w for k in range(0, n) for w in itertools.product(range(steps), repeat=k) if k < n - 1] + [w for w in itertools.product(range(steps), repeat=n - 1) if w[:2] == (0, 0)]
    else:
        words = [(a, b) + w for w in itertools.product(range(steps), repeat=n - 3)]
    for w in words:
        mjds = [T0]
        for i in w:
            mjds.append(mjds[-1] + S[i])
        visits = []
        for j, m in enumerate(mjds):
            o = objs[(3 * j + len(w)) % 5]
            u, _ = seen(o[1], o[2], o[3], m, "X05")
            ra, dec = math.degrees(math.atan2(u[1], u[0])) % 360, math.degrees(math.asin(u[2]))
            visits.append(sim.visit(j + 1, m, "r", *offset(ra, dec, (0.1, 0.45, 0.6, 0.0)[j % 4], 77.0 * j)))
        rec.state(("times", w))
        judge(visits, objs, dict(ar_ang_fov=0.5, ar_fov_buffer=0.2, ar_healpix_order=7), rec, "times", dict(shard=["times", steps, n, a, b, tier]))


FIELDS = ((0.0, 0.0), (359.99, 0.3), (0.01, -41.8), (45.0, 41.8103), (45.0, 0.0), (22.5, 19.5), (90.0, 66.4), (120.0, -66.4), (180.0, 30.0), (200.0, -30.0), (10.0, 89.9), (250.0, 88.2), (0.0, 90.0), (0.0, -90.0),
          (77.0, -89.5), (300.0, -87.0), (270.0, 23.4), (315.0, 41.81), (330.5, -5.5), (123.4, 56.7))
#            radius, buffer, order, picket, sub-intervals
SETTINGS = ((2.06, 0.2, 6, 1, None), (2.06, 0.2, 3, 1, None), (0.3, 0.1, 5, 1, None), (0.3, 0.1, 0, 1, None), (1.1, 0.6, 8, 1, None), (3.0, 1.0, 4, 2, 50), (0.05, 0.02, 9, 1, None), (0.5, 0.0, 6, 1, None), (2.06, 0.2, 10, 1, None),
            (8.0, 2.0, 6, 1, 21), (1.0, 3.0, 7, 1, None), (2.06, 0.2, 1, 1, None), (30.0, 1.0, 5, 1, None), (2.06, 0.4, 6, 3, None))
SETTINGS += tuple((f, b, o, 1, None) for f in (0.2, 1.0, 4.0) for b in (0.1, 0.9) for o in (2, 4, 6, 8)) + ((90.0, 1.0, 4, 1, None), (170.0, 5.0, 3, 1, None))


def sky(i, part, chunk, rec, tier):
    fov, buf, order, picket, nsub = SETTINGS[i]
    t0 = T0D
    R = fov + buf
    dists = sorted(set([0.0, 0.5 * fov, fov - 1e-4, fov + 1e-4, fov + 0.5 * buf, max(R - 0.0101, 0.5 * R), R - 1e-4, R + 1e-4, 1.2 * R]))
    fields = FIELDS[part::4]
    visits = [sim.visit(100 + k, T0 + 0.011 * k * (1 if part % 2 else -1) + (0.3 if k % 3 == 2 else 0), "r", *f) for k, f in enumerate(fields)]
    objs = []
    for k, f in enumerate(fields):
        for q in dists:
            for n in range(8 if q else 1):
                for m in ((n % 3,) if q else range(3)):
                    ra, dec = offset(*f, min(q, 179.0), 45.0 * n + 11.0)
                    rr, rd = ((0.0, 0.0), (0.6, -0.3), (-1.0, 1.2))[m] if picket == 1 else (0.0, 0.0)
                    tv = arstub.tdb(visits[k]["observationStartMJD"] + 17.0 / 86400)
                    r, v = arstub.place(ra, dec, (2.0, 1.2, 5.0, 30.0)[n % 4], tv, rr, rd)
                    r = [x - y * (t0 - tv) * -1 for x, y in zip(r, v)]
                    objs.append(("o%d" % len(objs), r, v, t0, T0))
        rec.state(("sky", i, f))
    conf = dict(ar_ang_fov=fov, ar_fov_buffer=buf, ar_healpix_order=order, ar_picket=picket)
    if nsub:
        conf["ar_n_sub_intervals"] = nsub
    judge(visits, objs, conf, rec, "sky", dict(shard=["sky", i, part, chunk, tier]), chunk)


def centre(i, rec, tier):
    """Objects exactly at the centre of their field (the apparent position is put into the field's coordinates)."""
    t0 = T0D
    objs, visits = [], []
    for k in range(60):
        m = T0 + 0.01 * k
        ra, dec = (37.7 * k + 11.3 * i) % 360.0, math.degrees(math.asin(((k * 0.618 + i * 0.37) % 2.0) - 1.0))
        r, v = arstub.place(ra, dec, 1.0 + 0.1 * k, t0, 0.1, 0.1)
        objs.append(("c%d" % k, r, v, t0, T0))
        u, _ = seen(r, v, t0, m + 17.0 / 86400, "X05")
        visits.append(sim.visit(k, m, "r", math.degrees(math.atan2(u[1], u[0])) % 360.0, math.degrees(math.atan2(u[2], math.hypot(u[0], u[1])))))
        rec.state(("centre", i, k))
    judge(visits, objs, dict(ar_ang_fov=0.5, ar_fov_buffer=0.1, ar_healpix_order=6), rec, "centre", dict(shard=["centre", i, tier]))


def warm():
    import sorcha.sorcha  # noqa: F401


def run(shard, rec):
    kind = shard[0]
    if kind == "times":
        times(*shard[1:5], rec, shard[-1])
    elif kind == "sky":
        sky(*shard[1:4], rec, shard[-1])
    else:
        centre(shard[1], rec, shard[-1])
