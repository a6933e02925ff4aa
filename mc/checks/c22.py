"""C22: All orbit formats of the same orbit give the same state."""
import itertools
import math
import os
from collections import namedtuple

import numpy as np
import pandas as pd

from mc import arstub, kepler, sim

PID = "C22"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of a grid of orbits (perihelion x eccentricity x orientation x position x direction) through every conversion of the real code in every format and of all sequences of epochs, against 60-digit two-body formulae"
NOTE = (
    "Every orbit of a grid that includes circular, near-parabolic, parabolic and hyperbolic shapes, zero, right-angle and half-turn orientations, and positions from perihelion to aphelion or far out on both legs is converted by the compiled production code. "
    "Elements to state is compared with classical two-body formulae evaluated with 60 digits; state to elements is judged by the state those elements describe. The rows of all six formats, alone and in every sequence of epochs, must "
    "lead to the initial state of the simulated particle, and complete runs to the same ephemeris."
)
BOUND = {
    "quick": "5 perihelia x 20 eccentricities x up to 17 times x 3 of 12 orientations (elements to state); 3 x 20 x up to 14 x 16 orientations (state to elements); 6 formats x 12 shapes x 9 positions x 3 epochs; all sequences of up to 3 rows over 9 kinds of row (epochs equal, on the same day and days apart); 18 runs",
    "thorough": "all 16 orientations x 7 perihelia x 33 eccentricities in both directions; all sequences of up to 4 rows; 54 runs",
}

GS, GT = 2.9591220828411956e-04, 2.9630927493457475e-04
PI = math.pi
QS = (0.005, 0.3, 1.0, 5.0, 40.0)
QS2 = (0.05, 500.0)
ES = (0.0, 1e-12, 1e-9, 0.01, 0.3, 0.8, 0.97, 0.999, 0.9999, 1 - 1e-6, 1 - 1e-9, 1 - 1e-13, 1.0, 1 + 1e-13, 1 + 1e-9, 1 + 1e-6, 1.01, 1.2, 3.0, 8.0)
ES2 = (1e-5, 0.05, 0.1, 0.6, 0.9, 0.99, 0.99999, 1 - 1e-7, 1 - 2.3e-16, 1 + 1e-15, 1.0001, 1.5, 2.0)
ORIENT = ((0.0, 0.0, 0.0), (0.0, 1.0, 2.0), (PI, 0.0, 0.0), (PI, 0.5, 3.0), (PI / 2, 0.0, 0.0), (PI / 2, PI / 2, 1.0), (PI / 2, PI, 4.0), (PI / 2, 2.0, PI / 2), (1e-9, 3.0, 1.0), (0.3, 5.0, PI), (1.2, 6.2, 0.1),
          (3.0, 0.0, 1.5 * PI), (PI - 1e-9, 3.0, 1.0), (0.7, PI / 2, 0.0), (0.7, 1.5 * PI, PI), (0.01, 6.283, 6.283))


def times(q, e):
    n = math.sqrt(GS / q ** 3)
    far = 1000.0 if e < 1.01 else 20.0
    out = [0.0] + [s * x / n for s in (1, -1) for x in (1e-6, 0.01, 0.5, 1.0, 3.0, 20.0, 1000.0) if x <= far and (e < 0.99 or x / n < 1e6)]
    if e <= 0.9999:
        P = 2 * PI * math.sqrt((q / (1 - e)) ** 3 / GS)
        out += [P * f for f in (0.5, -0.5, 0.25, -0.25, 0.499999, 0.9999, 1.5, -2.3)]
    return out


def dec(v):
    return [float(x) for x in v]


def err(got, r, v):
    """Relative error of a state."""
    r, v = dec(r), dec(v)
    if not all(map(math.isfinite, got)):
        return math.inf
    return max(math.dist(got[:3], r) / math.hypot(*r), math.dist(got[3:], v) / math.hypot(*v))


def cat(e):
    return "circular" if e < 1e-6 else "elliptic" if e < 0.99 else "near-parabolic" if e <= 1.001 else "hyperbolic"


def warm():
    import sorcha.sorcha  # noqa: F401
    from sorcha.ephemeris.orbit_conversion_utilities import universal_cartesian, universal_cometary, universal_keplerian
    s = universal_cartesian(GS, 1.0, 0.1, 0.1, 0.1, 0.1, 0.0, 10.0)
    universal_cometary(GS, *s, 10.0)
    universal_keplerian(GS, *s, 10.0)


def shards(tier):
    th = tier == "thorough"
    qs, es = QS + (QS2 if th else ()), ES + (ES2 if th else ())
    out = [["forward", q, e] for q in qs for e in es]
    out += [["back", q, e] for q in (qs if th else (0.005, 1.0, 40.0)) for e in es]
    out += [["format", i] for i in range(len(SHAPES))]
    out += [["seq", k, a] for k in range(1, 5 if th else 4) for a in (range(len(KINDS)) if k > 2 else [None])]
    out += [["run", i, c] for i in range(6) for c in ((1, 2, 10) if th else (2,))]
    return [s + [tier] for s in out]


def forward(q, e, tier, rec):
    from sorcha.ephemeris.orbit_conversion_utilities import universal_cartesian
    for k, dt in enumerate(times(q, e)):
        p, w = kepler.plane(GS, q, e, dt)
        for o in (ORIENT if tier == "thorough" else [ORIENT[(3 * k + j) % len(ORIENT)] for j in (0, 5, 11)]):
            r, v = kepler.turned(p, *o), kepler.turned(w, *o)
            for tp in (0.0,) if k % 3 else (0.0, 60000.0):
                got = universal_cartesian(GS, q, e, *o, tp, tp + dt)
                rec.step()
                rec.trace()
                rec.state(("f", q, e, dt, o, tp))
                # rounding of the times themselves, seen as motion along the orbit
                tol = 1e-10 + 1e-13 / max(abs(1 - e), 1e-4) + 4e-16 * (abs(tp) + abs(dt)) * (math.hypot(*dec(v)) / math.hypot(*dec(r)) + GS / float(sum(x * x for x in r)) / math.hypot(*dec(v)))
                x = err(got, r, v)
                rec.outcome((cat(e), x < 1e-12))
                rec.check(x <= tol, "state:" + cat(e), lambda: "elements to state, q=%r e=%r inc,node,arg=%s %r days from perihelion: got %s, exact %s (relative error %.2g)" % (q, e, o, dt, got, dec(r) + dec(v), x),
                          dict(shard=["forward", q, e, tier]))


def back(q, e, tier, rec):
    from sorcha.ephemeris.orbit_conversion_utilities import universal_cometary, universal_keplerian
    for k, dt in enumerate(times(q, e)):
        p, w = kepler.plane(GS, q, e, dt)
        for o in ORIENT:
            r, v = dec(kepler.turned(p, *o)), dec(kepler.turned(w, *o))
            ep = (0.0, 60000.0, 2460000.5)[k % 3]
            got = universal_cometary(GS, *r, *v, ep)
            rec.step()
            rec.trace()
            rec.state(("b", q, e, dt, o))
            obj = dict(shard=["back", q, e, tier])
            tag = cat(e)

            def msg(what):
                return "state to elements, q=%r e=%r inc,node,arg=%s %r days from perihelion: %s (got %s)" % (q, e, o, dt, what, got)

            if not rec.check(all(map(math.isfinite, got)), "elements:" + tag, lambda: msg("not finite"), obj):
                continue
            far = math.hypot(*r) / q  # the velocity of a distant object fixes its orbit badly
            tol = 1e-10 * (1 + far ** 0.5 / 10)
            rec.check(abs(got[0] / q - 1) < tol and abs(got[1] - e) < tol, "shape:" + tag, lambda: msg("perihelion or eccentricity differ by %.2g, %.2g" % (got[0] / q - 1, got[1] - e)), obj)
            rec.check(0 <= got[2] <= PI + 1e-15 and abs(got[2] - o[0]) < 1e-10, "inclination", lambda: msg("inclination differs"), obj)
            rr, vv = kepler.state(GS, float(got[0]), float(got[1]), float(got[2]), float(got[3]), float(got[4]), ep - float(got[5]))
            x = err(r + v, rr, vv)
            rate = math.hypot(*v) / math.hypot(*r) + GS / sum(z * z for z in r) / math.hypot(*v)
            tol2 = 1e-9 + 1e-15 * (abs(ep) + abs(dt)) * rate
            rec.outcome((tag, x < 1e-12))
            rec.check(x <= tol2, "roundtrip:" + tag, lambda: msg("these elements describe the state %s instead of %s (relative error %.2g)" % (dec(rr) + dec(vv), r + v, x)), obj)
            if e < 0.98:
                kep = universal_keplerian(GS, *r, *v, ep)
                a, e2, i2, n2, w2, M = map(float, kep)
                t = kepler.D(M) * (kepler.D(a) ** 3 / kepler.D(GS)).sqrt()
                rr, vv = kepler.state(GS, kepler.D(a) * (1 - kepler.D(e2)), e2, i2, n2, w2, t)
                x = err(r + v, rr, vv)
                rec.check(x <= tol2 + 1e-15 * abs(ep) / abs(1 - e), "keplerian:" + tag, lambda: msg("the Keplerian elements %s describe another state (relative error %.2g)" % (kep, x)), obj)


# ---------------------------------------------------------------- rows of every format
FORMATS = ("KEP", "COM", "CART", "BKEP", "BCOM", "BCART")
SHAPES = ((1.2, 0.0), (2.0, 1e-4), (0.4, 0.3), (3.0, 0.15), (39.0, 0.25), (0.9, 0.967), (5.0, 0.9999), (1.0, 1 - 1e-7), (2.0, 1.0), (1.5, 1 + 1e-7), (0.25, 1.2), (1.4, 3.36))
ANG = ((0.0, 0.0, 0.0), (10.0, 80.0, 300.0), (90.0, 200.0, 10.0), (170.0, 350.0, 90.0), (35.0, 180.0, 180.0), (180.0, 20.0, 33.0))
POS = (0.0, 30.0, -30.0, 400.0, -400.0, 1500.0, -1500.0, 3000.0, -3000.0)  # days from perihelion
P_ = namedtuple("P", "x y z vx vy vz")


def suns(t):
    r, v = arstub.sun_state(t)
    return P_(*r, *v)


class Eph:
    jd_ref = arstub.JD_REF

    def __init__(self):
        self.asked = []

    def get_particle(self, which, t):
        assert which in ("Sun", 0)
        self.asked.append(t)
        return suns(t)


def make(form, q, e, ang, dt, epoch):
    """A row of the format with the exact barycentric equatorial state of those numbers; None when the format cannot hold the orbit."""
    bary = form.startswith("B")
    base = form.lstrip("B")
    mu = GT if bary else GS
    row = dict(ObjID="x", FORMAT=form, epochMJD_TDB=epoch)
    rads = [kepler.rad(a) for a in ang]
    if base == "KEP":
        if e >= 1:
            return None
        a = q / (1 - e)
        n = math.sqrt(mu / a ** 3)
        ma = math.degrees(n * dt)
        if abs(ma) > 360:
            return None
        if int(abs(dt)) % 400 == 0:
            ma %= 360.0
        row.update(a=a, e=e, inc=ang[0], node=ang[1], argPeri=ang[2], ma=ma)
        D = kepler.D
        t = kepler.rad(ma) * (D(a) ** 3 / D(mu)).sqrt()
        r, v = kepler.state(mu, D(a) * (1 - D(e)), e, *rads, t)
    else:
        tp = epoch - dt
        t = kepler.D(epoch) - kepler.D(tp)
        r, v = kepler.state(mu, q, e, *rads, t)
        if base == "COM":
            row.update(q=q, e=e, inc=ang[0], node=ang[1], argPeri=ang[2], t_p_MJD_TDB=tp)
        else:
            f = dec(r) + dec(v)
            row.update(zip(("x", "y", "z", "xdot", "ydot", "zdot"), f))
    r, v = dec(r), dec(v)
    helio = (r, v)
    r, v = arstub.ecl_to_eq(r), arstub.ecl_to_eq(v)
    s = suns(epoch + 2400000.5 - arstub.JD_REF)
    if not bary:
        r, v = [a + b for a, b in zip(r, s[:3])], [a + b for a, b in zip(v, s[3:])]
    else:
        sr, sv = arstub.eq_to_ecl(s[:3]), arstub.eq_to_ecl(s[3:])
        helio = ([a - b for a, b in zip(helio[0], sr)], [a - b for a, b in zip(helio[1], sv)])
    return row, r, v, helio


def close(got, r, v, mu=GS):
    """JDs carry 5e-10 days, mean anomalies of very long periods the rounding of their own digits."""
    R, V = math.hypot(*r), math.hypot(*v)
    dt = 2e-9
    return math.dist(got[:3], r) < 1e-10 * R + dt * V and math.dist(got[3:], v) < 1e-10 * V + dt * 1e-3 / min(R * R, 1.0) + 1e-12


def format_rows(i, tier, rec):
    from sorcha.ephemeris.simulation_parsing import get_perihelion_row, parse_orbit_row
    q, e = SHAPES[i]
    for form, ang, dt, ep in itertools.product(FORMATS, ANG, POS, (59000.0, 60000.25, 61234.5)):
        m = make(form, q, e, ang, dt, ep)
        if m is None:
            continue
        row, r, v, helio = m
        obj = dict(shard=["format", i, tier])
        jd = ep + 2400000.5
        got = parse_orbit_row(pd.Series(row), jd, Eph(), {}, GS, GT)
        rec.step()
        rec.trace()
        rec.state(("fmt", form, q, e, ang, dt, ep))
        got = dec(got)
        # long-period mean anomalies: their rounding is a time
        slack = 1.0
        if form.endswith("KEP"):
            a = row["a"]
            slack += 3e-16 * abs(row["ma"]) / math.degrees(math.sqrt(GS / a ** 3)) / 2e-9
        R, V = math.hypot(*r), math.hypot(*v)
        ok = math.dist(got[:3], r) < 1e-10 * R + slack * 2e-9 * V and math.dist(got[3:], v) < 1e-10 * V + slack * 2e-9 * 3e-4 / math.hypot(*helio[0]) ** 2
        rec.outcome((form, ok))
        rec.check(ok, "row:%s:%s" % (form, cat(e)), lambda: "%s: initial state %s, exact %s" % (row, got, r + v), obj)
        # the elements used by the faint object culling
        el = dec(get_perihelion_row(pd.Series(row), jd, Eph(), {}, GS, GT))
        t = kepler.D(ep) - kepler.D(el[5])
        rr, vv = kepler.state(GS, el[0], el[1], *[kepler.rad(z) for z in el[2:5]], t)
        rr, vv = dec(rr), dec(vv)
        H, W = helio
        R, V = math.hypot(*H), math.hypot(*W)
        ok = math.dist(rr, H) < 1e-9 * R + slack * 4e-9 * V and math.dist(vv, W) < 1e-9 * V + slack * 4e-9 * 3e-4 / R ** 2
        rec.check(ok, "perihelion:%s:%s" % (form, cat(e)), lambda: "%s: cometary elements %s describe %s, not the heliocentric state %s" % (row, el, rr + vv, H + W), obj)


# ---------------------------------------------------------------- several rows and epochs
KINDS = (("KEP", 2.0, 0.1, 60000.0), ("COM", 1.0, 1.2, 60000.0), ("CART", 0.7, 0.3, 60010.0), ("BKEP", 3.0, 0.05, 60010.0), ("BCOM", 2.0, 1.0, 59990.5), ("BCART", 30.0, 0.2, 60000.0), ("KEP", 40.0, 0.2, 2460000.5), ("CART", 0.7, 0.3, 60010.03), ("COM", 1.5, 0.4, 60000.4))


def sims(df):
    from sorcha.ephemeris.simulation_setup import generate_simulations
    import types
    with sim.quiet(), arstub.installed():
        return generate_simulations(arstub.FakeEphem(), GS, GT, df, types.SimpleNamespace(pplogger=None, loglevel=False))


def sequences(k, first, tier, rec):
    made = []
    for n, (form, q, e, ep) in enumerate(KINDS):
        mjd = ep - 2400000.5 if ep > 2400000 else ep
        row, r, v, _ = make(form, q, e, ANG[1 + n % 3], 30.0 * (n - 3), mjd)
        row["epochMJD_TDB"] = ep
        made.append((row, r, v, mjd))
    for w in itertools.product(range(len(KINDS)), repeat=k):
        if first is not None and w[0] != first:
            continue
        rows = []
        for j, n in enumerate(w):
            rows.append(dict(made[n][0], ObjID="o%d" % j))
        df = pd.DataFrame(rows)
        df.index = [7 * j + 1 for j in range(k)][:: -1 if k % 2 else 1]
        out = sims(df)
        rec.step(k)
        rec.trace()
        rec.state(("seq", w))
        obj = dict(shard=["seq", k, first, tier])
        rec.check(list(out) == ["o%d" % j for j in range(k)], "sims", lambda: "%s: simulations of %s" % (w, list(out)), obj)
        for j, n in enumerate(w):
            _, r, v, mjd = made[n]
            s = out["o%d" % j]["sim"]
            p = s.particles[0]
            got = [p.x, p.y, p.z, p.vx, p.vy, p.vz]
            rec.check(s.N == 1 and abs(s.t - (mjd + 2400000.5 - arstub.JD_REF)) < 1e-9, "epoch", lambda: "rows %s: object %d starts at %r with %d particles, epoch %r" % ([KINDS[x] for x in w], j, s.t, s.N, mjd), obj)
            rec.check(close(got, r, v), "start:" + KINDS[n][0], lambda: "rows %s: object %d starts with %s, exact %s" % ([KINDS[x] for x in w], j, got, r + v), obj)
            x = out["o%d" % j]["ex"]
            rec.check(x.sim is s and "GR_EIH" not in x.forces and "GR_SIMPLE" in x.forces, "forces", lambda: "forces %s" % x.forces, obj)
        rec.outcome(w)


def a_run(i, chunk, rec):
    """The same orbits in every format give the same ephemeris and output."""
    d = os.path.join(os.getcwd(), "run")
    ep = 60000.25
    visits = [sim.visit(1, ep + 0.1, "r", 0.0, 0.0), sim.visit(2, ep + 0.14, "g", 0.0, 0.0)]
    out = {}
    # Six objects in a common field: their heliocentric states in the ecliptic frame
    ra, decl = 40.0 * i + 15.0, (-35.0, 0.0, 20.0, 60.0, -70.0, 5.0)[i]
    t = arstub.tdb(ep)
    states = []
    for n in range(4):
        r, v = arstub.place(ra + 0.2 * n, decl - 0.1 * n, (1.3, 2.2, 5.0, 30.0)[n], t + ep + 2400000.5 - arstub.JD_REF - t)
        rr = math.hypot(*r)
        u = np.cross([0.1, 0.4, 1.0], r)
        v = list(u / np.linalg.norm(u) * math.sqrt(GS / rr) * (0.8, 1.05, 0.95, 1.1)[n])
        states.append((r, v))
    for v in visits:
        v["fieldRA"], v["fieldDec"] = ra, decl
    for form in FORMATS:
        orbs = []
        for n, (r, v) in enumerate(states):
            s = suns(ep + 2400000.5 - arstub.JD_REF)
            if not form.startswith("B"):
                r, v = [a - b for a, b in zip(r, s[:3])], [a - b for a, b in zip(v, s[3:])]
            from mc.checks.c23 import convert
            row, _ = convert("o%d" % n, form, GT if form.startswith("B") else GS, arstub.eq_to_ecl(r), arstub.eq_to_ecl(v), ep)
            orbs.append(row)
        from mc.checks.c23 import COLS
        cfg = sim.base_config(ephem="ar", filters="r,g", chunk=chunk).set("EXPERT", brute_force="True")
        R = sim.Run(os.path.join(d, form), cfg, eph_out="e")
        R.inputs(visits, orbs, [sim.phys("o%d" % n, 18.0, "r", {"g-r": 0.5}) for n in range(4)], None, orbit_cols=COLS[form.lstrip("B")])
        R.go()
        rec.trace()
        out[form] = R.rows() or []
        rec.step(len(out[form]))
        rec.state(("run", i, chunk, form))
    base = out["CART"]
    obj = dict(shard=["run", i, chunk, "quick"])
    rec.check(len(base) == 8, "run:setup", lambda: "%d rows for 4 objects in 2 visits" % len(base), obj)
    for form in FORMATS:
        got = out[form]
        rec.check([(x["ObjID"], x["FieldID"]) for x in got] == [(x["ObjID"], x["FieldID"]) for x in base], "run:rows:" + form, lambda: "%s gives %d rows, CART %d" % (form, len(got), len(base)), obj)
        for x, y in zip(got, base):
            bad = [c for c in ("RA_deg", "Dec_deg", "Range_LTC_km", "RangeRate_LTC_km_s", "RARateCosDec_deg_day", "DecRate_deg_day", "phase_deg", "trailedSourceMag") if c in y and abs(x[c] - y[c]) > 1e-7 * max(1.0, abs(y[c]))]
            rec.check(not bad, "run:values:" + form, lambda: "%s and CART differ for %s: %s" % (form, x["ObjID"], [(c, x[c], y[c]) for c in bad]), obj)
    rec.outcome(("run", len(base)))


def run(shard, rec):
    kind = shard[0]
    if kind == "forward":
        forward(shard[1], shard[2], shard[-1], rec)
    elif kind == "back":
        back(shard[1], shard[2], shard[-1], rec)
    elif kind == "format":
        format_rows(shard[1], shard[-1], rec)
    elif kind == "seq":
        sequences(shard[1], shard[2], shard[-1], rec)
    else:
        a_run(shard[1], shard[2], rec)
