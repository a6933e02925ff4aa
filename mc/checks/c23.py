"""C23: Culling faint objects never removes a detectable one."""
import itertools
import math
import os

import numpy as np
import pandas as pd

from mc import arstub, sim

PID = "C23"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of orbits (formats x perihelia x shapes x positions) x brightness around the limit x filter sets x depths x models, and of all small tables, on the real culling filter and on complete runs, against an independent culling decision per object"
NOTE = (
    "Every object is judged by an independent calculation of its perihelion and of its brightest magnitude in every requested filter; the real filter has to keep exactly those which come within 2 au or are bright enough in some filter, whatever else is in "
    "the table, and to pass them on unchanged. Complete runs with internally generated ephemerides (stand-in dynamics) with culling on must give the same rows as with culling off for the objects kept, for every chunk size."
)
BOUND = {
    "quick": "6 formats x 7 perihelia x 6 eccentricities x 5 positions x 4 filter sets x 5 depth sets x brightness on either side of the limit in each filter; all tables of up to 3 rows over 8 kinds x 3 formats x 3 labellings; 9 model settings; 36 runs",
    "thorough": "additionally 11 perihelia, 10 eccentricities and 12 positions; tables of up to 4 rows and 6 formats; 140 runs",
}

GS_, GT_ = 2.9591220828559115e-04, 2.9630927487993194e-04
COLOUR = {"u": 1.7, "g": 0.6, "r": 0.0, "i": -0.2, "z": -0.35}


# ---------------------------------------------------------------- orbits, independently
def state(mu, q, e, inc, node, arg, dt):
    """Position and velocity a time dt after perihelion, angles in degrees."""
    if e < 1:
        a = q / (1 - e)
        n = math.sqrt(mu / a ** 3)
        M = math.remainder(n * dt, 2 * math.pi)
        lo, hi = -math.pi, math.pi
        for _ in range(200):
            E = 0.5 * (lo + hi)
            if E - e * math.sin(E) < M:
                lo = E
            else:
                hi = E
        x, y = a * (math.cos(E) - e), a * math.sqrt(1 - e * e) * math.sin(E)
    elif e == 1:
        W = 1.5 * math.sqrt(mu / (2 * q ** 3)) * dt
        w = math.copysign(abs(W) + math.sqrt(W * W + 1), 1) ** (1 / 3)
        s = math.copysign(w - 1 / w, W)
        x, y = q * (1 - s * s), 2 * q * s
    else:
        a = q / (e - 1)
        M = math.sqrt(mu / a ** 3) * dt
        lo, hi = -60.0, 60.0
        for _ in range(200):
            F = 0.5 * (lo + hi)
            if e * math.sinh(F) - F < M:
                lo = F
            else:
                hi = F
        x, y = a * (e - math.cosh(F)), a * math.sqrt(e * e - 1) * math.sinh(F)
    r = math.hypot(x, y)
    h = math.sqrt(mu * q * (1 + e))
    vx, vy = -mu / h * y / r, mu / h * (e + x / r)
    O, w, i = math.radians(node), math.radians(arg), math.radians(inc)

    def turn(p):
        x, y = p[0] * math.cos(w) - p[1] * math.sin(w), p[0] * math.sin(w) + p[1] * math.cos(w)
        y, z = y * math.cos(i), y * math.sin(i)
        return [x * math.cos(O) - y * math.sin(O), x * math.sin(O) + y * math.cos(O), z]

    return turn((x, y)), turn((vx, vy))


def perihelion(mu, r, v):
    h = np.cross(r, v)
    e = np.cross(v, h) / mu - np.asarray(r) / np.linalg.norm(r)
    return float(np.dot(h, h) / mu / (1 + np.linalg.norm(e)))


COLS = {"KEP": sim.KEP_COLS, "COM": ["ObjID", "FORMAT", "q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB", "epochMJD_TDB"], "CART": arstub.BCART_COLS}


def orbit(oid, form, q, e, inc, node, arg, turns, epoch):
    """An orbit row in a format and the perihelion distance of that orbit about the Sun taken at the origin; turns: time since perihelion in units of 1/n."""
    bary = form.startswith("B")
    mu = GT_ if bary else GS_
    base = form.lstrip("B")
    scale = q / abs(1 - e) if e != 1 else q
    dt = turns * math.sqrt(scale ** 3 / mu)
    r, v = state(mu, q, e, inc, node, arg, dt)
    row = dict(ObjID=oid, FORMAT=form, epochMJD_TDB=epoch)
    if base == "KEP":
        row.update(a=q / (1 - e), e=e, inc=inc, node=node, argPeri=arg, ma=math.degrees(turns) % 360.0)
    elif base == "COM":
        row.update(q=q, e=e, inc=inc, node=node, argPeri=arg, t_p_MJD_TDB=epoch - dt)
    else:
        row.update(x=r[0], y=r[1], z=r[2], xdot=v[0], ydot=v[1], zdot=v[2])
    return row, (perihelion(GS_, r, v) if bary and base != "COM" else q)


FORMATS = ("KEP", "COM", "CART", "BKEP", "BCOM", "BCART")


# ---------------------------------------------------------------- brightening models
def models():
    from sorcha.activity.base_activity import AbstractCometaryActivity
    from sorcha.activity.activity_registration import CA_METHODS
    from sorcha.lightcurves.base_lightcurve import AbstractLightCurve
    from sorcha.lightcurves.lightcurve_registration import LC_METHODS
    if "mc_lc23" in LC_METHODS:
        return

    class Lc(AbstractLightCurve):
        def compute(self, df):
            return -df["amp"].values * 0

        def maxBrightness(self, df):
            return -df["amp"]

        @staticmethod
        def name_id():
            return "mc_lc23"

    class LcArray(Lc):
        def maxBrightness(self, df):
            return -df["amp"].values

        @staticmethod
        def name_id():
            return "mc_lc23a"

    class Act(AbstractCometaryActivity):
        """A tail of fixed magnitude per filter, fainter with distance, adds to the nucleus."""

        def compute(self, df, observing_filters, rho, delta, alpha):
            return df

        def maxBrightness(self, df, observing_filters, rho, delta, alpha):
            assert len(observing_filters) == 1 and (df["optFilter"] == observing_filters[0]).all()
            assert len(alpha) == len(df)
            return df["trailedSourceMagTrue"] - df["act"] * COMA[observing_filters[0]] / (np.asarray(rho) * np.asarray(delta)) - np.asarray(alpha)

        @staticmethod
        def name_id():
            return "mc_act23"

    class ActArray(Act):
        def maxBrightness(self, *a):
            return Act.maxBrightness(self, *a).values

        @staticmethod
        def name_id():
            return "mc_act23a"

    for c in (Lc, LcArray):
        LC_METHODS[c.name_id()] = c
    for c in (Act, ActArray):
        CA_METHODS[c.name_id()] = c


COMA = {"u": 0.5, "g": 2.0, "r": 1.0, "i": 0.1, "z": 3.0}


def warm():
    import sorcha.sorcha  # noqa: F401
    models()


# ---------------------------------------------------------------- decision
def offset(q, f, main, col, lc, act, amp, ac):
    """Brightest magnitude in f minus H."""
    m = col.get("%s-%s" % (f, main), 0.0) if f != main else 0.0
    m += 5 * math.log10(q) + 5 * math.log10(q - 1)
    if lc:
        m -= amp
    if act:
        m -= ac * COMA[f] / (q * (q - 1))
    return m


def limit(q, filters, main, col, depths, lc=False, act=False, amp=0.0, ac=0.0):
    """H below which the object is kept (infinite: always, -infinite: never)."""
    if q < 2:
        return math.inf
    out = -math.inf
    for f in filters:
        d = [m for g, m in depths if g == f]
        if d:
            out = max(out, max(d) + 2 - offset(q, f, main, col, lc, act, amp, ac))
    return out


def pointing(depths):
    df = pd.DataFrame([dict(FieldID=i, optFilter=f, fieldFiveSigmaDepth_mag=m) for i, (f, m) in enumerate(depths)])
    df["optFilter"] = df["optFilter"].astype("category")
    return df


def colours(main, filters, shift=0.0):
    return {"%s-%s" % (f, main): COLOUR[f] - COLOUR[main] + shift for f in filters if f != main}


def relabel(df, lab):
    n = len(df)
    if lab == 1:
        df.index = [5 * i + 3 for i in range(n)]
    elif lab == 2:
        df.index = list(range(n))[::-1]
    return df


def judge(rows, cols, keep, filters, depths, rec, tag, lc=None, act=None, lab=0, obj=None):
    """rows through the real filter; keep[i] the expected decision."""
    from sorcha.modules.PPFaintObjectCullingFilter import PPFaintObjectCullingFilter
    df = relabel(pd.DataFrame(rows)[cols], lab)
    before = df.copy(deep=True)
    point = pointing(depths)
    out = PPFaintObjectCullingFilter(df, point, filters[0], list(filters), lc, act)
    rec.trace()
    want = [r["ObjID"] for r, k in zip(rows, keep) if k]
    got = list(out["ObjID"])
    if got != want:
        lost, extra = [x for x in want if x not in got], [x for x in got if x not in want]
        for what, ids in (("lost", lost), ("kept", extra), ("order", [] if lost or extra else got)):
            if ids:
                bad = [r for r in rows if r["ObjID"] in ids[:2]]
                rec.violation("%s:%s" % (tag, what), "%s: objects %s %s, expected %s (filters %s, depths %s): %s" % (tag, ids[:5], what, want[:10], filters, depths, bad), obj)
        return
    sub = before[before["ObjID"].isin(want)]
    same = list(out.columns) == list(sub.columns) and all(list(out[c]) == list(sub[c]) for c in sub.columns)
    rec.check(same, tag + ":changed", lambda: "%s: kept objects were passed on changed: columns %s -> %s" % (tag, list(sub.columns), list(out.columns)), obj)


FILTSETS = (("r",), ("r", "g"), ("g", "r", "i"), ("i", "u"))
DEPTHS = {
    "one": lambda fs: [(f, 24.0) for f in fs],
    "deeper last": lambda fs: [(f, 22.0 + 1.5 * i) for i, f in enumerate(fs)],
    "deeper first": lambda fs: [(f, 25.0 - 2.0 * i) for i, f in enumerate(fs)],
    "many": lambda fs: [(f, 20.0 + 0.7 * i + 1.1 * k) for k in (1, 0, 2, 1) for i, f in enumerate(fs)],
    "absent": lambda fs: [(f, 23.0) for f in fs[:1]] + [("z", 27.0)],
}
QS = (0.5, 1.9, 1.99999, 2.00001, 2.5, 10.0, 45.0)
ES = (0.0, 0.1, 0.7, 0.97, 1.0, 1.4)
TURNS = (0.0, 0.7, -1.2, math.pi, 2.9)
MORE = ((1.0, 1.2, 2.2, 5.2), (0.3, 0.999, 1.02, 3.0), (0.02, 1.8, -0.1, -2.5, 3.05, -math.pi / 2, 1.3))


def shards(tier):
    out = [["orbits", form, fs, d] for form in FORMATS for fs in FILTSETS for d in DEPTHS]
    out += [["tables", form, n, part] for form in (FORMATS if tier == "thorough" else ("KEP", "BCOM", "CART")) for n in (range(1, 5) if tier == "thorough" else range(1, 4)) for part in range(8 if n >= 3 else 1)]
    out += [["models", form, fs] for form in ("KEP", "COM", "BCART") for fs in FILTSETS]
    out += [["run", form, chunk, m] for form in (FORMATS if tier == "thorough" else ("KEP", "BCOM", "BCART")) for chunk in (1, 2, 3, 10) for m in range(4 if tier == "thorough" else 3)]
    return [s + [tier] for s in out]


def orbits(form, fs, dname, tier, rec):
    """All orbits of one format in one table (and each alone for a share): brightness on either side of the limit."""
    qs, es, ts = QS, ES, TURNS
    if tier == "thorough":
        qs, es, ts = QS + MORE[0], ES + MORE[1], TURNS + MORE[2]
    depths = DEPTHS[dname](fs)
    col = colours(fs[0], fs)
    rows, keep = [], []
    n = 0
    for q, e, t in itertools.product(qs, es, ts):
        if form in ("KEP", "BKEP") and e >= 1 or e >= 1 and abs(t) > 3:
            continue
        n += 1
        inc, node, arg = ((0.0, 0.0, 0.0), (5.0, 80.0, 300.0), (90.0, 200.0, 10.0), (170.0, 359.0, 90.0))[n % 4]
        row, qq = orbit("x", form, q, e, inc, node, arg, t, 60000.0 + 13.0 * (n % 7))
        if abs(qq - 2) < 5e-6:
            continue
        lims = [limit(qq, [f], fs[0], col, depths) for f in fs]
        for L in sorted(set(lims)):
            for dh in (-1e-3, 1e-3):
                H = (L + dh) if math.isfinite(L) else (25.0 if L < 0 else 40.0)
                oid = "o%d" % len(rows)
                rows.append(dict(row, ObjID=oid, **{"H_" + fs[0]: H}, GS=0.15, **col))
                keep.append(H < max(lims))
                rec.state(("o", form, fs, dname, q, e, t, round(H, 6)))
                rec.outcome((form, keep[-1], qq < 2, math.isfinite(L)))
    rec.step(len(rows))
    cols = COLS[form.lstrip("B")] + ["H_" + fs[0], "GS"] + list(col)
    obj = dict(shard=["orbits", form, list(fs), dname, tier])
    for lab in range(3):
        judge(rows, cols, keep, fs, depths, rec, "orbit:" + form, lab=lab, obj=obj)
    judge(rows[::-1], cols, keep[::-1], fs, depths, rec, "orbit:" + form, obj=obj)
    for i in range(0, len(rows), 7):
        judge(rows[i:i + 1], cols, keep[i:i + 1], fs, depths, rec, "alone:" + form, obj=obj)
    rec.sample(dict(form=form, filters=fs, depths=depths, rows=len(rows), kept=sum(keep)))


KINDS = (  # q, e, turns, epoch, brightness relative to the limit in g / r (which is decisive)
    ("bright", 3.0, 0.3, 1.0, 60000.0, -3.0), ("faint", 3.0, 0.3, 1.0, 60000.0, 3.0), ("near", 1.5, 0.5, 2.0, 60010.0, 30.0), ("edge in", 6.0, 0.95, math.pi, 61000.0, -2e-3),
    ("edge out", 6.0, 0.95, math.pi, 59000.0, 2e-3), ("far", 40.0, 0.05, 0.5, 60500.0, -0.5), ("far out", 40.0, 0.9, 3.0, 58000.0, 0.5), ("just near", 1.9999, 0.9, 3.1, 60000.0, 9.0))


def tables(form, n, part, rec):
    fs = ("r", "g")
    depths = DEPTHS["deeper last"](fs)
    for k, w in enumerate(itertools.product(range(len(KINDS)), repeat=n)):
        if n >= 3 and w[0] != part:
            continue
        rows, keep = [], []
        for i, j in enumerate(w):
            name, q, e, t, ep, dh = KINDS[j]
            col = colours("r", fs, 0.3 * (j % 3 - 1))
            row, qq = orbit("ob%d" % i, form, q, e, 20.0 * j, 40.0 * j, 33.0 * j, t, ep)
            L = limit(qq, fs, "r", col, depths)
            H = (L if math.isfinite(L) else 10.0) + dh
            rows.append(dict(row, H_r=H, GS=0.15, **col))
            keep.append(H < L)
        rec.state(("t", form, w))
        rec.step(n)
        cols = COLS[form.lstrip("B")] + ["H_r", "GS", "g-r"]
        judge(rows, cols, keep, fs, depths, rec, "table:" + form, lab=k % 3, obj=dict(shard=["tables", form, n, part, "quick"]))
        rec.outcome((n, tuple(keep)))


MODELSETS = ((None, None), ("mc_lc23", None), ("mc_lc23a", None), (None, "mc_act23"), (None, "mc_act23a"), ("mc_lc23", "mc_act23"), ("mc_lc23a", "mc_act23a"), ("identity", None), (None, "identity"))


def with_models(form, fs, rec):
    for dname in DEPTHS:
        depths = DEPTHS[dname](fs)
        for lc, act in MODELSETS:
            rows, keep = [], []
            for q, e, t, amp, ac in itertools.product((1.5, 2.1, 4.0, 20.0), (0.0, 0.8), (0.5, 3.0), (0.0, 0.4, -0.3), (0.0, 0.7, 9.0)):
                row, qq = orbit("m%d" % len(rows), form, q, e, 10.0, 20.0, 30.0, t, 60000.0)
                col = colours(fs[0], fs)
                a, b = (lc or "").startswith("mc"), (act or "").startswith("mc")
                lims = [limit(qq, [f], fs[0], col, depths, a, b, amp, ac) for f in fs]
                for L in sorted(set(lims)):
                    for dh in (-1e-3, 1e-3):
                        H = L + dh if math.isfinite(L) else 22.0
                        rows.append(dict(row, ObjID="m%d" % len(rows), **{"H_" + fs[0]: H}, GS=0.15, amp=amp, act=ac, **col))
                        keep.append(H < max(lims))
                        rec.state(("m", form, fs, dname, lc, act, q, e, t, amp, ac, round(H, 6)))
            rec.step(len(rows))
            rec.outcome((lc, act, sum(keep) * 20 // len(keep)))
            cols = COLS[form.lstrip("B")] + ["H_" + fs[0], "GS", "amp", "act"] + list(col)
            for lab in (0, 1):
                judge(rows, cols, keep, fs, depths, rec, "model:%s+%s" % (lc, act), lc, act, lab, dict(shard=["models", form, list(fs), "quick"]))


# ---------------------------------------------------------------- complete runs
T0 = 60000.1


def a_run(form, chunk, m, rec):
    lc, act = ((None, None), ("mc_lc23", None), (None, "mc_act23"), ("mc_lc23a", "mc_act23a"))[m]
    fs = ("r", "g")
    d = os.path.join(os.getcwd(), "run")
    visits = [sim.visit(1, T0, "r", 60.0, 20.0, 22.0), sim.visit(2, T0 + 0.02, "r", 60.0, 20.0, 23.0), sim.visit(3, T0 + 0.04, "g", 60.0, 20.0, 23.5)]
    depths = [("r", 22.0), ("r", 23.0), ("g", 23.5)]
    orbs, params, cplx, kept = [], [], [], []
    names = ["x%d" % i for i in range(7)]
    for i, o in enumerate(names):
        # put the object into the field: Cartesian state, converted into the format through its osculating elements
        dist = (5.0, 7.0, 9.0, 0.9, 12.0, 5.5, 30.0)[i]
        r, v = arstub.place(60.0 + 0.05 * i, 20.0, dist, arstub.tdb(T0))
        rs, vs = arstub.sun_state(arstub.tdb(T0))
        bary = form.startswith("B")
        mu = arstub.GM_TOTAL if bary else arstub.GM_SUN
        if not bary:
            r, v = [r[k] - rs[k] for k in range(3)], [v[k] - vs[k] for k in range(3)]
        rr = math.sqrt(sum(x * x for x in r))
        # a bound orbit: velocity across the line of sight, 0.8 of circular speed
        u = np.cross([0.0, 0.3, 1.0], r)
        v = list(u / np.linalg.norm(u) * math.sqrt(mu / rr) * (0.8, 1.1, 1.0, 0.7, 0.9, 1.0, 0.95)[i])
        r, v = arstub.eq_to_ecl(r), arstub.eq_to_ecl(v)
        epoch = T0 + arstub.tdb(T0) - (T0 + 2400000.5 - arstub.JD_REF)
        row, q = convert(o, form, mu, r, v, epoch)
        amp, ac = 0.2 * i, 5.0 * (i % 3)
        col = {"g-r": (0.5, -0.8, 0.0)[i % 3]}
        L = limit(q, fs, "r", col, depths, bool(lc), bool(act), amp, ac)
        H = (L if math.isfinite(L) else 20.0) + (-0.3, 0.01, -0.01, 8.0, 1.0, -2.0, 0.5)[i]
        kept.append(H < L)
        orbs.append(row)
        params.append(sim.phys(o, H, "r", col))
        cplx.append(dict(ObjID=o, amp=amp, act=ac))
    cols = COLS[form.lstrip("B")]
    got = {}
    for brute in ("True", "False"):
        cfg = sim.base_config(ephem="ar", filters="r,g", chunk=chunk).set("EXPERT", brute_force=brute)
        if lc:
            cfg = cfg.set("LIGHTCURVE", lc_model=lc)
        if act:
            cfg = cfg.set("ACTIVITY", comet_activity=act)
        R = sim.Run(os.path.join(d, brute), cfg, eph_out=None)
        R.inputs(visits, orbs, params, None, orbit_cols=cols, complex_rows=cplx if lc or act else None)
        R.go()
        rec.trace()
        got[brute] = R.rows() or []
        rec.step(len(got[brute]))
    obj = dict(shard=["run", form, chunk, m, "quick"])
    rec.state(("run", form, chunk, m))
    ids = set(x["ObjID"] for x in got["True"])
    if not rec.check(ids == set(names), "run:setup", lambda: "the objects %s are not all in the field without culling: %s" % (names, ids), obj):
        return
    want = [x for x in got["True"] if kept[names.index(x["ObjID"])]]
    g = set(x["ObjID"] for x in got["False"])
    w = set(x["ObjID"] for x in want)
    rec.check(g == w, "run:%s:objects" % form, lambda: "%s chunk %d models %s+%s: with culling %s are reported, expected %s" % (form, chunk, lc, act, sorted(g), sorted(w)), obj)
    if g == w:
        a, b = [list(x) for x in got["False"][:1]], [list(x) for x in want[:1]]
        rec.check(a == b, "run:columns", lambda: "%s: culling changes the columns of the output: %s" % (form, sorted(set(a[0]) ^ set(b[0]))), obj)
        diff = [(x, y, k) for x, y in zip(got["False"], want) for k in y if x.get(k) != y[k]]
        rec.check(not diff and len(got["False"]) == len(want), "run:values", lambda: "%s chunk %d: culling changes rows of objects kept: %s" % (form, chunk, [(k, x[k], y[k]) for x, y, k in diff[:3]]), obj)
    rec.outcome(("run", tuple(sorted(w))))


def convert(o, form, mu, r, v, epoch):
    """Osculating elements by vector formulae (bound orbits)."""
    r, v = np.array(r), np.array(v)
    h = np.cross(r, v)
    R = np.linalg.norm(r)
    ev = np.cross(v, h) / mu - r / R
    e = float(np.linalg.norm(ev))
    q = float(np.dot(h, h) / mu / (1 + e))
    qs = perihelion(GS_, r, v) if form in ("BKEP", "BCART") else q
    row = dict(ObjID=o, FORMAT=form, epochMJD_TDB=epoch)
    base = form.lstrip("B")
    if base == "CART":
        row.update(x=r[0], y=r[1], z=r[2], xdot=v[0], ydot=v[1], zdot=v[2])
        return row, qs
    inc = math.degrees(math.atan2(math.hypot(h[0], h[1]), h[2]))
    nv = np.array([-h[1], h[0], 0.0])
    node = math.degrees(math.atan2(nv[1], nv[0])) % 360
    hh = h / np.linalg.norm(h)
    nn = nv / np.linalg.norm(nv)
    arg = math.degrees(math.atan2(float(np.dot(ev, np.cross(hh, nn))), float(np.dot(ev, nn)))) % 360
    nu = math.atan2(float(np.dot(r, np.cross(hh, ev))) / e, float(np.dot(r, ev)) / e)
    E = 2 * math.atan(math.sqrt((1 - e) / (1 + e)) * math.tan(nu / 2))
    M = E - e * math.sin(E)
    a = q / (1 - e)
    row.update(e=e, inc=inc, node=node, argPeri=arg)
    if base == "KEP":
        row.update(a=a, ma=math.degrees(M) % 360)
    else:
        row.update(q=q, t_p_MJD_TDB=epoch - M / math.sqrt(mu / a ** 3))
    return row, qs


def run(shard, rec):
    models()
    kind = shard[0]
    if kind == "orbits":
        orbits(shard[1], tuple(shard[2]), shard[3], shard[-1], rec)
    elif kind == "tables":
        tables(shard[1], shard[2], shard[3], rec)
    elif kind == "models":
        with_models(shard[1], tuple(shard[2]), rec)
    else:
        a_run(shard[1], shard[2], shard[3], rec)
