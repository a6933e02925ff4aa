"""C11: Apparent magnitudes follow each object's own parameters."""
import functools
import itertools
import math
import os

import numpy as np
import pandas as pd

from mc import sim

PID = "C11"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small observation tables (objects x filters x geometry x phase function x parameter style x models) on the real magnitude code and on complete runs, against an independent per-detection formula"
NOTE = (
    "Every table up to a length over objects, filters and geometries, with common and per-filter phase parameters, one to three filters in every order, and every "
    "combination of light curve and activity models goes through the real calculation; each row is compared with a scalar formula applied to that object's own "
    "parameters. Complete runs (both surveys, external and generated ephemerides, several chunk sizes) start from files. The spline based phase functions use sbpy, one row at a time, as the oracle."
)
BOUND = {
    "quick": "tables: 5 phase functions x 2 styles x 6 filter sets x 4 model settings, all tables of up to 2 rows over 2 objects x filters x 3 geometries, all of 3 rows over objects x filters; grid of 12 x 6 x 5 geometries x 5 parameter sets; about 130 runs",
    "thorough": "tables up to 3 rows over all kinds and 4 rows over objects x filters; runs with 4 chunk sizes and all model settings",
}

AU = sim.AU_KM
FUNCS = ("HG", "HG1G2", "HG12", "linear", "none")
STYLES = ("common", "perfilter")
SETS = (("r",), ("g",), ("r", "g"), ("g", "r", "i"), ("r", "i", "g"), ("i", "g"))
MODELS = ((None, None), ("mc_lc", None), (None, "mc_act"), ("mc_lc", "mc_act"))
PARS = {"HG": ("GS",), "HG1G2": ("G1", "G2"), "HG12": ("G12",), "linear": ("S",), "none": ()}

OBJ = {  # H in the object's own g, r, i magnitudes; phase parameters per filter ("" = common)
    "a": dict(H={"r": 18.0, "g": 18.55, "i": 17.8}, GS={"": 0.15, "r": 0.2, "g": 0.05, "i": 0.4}, G1={"": 0.3, "r": 0.6, "g": 0.1, "i": 0.45}, G2={"": 0.2, "r": 0.05, "g": 0.35, "i": 0.1},
              G12={"": 0.3, "r": 0.5, "g": 0.1, "i": 0.8}, S={"": 0.03, "r": 0.04, "g": 0.01, "i": 0.1}, amp=0.3, act=0.2),
    "b": dict(H={"r": 21.25, "g": 21.0, "i": 22.0}, GS={"": 0.32, "r": 0.11, "g": 0.25, "i": 0.18}, G1={"": 0.55, "r": 0.2, "g": 0.7, "i": 0.33}, G2={"": 0.1, "r": 0.42, "g": 0.02, "i": 0.27},
              G12={"": 0.7, "r": 0.15, "g": 0.9, "i": 0.4}, S={"": 0.02, "r": 0.015, "g": 0.05, "i": 0.035}, amp=-0.1, act=1.5),
    "c": dict(H={"r": 9.0, "g": 9.0, "i": 9.0}, GS={"": 0.0, "r": 0.5, "g": 0.15, "i": 0.3}, G1={"": 0.1, "r": 0.15, "g": 0.25, "i": 0.35}, G2={"": 0.6, "r": 0.3, "g": 0.2, "i": 0.4},
              G12={"": 0.0, "r": 1.0, "g": 0.5, "i": 0.25}, S={"": 0.0, "r": 0.1, "g": 0.02, "i": 0.07}, amp=0.0, act=0.0),
}
GEO = ((1.5, 2.0, 20.0), (0.02, 1.01, 110.0), (30.0, 31.0, 0.3))  # range, heliocentric distance [au], phase


def models():
    from sorcha.activity.base_activity import AbstractCometaryActivity
    from sorcha.activity.activity_registration import CA_METHODS
    from sorcha.lightcurves.base_lightcurve import AbstractLightCurve
    from sorcha.lightcurves.lightcurve_registration import LC_METHODS
    if "mc_lc" in LC_METHODS:
        return

    class Lc(AbstractLightCurve):
        def __init__(self):
            super().__init__(["amp", "fieldMJD_TAI"])

        def compute(self, df):
            return df["amp"].values * (1 + 0.1 * (df["fieldMJD_TAI"].values - 60000.0))

        def maxBrightness(self, df):
            return -np.abs(df["amp"].values) * 400

        @staticmethod
        def name_id():
            return "mc_lc"

    class Act(AbstractCometaryActivity):
        def __init__(self):
            super().__init__(["act", "trailedSourceMagTrue"])

        def compute(self, df, observing_filters, rho, delta, alpha):
            df["coma"] = df["act"].values / (np.asarray(rho) * np.asarray(delta)) + 0.001 * np.asarray(alpha) + 0.01 * (df["optFilter"] == observing_filters[0])
            df["trailedSourceMagTrue"] = df["trailedSourceMagTrue"] - df["coma"]
            return df

        def maxBrightness(self, df):
            return -1e3

        @staticmethod
        def name_id():
            return "mc_act"

    LC_METHODS["mc_lc"] = Lc
    CA_METHODS["mc_act"] = Act


def warm():
    import sorcha.sorcha  # noqa: F401
    import sorcha.des  # noqa: F401
    models()


@functools.lru_cache(None)
def phase(func, alpha, *p):
    """Brightening terms of a single row at H = 0."""
    if func == "none":
        return 0.0
    if func == "linear":
        return p[0] * alpha
    x = math.radians(alpha)
    if func == "HG":
        t, s = math.tan(x / 2), math.sin(x)
        w = math.exp(-90.56 * t * t)
        phi = []
        for a, b, c in ((3.332, 0.631, 0.986), (1.862, 1.218, 0.238)):
            phi.append(w * (1 - c * s / (0.119 + 1.341 * s - 0.754 * s * s)) + (1 - w) * math.exp(-a * t ** b))
        return -2.5 * math.log10((1 - p[0]) * phi[0] + p[0] * phi[1])
    from sbpy.photometry import HG1G2
    g1, g2 = p if func == "HG1G2" else (0.84293649 * p[0], 0.53513350 * (1 - p[0]))
    return -2.5 * math.log10(float(g1 * HG1G2._phi1(x) + g2 * HG1G2._phi2(x) + (1 - g1 - g2) * HG1G2._phi3(x)))


def expect(o, f, func, style, d, r, alpha, mjd, main, lc, act, first):
    k = f if style == "perfilter" else ""
    m = OBJ[o]["H"][f] + 5 * math.log10(d) + 5 * math.log10(r) + phase(func, alpha, *[OBJ[o][c][k] for c in PARS[func]])
    if lc:
        m += OBJ[o]["amp"] * (1 + 0.1 * (mjd - 60000.0))
    if act:
        m -= OBJ[o]["act"] / (r * d) + 0.001 * alpha + 0.01 * (f == first)
    return m


def params(o, func, style, filters, main):
    p = {"H_" + main: OBJ[o]["H"][main]}
    for f in filters:
        if f != main:
            p["%s-%s" % (f, main)] = OBJ[o]["H"][f] - OBJ[o]["H"][main]
    for c in PARS[func]:
        for f in filters if style == "perfilter" else ("",):
            p[c + f] = OBJ[o][c][f]
    return p


def row(i, o, f, g, func, style, filters, main):
    d, r, alpha = g
    x = dict(ObjID=o, fieldMJD_TAI=60000.0 + 0.25 * i, optFilter=f, Range_LTC_km=d * AU, Obj_Sun_x_LTC_km=r * AU * 0.6, Obj_Sun_y_LTC_km=-r * AU * 0.48, Obj_Sun_z_LTC_km=r * AU * 0.64,
             phase_deg=alpha, amp=OBJ[o]["amp"], act=OBJ[o]["act"], v=i)
    x.update(params(o, func, style, filters, main))
    return x


def label(df, lab):
    n = len(df)
    if lab == 1:
        df.index = [3 * i + 2 for i in range(n)]
    elif lab == 2:
        df.index = list(range(n))[::-1]
    return df


def table(w, func, style, filters, model, lab, rec):
    from sorcha.modules.PPCalculateApparentMagnitude import PPCalculateApparentMagnitude
    main = filters[0]
    lc, act = model
    rows = [row(i, o, f, g, func, style, filters, main) for i, (o, f, g) in enumerate(w)]
    df = label(pd.DataFrame(rows), lab)
    obj = dict(rows=w, func=func, style=style, filters=filters, model=model, labels=lab)
    out = PPCalculateApparentMagnitude(df.copy(), func, main, ["%s-%s" % (f, main) for f in filters[1:]], list(filters), act, lc)
    rec.step(len(rows))
    rec.trace()
    rec.state(("t", w, func, style, filters, model, lab))
    if not rec.check(list(out["v"]) == list(range(len(rows))), "rows:" + func, lambda: "%s: rows %s" % (obj, list(out["v"])), obj):
        return
    for i, (o, f, g) in enumerate(w):
        e = expect(o, f, func, style, *g, rows[i]["fieldMJD_TAI"], main, lc, act, filters[0])
        got = float(out["trailedSourceMagTrue"].iloc[i])
        rec.outcome((func, round(got, 6)))
        rec.check(abs(got - e) < 1e-8, "mag:%s:%s:%s" % (func, style, model), lambda: "%s: row %d magnitude %r, expected %r" % (obj, i, got, e), obj)
        h = float(out["H_filter"].iloc[i])
        rec.check(abs(h - OBJ[o]["H"][f]) < 1e-9, "hfilter", lambda: "%s: row %d H_filter %r expected %r" % (obj, i, h, OBJ[o]["H"][f]), obj)
        hm = float(out["H_" + main].iloc[i])
        rec.check(hm == OBJ[o]["H"][main], "hmain", lambda: "%s: row %d H_%s %r changed from %r" % (obj, i, main, hm, OBJ[o]["H"][main]), obj)
    for c in ("ObjID", "fieldMJD_TAI", "optFilter", "Range_LTC_km", "phase_deg"):
        rec.check(list(out[c]) == [x[c] for x in rows], "column", lambda: "%s: %s changed to %s" % (obj, c, list(out[c])), obj)


def tables(func, style, filters, n, rec, depth):
    filters = tuple(filters)
    small = [(o, f, GEO[k % 3]) for k, (o, f) in enumerate(itertools.product("ab", filters))]
    full = [(o, f, g) for o in "ab" for f in filters for g in GEO]
    nf, ns = depth
    alphabet = full if n <= nf else small
    for k, w in enumerate(itertools.product(alphabet, repeat=n)):
        for m in MODELS if n <= 1 else (MODELS[k % 4],):
            table(w, func, style, filters, m, k % 3, rec)


def grid(func, rec):
    """Long tables: every geometry of a grid in one table."""
    from sorcha.modules.PPCalculateApparentMagnitude import PPCalculateApparentMagnitude
    filters = ("r", "g", "i")
    geo = list(itertools.product((0.003, 0.1, 1.0, 7.5, 40.0, 600.0), (0.1, 1.0, 2.2, 30.0, 599.0), (0.0, 0.001, 0.5, 1.0, 5.0, 7.5, 20.0, 29.9, 30.1, 60.0, 119.0, 149.0)))
    for style in STYLES:
        w = [(o, filters[(i + j) % 3], g) for j, o in enumerate("abc") for i, g in enumerate(geo)]
        for order in (1, -1):
            rows = [row(i, o, f, g, func, style, filters, "r") for i, (o, f, g) in enumerate(w)][::order]
            out = PPCalculateApparentMagnitude(pd.DataFrame(rows), func, "r", ["g-r", "i-r"], list(filters), None, None)
            rec.trace()
            for x, got, v in zip(rows, out["trailedSourceMagTrue"], out["v"]):
                o, f, g = w[x["v"]]
                rec.step()
                rec.state(("g", func, style, x["v"], order))
                e = expect(o, f, func, style, *g, 0, "r", None, None, "r")
                rec.outcome((func, round(e, 6)))
                rec.check(v == x["v"] and abs(got - e) < 1e-8, "grid:" + func, lambda: "%s %s %s: %r, expected %r" % (func, style, w[x["v"]], got, e), dict(func=func))


def full(func, style, filters, main, model, survey, ephem, chunk, rec):
    filters = filters.split(",")
    lc, act = model
    models()
    obj = dict(func=func, style=style, filters=filters, model=model, survey=survey, ephem=ephem, chunk=chunk)
    objs = ["a", "b", "c"]
    cfg = sim.base_config(survey, filters=",".join(filters), chunk=chunk, ephem=ephem).set("PHASECURVES", phase_function=func)
    if survey == "DES":
        cfg = cfg.set("FADINGFUNCTION", fading_function_on="False")
    if lc:
        cfg = cfg.set("LIGHTCURVE", lc_model=lc)
    if act:
        cfg = cfg.set("ACTIVITY", comet_activity=act)
    r = sim.Run(os.path.join(os.getcwd(), "run"), cfg, survey=survey)
    complex_rows = [dict(ObjID=o, amp=OBJ[o]["amp"], act=OBJ[o]["act"]) for o in reversed(objs)] if lc or act else None
    prm = []
    for o in reversed(objs):
        p = dict(ObjID=o)
        p.update({k: int(v) if v == int(v) else v for k, v in params(o, func, style, filters, main).items()})  # whole numbers are written as such
        prm.append(p)
    V = [sim.visit(5 + 3 * i, 60000.1 + 0.5 * i, "rgi"[i % 3]) for i in range(7)]
    by = {v["observationId"]: v for v in V}
    if ephem == "external":
        ephs = [sim.eph(o, v, rng=0.3 + 0.4 * i + j, r=1.4 + 0.3 * i + j, phase=[None, 0.0, 100.0][i % 3], des=survey == "DES") for j, o in enumerate(objs) for i, v in enumerate(V)]
        src = {(e["ObjID"], e["FieldID"]): e for e in ephs}
        r.inputs(V, [sim.kep_orbit(o) for o in objs], prm, ephs, complex_rows=complex_rows)
    else:
        from mc import arstub
        V = [sim.visit(5 + 3 * i, 60000.1 + 0.5 * i, "rgi"[i % 3], ra=120.0, dec=20.0) for i in range(7)]
        by = {v["observationId"]: v for v in V}
        orbits = [arstub.bcart_orbit(o, *arstub.place(120.0 + 0.2 * j, 20.0, 2.0 + j, arstub.tdb(60001.0)), 60001.0) for j, o in enumerate(objs)]
        r.inputs(V, orbits, prm, orbit_cols=arstub.BCART_COLS, complex_rows=complex_rows)
        src = None
    r.go()
    rows = r.rows() or []
    rec.trace()
    rec.state(("full", str(obj)))
    want = sorted((o, v["observationId"]) for o in objs for v in V if v["filter"] in filters)
    if not rec.check(sorted((x["ObjID"], int(x["FieldID"])) for x in rows) == want, "full:rows", lambda: "%s: rows %s" % (obj, [(x["ObjID"], x["FieldID"]) for x in rows]), obj):
        return
    for x in rows:
        rec.step()
        e = src[x["ObjID"], int(x["FieldID"])] if src else x
        f = by[int(x["FieldID"])]["filter"]
        rr = math.sqrt(sum(float(e["Obj_Sun_%s_LTC_km" % c]) ** 2 for c in "xyz")) / AU
        mjd = float(x["fieldMJD_TAI"])
        m = expect(x["ObjID"], f, func, style, float(e["Range_LTC_km"]) / AU, rr, float(e["phase_deg"]), mjd, main, lc, act, filters[0])
        rec.outcome((func, style, round(m, 5)))
        for c in ("trailedSourceMagTrue", "trailedSourceMag", "PSFMag"):
            rec.check(abs(float(x[c]) - m) < 2e-6, "full:%s:%s" % (func, style), lambda: "%s: %s of %s visit %s %r expected %r" % (obj, c, x["ObjID"], x["FieldID"], x[c], m), obj)


def shards(tier):
    q = tier == "quick"
    depth = (2, 3) if q else (3, 4)
    out = [["tables", f, s, list(fs), n, depth] for f in FUNCS for s in (STYLES if f != "none" else ("common",)) for fs in SETS for n in range(1, depth[1] + 1)
           if q is False or n < 3 or len(fs) < 3 or fs[0] == "g"]
    out += [["grid", f] for f in FUNCS] + [["sizes", f, n] for f in FUNCS for n in sim.SIZES]
    n = 0
    for f in FUNCS:
        for s in STYLES if f != "none" else ("common",):
            for fs, main in (("r,g,i", "r"), ("g,i,r", "g"), ("r", "r"), ("i,g", "i")):
                for m in range(4):
                    for survey in ("rubin_sim", "DES"):
                        for ephem in ("external", "ar"):
                            n += 1
                            if q and ((ephem == "ar" and (n // 4 % 4 != 0 or survey == "DES")) or (survey == "DES" and (m + n // 8) % 4)):
                                continue
                            for chunk in (1000, 1, 2) if not q else ((1000, 2, 1)[n // 2 % 3],):
                                out.append(["full", f, s, fs, main, MODELS[m], survey, ephem, chunk])
    return out


def run(s, rec):
    rec.sample(s)
    models()
    if s[0] == "tables":
        _, f, st, fs, n, depth = s
        tables(f, st, fs, n, rec, depth)
    elif s[0] == "sizes":
        n = s[2]
        w = tuple(("ab"[(i // 3) % 2], "rgi"[(i + i // 5) % 3], GEO[(i // 2) % 3]) for i in range(n))
        for k, st in enumerate(STYLES if s[1] != "none" else ("common",)):
            table(w, s[1], st, ("r", "g", "i"), MODELS[(n + k) % 4], n % 3, rec)
    elif s[0] == "grid":
        grid(s[1], rec)
    else:
        _, f, st, fs, main, m, survey, ephem, chunk = s
        full(f, st, fs, main, tuple(m), survey, ephem, chunk, rec)
