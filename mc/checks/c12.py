"""C12: Trailing loss, vignetting and uncertainties follow their formulas."""
import itertools
import math
import os
import types

import pandas as pd

from mc import sim

PID = "C12"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of grids of rate, seeing, exposure, offset, field position, depth and magnitude, and of all small tables over them, on the real functions and on complete runs, against independent scalar formulas and their monotonicity"
NOTE = (
    "Every cell of the grids goes through the trailing, vignetting and uncertainty code and is compared with a scalar implementation of the documented formula; the expected direction of "
    "each response is checked between all neighbouring cells. All tables up to a length with permuted row labels show that rows do not mix. Complete runs over all settings of the effects are compared row by row "
    "with values derived from the input files alone. The vignetting curve is the published table, copied into the check."
)
BOUND = {
    "quick": "trailing 2 models x 13x9 rates x 5 seeings x 4 exposures; vignetting 9 field positions x 206 radii x 8 directions; uncertainties 33 magnitudes x 3 depths x 3 seeings x 4 rates x 2 settings; all tables of up to 3 rows over 6 kinds x 3 labellings, and of 10 lengths up to 10007; 72 runs",
    "thorough": "tables of up to 5 rows; 120 runs with 5 chunk sizes",
}

FRAC = [0.623885] * 33 + [0.623822, 0.623759, 0.623632, 0.623442, 0.623316, 0.623000, 0.622494, 0.622367, 0.621861, 0.621671, 0.621292, 0.621039, 0.620659, 0.620216, 0.619963, 0.619394, 0.619204,
        0.618635, 0.618319, 0.618066, 0.617496, 0.617117, 0.616737, 0.616168, 0.615535, 0.614840, 0.614207, 0.613385, 0.612436, 0.611614, 0.610602, 0.609716, 0.608957, 0.608071, 0.606996, 0.605668,
        0.604972, 0.603770, 0.602758, 0.601177, 0.599595, 0.598140, 0.595673, 0.594282, 0.592447, 0.590613, 0.588526, 0.586312, 0.584287, 0.582137, 0.580113, 0.578025, 0.576064, 0.573344, 0.570561,
        0.563730, 0.545322, 0.521412, 0.492757, 0.460624, 0.429565, 0.404959, 0.383073, 0.356190, 0.317161, 0.279777, 0.241824, 0.201974]  # fraction of rays not vignetted every 0.02 deg


def warm():
    import sorcha.sorcha  # noqa: F401


def loss(dra, ddec, seeing, texp, model):
    x = math.hypot(dra, ddec) / 24.0 * texp / seeing  # deg/day = 3600 arcsec / 86400 s = arcsec/s / 24
    a, b = (0.761, 1.162) if model == "trailedSource" else (0.420, 0.003)
    return 1.25 * math.log10(1 + a * x * x / (1 + b * x))


def unit(ra, dec):
    a, d = math.radians(ra), math.radians(dec)
    return (math.cos(a) * math.cos(d), math.sin(a) * math.cos(d), math.sin(d))


def sep(p, q):
    u, v = unit(*p), unit(*q)
    c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    return math.degrees(math.atan2(math.sqrt(sum(x * x for x in c)), sum(x * y for x, y in zip(u, v))))


def dim(th):
    """Magnitudes lost to vignetting at th degrees from the field centre."""
    k = th / 0.02
    i = int(math.floor(k))
    f = FRAC[-1] if i >= 100 else FRAC[i] + (k - i) * (FRAC[i + 1] - FRAC[i])
    return -2.5 * math.log10(f / FRAC[0])


def errors(mag, m5, fwhm):
    """SNR, magnitude error, astrometric error [deg] (seeing in arcsec)"""
    x = 10 ** (0.4 * (mag - m5))
    snr = 1 / math.sqrt((0.04 - 0.039) * x + 0.039 * x * x)
    return snr, 2.5 * math.log10(1 + 1 / snr), math.hypot(0.010, 0.60 * fwhm / snr) / 3600.0


RATES = [0.0, 1e-4, 0.03, 0.25, 1.0, 4.0, 20.0]


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(b)) if math.isfinite(b) else a == b


def trailing(model, rec):
    from sorcha.modules.PPTrailingLoss import PPTrailingLoss, calcTrailingLoss
    ra = [-r for r in RATES[:0:-1]] + RATES
    dec = [0.0, 1e-3, 0.1, 2.0, 9.0, -1e-3, -0.1, -2.0, -9.0]
    seeing = [0.35, 0.7, 0.8, 1.1, 2.5]
    texp = [1.0, 15.0, 30.0, 90.0]
    cells = list(itertools.product(ra, dec, seeing, texp))
    df = pd.DataFrame(dict(RARateCosDec_deg_day=[c[0] for c in cells], DecRate_deg_day=[c[1] for c in cells], seeingFwhmEff_arcsec=[c[2] for c in cells],
                           seeingFwhmGeom_arcsec=[c[2] * 0.8 + 0.05 for c in cells], visitExposureTime=[c[3] for c in cells], Dec_deg=[(7 * i) % 180 - 90.0 for i in range(len(cells))]))
    got = list(PPTrailingLoss(df.copy(), model))
    val = {}
    for i, c in enumerate(cells):
        e = loss(*c, model)
        val[c] = got[i]
        rec.state(("trail", model, c))
        rec.step()
        rec.outcome((model, round(e, 9)))
        rec.check(close(got[i], e), "trail:" + model, lambda: "%s %s: %r expected %r" % (model, c, got[i], e), dict(kind="trail"))
        one = float(calcTrailingLoss(*c[:3], texp=c[3], model=model))
        rec.check(close(one, e), "trail1:" + model, lambda: "%s %s: scalar %r expected %r" % (model, c, one, e), dict(kind="trail"))
    rec.trace(len(cells))
    # direction: faster motion (either component), longer exposure, better seeing never lessen the loss
    for s, t in itertools.product(seeing, texp):
        order = sorted(((math.hypot(a, d), val[a, d, s, t]) for a in ra for d in dec))
        for (v0, l0), (v1, l1) in zip(order, order[1:]):
            rec.check(l1 >= l0 - 1e-12, "trail-direction:" + model, lambda: "%s: seeing %r exposure %r: loss %r at rate %r but %r at %r" % (model, s, t, l0, v0, l1, v1), dict(kind="trail"))
        rec.check(val[0.0, 0.0, s, t] == 0.0, "trail-zero", lambda: "no motion, loss %r" % val[0.0, 0.0, s, t])


FIELDS = [(10.0, -5.0), (0.0, 0.0), (359.9, 30.0), (0.05, -60.0), (180.0, 89.0), (77.0, 90.0), (200.0, -90.0), (300.0, -88.5), (90.0, 45.0)]
RADII = sorted({0.0, 1e-6, 0.01, 0.02, 0.3, 0.64, 0.65, 0.66, 0.7, 0.9, 1.0, 1.01, 1.2, 1.3, 1.39, 1.4, 1.5, 1.6, 1.7, 1.7499, 1.75, 1.76, 1.8, 1.85, 1.9, 1.95, 1.99, 1.9999, 2.02, 2.5} | {round(0.01 * i, 2) for i in range(201)})  # every node of the curve and the middle between two
PAS = [0.0, 33.0, 90.0, 145.0, 180.0, 222.0, 270.0, 315.0]


def offset(f, r, pa):
    """Sky position r degrees from f in direction pa."""
    d0, r, pa = math.radians(f[1]), math.radians(r), math.radians(pa)
    x, y, z = math.cos(r), math.sin(r) * math.sin(pa), math.sin(r) * math.cos(pa)  # along f, east, north
    X, Z = x * math.cos(d0) - z * math.sin(d0), x * math.sin(d0) + z * math.cos(d0)
    return ((f[0] + math.degrees(math.atan2(y, X))) % 360.0, math.degrees(math.atan2(Z, math.hypot(X, y))))


def vignetting(k, rec):
    from sorcha.modules.PPVignetting import vignettingEffects
    f = FIELDS[k]
    cells = list(itertools.product(RADII, PAS))
    pos = [offset(f, *c) for c in cells]
    df = pd.DataFrame(dict(RA_deg=[p[0] for p in pos], Dec_deg=[p[1] for p in pos], fieldRA_deg=f[0], fieldDec_deg=f[1], fieldFiveSigmaDepth_mag=[24.0 + 0.1 * (i % 7) for i in range(len(cells))]))
    got = list(vignettingEffects(df.copy()))
    by = {}
    for i, c in enumerate(cells):
        th = sep(pos[i], f)
        e = 24.0 + 0.1 * (i % 7) - dim(th)
        rec.state(("vig", f, c))
        rec.step()
        rec.outcome(("vig", round(e, 6)))
        by.setdefault(c[0], []).append(24.0 + 0.1 * (i % 7) - got[i])
        rec.check(close(got[i], e, 1e-7), "vignetting", lambda: "field %s position %s (%.6f deg): depth %r expected %r" % (f, pos[i], th, got[i], e), dict(kind="vig"))
        rec.check(abs(th - c[0]) < 1e-9, "harness-offset", lambda: "offset %s gave %r" % (c, th))
    rec.trace(len(cells))
    for a, b in zip(RADII, RADII[1:]):
        rec.check(min(by[b]) >= max(by[a]) - 1e-9, "vignetting-direction", lambda: "field %s: loss %s at %r deg, %s at %r deg" % (f, by[a], a, by[b], b), dict(kind="vig"))
    rec.check(max(map(abs, by[0.0])) == 0.0, "vignetting-centre", lambda: "loss %s at the field centre" % by[0.0])


def conf(trail):
    return types.SimpleNamespace(expert=types.SimpleNamespace(trailing_losses_on=trail))


def expected(x, trail):
    """x: a row with true magnitudes, depth, rates, seeing: the columns added"""
    dm = loss(x["RARateCosDec_deg_day"], x["DecRate_deg_day"], x["seeingFwhmGeom_arcsec"], x["visitExposureTime"], "trailedSource") if trail else 0.0
    s1, p1, a1 = errors(x["trailedSourceMagTrue"] + dm, x["fiveSigmaDepth_mag"], x["seeingFwhmGeom_arcsec"])
    s2, p2, _ = errors(x["PSFMagTrue"], x["fiveSigmaDepth_mag"], x["seeingFwhmGeom_arcsec"])
    return dict(astrometricSigma_deg=a1, SNRTrailedSourceMag=s1, trailedSourceMagSigma=p1, SNRPSFMag=s2, PSFMagSigma=p2)


def uncertainty(trail, rec):
    from sorcha.modules.PPAddUncertainties import addUncertainties
    mags = [14.0 + 0.4 * i for i in range(33)]
    cells = list(itertools.product([22.5, 24.0, 24.6], [0.5, 0.8, 1.9], [(0.0, 0.0), (0.2, -0.1), (-3.0, 1.0), (12.0, 15.0)], mags))
    rows = [dict(trailedSourceMagTrue=m, PSFMagTrue=m + 0.13 * (i % 5), fiveSigmaDepth_mag=d, fieldFiveSigmaDepth_mag=30.0, seeingFwhmGeom_arcsec=s, seeingFwhmEff_arcsec=3 * s, RARateCosDec_deg_day=v[0],
                 DecRate_deg_day=v[1], visitExposureTime=[30.0, 15.0][i // 33 % 2], visitTime=99.0) for i, (d, s, v, m) in enumerate(cells)]
    out = addUncertainties(pd.DataFrame(rows), conf(trail), None, verbose=False)
    prev = None
    for i, (c, x) in enumerate(zip(cells, rows)):
        e = expected(x, trail)
        rec.state(("unc", trail, c))
        rec.step()
        for k, v in e.items():
            g = float(out[k].iloc[i])
            rec.outcome((k, round(v, 10)))
            rec.check(close(g, v), "uncertainty:" + k, lambda: "%s: %s %r expected %r" % (x, k, g, v), dict(kind="unc"))
        # direction: fainter is never better measured
        if prev is not None and c[:3] == prev[0][:3]:
            for k in ("astrometricSigma_deg", "trailedSourceMagSigma"):
                rec.check(float(out[k].iloc[i]) >= float(out[k].iloc[prev[1]]), "uncertainty-direction:" + k, lambda: "%s: %s decreases from the magnitude before" % (x, k), dict(kind="unc"))
        prev = (c, i)
        rec.check(x["trailedSourceMagTrue"] == float(out["trailedSourceMagTrue"].iloc[i]) and x["PSFMagTrue"] == float(out["PSFMagTrue"].iloc[i]), "uncertainty-true", lambda: "true magnitudes changed")
    rec.trace(len(cells))


KINDS = [dict(trailedSourceMagTrue=m, PSFMagTrue=p, RARateCosDec_deg_day=a, DecRate_deg_day=d, seeingFwhmGeom_arcsec=g, seeingFwhmEff_arcsec=s, visitExposureTime=t, fieldFiveSigmaDepth_mag=f,
              fieldRA_deg=fr, fieldDec_deg=fd, RA_deg=fr + o, Dec_deg=fd)
         for m, p, a, d, g, s, t, f, fr, fd, o in [(20.0, 20.1, 0.1, 0.2, 0.7, 0.8, 30.0, 24.0, 10.0, 0.0, 0.0), (23.9, 24.5, -2.0, 0.0, 1.1, 1.3, 15.0, 23.0, 200.0, -30.0, 1.9),
                                                   (16.0, 16.0, 0.0, 0.0, 0.5, 0.6, 30.0, 24.5, 359.0, 60.0, 3.4), (25.5, 27.0, 9.0, -9.0, 0.9, 1.0, 90.0, 24.2, 0.5, -1.0, -1.5),
                                                   (24.0, 24.0, 0.01, 5.0, 2.0, 2.2, 1.0, 22.0, 100.0, -89.0, 60.0), (18.0, 18.7, 0.3, -0.3, 0.8, 0.9, 30.0, 25.0, 100.0, 45.0, 0.4)]]


def tables(n, first, rec):
    from sorcha.modules.PPTrailingLoss import PPTrailingLoss
    from sorcha.modules.PPVignetting import vignettingEffects
    from sorcha.modules.PPAddUncertainties import addUncertainties
    if first is None:  # a long table
        words = [tuple((i * i + i // 4) % len(KINDS) for i in range(n))]
    else:
        words = [(first,) + rest for rest in itertools.product(range(len(KINDS)), repeat=n - 1)]
    for w in words:
        for lab in range(3):
            df = pd.DataFrame([KINDS[k] for k in w])
            if lab:
                df.index = [3 * i + 2 for i in range(n)] if lab == 1 else list(range(n))[::-1]
            obj = dict(kind="table", rows=w[:9], length=n, labels=lab)
            rec.state(("tab", w, lab))
            rec.step(n)
            rec.trace()
            df["PSFMagTrue"] = PPTrailingLoss(df, "circularPSF") + df["trailedSourceMagTrue"]
            df["fiveSigmaDepth_mag"] = vignettingEffects(df)
            out = addUncertainties(df.copy(), conf(True), None, verbose=False)
            for i, k in enumerate(w):
                x = dict(KINDS[k])
                x["PSFMagTrue"] = x["trailedSourceMagTrue"] + loss(x["RARateCosDec_deg_day"], x["DecRate_deg_day"], x["seeingFwhmEff_arcsec"], x["visitExposureTime"], "circularPSF")
                x["fiveSigmaDepth_mag"] = x["fieldFiveSigmaDepth_mag"] - dim(sep((x["RA_deg"], x["Dec_deg"]), (x["fieldRA_deg"], x["fieldDec_deg"])))
                for c, v in list(x.items()) + list(expected(x, True).items()):
                    g = float(out[c].iloc[i])
                    rec.outcome((c, round(g, 8)))
                    rec.check(close(g, v, 1e-7 if c != "astrometricSigma_deg" else 1e-11), "table:" + c, lambda: "%s: row %d %s %r expected %r" % (obj, i, c, g, v), obj)


def full(trail, vig, rand, snrcut, cam, chunk, rec):
    cfg = sim.base_config(filters="r,g", chunk=chunk).set("EXPERT", trailing_losses_on=str(trail), vignetting_on=str(vig), randomization_on=str(rand), default_snr_cut=str(snrcut))
    if cam == "circle":
        cfg = cfg.set("FOV", camera_model="circle", circle_radius="1.95")
    r = sim.Run(os.path.join(os.getcwd(), "run"), cfg)
    obj = dict(kind="full", trail=trail, vig=vig, rand=rand, snrcut=snrcut, cam=cam, chunk=chunk)
    V = [sim.visit(5 + 3 * i, 60000.1 + 0.5 * i, "rg"[i % 2], ra=[10.0, 359.5, 100.0, 0.2][i % 4], dec=[-5.0, 0.0, 88.9, -60.0][i % 4], depth=[24.0, 23.1, 24.7][i % 3], seeing=[0.6, 0.9, 1.4][i % 3],
                   seeingeff=[0.7, 1.0, 1.7][i % 3], exptime=[30.0, 15.0][i // 2 % 2], visittime=[34.0, 20.0][i // 2 % 2]) for i in range(8)]
    objs = ["o%d" % i for i in range(6)]
    E, H = {}, {}
    ephs, params = [], []
    for i, o in enumerate(objs):
        params.append(sim.phys(o, 15.0 + 1.3 * i, "r", {"g-r": 0.5}))
        for j, v in enumerate(V):
            ra, dec = offset((v["fieldRA"], v["fieldDec"]), [0.0, 0.6, 1.2, 1.5, 1.8, 1.93][(i + j) % 6], 61.0 * i + 97.0 * j)
            dra, ddec = [(0.0, 0.0), (0.3, -0.1), (-2.5, 4.0), (12.0, 0.5)][(i + 3 * j) % 4]
            e = sim.eph(o, v, ra=ra, dec=dec, rng=1.5, r=2.0, dra=dra, ddec=ddec, phase=20.0)
            E[o, v["observationId"]] = (e, v)
            ephs.append(e)
    r.inputs(V, [sim.kep_orbit(o) for o in objs], params, ephs)
    r.go()
    rows = r.rows() or []
    rec.trace()
    rec.state(str(obj))
    from mc.checks.c11 import phase
    seen = set()
    for x in rows:
        key = x["ObjID"], int(x["FieldID"])
        seen.add(key)
        e, v = E[key]
        H0 = 15.0 + 1.3 * objs.index(key[0]) + (0.5 if v["filter"] == "g" else 0.0)
        y = dict(trailedSourceMagTrue=H0 + 5 * math.log10(1.5 * 2.0) + phase("HG", 20.0, 0.15), RARateCosDec_deg_day=e["RARateCosDec_deg_day"], DecRate_deg_day=e["DecRate_deg_day"], seeingFwhmGeom_arcsec=v["seeingFwhmGeom"],
                 visitExposureTime=v["visitExposureTime"])
        y["PSFMagTrue"] = y["trailedSourceMagTrue"] + (loss(y["RARateCosDec_deg_day"], y["DecRate_deg_day"], v["seeingFwhmEff"], v["visitExposureTime"], "circularPSF") if trail else 0.0)
        y["fiveSigmaDepth_mag"] = v["fiveSigmaDepth"] - (dim(sep((e["RA_deg"], e["Dec_deg"]), (v["fieldRA"], v["fieldDec"]))) if vig else 0.0)
        y.update(expected(y, trail))
        y["RATrue_deg"], y["DecTrue_deg"] = e["RA_deg"], e["Dec_deg"]
        rec.step()
        for c, z in y.items():
            g = float(x[c])
            rec.outcome((c, round(z, 7)))
            rec.check(abs(g - z) <= 2e-6 * max(1.0, abs(z)) if c != "astrometricSigma_deg" else abs(g - z) <= 1e-6 * z + 1e-12, "full:" + c, lambda: "%s: %s of %s is %r, expected %r" % (obj, c, key, g, z), obj)
    if not (rand and snrcut):
        rec.check(seen == set(E) and len(rows) == len(E), "full:rows", lambda: "%s: %d rows for %d potential detections" % (obj, len(rows), len(E)), obj)


def shards(tier):
    q = tier == "quick"
    out = [["trailing", m] for m in ("circularPSF", "trailedSource")] + [["vignetting", i] for i in range(len(FIELDS))] + [["uncertainty", t] for t in (True, False)]
    out += [["tables", n, f] for n in range(1, 4 if q else 6) for f in range(len(KINDS))] + [["tables", n, None] for n in sim.SIZES]
    for t, v, r, s, cam in itertools.product((True, False), (True, False), (True, False), (True, False), ("none", "circle")):
        for chunk in (1000, 1, 4) if q else (1000, 1, 2, 3, 4):
            if s and not r:
                continue
            out.append(["full", t, v, r, s, cam, chunk])
    return out


def run(s, rec):
    rec.sample(s)
    {"trailing": trailing, "vignetting": vignetting, "uncertainty": uncertainty, "tables": tables, "full": full}[s[0]](*s[1:], rec)
