"""C10: Detection cuts keep exactly the detections that satisfy them."""
import itertools
import math
import os

import pandas as pd

from mc import sim

PID = "C10"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small tables on every side of each limit, and of draws around each detection probability, on the real cuts and on complete runs, against the rule of each cut"
NOTE = (
    "Every table up to a length over rows below, at and above a limit, in every order and with other row labels, goes through the signal-to-noise, "
    "magnitude and saturation cuts (a single limit, and one per filter with the filters listed in every order) and the efficiency cut; every "
    "combination of magnitude, depth, width, peak efficiency and draw through the fading function. Complete runs read the limits from the "
    "configuration file. Only consistency is required of signal-to-noise values exactly equal to the limit, and draws equal to a probability are left out."
)
BOUND = {
    "quick": "SNR and magnitude: all tables of up to 5 rows over 3 values x 3 labellings; saturation: all tables of up to 3 rows over 9 kinds x 6 filter orders x (single, per filter) x 3 labellings; fading: 9x4x3x4 cells x 9 draws; tables of 10 lengths up to 10007; 60 runs",
    "thorough": "SNR and magnitude up to 7 rows; saturation up to 4 rows; 60 runs x 2 chunk sizes",
}


def warm():
    import sorcha.sorcha  # noqa: F401
    import sorcha.des  # noqa: F401


def labelled(df, lab):
    n = len(df)
    if lab == "gaps":
        df.index = [3 * i + 2 for i in range(n)]
    elif lab == "reversed":
        df.index = list(range(n))[::-1]
    return df


LABELS = ("range", "gaps", "reversed")


def same(out, df, keep, rec, sig, obj, either=()):
    got = list(out["v"])
    maybe = set(either)
    exp = [v for v in df["v"] if v in keep]
    core = [v for v in got if v not in maybe]
    rec.step(len(df))
    rec.trace()
    rec.outcome((sig, len(df), len(got)))
    if not rec.check(core == exp, sig + ":rows", lambda: "%s: kept %s, by the rule %s of %s" % (obj, got, exp, df.to_dict("records")), obj):
        return
    m = [v for v in got if v in maybe]
    rec.check(len(m) in (0, len(maybe)), sig + ":ties", lambda: "%s: of equal detections %s only %s kept" % (obj, sorted(maybe), m), obj)
    a, b = out.set_index("v"), df.set_index("v").loc[got]
    rec.check(set(a.columns) == set(b.columns) and a[list(b.columns)].equals(b), sig + ":values", lambda: "%s: values or columns changed" % (obj,), obj)


LIM = {"snr": [0.0, 2.0, 5.0], "mag": [15.0, 22.0, 24.5]}


def straight(which, length, first, rec):
    from sorcha.modules.PPSNRLimit import PPSNRLimit
    from sorcha.modules.PPMagnitudeLimit import PPMagnitudeLimit
    for rest in itertools.product((0, 1, 2), repeat=length - 1):
        w = (first,) + rest
        for lim in LIM[which]:
            x = [lim + (k - 1) * 1e-6 for k in w]
            x = [lim if k == 1 else y for k, y in zip(w, x)]
            for lab in LABELS:
                if which == "snr":
                    df = labelled(pd.DataFrame(dict(ObjID=["o%d" % (i % 2) for i in range(length)], SNRPSFMag=x, SNRTrailedSourceMag=[2 * lim + 1 - y for y in x], v=range(length))), lab)
                    out = PPSNRLimit(df.copy(), lim)
                    keep, ties = {i for i, k in enumerate(w) if k == 2}, {i for i, k in enumerate(w) if k == 1}
                else:
                    df = labelled(pd.DataFrame(dict(ObjID=["o%d" % (i % 2) for i in range(length)], trailedSourceMag=x, PSFMag=[2 * lim - y for y in x], trailedSourceMagTrue=[2 * lim - y for y in x],
                                                    v=range(length))), lab)
                    out = PPMagnitudeLimit(df.copy(), lim)
                    keep, ties = {i for i, k in enumerate(w) if k == 0}, ()
                rec.state((which, w, lim, lab))
                same(out, df, keep, rec, which, dict(kind="straight", which=which, length=length, first=first, rows=w, lim=lim, labels=lab), ties)


F3 = ("g", "r", "i")


def bright(length, first, rec):
    from sorcha.modules.PPBrightLimit import PPBrightLimit
    limit = {"g": 15.0, "r": 16.5, "i": 14.0}
    kinds = list(itertools.product(F3, (0, 1, 2)))
    for rest in itertools.product(kinds, repeat=length - 1):
        w = (kinds[first],) + rest
        mag = [limit[f] + (k - 1) * 1e-6 if k != 1 else limit[f] for f, k in w]
        base = pd.DataFrame(dict(ObjID=["o%d" % (i % 2) for i in range(length)], optFilter=[f for f, _ in w], PSFMag=mag, trailedSourceMag=[30.0 - m for m in mag], v=range(length)))
        for n, filters in enumerate(itertools.permutations(F3)):
            lab = LABELS[(n + length) % 3]
            df = labelled(base.copy(), lab)
            rec.state(("bright", w, filters))
            out = PPBrightLimit(df.copy(), list(filters), [limit[f] for f in filters])
            same(out, df, {i for i, (f, k) in enumerate(w) if k >= 1}, rec, "bright", dict(kind="bright", length=length, first=first, rows=w, filters=filters, labels=lab))
        for lim in limit.values():
            rec.state(("bright1", w, lim))
            df = labelled(base.copy(), LABELS[(length + first) % 3])
            keep = {i for i, m in enumerate(mag) if m >= lim}
            out = PPBrightLimit(df.copy(), list(F3), lim)
            same(out, df, keep, rec, "bright-single", dict(kind="bright", length=length, first=first, rows=w, lim=lim))
            out = PPBrightLimit(df.copy(), ["i", "g", "r"], [lim] * 3)
            same(out, df, keep, rec, "bright-same", dict(kind="bright", length=length, first=first, rows=w, lim=lim))


def prob(m, lim, eff, w):
    x = (m - lim) / w
    return eff / (1.0 + math.exp(x)) if x < 700 else 0.0


MAGS = [10.0, 20.0, 23.0, 23.9, 24.0, 24.05, 24.5, 26.0, 40.0]
DEPTH = [23.0, 23.95, 24.0, 25.5]
WIDTH = [0.05, 0.1, 0.5]
WHICH = list(range(9))


def draw(p, k):
    if k < 4:
        return [1e-9, 1e-6, 0.3, 0.999999][k]
    return min(max(p * [0.5, 0.9999, 1.0001, 1.5, 0.99][k - 4], 1e-9), 0.9999999)


def fading(eff, rec):
    from sorcha.modules.PPFadingFunctionFilter import PPFadingFunctionFilter
    cells = list(itertools.product(MAGS, DEPTH))
    for w in WIDTH:
        p = [prob(m, d, eff, w) for m, d in cells]
        for k in WHICH:
            u = [draw(x, k) for x in p]
            base = pd.DataFrame(dict(ObjID=["o%d" % (i % 3) for i in range(len(cells))], FieldID=range(len(cells)), PSFMag=[c[0] for c in cells], trailedSourceMag=[50.0 - c[0] for c in cells],
                                     fiveSigmaDepth_mag=[c[1] for c in cells], fieldFiveSigmaDepth_mag=30.0, v=range(len(cells))))
            for order in ("range", "gaps", "reversed", "back"):
                obj = dict(kind="fading", eff=eff, w=w, draws=k, order=order)
                df = base.iloc[::-1].reset_index(drop=True) if order == "back" else labelled(base.copy(), order)
                uu = u[::-1] if order == "back" else u
                rng = sim.Draws(uu)
                out = PPFadingFunctionFilter(df.copy(), eff, w, rng)
                for i in range(len(cells)):
                    rec.state(("f", eff, w, k, order, i))
                unsure = {v for v, x in zip(df["v"], uu) if abs(x - p[v]) <= 1e-12}
                same(out[~out["v"].isin(unsure)].reset_index(drop=True), df[~df["v"].isin(unsure)], {v for v, x in zip(df["v"], uu) if x < p[v]}, rec, "fading", obj)
                rec.check(rng.asked == len(df), "fading:draws", lambda: "%s: %d draws for %d detections" % (obj, rng.asked, len(df)), obj)


def efficiency(rec):
    """Small tables and draws through the general probability cuts."""
    from sorcha.modules.PPDropObservations import PPDropObservations
    from sorcha.modules.PPDetectionEfficiency import PPDetectionEfficiency
    for n in range(0, 5):
        for w in itertools.product((0.05, 0.35, 0.8), repeat=n):
            u = list(w)
            for th in (0.0, 0.1, 0.5, 0.9, 1.0):
                df = pd.DataFrame(dict(ObjID=["o"] * n, v=list(range(n))))
                out = PPDetectionEfficiency(df.copy(), th, sim.Draws(u))
                rec.state(("e", w, th))
                same(out.reset_index(drop=True), df, {i for i in range(n) if u[i] < th}, rec, "efficiency", dict(kind="efficiency"))
            for q in itertools.product((0.0, 0.2, 0.5, 1.0), repeat=n) if n <= 3 else [(0.0, 0.5, 1.0, 0.2)]:
                for lab in LABELS:
                    df = labelled(pd.DataFrame(dict(ObjID=["o"] * n, v=list(range(n)), p=list(q))), lab)
                    out = PPDropObservations(df.copy(), sim.Draws(u), "p")
                    rec.state(("d", w, q, lab))
                    same(out.reset_index(drop=True), df, {i for i in range(n) if u[i] < q[i]}, rec, "drop", dict(kind="efficiency"))


# --- runs -----------------------------------------------------------------------------------------------------------------------------
RUNS = [("none", {}, "r,g,i"),
        ("bright", {"SATURATION": {"bright_limit": "16.0"}}, "r,g,i"), ("bright", {"SATURATION": {"bright_limit": "16.0"}}, "r,i"), ("bright", {"SATURATION": {"bright_limit": "15.5, 17.0, 19.25"}}, "r,g,i"),
        ("bright", {"SATURATION": {"bright_limit": "15.5,17.0,19.25"}}, "r, i, g"), ("bright", {"SATURATION": {"bright_limit": "17, 15"}}, "r,i"), ("bright", {"SATURATION": {"bright_limit": "0"}}, "r,g,i"),
        ("mag", {"EXPERT": {"mag_limit": "20.5"}}, "r,g,i"), ("mag", {"EXPERT": {"mag_limit": "0"}}, "r,g,i"), ("mag", {"EXPERT": {"mag_limit": "23"}}, "r,i"),
        ("snr", {"EXPERT": {"snr_limit": "5"}}, "r,g,i"), ("snr", {"EXPERT": {"snr_limit": "0"}}, "r,g,i"), ("snr", {"EXPERT": {"snr_limit": "37.5"}}, "r,i"),
        ("fading", {"FADINGFUNCTION": {"fading_function_width": "0.1", "fading_function_peak_efficiency": "1"}}, "r,g,i"),
        ("fading", {"FADINGFUNCTION": {"fading_function_width": "0.5", "fading_function_peak_efficiency": "0.6"}}, "r,g,i"),
        ("fading", {"FADINGFUNCTION": {"fading_function_width": "0.03", "fading_function_peak_efficiency": "0"}}, "r,g")]


def make(extra, filters, survey, chunk, u=None):
    """Detections of brightness stepping through all limits, in three filters."""
    cfg = sim.base_config(survey, filters=filters, chunk=chunk)
    if survey == "DES":
        cfg = cfg.set("FADINGFUNCTION", fading_function_on="False")
    for s, kv in extra.items():
        cfg = cfg.set(s, **kv)
    r = sim.Run(os.path.join(os.getcwd(), "run"), cfg, survey=survey)
    V = [sim.visit(5 + 3 * i, 60000.1 + 0.5 * i, "rgi"[i % 3], depth=[24.0, 22.5, 23.5][i % 3]) for i in range(6)]
    objs = ["o%d" % i for i in range(16)]
    ephs = [sim.eph(o, v, rng=1.5 + 0.01 * j, des=survey == "DES") for i, o in enumerate(objs) for j, v in enumerate(V) if (i + j) % 2 == 0]
    params = [sim.phys(o, 10.0 + 0.9 * i, "r", {"g-r": 0.5, "i-r": -0.3}) for i, o in enumerate(objs)]
    r.inputs(V, [sim.kep_orbit(o) for o in objs], params, ephs)
    if u is not None:
        r.rngs = sim.Draws(u)
    r.go()
    return r.rows() or []


def full(kind, extra, filters, survey, chunk, rec):
    base = make({}, filters, survey, 1000)
    obj = dict(kind="full", what=kind, extra=extra, filters=filters, survey=survey, chunk=chunk)
    fl = [x.strip() for x in filters.split(",")]
    if kind == "none":
        keep = base
    elif kind == "bright":
        lim = [float(x) for x in extra["SATURATION"]["bright_limit"].split(",")]
        lim = dict(zip(fl, lim * len(fl) if len(lim) == 1 else lim))
        keep = [x for x in base if x["PSFMag"] >= lim[x["optFilter"]]]
    elif kind == "mag":
        keep = [x for x in base if x["trailedSourceMag"] < float(extra["EXPERT"]["mag_limit"])]
    elif kind == "snr":
        keep = [x for x in base if x["SNR" if "SNR" in x else "SNRPSFMag"] > float(extra["EXPERT"]["snr_limit"])]
    else:
        keep = []
    rec.state((kind, str(extra), filters, survey, chunk))
    rec.step(len(base))
    if kind == "fading":
        ff = extra["FADINGFUNCTION"]
        p = [prob(x["PSFMag"], x["fiveSigmaDepth_mag"], float(ff["fading_function_peak_efficiency"]), float(ff["fading_function_width"])) for x in base]
        for k in WHICH:
            u = [draw(q, k) for q in p]
            got = make(extra, filters, survey, chunk, u)
            keep = [x for x, a, b in zip(base, u, p) if a < b]
            rec.trace()
            rec.outcome((kind, str(extra), k, len(keep)))
            rec.check(got == keep, "run:fading", lambda: "%s draws %d: reported %d detections, by the rule %d; e.g. %s" %
                      (obj, k, len(got), len(keep), [x for x in base if (x in got) != (x in keep)][:1]), obj)
        return
    got = make(extra, filters, survey, chunk)
    rec.trace()
    rec.outcome((kind, str(extra), filters, len(got)))
    rec.check(got == keep, "run:" + kind, lambda: "%s: reported %d detections, by the rule %d; e.g. %s" % (obj, len(got), len(keep), [x for x in base if (x in got) != (x in keep)][:1]), obj)


def sizes(n, rec):
    """Long tables through every cut."""
    from sorcha.modules.PPBrightLimit import PPBrightLimit
    from sorcha.modules.PPDropObservations import PPDropObservations
    from sorcha.modules.PPFadingFunctionFilter import PPFadingFunctionFilter
    from sorcha.modules.PPMagnitudeLimit import PPMagnitudeLimit
    from sorcha.modules.PPSNRLimit import PPSNRLimit
    limit = {"g": 15.0, "r": 16.5, "i": 14.0}
    for part, lab in enumerate(LABELS):
        k = [(i * i + i // 3 + part) % 3 for i in range(n)]
        f = [F3[(i + i // 7) % 3] for i in range(n)]
        obj = dict(kind="sizes", n=n, labels=lab)
        rec.state(("sizes", n, lab))
        x = [3.5 + 0.01 * (y - 1) for y in k]
        base = dict(ObjID=["o%d" % (i // 5) for i in range(n)], v=range(n))
        df = labelled(pd.DataFrame(dict(base, SNRPSFMag=x, SNRTrailedSourceMag=[7.0 - y for y in x])), lab)
        same(PPSNRLimit(df.copy(), 3.5), df, {i for i in range(n) if k[i] == 2}, rec, "snr", obj, {i for i in range(n) if k[i] == 1})
        df = labelled(pd.DataFrame(dict(base, trailedSourceMag=x, PSFMag=[7.0 - y for y in x])), lab)
        same(PPMagnitudeLimit(df.copy(), 3.5), df, {i for i in range(n) if k[i] == 0}, rec, "mag", obj, ())
        m = [limit[a] + 0.01 * (b - 1) for a, b in zip(f, k)]
        df = labelled(pd.DataFrame(dict(base, optFilter=f, PSFMag=m, trailedSourceMag=[30.0 - y for y in m])), lab)
        same(PPBrightLimit(df.copy(), list(F3), [limit[a] for a in F3]), df, {i for i in range(n) if k[i] >= 1}, rec, "bright", obj)
        same(PPBrightLimit(df.copy(), list(F3), 15.0), df, {i for i in range(n) if m[i] >= 15.0}, rec, "bright-single", obj)
        mag = [MAGS[(i + i // 9) % 9] for i in range(n)]
        p = [prob(y, 24.0, 0.9, 0.1) for y in mag]
        u = [draw(p[i], (i // 2) % 9) for i in range(n)]
        df = labelled(pd.DataFrame(dict(base, PSFMag=mag, trailedSourceMag=30.0, fiveSigmaDepth_mag=24.0, fieldFiveSigmaDepth_mag=30.0, FieldID=range(n), p=p)), lab)
        keep = {i for i in range(n) if u[i] < p[i]}
        same(PPFadingFunctionFilter(df.copy(), 0.9, 0.1, sim.Draws(u)), df, keep, rec, "fading", obj)
        same(PPDropObservations(df.copy(), sim.Draws(u), "p").reset_index(drop=True), df, keep, rec, "drop", obj)


def shards(tier):
    out = [["sizes", n] for n in sim.SIZES[::-1]]
    nmax = 5 if tier == "quick" else 7
    for which in ("snr", "mag"):
        out += [["straight", which, n, f] for n in range(1, nmax + 1) for f in range(3)]
    out += [["bright", n, f] for n in range(1, 4 if tier == "quick" else 5) for f in range(9)]
    out += [["fading", e] for e in (0.0, 0.4, 0.95, 1.0)] + [["efficiency"]]
    for kind, extra, filters in RUNS:
        for chunk in (1000, 3) if tier == "quick" else (1000, 1, 3, 5):
            out.append(["full", kind, extra, filters, "rubin_sim", chunk])
            if kind in ("none", "bright", "mag") and chunk != 1:
                out.append(["full", kind, extra, filters, "DES", chunk])
    return out


def run(s, rec):
    rec.sample(s)
    {"straight": straight, "bright": bright, "fading": fading, "efficiency": efficiency, "full": full, "sizes": sizes}[s[0]](*s[1:], rec)
