"""C07: DES discovery and cuts follow their published rule."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import sim

PID = "C07"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of multi-year detection histories, small tables and draws on the real DES filters against a brute-force statement of the rules"
NOTE = (
    "Every sequence of gaps between observing nights over a gap alphabet straddling the 60/90 day and half-year limits, with every pattern "
    "of repeated detections per night and of distances around 50 au, is judged by the real discovery filter, many objects and several row "
    "orders at a time; every small table goes through the distance and motion cuts; every combination of magnitude, depth, c, k, efficiency "
    "and draw through the fading filter. Values exactly on a limit are outside the enumeration."
)
BOUND = {
    "quick": "7 nights: 6^6 gap sequences x 3 distance patterns; 8 nights: 3^7; 9 and 10 nights: 2^8, 2^9; 1..3 detections on each of 7 and 8 nights x 5 gap sequences; cuts: all tables of up to 2 objects x 3 detections (27^2) x 3 row orders, and of 10 lengths up to 10007; fading: 5x3x4x3x3 values x 9 draws",
    "thorough": "7 nights: 8^6 gap sequences; 8 nights: 5^7; 9 nights 3^8; repeated detections x 12 gap sequences",
}
AU = 1.495978707e8
DIST = {"near": (40.0, 40.0), "mixed": (60.0, 49.0), "far": (55.0, 70.0)}  # typical, and that of one night


def warm():
    import sorcha.modules.DESDiscoveryFilter  # noqa: F401


def history(name, gaps, reps=None, dist="near", t0=56000.25, step=0.11):
    """One (or reps[i]) detections on each night."""
    n = len(gaps) + 1
    out, t = [], t0
    for i in range(n):
        r = DIST[dist][1 if i == n // 2 else 0]
        for j in range(reps[i] if reps else 1):
            out.append((name, t + step * j, r * 0.6, -r * 0.64, r * 0.48))
        if i < len(gaps):
            t += gaps[i]
    return out


def frame(dets):
    return pd.DataFrame(dict(ObjID=[d[0] for d in dets], fieldMJD_TAI=[d[1] for d in dets], Obj_Sun_x_LTC_km=[d[2] * AU for d in dets],
                             Obj_Sun_y_LTC_km=[d[3] * AU for d in dets], Obj_Sun_z_LTC_km=[d[4] * AU for d in dets],
                             FieldID=range(len(dets)), PSFMag=[20.0 + 0.001 * i for i in range(len(dets))]))


def discovered(ds):
    """ds: detections of one object (name, t, x, y, z), by the rule."""
    ts = sorted(d[1] for d in ds)
    nights = [[ts[0]]]
    for t in ts[1:]:
        if t - nights[-1][0] < 0.5:
            nights[-1].append(t)
        else:
            nights.append([t])
    n = len(nights)
    if n >= 9:
        return True
    if n < 7:
        return False
    arc = min(max(x for m, g in enumerate(nights) if m != k for x in g) - min(x for m, g in enumerate(nights) if m != k for x in g) for k in range(n))
    if not arc > 0.5 * 365.25:
        return False
    win = 90 if min(math.sqrt(d[2] ** 2 + d[3] ** 2 + d[4] ** 2) for d in ds) >= 50 else 60
    f = [g[0] for g in nights]
    return any(f[i + 1] - f[i] < win and f[i + 2] - f[i + 1] < win for i in range(n - 2))


def judge(hists, order, rec, key, obj):
    from sorcha.modules.DESDiscoveryFilter import DESDiscoveryFilter
    dets = [d for h in hists for d in h]
    if order == "time":
        dets.sort(key=lambda d: (d[1], d[0]))
    elif order == "reverse":
        dets.reverse()
    want = {h[0][0]: discovered(h) for h in hists}
    df = frame(dets)
    for h in hists:
        rec.state((key, h[0][0], order))
    rec.step(len(hists))
    rec.trace(len(hists))
    rec.outcome((key, sum(want.values()), order))
    out = DESDiscoveryFilter(df.copy())
    a = sorted(df[[want[o] for o in df["ObjID"]]].itertuples(index=False, name=None))
    b = sorted(out.itertuples(index=False, name=None))
    if a != b:
        ka, kb = {x[0] for x in a}, {x[0] for x in b}
        bad = sorted(ka ^ kb)
        h = [x for x in hists if bad and x[0][0] == bad[0]]
        rec.violation("discovery:" + key, "%s: %d objects judged differently, e.g. %s (reported %s, by the rule %s)" %
                      (obj, len(bad), h[0] if h else "rows differ", bad[0] in kb if bad else "?", want.get(bad[0]) if bad else "?"), dict(obj, history=h[:1]))
        return
    rec.check(list(out["fieldMJD_TAI"]) == sorted(out["fieldMJD_TAI"]) and list(out.index) == list(range(len(out))), "discovery-order", "rows are not in time order", obj)


def nm(gaps, extra=""):
    return "_".join(map(str, gaps)) + extra


GAPS7 = {"quick": (2, 30, 58, 62, 88, 92), "thorough": (2, 15, 31, 58, 62, 88, 92, 150)}
GAPS8 = {"quick": (20, 62, 95), "thorough": (2, 30, 58, 62, 95)}
GAPS9 = {"quick": (1, 95), "thorough": (1, 58, 95)}
SETS = [(30, 30, 100, 100, 100, 100), (100, 100, 30, 100, 30, 30), (1, 1, 1, 1, 1, 1), (20, 20, 20, 20, 20, 100), (30, 100, 30, 100, 30, 100), (58, 62, 58, 62, 58, 62),
        (62, 62, 62, 62, 62, 62), (88, 88, 92, 92, 92, 92), (92, 92, 92, 92, 58, 58), (5, 5, 5, 5, 5, 160), (160, 5, 5, 5, 5, 20), (5, 300, 5, 300, 5, 5)]


# --- cuts -----------------------------------------------------------------------------------------------------------------------------
def cut_tables(first, rec):
    """All tables of two objects with up to three detections each, every one below, within or above the range."""
    from sorcha.modules.PPDistanceandMotionCuts import distance_cut, motion_cut
    kinds = [()] + [t for k in (1, 2, 3) for t in itertools.product((0, 1, 2), repeat=k)]
    for second in kinds:
        rows = [("a", k) for k in first] + [("b", k) for k in second]
        if not rows:
            continue
        for order in ("given", "reverse", "mixed"):
            rr = rows if order == "given" else rows[::-1] if order == "reverse" else rows[1::2] + rows[::2]
            for labels in ("range", "gaps"):
                obj = dict(kind="cut", first=first, second=second, order=order, labels=labels)
                idx = range(len(rr)) if labels == "range" else [7 * i + 3 for i in range(len(rr))][::-1]
                for lo, hi in ((2.0, 3.0), (0.0, 3.0), (2.0, 1000.0)):
                    d = [[1.5, 2.5, 3.5][k] for _, k in rr]
                    df = pd.DataFrame(dict(ObjID=[o for o, _ in rr], Obj_Sun_x_LTC_km=[x * AU * 0.36 for x in d], Obj_Sun_y_LTC_km=[-x * AU * 0.48 for x in d],
                                           Obj_Sun_z_LTC_km=[x * AU * 0.8 for x in d], v=range(len(rr))), index=idx)
                    keep = {o for (o, _), x in zip(rr, d) if lo < x < hi}
                    out = distance_cut(df.copy(), hi, lo)
                    want = [i for i, (o, _) in enumerate(rr) if o in keep]
                    rec.state(("d", first, second, order, labels, lo, hi))
                    rec.step()
                    rec.trace()
                    rec.check(list(out["v"]) == want, "distance", lambda: "%s: range %s-%s au, distances %s of %s: kept %s, expected %s" % (obj, lo, hi, d, rr, list(out["v"]), want), obj)
                for lo, hi in ((0.2, 0.4), (0.0, 0.4), (0.2, 10.0)):
                    m = [[0.1, 0.3, 0.5][k] for _, k in rr]
                    sg = [(1, 1), (-1, 1), (1, -1), (-1, -1)]
                    df = pd.DataFrame(dict(ObjID=[o for o, _ in rr], RARateCosDec_deg_day=[x * 0.6 * sg[i % 4][0] for i, x in enumerate(m)],
                                           DecRate_deg_day=[x * 0.8 * sg[i % 4][1] for i, x in enumerate(m)], v=range(len(rr))), index=idx)
                    out = motion_cut(df.copy(), hi, lo)
                    want = [i for i, x in enumerate(m) if lo < x < hi]
                    rec.state(("m", first, second, order, labels, lo, hi))
                    rec.step()
                    rec.trace()
                    rec.outcome(("cut", len(want), len(keep)))
                    rec.check(list(out["v"]) == want, "motion", lambda: "%s: range %s-%s deg/day, rates %s of %s: kept %s, expected %s" % (obj, lo, hi, m, rr, list(out["v"]), want), obj)


def sizes(n, rec):
    """Long tables through the cuts and the discovery."""
    from sorcha.modules.PPDistanceandMotionCuts import distance_cut, motion_cut
    ids = ["o%d" % (i * i % (n // 4 + 1)) for i in range(n)]
    k = [(i + i // 7) % 3 if i % 5 else 0 for i in range(n)]
    d = [[1.5, 2.5, 3.5][x] if o[-1] in "123" else 1.5 for x, o in zip(k, ids)]
    df = pd.DataFrame(dict(ObjID=ids, Obj_Sun_x_LTC_km=[x * AU * 0.36 for x in d], Obj_Sun_y_LTC_km=[-x * AU * 0.48 for x in d], Obj_Sun_z_LTC_km=[x * AU * 0.8 for x in d],
                           RARateCosDec_deg_day=[x * 0.6 for x in d], DecRate_deg_day=[-x * 0.8 for x in d], v=range(n)))
    rec.state(("sizes", n))
    rec.step(2)
    rec.trace(2)
    keep = {o for o, x in zip(ids, d) if 2 < x < 3}
    out = distance_cut(df.copy(), 3.0, 2.0)
    rec.outcome(("sizes", n, len(keep)))
    rec.check(list(out["v"]) == [i for i in range(n) if ids[i] in keep], "distance", lambda: "table of %d rows: kept %d, expected %d" % (n, len(out), sum(o in keep for o in ids)), dict(kind="sizes", n=n))
    out = motion_cut(df.copy(), 3.0, 2.0)
    rec.check(list(out["v"]) == [i for i in range(n) if 2 < d[i] < 3], "motion", lambda: "table of %d rows: kept %d" % (n, len(out)), dict(kind="sizes", n=n))
    # objects seen on many nights, and many times a night
    hs = [history("h%d" % i, (1,) * (min(n, 300) if i % 2 else 2 + i), reps=None if i % 2 else (n % 97 + 1,) + (1,) * (2 + i), step=0.003) for i in range(4)]
    judge(hs, "given", rec, "sizes", dict(kind="sizes", n=n))


def fading(eff, rec):
    from sorcha.modules.DESFadingFunctionFilter import DESFadingFunctionFilter
    cells = list(itertools.product((20.0, 23.0, 23.9, 24.5, 30.0), (23.0, 24.0, 24.5), (0.2, 0.8, 0.93, 1.0), (0.5, 5.0, 12.0)))
    prob = [eff * c / (1 + math.exp(k * (m - lim))) for m, lim, c, k in cells]
    for which in range(9):
        u = [[0.0, 1e-6, 0.3, 0.999999][which] if which < 4 else
             min(max(p * [0.5, 0.999, 1.001, 1.5, 1.0001][which - 4], 0.0), 0.9999999) for p in prob]
        df = pd.DataFrame(dict(ObjID=["o%d" % (i % 3) for i in range(len(cells))], PSFMag=[c[0] for c in cells], fiveSigmaDepth_mag=[c[1] for c in cells], c=[c[2] for c in cells],
                               k=[c[3] for c in cells], v=range(len(cells))))
        for order in ("given", "reverse"):
            d = df if order == "given" else df.iloc[::-1].reset_index(drop=True)
            uu = u if order == "given" else u[::-1]
            rng = sim.Draws(uu)
            out = DESFadingFunctionFilter(d.copy(), eff, rng)
            want = [v for v, x in zip(d["v"], uu) if x <= prob[v]]
            obj = dict(kind="fading", eff=eff, which=which, order=order)
            for i in range(len(cells)):
                rec.state(("f", eff, which, order, i))
            rec.step(len(cells))
            rec.trace(len(cells))
            rec.outcome(("f", eff, which, len(want)))
            diff = sorted(set(want) ^ set(out["v"]))
            rec.check(list(out["v"]) == want, "fading", lambda: "%s: detections kept differ: %s" % (obj, [(cells[v], prob[v], v in want) for v in diff[:3]]), obj)
            rec.check(list(out.columns) == list(d.columns), "fading-columns", lambda: "%s: columns %s" % (obj, list(out.columns)), obj)


def shards(tier):
    out = []
    for g in GAPS7[tier]:
        for g2 in GAPS7[tier]:
            for d in DIST:
                out.append(["n7", tier, g, g2, d])
    for g in GAPS8[tier]:
        for d in DIST:
            out.append(["n8", tier, g, d])
    for d in DIST:
        out += [["n9", tier, 8, d], ["n9", tier, 9, d], ["few", tier, d]]
    for i in range(5 if tier == "quick" else len(SETS)):
        for d in DIST:
            out += [["reps", i, d, 7], ["reps", i, d, 8]]
    kinds = [()] + [t for k in (1, 2, 3) for t in itertools.product((0, 1, 2), repeat=k)]
    for i in range(0, len(kinds), 4):
        out.append(["cut", i])
    out += [["sizes", n] for n in sim.SIZES]
    for eff in (0.1, 0.6, 1.0):
        out.append(["fading", eff])
    return out


def run(s, rec):
    rec.sample(s)
    obj = dict(shard=s)
    k = s[0]
    if k == "n7":
        _, tier, g, g2, d = s
        hs = [history(nm((g, g2) + r), (g, g2) + r, dist=d) for r in itertools.product(GAPS7[tier], repeat=4)]
        judge(hs, ("given", "time", "reverse")[(g + g2) % 3], rec, "n7-" + d, obj)
    elif k == "n8":
        _, tier, g, d = s
        hs = [history(nm((g,) + r), (g,) + r, dist=d) for r in itertools.product(GAPS8[tier], repeat=6)]
        judge(hs, "time", rec, "n8-" + d, obj)
    elif k == "n9":
        _, tier, n, d = s
        hs = [history(nm(r), r, dist=d) for r in itertools.product(GAPS9[tier] if n == 8 else (1, 95), repeat=n)]
        judge(hs, "reverse", rec, "n%d-%s" % (n + 1, d), obj)
    elif k == "few":
        _, tier, d = s
        hs = [history(nm(r), r, dist=d) for n in range(0, 6) for r in itertools.product((1, 30, 95, 250), repeat=n)]
        judge(hs, "given", rec, "few-" + d, obj)
    elif k == "reps":
        _, i, d, n = s
        gaps = SETS[i] if n == 7 else SETS[i] + (40,)
        hs = [history(nm(gaps, "r" + "".join(map(str, r))), gaps, reps=r, dist=d) for r in itertools.product((1, 2, 3), repeat=n)]
        judge(hs, ("given", "time", "reverse")[i % 3], rec, "reps%d-%d-%s" % (n, i, d), obj)
    elif k == "sizes":
        sizes(s[1], rec)
    elif k == "cut":
        kinds = [()] + [t for m in (1, 2, 3) for t in itertools.product((0, 1, 2), repeat=m)]
        for f in kinds[s[1]: s[1] + 4]:
            cut_tables(f, rec)
    else:
        fading(s[1], rec)


def replay(o, rec):
    if "shard" in o:
        run(o["shard"], rec)
    elif o["kind"] == "sizes":
        sizes(o["n"], rec)
    elif o["kind"] == "cut":
        cut_tables(tuple(o["first"]), rec)
    else:
        fading(o["eff"], rec)
