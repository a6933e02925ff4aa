"""C06: an object is linked exactly when its detections satisfy the linking rule."""
import itertools
import math

import numpy as np
import pandas as pd

PID = "C06"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of detection histories on the real linking filter against a brute-force statement of the rule"
NOTE = (
    "Every detection history of the stated kinds (all patterns of nights without, with too few, or with a tracklet; all placements of up "
    "to four detections in a night on a time and separation grid; nights around local noon) is linked by the real compiled filter, many "
    "objects and all row orders at a time, and compared with a brute-force reading of the rule. Detections closer than 2.4 h to local "
    "noon, simultaneous detections of one object and values exactly on a limit are outside the enumeration."
)
BOUND = {
    "quick": "nights: all 3^8 patterns x windows 1..9 x nlink 1..4; tracklets: all placements of 1..4 detections in 6 time slots x 4 separations x 4 sky places x min. observations 1..4; noon: 6 settings x all placements of 2..3 detections in 6 slots; tables: all row orders of 3 objects; 24 objects over 430 nights x 9 windows x 5 nlink; nights of up to 130 detections",
    "thorough": "3^10 night patterns x windows 1..12 x nlink 1..6; tracklets of up to 5 detections",
}
ARC = 1 / 3600.0


def warm():
    t = frame([("w", 60000.7, 10.0, 0.0), ("w", 60000.71, 10.0, 0.001)])
    link(t, minobs=2, nlink=1, window=2)
    link(t, minobs=2, nlink=2, window=2)


def frame(dets, index=None):
    n = len(dets)
    df = pd.DataFrame(dict(ObjID=[d[0] for d in dets], FieldID=[1000 + 7 * i for i in range(n)], fieldMJD_TAI=[d[1] for d in dets],
                           RA_deg=[d[2] % 360.0 for d in dets], Dec_deg=[d[3] for d in dets], tag=list(range(n)), mag=[20.0 + 0.01 * i for i in range(n)]))
    if index is not None:
        df.index = index
    return df


def link(df, minobs=2, nlink=3, window=15, minsep=0.5, maxt=0.0625, noon=16.0, drop=True, p=1.0):
    from sorcha.modules.PPLinkingFilter import PPLinkingFilter
    return PPLinkingFilter(df, p, minobs, nlink, window, minsep, maxt, noon, drop_unlinked=drop)


def sep_arcsec(a, b):
    """By vectors: independent of the haversine used by the code."""
    def v(ra, de):
        ra, de = math.radians(ra), math.radians(de)
        return np.array([math.cos(de) * math.cos(ra), math.cos(de) * math.sin(ra), math.sin(de)])
    x, y = v(*a), v(*b)
    return math.degrees(math.atan2(np.linalg.norm(np.cross(x, y)), float(x @ y))) * 3600


def night_of(t, noon):
    return math.floor(t - noon / 24.0)


def has_tracklet(ds, minobs, minsep, maxt):
    """ds: detections of one night. Is there a set of detections that makes a tracklet?"""
    if len(ds) < minobs:
        return False
    if minobs == 1:
        return True
    for a in ds:
        for b in ds:
            if 0 < b[1] - a[1] < maxt and sep_arcsec(a[2:4], b[2:4]) > minsep:
                if sum(a[1] <= c[1] <= b[1] for c in ds) >= minobs:
                    return True
    return False


def linked_night(ds, minobs, nlink, window, minsep, maxt, noon):
    by = {}
    for d in ds:
        by.setdefault(night_of(d[1], noon), []).append(d)
    good = sorted(n for n, x in by.items() if has_tracklet(x, minobs, minsep, maxt))
    for n in good:
        if nlink == 1 or sum(n - window < m <= n for m in good) >= nlink:
            return n
    return None


def compare(df, out, want, drop, rec, key, obj, touch=True):
    """want: object -> night or None. out: what the filter returned for a copy of df."""
    sel = [k for k in df["ObjID"].unique() if want[k] is not None]
    exp = df[df["ObjID"].isin(sel)] if drop else df
    a = sorted(zip(exp["tag"], exp["ObjID"], exp["FieldID"], exp["fieldMJD_TAI"], exp["RA_deg"], exp["Dec_deg"], exp["mag"]))
    b = sorted(zip(out["tag"], out["ObjID"], out["FieldID"], out["fieldMJD_TAI"], out["RA_deg"], out["Dec_deg"], out["mag"]))
    if a != b:
        ka, kb = {x[1] for x in a}, {x[1] for x in b}
        w = sorted(ka ^ kb)[:3] or [x for x, y in zip(a, b) if x != y][:3]
        rec.violation(key + ":rows", "%s: detections differ, e.g. %s (reported %d, expected %d)" % (obj, w, len(b), len(a)),
                      dict(obj, example=df[df["ObjID"].isin([x for x in w if isinstance(x, str)])][["ObjID", "fieldMJD_TAI", "RA_deg", "Dec_deg"]].values.tolist()[:40]))
        return
    if not drop:
        for i, f in zip(out["ObjID"], out["object_linked"]):
            if bool(f) != (want[i] is not None):
                rec.violation(key + ":flag", "%s: object %s flagged %r, linked on night %r" % (obj, i, f, want[i]), obj)
                return
    for i, d in zip(out["ObjID"], out["date_linked_MJD"]):
        w = want[i]
        if (w is None) != (d != d) or (w is not None and d != w):
            rec.violation(key + ":date", "%s: object %s linked on night %r, expected %r" % (obj, i, d, w), obj)
            return


# --- nights -------------------------------------------------------------------------------------------------------------------------
def pattern_dets(name, pat, noon=16.0, first=60000):
    """0: nothing, 1: one detection (no tracklet), 2: a tracklet."""
    out = []
    for n, s in enumerate(pat):
        t = first + n + noon / 24.0 + 0.3
        if s:
            out.append((name, t, 10.0 + 0.2 * n, 5.0))
        if s == 2:
            out.append((name, t + 0.02, 10.0 + 0.2 * n + 5 * ARC, 5.0))
    return out


def ref_pattern(pat, nlink, window, first=60000):
    good = [n for n, s in enumerate(pat) if s == 2]
    for n in good:
        if nlink == 1 or sum(n - window < m <= n for m in good) >= nlink:
            return first + n
    return None


def nights(N, head, window, nlink, rec):
    pats = [head + p for p in itertools.product((0, 1, 2), repeat=N - len(head))]
    pats = [p for p in pats if any(p)]
    names = ["".join(map(str, p)) for p in pats]
    dets = [d for nm, p in zip(names, pats) for d in pattern_dets(nm, p)]
    if (window + nlink) % 2:  # alternate between the row orders
        dets.sort(key=lambda d: (d[1], d[0]))
    else:
        dets.reverse()
    df = frame(dets)
    want = {nm: ref_pattern(p, nlink, window) for nm, p in zip(names, pats)}
    for nm, p in zip(names, pats):
        rec.state(("n", p, window, nlink))
    rec.step(len(pats))
    rec.trace(len(pats))
    rec.outcome((window, nlink, sum(v is not None for v in want.values())))
    drop = window % 2 == 0
    out = link(df.copy(), nlink=nlink, window=window, drop=drop)
    compare(df, out, want, drop, rec, "nights", dict(kind="nights", N=N, head=head, window=window, nlink=nlink))


# --- tracklets ----------------------------------------------------------------------------------------------------------------------
SLOT = [0.0, 0.4, 0.7, 0.9, 1.05, 1.6]  # in units of the maximum time
OFF = [0.0, 0.45, 0.55, 3.0]  # in units of the minimum separation: steps between detections
PLACE = [(10.0, 5.0, "ra"), (0.0, -60.0, "ra"), (359.9999, 0.0, "ra"), (200.0, 89.9999, "dec")]


def shift(place, arc):
    ra, de, axis = PLACE[place]
    if axis == "ra":
        return (ra + arc * ARC / math.cos(math.radians(de)), de)
    x = (90.0 - de) * 3600 - arc  # over the pole
    return (ra, 90.0 - x * ARC) if x >= 0 else (ra + 180.0, 90.0 + x * ARC)


def tracklets(k, place, minobs, rec):
    maxt, minsep = [0.0625, 0.03, 0.1, 0.0625][place], [0.5, 1.5, 0.5, 2.0][place]
    dets, want, n = [], {}, 0
    for sl in itertools.combinations(range(len(SLOT)), k):
        for off in itertools.product(range(len(OFF)), repeat=k - 1):
            name = "x%s_%s" % ("".join(map(str, sl)), "".join(map(str, off)))
            at = [0.0]
            for o in off:
                at.append(at[-1] + OFF[o] * minsep * (1 if o % 2 else -1))
            ds = [(name, 60000.85 + SLOT[s] * maxt, *shift(place, a)) for s, a in zip(sl, at)]
            if any(abs(sep_arcsec(a[2:4], b[2:4]) - minsep) < 1e-3 * minsep for a, b in itertools.combinations(ds, 2)):
                continue  # on the limit
            dets += ds if n % 2 else ds[::-1]
            want[name] = linked_night(ds, minobs, 1, 1, minsep, maxt, 16.0)
            rec.state(("t", k, place, minobs, name))
            n += 1
    df = frame(dets)
    rec.step(n)
    rec.trace(n)
    rec.outcome((k, place, minobs, sum(v is not None for v in want.values())))
    out = link(df.copy(), minobs=minobs, nlink=1, window=1, minsep=minsep, maxt=maxt, drop=bool(place % 2))
    compare(df, out, want, bool(place % 2), rec, "tracklet", dict(kind="tracklet", k=k, place=place, minobs=minobs))


# --- the night boundary -------------------------------------------------------------------------------------------------------------
PH = [-0.85, -0.6, -0.11, 0.11, 0.45, 0.88, 1.12, 1.3]  # from the noon that starts night 60000, in days


def noons(noon, k, maxt, minobs, nlink, rec):
    dets, want, n = [], {}, 0
    for ph in itertools.combinations(range(len(PH)), k):
        name = "p" + "".join(map(str, ph))
        ds = [(name, 60000.0 + noon / 24.0 + PH[p], 10.0 + 0.01 * j, 3.0) for j, p in enumerate(ph)]
        if any(abs(abs(a[1] - b[1]) - maxt) < 1e-6 for a, b in itertools.combinations(ds, 2)):
            continue
        dets += ds
        want[name] = linked_night(ds, minobs, nlink, 2, 0.5, maxt, noon)
        rec.state(("b", noon, k, maxt, minobs, nlink, name))
        n += 1
    df = frame(dets)
    rec.step(n)
    rec.trace(n)
    rec.outcome((noon, k, sum(v is not None for v in want.values())))
    out = link(df.copy(), minobs=minobs, nlink=nlink, window=2, maxt=maxt, noon=noon)
    compare(df, out, want, True, rec, "noon", dict(kind="noon", noon=noon, k=k, maxt=maxt, minobs=minobs, nlink=nlink))


# --- tables: several objects, every row order, odd row labels and identifiers ---------------------------------------------------------
def tables(ids, drop, idx, rec):
    kinds = [(2, 2, 0), (1, 0, 0), (0, 1, 0)]
    base = [d for n, p in zip(ids, kinds) for d in pattern_dets(n, p)]
    want = {n: linked_night([d for d in base if d[0] == n], 2, 2, 3, 0.5, 0.0625, 16.0) for n in ids}
    for o in itertools.permutations(range(len(base))):
        df = frame([base[i] for i in o], None if not idx else [3] * len(base) if idx == "same" else list(range(100, 100 - len(base), -1)))
        rec.state(("o", ids, drop, idx, o))
        rec.step()
        rec.trace()
        out = link(df.copy(), nlink=2, window=3, drop=drop)
        compare(df, out, want, drop, rec, "table", dict(kind="table", ids=ids, drop=drop, idx=idx, order=o))


# --- long histories -------------------------------------------------------------------------------------------------------------------
def longs(window, nlink, rec):
    """Objects seen for hundreds of nights."""
    N = 430
    names = ["m%d_%d" % (a, b) for a in (1, 2, 3, 5, 7, 11, 30, 101) for b in (2, 3, 4)]
    pats = [[2 if (n * n * a + n // b) % (a + b) == 0 else (n + a) % 4 == 0 for n in range(N)] for a in (1, 2, 3, 5, 7, 11, 30, 101) for b in (2, 3, 4)]
    dets = [d for nm, p in zip(names, pats) for d in pattern_dets(nm, p)]
    if nlink % 2:
        dets.reverse()
    df = frame(dets)
    want = {nm: ref_pattern(p, nlink, window) for nm, p in zip(names, pats)}
    for nm in names:
        rec.state(("long", nm, window, nlink))
    rec.step(len(pats))
    rec.trace(len(pats))
    rec.outcome((window, nlink, sum(v is not None for v in want.values())))
    compare(df, link(df.copy(), nlink=nlink, window=window, drop=window % 2 == 0), want, window % 2 == 0, rec, "long", dict(kind="long", window=window, nlink=nlink))


def crowded(m, minobs, rec):
    """Nights with many detections of an object that stays where it is, but for one or two of them."""
    dets, want = [], {}
    step = 0.0625 / (m * 0.6371)
    for far in [()] + [(j,) for j in (0, 1, m // 2, m - 2, m - 1)] + [(0, m - 1), (1, m // 2)]:
        name = "f" + "_".join(map(str, far))
        ds = [(name, 60000.85 + step * i, 10.0 + (3 * ARC if i in far else 0.0), 0.0) for i in range(m)]
        dets += ds if len(far) % 2 else ds[::-1]
        want[name] = linked_night(ds, minobs, 1, 1, 0.5, 0.0625, 16.0)
        rec.state(("crowded", m, minobs, name))
    df = frame(dets)
    rec.step(len(want))
    rec.trace(len(want))
    rec.outcome((m, minobs, sum(v is not None for v in want.values())))
    compare(df, link(df.copy(), minobs=minobs, nlink=1, window=1), want, True, rec, "crowded", dict(kind="crowded", m=m, minobs=minobs))


IDS3 = [("a", "b", "c"), ("1", "10", "2"), ("aé", "a", "ab" * 30)]


def shards(tier):
    deep = tier == "thorough"
    N = 10 if deep else 8
    out = []
    heads = [(a, b) for a in range(3) for b in range(3)] if deep else [(a,) for a in range(3)]
    for h in heads:
        for w in range(1, N + 3 if deep else N + 2):
            for nl in range(1, 7 if deep else 5):
                out.append(["nights", N, list(h), w, nl])
    for k in range(1, 6 if deep else 5):
        for pl in range(len(PLACE)):
            for mo in range(1, 6 if deep else 5):
                out.append(["tracklet", k, pl, mo])
    for noon in (0.0, 4.5, 12.0, 16.0, 23.9, 24.0):
        for k in (2, 3):
            for maxt in (0.3, 0.5, 0.9):
                for mo in (1, 2, 3):
                    for nl in (1, 2):
                        out.append(["noon", noon, k, maxt, mo, nl])
    out += [["long", w, nl] for w in (1, 2, 15, 30, 64, 100, 255, 430, 1000) for nl in (1, 3, 8, 20, 100)]
    out += [["crowded", m, mo] for m in (6, 17, 40, 101, 130) for mo in (1, 2, 3, 10, 35, 90)]
    for ids in IDS3:
        for drop in (True, False):
            for idx in ("", "same", "down"):
                out.append(["table", list(ids), drop, idx])
    return out


def run(s, rec):
    rec.sample(s)
    if s[0] == "nights":
        nights(s[1], tuple(s[2]), s[3], s[4], rec)
    elif s[0] == "tracklet":
        tracklets(s[1], s[2], s[3], rec)
    elif s[0] == "long":
        longs(s[1], s[2], rec)
    elif s[0] == "crowded":
        crowded(s[1], s[2], rec)
    elif s[0] == "noon":
        noons(*s[1:], rec)
    else:
        tables(tuple(s[1]), s[2], s[3], rec)
