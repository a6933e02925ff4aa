"""C05: every detection carries the values of its own visit."""
import itertools
import os
import sqlite3

import pandas as pd

from mc import arstub, sim

PID = "C05"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small survey tables, filter selections and ephemeris row sequences on the real reader, matcher and pipelines against a visit-by-visit model"
NOTE = (
    "Every survey table of up to n visits (all filters, identifier orders, repeated times), every filter selection and every sequence of "
    "ephemeris rows over it (strangers and shifted times included) goes through the real database reader and matcher, and a sub-space "
    "through the complete LSST and DES pipelines with external and internally generated ephemerides. Visit identifiers are unique; time "
    "shifts between one second and a quarter of an hour are left open, as the ephemeris time may be the start or the middle of the visit."
)
BOUND = {
    "quick": "tables of 1..3 visits: 3 filters^n x identifier orders x time patterns x 6 filter selections x 2 surveys; ephemeris row sequences of length 1..3 over 3 visits + stranger; 7 time shifts at every row; surveys of 10 sizes up to 10007 visits",
    "thorough": "tables of 1..4 visits and ephemeris row sequences of length 1..4",
}
SEL = [["r"], ["g"], ["r", "g"], ["g", "r"], ["r", "g", "i"], ["i", "r"], ["z"]]
T0 = 60000.1
VCOLS = ["visitTime", "visitExposureTime", "seeingFwhmGeom_arcsec", "seeingFwhmEff_arcsec", "fieldFiveSigmaDepth_mag", "fieldRA_deg", "fieldDec_deg",
         "fieldRotSkyPos_deg"]
SRC = dict(visitTime="visitTime", visitExposureTime="visitExposureTime", seeingFwhmGeom_arcsec="seeingFwhmGeom", seeingFwhmEff_arcsec="seeingFwhmEff",
           fieldFiveSigmaDepth_mag="fiveSigmaDepth", fieldRA_deg="fieldRA", fieldDec_deg="fieldDec", fieldRotSkyPos_deg="rotSkyPos", c="c", k="k")


def timepat(n):
    def go(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for k in range(m + 1):
            yield from go(p + [k], max(m, k + 1))
    return list(go([], 0))


def mkvisits(filters, idperm, tpat, near=0.0):
    ids = [7, 1000000007, 350, 8]
    out = []
    for j, f in enumerate(filters):
        out.append(sim.visit(ids[idperm[j]], T0 + (1.0 if not near else near) * tpat[j], f, ra=30.0 + 1.5 * j, dec=-10.0 + 2.0 * j, depth=24.0 + 0.25 * j, seeing=0.8 + 0.125 * j,
                             rot=10.0 * j, exptime=30.0 + 60 * j, visittime=34.0 + 70 * j, c=0.9 + 0.01 * j, k=5.0 + j, seeingeff=0.9 + 0.25 * j))
    return out


def expected(visits, sel, des):
    out = {}
    for v in visits:
        if v["filter"] not in sel:
            continue
        d = {c: v[SRC[c]] for c in VCOLS if not (des and c == "visitTime")}
        d["optFilter"] = v["filter"]
        if des:
            d["mid"], d["start"] = v["observationMidpointMJD"], v["observationMidpointMJD"] - v["visitExposureTime"] / 2 / 86400.0
            d["c"], d["k"] = v["c"], v["k"]
        else:
            d["start"], d["mid"] = v["observationStartMJD"], v["observationStartMJD"] + v["visitTime"] / 2 / 86400.0
        out[v["observationId"]] = d
    return out


def near(a, b):
    return abs(a - b) <= 1e-9 if isinstance(b, float) else a == b


def read(sel, des):
    from sorcha.modules.PPReadPointingDatabase import PPReadPointingDatabase
    return PPReadPointingDatabase("p.db", sel, sim.DES_QUERY if des else sim.LSST_QUERY, "DES" if des else "rubin_sim", fading_function_on=des)


def table_case(filters, idperm, tpat, rec, sels=SEL):
    visits = mkvisits(filters, idperm, tpat)
    sim.write_pointing("p.db", visits)
    whole(visits, sels, dict(kind="table", filters=filters, idperm=idperm, tpat=tpat), (filters, idperm, tpat), rec)


def whole(visits, sels, what, key, rec):
    """The survey as read, against the table."""
    for des in (False, True):
        for sel in sels:
            obj = dict(what, sel=sel, des=des)
            want = expected(visits, sel, des)
            rec.state(("t",) + key + (tuple(sel), des))
            rec.step()
            rec.trace()
            try:
                df = read(sel, des)
            except SystemExit:
                df = None
            rec.outcome((des, len(want), df is None))
            if not want:  # a survey without a visit in the requested filters is refused
                rec.check(df is None, "empty-survey", lambda: "%s: no visit in the filters, but accepted" % obj, obj)
                continue
            if not rec.check(df is not None, "refused", lambda: "%s: the survey table was refused" % obj, obj):
                continue
            have = {r["FieldID"]: r for r in df.to_dict("records")}
            rec.check(len(df) == len(have) and set(have) == set(want), "visits", lambda: "%s: visits %s, expected %s" % (obj, list(df["FieldID"]), sorted(want)), obj)
            for k in set(have) & set(want):
                h, w = have[k], want[k]
                for c in w:
                    hc = {"mid": "observationMidpointMJD_TAI", "start": "observationStartMJD_TAI"}.get(c, c)
                    rec.check(near(h[hc], w[c]), "value:" + hc, lambda: "%s: visit %s: %s is %r, expected %r" % (obj, k, hc, h[hc], w[c]), obj)


def many(n):
    """A survey of n visits, not in the order of time or number."""
    out = []
    for j in range(n):
        k = j * 7919 % n if n % 7919 else j
        out.append(sim.visit(3 + 2 * k, T0 + 0.0005 * (k if j % 5 else k // 2 * 2), "rgiz"[(k + k // 9) % 4], ra=30.0 + 0.01 * (j % 50), dec=-10.0 + 0.01 * (j % 31), depth=24.0 + 0.25 * (j % 9),
                             seeing=0.8 + 0.125 * (j % 7), rot=10.0 * (j % 11), exptime=30.0 + (j % 13), visittime=34.0 + (j % 17), c=0.9 + 0.01 * (j % 8), k=5.0 + j % 3, seeingeff=0.9 + 0.25 * (j % 6)))
    return out


def sizes(n, rec):
    visits = many(n)
    sim.write_pointing("p.db", visits)
    whole(visits, [["r"], ["r", "g", "i", "z"], ["z", "g"]], dict(kind="sizes", n=n), ("n", n), rec)
    for des in (False, True):
        for seq in ([i * 31 % n for i in range(min(n, 2048))], list(range(n))[-100:], [n - 1 - i // 20 for i in range(2000)]):
            match_case(visits, ["r", "g", "i"], des, seq, 0.0, -1, rec)
        seq = [i * 31 % n for i in range(min(n, 2048))]
        where = max(i for i in range(len(seq)) if visits[seq[i]]["filter"] == "r")
        match_case(visits, ["r", "g", "i"], des, seq, 0.3, where, rec)


SHIFTS = [0.0, 1e-9, 1e-6, 0.02, -0.05, 0.3, 0.5, -1.0, 40.0]


def match_case(visits, sel, des, seq, shift, where, rec, index=None):
    """seq: visit index (or -1, a stranger) of every ephemeris row; shift is added to the time of row `where`."""
    from sorcha.modules.PPMatchPointingToObservations import PPMatchPointingToObservations
    obj = dict(kind="match", filters=[v["filter"] for v in visits][:9], visits=len(visits), sel=sel, des=des, seq=seq if len(seq) < 9 else [seq[:3], len(seq), seq[-3:]], shift=shift, where=where, index=index)
    want = expected(visits, sel, des)
    db = read(sel, des)
    ephs = []
    for i, s in enumerate(seq):
        v = visits[s] if s >= 0 else sim.visit(99999, T0, "r")
        e = sim.eph("o%d" % (i % 2), v, ra=5.0 + i, dec=-3.0 + i, des=des)
        if i == where:
            e["fieldMJD_TAI"] += shift
        ephs.append(e)
    df = pd.DataFrame(ephs, columns=sim.EPH_COLS).drop(columns=["fieldJD_TDB"])
    if index:  # the row labels of a chunk need not start at zero
        df.index = index[: len(df)]
    kept = [(i, s) for i, s in enumerate(seq) if s >= 0 and visits[s]["observationId"] in want]
    foreign = abs(shift) > 0.01 and any(i == where for i, _ in kept)
    rec.state(("m", tuple(v["filter"] for v in visits), tuple(sel), des, tuple(seq), shift, where, bool(index)))
    rec.step()
    rec.trace()
    try:
        out = PPMatchPointingToObservations(df.copy(), db)
    except SystemExit as e:
        out = None
    rec.outcome((des, len(kept), out is None))
    if foreign:
        rec.check(out is None, "foreign:%g" % shift, lambda: "%s: row %d is %g days from its visit, but accepted" % (obj, where, shift), obj)
        return
    if not rec.check(out is not None, "match-refused", lambda: "%s: refused" % obj, obj):
        return
    have = out.to_dict("records")
    if not rec.check([(r["RA_deg"], r["FieldID"]) for r in have] == [(5.0 + i, visits[s]["observationId"]) for i, s in kept], "match-rows",
                     lambda: "%s: rows %s, expected %s" % (obj, [(r["RA_deg"], r["FieldID"]) for r in have], kept), obj):
        return
    rec.check(list(out.index) == list(range(len(out))), "match-index", lambda: "%s: row labels %s" % (obj, list(out.index)), obj)
    for r, (i, s) in zip(have, kept):
        w = want[visits[s]["observationId"]]
        for c in w:
            if c in ("mid", "start"):
                continue
            rec.check(near(r[c], w[c]), "match-value:" + c, lambda: "%s: row %d: %s is %r, expected %r" % (obj, i, c, r[c], w[c]), obj)
        for c in ("ObjID", "fieldMJD_TAI", "Dec_deg", "Range_LTC_km", "phase_deg"):
            rec.check(r[c] == ephs[i][c], "match-own:" + c, lambda: "%s: row %d: %s is %r, was %r" % (obj, i, c, r[c], ephs[i][c]), obj)


def pipe_case(filters, idperm, tpat, sel, des, ephem, rec):
    survey = "DES" if des else "rubin_sim"
    # a repeated time means visits some minutes apart cannot be told by their time
    visits = mkvisits(filters, idperm, tpat, near=0.004)
    obj = dict(kind="pipe", filters=filters, idperm=idperm, tpat=tpat, sel=sel, des=des, ephem=ephem)
    cfg = sim.base_config(survey=survey, filters=",".join(sel), ephem=ephem, chunk=1)
    if des:
        cfg = cfg.set("FADINGFUNCTION", fading_function_on="False")
    if ephem == "ar":
        cfg = cfg.set("SIMULATION", ar_ang_fov=2.5)
    r = sim.Run("run", cfg, survey=survey)
    objs = ["a", "b"]
    params = [sim.phys(n, H=15.0 + i, filt=sel[0], colours={f + "-" + sel[0]: 0.25 for f in sel[1:]}) for i, n in enumerate(objs)]
    want = expected(visits, sel, des)
    if ephem == "external":
        ephs = [sim.eph(n, v, ra=v["fieldRA"] + 0.1 * i, dec=v["fieldDec"] + 0.05, des=des) for v in reversed(visits) for i, n in enumerate(objs)]
        r.inputs(visits, [sim.kep_orbit(n) for n in objs], params, ephs)
        near_ = {(n, v["observationId"]) for v in visits for n in objs if v["observationId"] in want}
    else:
        t0 = arstub.tdb(T0)
        orbits = [arstub.bcart_orbit(n, *arstub.place(30.0 + 1.5 * 0.5, -9.0 + i, 1.5, t0, 0.0, 0.0), epoch=T0) for i, n in enumerate(objs)]
        r.inputs(visits, orbits, params, None, orbit_cols=arstub.BCART_COLS)
        near_ = None
    rec.state(("p", filters, idperm, tpat, tuple(sel), des, ephem))
    rec.step()
    rec.trace()
    e = r.go_refused()
    if not want:
        rec.check(e is not None, "pipe-empty", lambda: "%s: no visit in the filters, but accepted" % obj, obj)
        return
    if not rec.check(e is None, "pipe-refused", lambda: "%s: %r" % (obj, e), obj):
        return
    rows = r.rows() or []
    rec.outcome((des, ephem, len(rows)))
    have = [(x["ObjID"], int(x["FieldID"])) for x in rows]
    rec.check(len(set(have)) == len(have), "pipe-double", lambda: "%s: rows %s" % (obj, have), obj)
    if near_ is not None:
        rec.check(set(have) == near_, "pipe-rows", lambda: "%s: rows %s, expected %s" % (obj, sorted(have), sorted(near_)), obj)
    for x in rows:
        if not rec.check(int(x["FieldID"]) in want, "pipe-visit", lambda: "%s: visit %s is not in the survey or filters" % (obj, x["FieldID"]), obj):
            continue
        w = want[int(x["FieldID"])]
        for c in w:
            if c in ("mid", "start"):
                continue
            rec.check(near(x[c], w[c]), "pipe-value:" + c, lambda: "%s: %s of visit %s is %r, expected %r" % (obj, c, x["FieldID"], x[c], w[c]), obj)
        t = w["mid"] if ephem == "ar" else w["start"]
        rec.check(abs(x["fieldMJD_TAI"] - t) < 1e-8, "pipe-time", lambda: "%s: time of visit %s is %r, expected %r" % (obj, x["FieldID"], x["fieldMJD_TAI"], t), obj)


FIL3 = ["rgi", "rrg", "grr", "zrg"]


def shards(tier):
    top = 4 if tier == "thorough" else 3
    out = [["sizes", n] for n in sim.SIZES[::-1]]
    for n in range(1, top + 1):
        for f in itertools.product("rgi", repeat=n):
            if n == 4 and f[0] != "r":
                continue
            out.append(["table", "".join(f)])
    for f in FIL3:
        for des in (False, True):
            for sel in SEL[:6]:
                if set(sel) & set(f):
                    out.append(["match", f, sel, des, top])
    for f in FIL3:
        for des in (False, True):
            for ephem in ("external", "ar"):
                out.append(["pipe", f, des, ephem, tier == "thorough"])
    return out


def run(shard, rec):
    rec.sample(shard)
    if shard[0] == "sizes":
        sizes(shard[1], rec)
    elif shard[0] == "table":
        f = shard[1]
        n = len(f)
        for ip in itertools.permutations(range(n)):
            for tp in timepat(n):
                if n == 4 and tp not in ((0, 1, 2, 3), (0, 0, 1, 1), (0, 0, 0, 0)):
                    continue
                table_case(f, ip, tp, rec, SEL if n < 3 else SEL[:1] + SEL[2:6])
    elif shard[0] == "match":
        _, f, sel, des, top = shard
        visits = mkvisits(f, (1, 2, 0), (0, 1, 0))
        sim.write_pointing("p.db", visits)
        for ln in range(1, top + 1):
            for seq in itertools.product((0, 1, 2, -1), repeat=ln):
                match_case(visits, sel, des, seq, 0.0, -1, rec)
                if ln < 3 or top > 3:
                    match_case(visits, sel, des, seq, 0.0, -1, rec, index=[5, 2, 9, 11])
        for seq in itertools.product((0, 1, 2, -1), repeat=2):
            for where in (0, 1):
                for sh in SHIFTS:
                    match_case(visits, sel, des, seq, sh, where, rec)
    else:
        _, f, des, ephem, deep = shard
        for ip in ((0, 1, 2), (2, 1, 0)) if not deep else itertools.permutations(range(3)):
            for tp in ((0, 1, 2), (0, 0, 1)) if not deep else timepat(3):
                for sel in SEL[:6]:
                    pipe_case(f, ip, tp, sel, des, ephem, rec)


def replay(o, rec):
    if o["kind"] == "sizes" or o.get("visits", 0) > 4:
        sizes(o.get("n") or o["visits"], rec)
    elif o["kind"] == "table":
        table_case(o["filters"], tuple(o["idperm"]), tuple(o["tpat"]), rec, [o["sel"]])
    elif o["kind"] == "match":
        visits = mkvisits("".join(o["filters"]), (1, 2, 0), (0, 1, 0))
        sim.write_pointing("p.db", visits)
        match_case(visits, o["sel"], o["des"], o["seq"], o["shift"], o["where"], rec, o["index"])
    else:
        pipe_case(o["filters"], tuple(o["idperm"]), tuple(o["tpat"]), o["sel"], o["des"], o["ephem"], rec)
