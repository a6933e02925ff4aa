"""C01: the chunk size never changes what a run reports."""
import itertools
import os

from mc import arstub, sim

PID = "C01"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of populations x chunk sizes on the real chunk loop, differential against a set model and the one-chunk run"
NOTE = (
    "Every sequence of object kinds (seen, no ephemeris rows, too faint, seen too rarely) up to the stated length is run with every "
    "chunk size from 1 to n+1 through the real survey simulation, for both surveys, external and internal ephemerides (data-file "
    "libraries replaced by an analytic universe), all output formats and return_only, with linking on and off. "
    "Trusted: the stand-in for ASSIST/SPICE; random effects are off."
)
BOUND = {
    "quick": "all kind sequences of length 1..3 over 4 kinds (CSV; 3 kinds with the internal generator) or 1..2 over 4 kinds and 3 over 2 (other variants) x chunk sizes 1..n+1 x id spellings x survey/format/linking variants; populations of 8 sizes from 63 to 10007 objects x up to 20 chunk sizes x 13 variants",
    "thorough": "all kind sequences of length 1..4 over 4 kinds (length 5 over 3 kinds for CSV) x chunk sizes 1..n+1 x the same variants",
}

IDS = {"plain": ["o1", "o2", "o3", "o4", "o5"], "digits": ["0007", "7", "x3", "1e2", "12"], "mixed": ["b 9".replace(" ", "_"), "003", "3.0", "NaN1", "2003"]}
MJD0 = 60000.1


def visits():
    out = []
    for night in range(3):
        for k in range(2):
            i = night * 2 + k
            out.append(sim.visit(100 + i, MJD0 + night + 0.02 * k, "rg"[k], ra=30.0, dec=-10.0, depth=24.0))
    return out


VIS = visits()
# variant -> (survey, ephem, output format, linking, return_only, eph order, eph format, aux format)
VAR = {
    "lsst-csv": ("rubin_sim", "external", "csv", False, False, "object", "csv", "csv"),
    "lsst-csv-link": ("rubin_sim", "external", "csv", True, False, "visit", "csv", "csv"),
    "lsst-csv-flag": ("rubin_sim", "external", "csv", "flag", False, "visit", "csv", "csv"),
    "lsst-ws": ("rubin_sim", "external", "csv", False, False, "visit", "whitespace", "whitespace"),
    "lsst-sqlite": ("rubin_sim", "external", "sqlite3", False, False, "visit", "csv", "csv"),
    "lsst-ret": ("rubin_sim", "external", "csv", False, True, "object", "csv", "csv"),
    "lsst-hdf": ("rubin_sim", "external", "hdf5", False, False, "object", "csv", "csv"),
    "lsst-ephhdf": ("rubin_sim", "external", "csv", False, False, "visit", "hdf5", "csv"),
    "des-csv": ("DES", "external", "csv", False, False, "visit", "csv", "csv"),
    "des-ret": ("DES", "external", "csv", False, True, "object", "csv", "csv"),
    "lsst-ar": ("rubin_sim", "ar", "csv", False, False, "-", "csv", "csv"),
    "lsst-ar-link": ("rubin_sim", "ar", "sqlite3", True, False, "-", "whitespace", "csv"),
    "des-ar": ("DES", "ar", "csv", False, False, "-", "csv", "whitespace"),
}
SMALL = {"lsst-hdf", "lsst-ephhdf"}


def shards(tier):
    out = []
    for v in VAR:
        for ids in (("plain", "digits", "mixed") if v in ("lsst-csv", "lsst-ar") or tier == "thorough" else ("mixed",) if v.endswith("ws") else ("digits",)):
            if v in SMALL:
                ls = [("ANH", 2)] if tier == "quick" else [("ANF", 3)]
            elif v == "lsst-csv":
                ls = [("ANFH", 3)] if tier == "quick" else [("ANFH", 4), ("ANF", 5)]
            elif v == "lsst-ar":
                ls = [("ANF", 3)] if tier == "quick" else [("ANFH", 4)]
            else:
                ls = [("ANFH", 2), ("AN", 3)] if tier == "quick" else [("ANFH", 4)]
            for kinds, n in ls:
                for first in kinds:
                    out.append([v, ids, kinds, n, first])
    for v in VAR:
        # the largest ones first, as they take longest
        out = [["sizes", v, part, tier] for part in range(4)] + out
    return out


def kept(kind, link):
    if kind == "A":
        return [v["observationId"] for v in VIS]
    if kind == "H":
        return [] if link is True else [VIS[0]["observationId"], VIS[3]["observationId"]]
    return []


def build(v, ids, seq, chunk, tag):
    survey, ephem, fmt, link, ret, order, ephf, auxf = VAR[v]
    cfg = sim.base_config(survey=survey, ephem=ephem, chunk=chunk, output=fmt, eph_format=ephf, aux=auxf)
    if survey == "DES":
        cfg = cfg.set("FADINGFUNCTION", fading_function_on="False").set("LINKINGFILTER", des_discovery_on="False")
        cfg = cfg.set("EXPERT", mag_limit=26)
    else:
        cfg = cfg.set("EXPERT", snr_limit=4.0)
    if link:
        cfg = cfg.set("LINKINGFILTER", **sim.LINKING).set("LINKINGFILTER", drop_unlinked="True" if link is True else "False")
    r = sim.Run(tag, cfg, survey=survey, stats="stats", eph_out="ephout" if ephem == "ar" else None)
    names = IDS[ids][: len(seq)] if ids in IDS else big_names(len(seq))
    H = {"A": 17.0, "H": 17.5, "N": 17.0, "F": 30.0 if survey == "rubin_sim" else 25.0}
    params = [sim.phys(n, H=H[k] + 0.1 * (i % 7), colours={"g-r": 0.3 + 0.1 * (i % 7)}) for i, (n, k) in enumerate(zip(names, seq))]
    params = params[::-1] if len(params) > 1 else params  # the parameter file lists the objects in another order
    if ephem == "external":
        orbits = [sim.kep_orbit(n, a=2.0 + 0.1 * (i % 7)) for i, n in enumerate(names)]
        ephs = []
        for i, (n, k) in zip(itertools.cycle(range(7)), zip(names, seq)):
            vis = VIS if k in "AF" else ([VIS[0], VIS[3]] if k == "H" else [])
            for w in vis:
                ephs.append(sim.eph(n, w, ra=30 + 0.01 * i + 0.1 * (w["observationStartMJD"] - MJD0), dec=-10 + 0.01 * i, rng=1.4 + 0.05 * i,
                                    r=2.0 + 0.1 * i, des=survey == "DES"))
        if not ephs:  # an ephemeris file needs at least one row; that of an object which is not in the population
            return None
        if order == "visit":
            ephs.sort(key=lambda e: e["FieldID"])
        r.inputs(VIS, orbits, params, ephs)
    else:
        t0 = arstub.tdb(MJD0)
        orbits = []
        for i, (n, k) in zip(itertools.cycle(range(7)), zip(names, seq)):
            # H: drifts out of the field after the first night's visits
            ra, dec, rate = {"A": (30 + 0.2 * i, -10, 0.05), "F": (30, -10 - 0.1 * i, 0.05), "N": (80, 20, 0.1), "H": (27.6, -10.0, -0.9)}[k]
            orbits.append(arstub.bcart_orbit(n, *arstub.place(ra, dec, 1.5 + 0.1 * i, t0, rate, 0.0), epoch=MJD0))
        r.inputs(VIS, orbits, params, None, orbit_cols=arstub.BCART_COLS)
    return r


def big_names(n):
    return ["o%d" % i for i in range(n)]


SIZES = (63, 101, 258, 513, 1003, 2051)
PERIOD = 21  # kinds repeat after three objects, values after seven


def sizes(v, part, rec, ns):
    """Large populations of repeated objects: each has the rows of the first one of its kind and values, for chunk sizes around
    the round numbers and the number of objects."""
    obj = dict(kind="sizes", variant=v)

    def by_object(n, chunk):
        r = build(v, "big", ("ANH" * n)[:n], chunk, "run")
        out = []
        for rows in observe(r, v):
            t = {}
            for x in rows or []:
                if float(x.get("number_obs", 1)) > 0:
                    t.setdefault(int(x["ObjID"][1:]), []).append(tuple((k, "%.12g" % a if isinstance(a, float) else str(a)) for k, a in sorted(x.items()) if k != "ObjID"))
            out.append({k: sorted(a) for k, a in t.items()})
        return out

    ref = by_object(PERIOD, PERIOD)
    rec.check(all(i in ref[0] for i in range(0, PERIOD, 3)), "sizes:harness", lambda: "objects with detections: %s" % sorted(ref[0]))
    cases = []
    for n in ns:
        cases += [(n, c) for c in sorted({1, 7, 32, 50, 64, 99, 100, 128, 250, 256, 500, 512, 1000, 1024, 2000, n - 1, n, n + 1, n // 2, n // 2 + 1}) if c <= n + 1 and n // c < (8 if v == "lsst-hdf" else 60)]
    for n, chunk in cases[part::4]:
        rec.state((v, n, chunk))
        rec.step(-(-n // chunk))
        rec.trace()
        got = by_object(n, chunk)
        for what, g, w in zip(("detections", "statistics", "ephemeris"), got, ref):
            bad = [i for i in range(n) if g.get(i) != w.get(i % PERIOD)]
            rec.outcome((v, what, n, len(g)))
            rec.check(not bad and not set(g) - set(range(n)), "sizes-%s:%s" % (what, v), lambda: "%d objects, chunk size %d: the %s of %d objects are not those of the same object in a small population, first of them number %s: %s expected %s" % (
                n, chunk, what, len(bad), bad[:1], g.get(bad[0]) if bad else sorted(g)[-3:], w.get(bad[0] % PERIOD) if bad else None), obj)


def key(x):
    return (str(x["ObjID"]), int(float(x["FieldID"])))


def canon(rows):
    out = []
    for x in sorted(rows, key=key):
        out.append(tuple((k, repr(v) if not isinstance(v, float) else "%.12g" % v) for k, v in x.items()))
    return out


def observe(r, v):
    survey, ephem, fmt, link, ret, order, ephf, auxf = VAR[v]
    if ret:
        df, st = r.go(return_only=True)
        rows = [dict(zip(df.columns, t)) for t in df.itertuples(index=False)]
        rows = [{k: (str(a) if k in ("ObjID", "optFilter") else a) for k, a in x.items()} for x in rows]
        st = st.reset_index() if "ObjID" not in st.columns else st
        st = [dict(zip(st.columns, t)) for t in st.itertuples(index=False)]
        st = [{k: (str(a) if k in ("ObjID", "optFilter", "object_linked") else a) for k, a in x.items() if k != "index"} for x in st]
        eph = None
    else:
        r.go()
        rows = r.rows() or []
        st = r.stats_rows() or []
        eph = None
        if ephem == "ar":
            p = r.p("o/ephout.csv")
            sep = " " if ephf == "whitespace" else ","
            eph = []
            if os.path.exists(p):
                with open(p) as f:
                    lines = [ln.rstrip("\n").split(sep) for ln in f]
                eph = [dict(zip(lines[0], [a if h == "ObjID" else sim.conv(a) for h, a in zip(lines[0], ln)])) for ln in lines[1:]]
    return rows, st, eph


def case(v, ids, seq, rec):
    link = VAR[v][3]
    names = IDS[ids][: len(seq)]
    want = sorted((n, f) for n, k in zip(names, seq) for f in (kept(k, link)))
    ref = None
    n = len(seq)
    for chunk in [n + 1] + list(range(1, n + 1)):
        r = build(v, ids, seq, chunk, "run")
        if r is None:
            return
        obj = dict(variant=v, ids=ids, seq=seq, chunk=chunk)
        try:
            rows, st, eph = observe(r, v)
        except (Exception, SystemExit) as e:
            if VAR[v][4] and not want:
                raise
            rec.violation("crash:%s:%s" % (v, type(e).__name__), "run with chunk size %d fails: %r" % (chunk, e), obj)
            return
        rec.state((v, ids, seq, chunk))
        rec.step(-(-n // chunk))
        rec.trace()
        got = sorted(key(x) for x in rows)
        if VAR[v][1] == "external" or "H" not in seq:
            rec.check(got == want, "set:" + v, lambda: "chunk %d of %s %s: detections %s, expected %s" % (chunk, seq, names, got, want), obj)
        else:
            gotA = [g for g in got if dict(zip(names, seq))[g[0]] != "H"]
            rec.check(gotA == [w for w in want if dict(zip(names, seq))[w[0]] != "H"] and len(set(got)) == len(got), "set:" + v,
                      lambda: "chunk %d of %s %s: detections %s" % (chunk, seq, names, got), obj)
        srows = sorted((str(x["ObjID"]), str(x["optFilter"])) for x in st if float(x["number_obs"]) > 0)
        flt = {w["observationId"]: w["filter"] for w in VIS}
        wst = sorted({(o, flt[f]) for o, f in got})
        rec.check(srows == wst, "stats:" + v, lambda: "chunk %d of %s: statistics rows %s, expected %s" % (chunk, seq, srows, wst), obj)
        view = (canon(rows), sorted(map(repr, st)), None if eph is None else canon(eph))
        rec.outcome((tuple(got), tuple(srows)))
        if ref is None:
            ref = view
            rec.sample(dict(variant=v, population=seq, ids=names, detections=len(got)))
        else:
            for what, a, b in zip(("detections", "statistics", "ephemeris"), ref, view):
                if a != b:
                    rec.violation("%s:%s" % (what, v), "chunk size %d changes the %s of population %s\none chunk: %s\nchunked: %s" % (
                        chunk, what, seq, [x for x in a if x not in b][:2], [x for x in b if x not in a][:2]), obj)


def run(shard, rec):
    if shard[0] == "sizes":
        _, v, part, tier = shard
        return sizes(v, part, rec, SIZES + ((5003, 10007) if tier == "thorough" or v == "lsst-csv" else ()))
    v, ids, kinds, n, first = shard
    for ln in range(1, n + 1):
        for rest in itertools.product(kinds, repeat=ln - 1):
            seq = first + "".join(rest)
            if VAR[v][4] and not any(kept(k, VAR[v][3]) for k in seq):
                pass
            case(v, ids, seq, rec)


def replay(obj, rec):
    if obj.get("kind") == "sizes":
        return [sizes(obj["variant"], part, rec, SIZES) for part in range(4)] and None
    case(obj["variant"], obj["ids"], obj["seq"], rec)


def warm():
    """Compiles the numba functions once, before the workers are forked."""
    from mc.core import Rec
    os.makedirs("warm", exist_ok=True)
    here = os.getcwd()
    os.chdir("warm")
    try:
        for v in ("lsst-csv-link", "lsst-ar", "lsst-hdf"):
            case(v, "plain", "A", Rec())
    finally:
        os.chdir(here)
