"""C04: inconsistent or malformed inputs are refused, consistent ones accepted."""
import collections
import copy
import itertools
import os

from mc import arstub, sim

PID = "C04"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive single- and double-fault injection into complete input sets, run through the real pipeline, against a validity predicate over the tables"
NOTE = (
    "Every fault of the catalogue at every row and column of a complete three-object input set (six orbit formats, comma and whitespace "
    "files, optional third parameter file), and every pair of faults of a representative catalogue, is run through the real survey "
    "simulation with several chunk sizes; an independent predicate over the resulting tables says refused or accepted. "
    "Missing (empty) cell values and duplicated identifiers are outside the property. Trusted: the ASSIST/SPICE stand-in for 'ar' runs."
)
BOUND = {
    "quick": "3 objects; all single faults x 6 orbit formats x chunk sizes 1,2,9 x csv/whitespace; all pairs over a 20-fault catalogue (csv, KEP, chunk sizes 1,9)",
    "thorough": "the same with all pairs of all faults for KEP, COM, CART",
}
VIS = [sim.visit(100, 60000.1, "r", ra=30.0, dec=-10.0), sim.visit(101, 60000.2, "g", ra=30.0, dec=-10.0)]
ELEM = {
    "KEP": ["a", "e", "inc", "node", "argPeri", "ma", "epochMJD_TDB"],
    "COM": ["q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB", "epochMJD_TDB"],
    "CART": ["x", "y", "z", "xdot", "ydot", "zdot", "epochMJD_TDB"],
}
FORMATS = ["KEP", "BKEP", "COM", "BCOM", "CART", "BCART"]
VAL = dict(a=[2.5, 3.0, 2.2], q=[2.0, 1.5, 3.0], e=[0.1, 0.0, 0.85], inc=[5.0, 0.0, 170.0], node=[10.0, 350.0, 0.0], argPeri=[20.0, 0.0, 300.0],
           ma=[30.0, 0.0, 359.0], t_p_MJD_TDB=[60100.0, 59000.0, 60000.0], epochMJD_TDB=[60000.0, 60001.0, 60000.0], x=[2.0, -1.5, 0.5],
           y=[0.5, 2.5, -2.0], z=[0.1, -0.2, 0.0], xdot=[0.001, 0.008, 0.009], ydot=[0.01, -0.004, 0.002], zdot=[0.0, 0.001, -0.001])
IDS = ["o1", "o2", "o3"]
REQ_EPH = [c for c in sim.EPH_COLS if c != "fieldJD_TDB"]
FIX = {}


def base(orb, third):
    t = {}
    cols = ["ObjID", "FORMAT"] + ELEM[orb.lstrip("B")]
    t["orbits"] = (cols, [dict(ObjID=n, FORMAT=orb, **{c: VAL[c][i] for c in cols[2:]}) for i, n in enumerate(IDS)])
    t["params"] = (["ObjID", "H_r", "g-r", "GS"], [dict(ObjID=n, H_r=16.0 + i, GS=0.15 + 0.01 * i, **{"g-r": 0.4 + 0.1 * i}) for i, n in enumerate(IDS)])
    if third:
        t["complex"] = (["ObjID", "afrho1", "k"], [dict(ObjID=n, afrho1=100.0 + i, k=-2.0 - i) for i, n in enumerate(IDS)])
    t["eph"] = (list(sim.EPH_COLS), [sim.eph(n, v, ra=30.0 + 0.1 * i, r=2.0 + 0.1 * i) for v in VIS for i, n in enumerate(IDS)])
    t["pre"] = {}
    t["sep"] = {}
    return t


def faults(t, orb):
    """name -> function changing the tables in place."""
    F = {}
    ids = list(IDS)
    for f in ("orbits", "params", "complex"):
        if f not in t:
            continue
        for i, n in enumerate(ids):
            F["del:%s:%s" % (f, n)] = (lambda T, f=f, n=n: T[f][1].__setitem__(slice(None), [r for r in T[f][1] if r["ObjID"] != n]))
            F["rename:%s:%s" % (f, n)] = (lambda T, f=f, n=n: [r.__setitem__("ObjID", n + "x") for r in T[f][1] if r["ObjID"] == n])
            F["twice:%s:%s" % (f, n)] = (lambda T, f=f, n=n: T[f][1].extend([dict(r) for r in T[f][1] if r["ObjID"] == n][:1]))
        F["swap:%s" % f] = (lambda T, f=f: T[f][1].reverse())  # harmless
        F["add:%s" % f] = (lambda T, f=f: T[f][1].append(dict(T[f][1][-1], ObjID="o4")) if T[f][1] else None)
        F["dup:%s" % f] = (lambda T, f=f: T[f][1].append(dict(T[f][1][-1])) if T[f][1] else None)
    for f in ("orbits", "params", "eph") + (("complex",) if "complex" in t else ()):
        for c in t[f][0]:
            F["col:%s:%s" % (f, c)] = (lambda T, f=f, c=c: T[f][0].remove(c) if c in T[f][0] else None)
        F["extra:%s" % f] = (lambda T, f=f: (T[f][0].append("spare"), [r.__setitem__("spare", 1.5) for r in T[f][1]]))
        F["first:%s" % f] = (lambda T, f=f: T[f][0].reverse())  # the identifier is not the first column any more
        F["order:%s" % f] = (lambda T, f=f: T[f][0].__setitem__(slice(1, None), T[f][0][:0:-1]))  # harmless
        F["comment:%s" % f] = (lambda T, f=f: T["pre"].__setitem__(f, "# made for H_x, g-r and others\n"))  # harmless
        F["sep:%s" % f] = (lambda T, f=f: T["sep"].__setitem__(f, True))
    for i, n in enumerate(ids):
        for bad in ("KEP", "BKEP", "COM", "CART", "BCART", "kep", "XYZ", "0"):
            if bad != orb:
                F["format:%s:%s" % (n, bad)] = (lambda T, n=n, b=bad: [r.__setitem__("FORMAT", b) for r in T["orbits"][1] if r["ObjID"] == n])
        for c, vs in (("e", [-0.1, 1.0, 1.5, 0.999]), ("a", [-2.0]), ("q", [-0.5]), ("inc", [200.0]), ("node", [-20.0])):
            if c in t["orbits"][0]:
                for v in vs:
                    F["val:%s:%s:%s" % (n, c, v)] = (lambda T, n=n, c=c, v=v: [r.__setitem__(c, v) for r in T["orbits"][1] if r["ObjID"] == n])
        F["noeph:%s" % n] = (lambda T, n=n: T["eph"][1].__setitem__(slice(None), [r for r in T["eph"][1] if r["ObjID"] != n]))  # harmless
    F["format:all:BAD"] = (lambda T: [r.__setitem__("FORMAT", "BAD") for r in T["orbits"][1]])
    other = {"KEP": "BKEP", "BKEP": "KEP", "COM": "BCOM", "BCOM": "COM", "CART": "BCART", "BCART": "CART"}[orb]
    F["format:all:other"] = (lambda T: [r.__setitem__("FORMAT", other) for r in T["orbits"][1]])  # harmless
    F["format:all:wrong"] = (lambda T: [r.__setitem__("FORMAT", "CART" if "CART" not in orb else "KEP") for r in T["orbits"][1]])
    F["eph-stranger"] = (lambda T: T["eph"][1].append(dict(T["eph"][1][0], ObjID="other")) if T["eph"][1] else None)  # harmless
    return F


PAIRS = ["twice:orbits:o1", "twice:params:o3", "twice:params:o2", "del:orbits:o2", "del:params:o2", "del:params:o3", "rename:orbits:o1", "rename:params:o1", "add:orbits", "add:params", "swap:orbits", "col:orbits:e",
         "col:orbits:FORMAT", "extra:orbits", "order:orbits", "col:params:H_r", "comment:params", "format:o3:BKEP", "format:o1:BKEP", "format:all:other",
         "val:o3:e:1.0", "val:o2:e:-0.1", "noeph:o3", "swap:params", "col:eph:phase_deg", "eph-stranger", "sep:eph"]


def verdict(t):
    """(why everything must be refused, {object: why it must not be reported})"""
    for f in ("orbits", "params", "complex", "eph"):
        if f not in t:
            continue
        cols, rows = t[f]
        if t["sep"].get(f):
            return "separator of " + f, {}
        if not cols or cols[0] != "ObjID" or len(cols) < 2:
            return "no identifier column first in " + f, {}
    ids = [collections.Counter(r["ObjID"] for r in t[f][1]) for f in ("orbits", "params", "complex") if f in t]
    if any(x != ids[0] for x in ids):
        return "identifiers differ", {}
    pc = t["params"][0]
    if "H_r" not in pc or "g-r" not in pc or "GS" not in pc:
        return "parameter columns", {}
    oc, rows = t["orbits"]
    if rows:
        if "FORMAT" not in oc or len(oc) != 9:
            return "orbit columns", {}
        fmt = rows[0]["FORMAT"]
        if fmt not in FORMATS or set(oc) != {"ObjID", "FORMAT", *ELEM[fmt.lstrip("B")]}:
            return "orbit format", {}
    ec = t["eph"][0]
    if not set(REQ_EPH) <= set(ec) or set(ec) - set(sim.EPH_COLS):
        return "ephemeris columns", {}
    bad = {}
    for r in rows:
        if r["FORMAT"] != fmt:
            bad[r["ObjID"]] = "mixed format"
        e = r.get("e")
        if fmt in ("KEP", "BKEP"):
            if not 0 <= e < 1 or r["a"] < 0:
                bad[r["ObjID"]] = "elements"
        elif fmt in ("COM", "BCOM") and (e < 0 or r["q"] < 0):
            bad[r["ObjID"]] = "elements"
    return None, bad


def write(r, t, ws):
    sep = " " if ws else ","
    sim.write_pointing(r.p("pointing.db"), VIS)
    for f, name in (("orbits", "orbits.csv"), ("params", "params.csv"), ("complex", "complex.csv"), ("eph", "eph.csv")):
        if f not in t:
            continue
        s = sep if not t["sep"].get(f) else (";" if ws else " ")
        with open(r.p(name), "w") as o:
            o.write(t["pre"].get(f, ""))
            o.write(s.join(t[f][0]) + "\n")
            for row in t[f][1]:
                o.write(s.join(sim.fmt(row[c]) for c in t[f][0]) + "\n")
    r.ephfile = r.p("eph.csv")
    r.complex = r.p("complex.csv") if "complex" in t else None


def case(orb, ws, third, names, chunk, rec):
    t = base(orb, third)
    F = faults(t, orb)
    for n in names:
        F[n](t)
    obj = dict(orb=orb, ws=ws, third=third, names=names, chunk=chunk)
    cfg = sim.base_config(chunk=chunk, eph_format="whitespace" if ws else "csv", aux="whitespace" if ws else "csv")
    if third:
        cfg = cfg.set("LIGHTCURVE", lc_model="identity")
    r = sim.Run("run", cfg)
    write(r, t, ws)
    why, bad = verdict(t)
    exc = None
    try:
        r.go()
    except (SystemExit, Exception) as e:
        exc = e
    rec.state((orb, ws, third, tuple(names), chunk))
    rec.step()
    rec.trace()
    rec.outcome((why, tuple(bad.values()), repr(exc)[:60]))
    label = "+".join(n.split(":")[0] + ":" + n.split(":")[1] if ":" in n else n for n in names)
    rows = r.rows() or []
    seen = collections.Counter(x["ObjID"] for x in rows)
    if why:
        rec.check(exc is not None, "accepted:" + label, lambda: "%s: must be refused (%s) but the run finished" % (obj, why), obj)
        rec.check(not rows, "reported:" + label, lambda: "%s: must be refused (%s) but reports %s" % (obj, why, dict(seen)), obj)
        return
    if bad:
        rec.check(exc is not None, "accepted:" + label, lambda: "%s: must be refused (%s) but the run finished" % (obj, bad), obj)
        rec.check(not set(bad) & set(seen), "reported:" + label, lambda: "%s: must not report %s but reports %s" % (obj, bad, dict(seen)), obj)
        return
    if not rec.check(exc is None, "refused:" + label, lambda: "%s: nothing wrong with the input, but %r" % (obj, exc), obj):
        return
    compare(t, rows, label, obj, rec)


def compare(t, rows, label, obj, rec):
    names = [x["ObjID"] for x in t["orbits"][1]]
    per = {f: {x["ObjID"]: x for x in t[f][1]} for f in ("orbits", "params", "complex") if f in t}
    want = collections.Counter((e["ObjID"], e["FieldID"]) for e in t["eph"][1] if e["ObjID"] in names)
    have = collections.Counter((x["ObjID"], x["FieldID"]) for x in rows)
    if not rec.check(want == have, "rows:" + label, lambda: "%s: rows %s, expected %s" % (obj, dict(have), dict(want)), obj):
        return
    for x in rows:
        for f, table in per.items():
            own = table[x["ObjID"]]
            for c in t[f][0]:
                if c == "ObjID" or c.startswith("H_") or "-" in c:
                    continue
                ok = x.get(c) == own[c] or (isinstance(own[c], float) and abs(x.get(c, 1e99) - own[c]) <= 1e-12 * abs(own[c]))
                rec.check(ok, "values:" + label, lambda: "%s: %s of %s is %r, its own row says %r" % (obj, c, x["ObjID"], x.get(c), own[c]), obj)
        p = per["params"][x["ObjID"]]
        H = p["H_r"] + (0.0 if x["optFilter"] == "r" else p["g-r"])
        rec.check(abs(x["H_filter"] - H) < 1e-9, "H:" + label, lambda: "%s: H of %s in %s is %r, its own row says %r" % (obj, x["ObjID"], x["optFilter"], x["H_filter"], H), obj)


def ar_case(orb, names, rec):
    """The same faults when the ephemeris is generated internally (orbits are really used)."""
    t = base(orb, False)
    F = faults(t, orb)
    for n in names:
        F[n](t)
    obj = dict(orb=orb, names=names, ar=True)
    r = sim.Run("run", sim.base_config(ephem="ar", chunk=2))
    write(r, t, False)
    r.ephfile = None
    why, bad = verdict(t)
    exc = None
    try:
        r.go()
    except (SystemExit, Exception) as e:
        exc = e
    rec.state((orb, "ar", tuple(names)))
    rec.step()
    rec.trace()
    label = "ar:" + "+".join(n.split(":")[0] for n in names)
    rec.outcome((why, tuple(bad.values()), repr(exc)[:60]))
    if why or bad:
        rec.check(exc is not None, "accepted:" + label, lambda: "%s: must be refused (%s %s) but the run finished" % (obj, why, bad), obj)
    else:
        rec.check(exc is None, "refused:" + label, lambda: "%s: nothing wrong with the input, but %r" % (obj, exc), obj)


def shards(tier):
    out = []
    for orb in FORMATS:
        for third in (False, True):
            names = [None] + sorted(faults(base(orb, third), orb))
            if orb != "KEP":  # the other files do not depend on the orbit format
                names = [n for n in names if n is None or not n.split(":")[1:2] or n.split(":")[1] not in ("params", "complex", "eph")]
                if third:
                    continue
            for i in range(0, len(names), 12):
                out.append(["one", orb, third, names[i:i + 12]])
    n = len(PAIRS)
    for i in range(n):
        out.append(["two", "KEP", PAIRS[i], PAIRS[i + 1:]])
    for orb in FORMATS:
        out.append(["ar", orb])
    if tier == "thorough":
        for orb in ("KEP", "COM", "CART"):
            names = sorted(faults(base(orb, False), orb))
            for i, a in enumerate(names):
                out.append(["two", orb, a, names[i + 1:]])
    return out


def run(shard, rec):
    rec.sample(shard)
    if shard[0] == "one":
        _, orb, third, names = shard
        for n in names:
            for ws in (False, True):
                for chunk in (1, 2, 9) if not ws else (9,):
                    case(orb, ws, third, [n] if n else [], chunk, rec)
    elif shard[0] == "two":
        for b in shard[3]:
            for chunk in (1, 9):
                case(shard[1], False, False, [shard[2], b], chunk, rec)
    else:
        orb = shard[1]
        F = sorted(faults(base(orb, False), orb))
        for n in [None] + [n for n in F if n.split(":")[0] in ("val", "format", "del", "col") and "eph" not in n and n != "col:params:GS"]:  # unused without detections
            ar_case(orb, [n] if n else [], rec)


def replay(o, rec):
    if o.get("ar"):
        ar_case(o["orb"], o["names"], rec)
    else:
        case(o["orb"], o["ws"], o["third"], o["names"], o["chunk"], rec)
