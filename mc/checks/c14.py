"""C14: Randomised measurements scatter about the truth and keep it."""
import itertools
import math
import os
import types

import numpy as np
import pandas as pd

from mc import sim
from mc.checks.c12 import sep

PID = "C14"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of prescribed normal draws x positions x uncertainties, of all small tables around the signal-to-noise floor, and of complete runs with prescribed draws, against an independent formula per detection"
NOTE = (
    "A stand-in generator hands the real code every combination of draws from a small set, for positions over the whole sky (poles and RA wrap included) and uncertainties of microarcseconds to degrees; the measured values must be the true ones "
    "moved by that detection's draws times its own standard deviations, the true ones must be kept and coordinates valid. All tables up to a length with rows around the floor, all label orders. Complete runs use prescribed draws "
    "and are compared with values from the input files. Which draw goes to which row is taken from the order of the rows."
)
BOUND = {
    "quick": "125 draw vectors x 13 right ascensions x 9 declinations x 5 uncertainties; tables of up to 4 rows over 4 kinds x 4 settings x 3 labellings x 5 draw patterns; 24 runs with 6 draw patterns each",
    "thorough": "343 draw vectors; tables of up to 6 rows; 24 runs with 4 chunk sizes",
}


class Normals:
    """Generator with prescribed standard normal draws: draw i is f(i)."""

    def __init__(self, f):
        self.f, self.i, self.calls = f, 0, []

    def getModuleRNG(self, name):
        return self

    def take(self, n):
        out = np.array([self.f(self.i + k) for k in range(n)], dtype=float)
        self.i += n
        return out

    def standard_normal(self, size=None):
        n = 1 if size is None else int(np.prod(size))
        x = self.take(n)
        return float(x[0]) if size is None else x.reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + scale * self.standard_normal(size)

    def multivariate_normal(self, mean, cov, size=None):
        mean, cov = np.asarray(mean, dtype=float), np.asarray(cov, dtype=float)
        if not np.allclose(cov, np.diag(np.diag(cov))):
            raise AssertionError("correlated draws asked for: %s" % cov)
        k = len(mean)
        n = 1 if size is None else int(np.prod(size))
        x = mean + np.sqrt(np.diag(cov)) * self.take(n * k).reshape(n, k)
        return x[0] if size is None else x


def moved(ra, dec, sig_deg, z):
    """Oracle: unit vector plus z times sigma, back on the sphere."""
    a, d, s = math.radians(ra), math.radians(dec), math.radians(sig_deg)
    v = [math.cos(a) * math.cos(d) + s * z[0], math.sin(a) * math.cos(d) + s * z[1], math.sin(d) + s * z[2]]
    return math.degrees(math.atan2(v[1], v[0])) % 360.0, math.degrees(math.atan2(v[2], math.hypot(v[0], v[1])))


RAS = [0.0, 1e-9, 1e-4, 0.7, 45.0, 90.0, 123.456, 180.0, 270.0, 300.0, 359.0, 359.99999, 360.0 - 1e-9]
DECS = [-90.0, -89.99999, -60.0, -1e-7, 0.0, 33.3, 80.0, 89.9999999, 90.0]
SIGS = [0.0, 1e-9, 3e-6, 1e-3, 0.5]


def near(p, q, tol=1e-9):
    """The code takes the declination from its sine, which loses digits close to the poles."""
    return math.isfinite(p[0]) and math.isfinite(p[1]) and sep(p, q) <= tol + min(3e-14 / max(math.cos(math.radians(q[1])), 1e-12), 3e-6)


def valid(ra, dec):
    return 0.0 <= ra < 360.0 and -90.0 <= dec <= 90.0


def sky(k, values, rec):
    from sorcha.modules.PPRandomizeMeasurements import randomizeAstrometry, radec2icrf, icrf2radec
    sig = SIGS[k]
    pos = list(itertools.product(RAS, DECS))
    base = pd.DataFrame(dict(RA_deg=[p[0] for p in pos], Dec_deg=[p[1] for p in pos], s=sig, v=range(len(pos))))
    for z in itertools.product(values, repeat=3):
        out = randomizeAstrometry(base.copy(), Normals(lambda i: z[i % 3]), sigName="s", sigUnits="deg")
        rec.trace()
        for i, p in enumerate(pos):
            g = (float(out["RA_deg"].iloc[i]), float(out["Dec_deg"].iloc[i]))
            e = moved(*p, sig, z)
            rec.state((p, sig, z))
            rec.step()
            rec.outcome((round(e[0], 7), round(e[1], 7)))
            obj = dict(position=p, sigma=sig, draws=z)
            rec.check(near(g, e), "sky:position", lambda: "%s: measured %s, expected %s" % (obj, g, e), obj)
            rec.check(valid(*g), "sky:valid", lambda: "%s: measured %s" % (obj, g), obj)
            t = (float(out["RATrue_deg"].iloc[i]), float(out["DecTrue_deg"].iloc[i]))
            rec.check(t == p, "sky:true", lambda: "%s: true position kept as %s" % (obj, t), obj)
        rec.check(list(out["v"]) == list(range(len(pos))), "sky:rows", lambda: "rows reordered")
    for p in pos:
        v = radec2icrf(*p)
        q = icrf2radec(*v)
        rec.state(("icrf", p))
        rec.step()
        rec.check(near((float(q[0]), float(q[1])), p) and valid(float(q[0]), float(q[1])), "sky:roundtrip", lambda: "%s -> %s -> %s" % (p, v, q))
        qr = icrf2radec(*radec2icrf(math.radians(p[0]), math.radians(p[1]), deg=False), deg=False)
        rec.check(near((math.degrees(qr[0]), math.degrees(qr[1])), p), "sky:roundtrip-rad", lambda: "%s -> %s" % (p, qr))


def units(rec):
    from sorcha.modules.PPRandomizeMeasurements import randomizeAstrometry
    for p in itertools.product(RAS, DECS[1:-1]):
        for su, f in (("deg", 1.0), ("mas", 3.6e6), ("rad", math.pi / 180)):
            for sig in (1e-3, 0.2):
                z = (0.5, -1.0, 2.0)
                out = randomizeAstrometry(pd.DataFrame(dict(RA_deg=[p[0]], Dec_deg=[p[1]], s=[sig * f])), Normals(lambda i: z[i % 3]), sigName="s", sigUnits=su)
                g, e = (float(out["RA_deg"].iloc[0]), float(out["Dec_deg"].iloc[0])), moved(*p, sig, z)
                rec.state(("u", p, su, sig))
                rec.step()
                rec.trace()
                rec.check(near(g, e), "units:" + su, lambda: "%s sigma %r in %s: %s expected %s" % (p, sig, su, g, e))


PATTERNS = [lambda i: 0.0, lambda i: 1.0, lambda i: -2.5, lambda i: [0.3, -1.1, 2.0, 0.0, -0.7, 1.9, -3.0][i % 7], lambda i: math.sin(3.7 * i + 1) * 2.2]
KIND = [dict(RA_deg=r, Dec_deg=d, astrometricSigma_deg=s, trailedSourceMagTrue=m, trailedSourceMagSigma=ms, PSFMagTrue=p, PSFMagSigma=ps, SNRPSFMag=snr, SNRTrailedSourceMag=snt)
        for r, d, s, m, ms, p, ps, snr, snt in [(359.99999, 10.0, 1e-4, 20.0, 0.1, 20.2, 0.15, 20.0, 25.0), (10.0, -89.9999, 3e-5, 24.0, 0.4, 24.6, 0.8, 1.999999, 2.5),
                                                (200.0, 40.0, 1e-5, 23.0, 0.2, 23.5, 0.3, 2.000001, 1.99), (0.0, 0.0, 2e-5, 18.0, 0.01, 18.5, 0.02, 100.0, 130.0)]]


def rows(conf, w, pattern, rec, obj, df):
    """The wrapper on one table; draws go to the rows in order."""
    from sorcha.modules.PPRandomizeMeasurements import randomizeAstrometryAndPhotometry
    cut, trail = conf
    cfg = types.SimpleNamespace(expert=types.SimpleNamespace(default_snr_cut=cut, trailing_losses_on=trail))
    out = randomizeAstrometryAndPhotometry(df.copy(), cfg, Normals(pattern))
    keep = [i for i, k in enumerate(w) if not cut or KIND[k]["SNRPSFMag"] > 2.0]
    if not rec.check(list(out["v"]) == keep, "table:rows", lambda: "%s: rows %s expected %s" % (obj, list(out["v"]), keep), obj):
        return
    n = len(keep)
    z1 = [pattern(i) for i in range(n)]
    z2 = [pattern(n + i) for i in range(n)] if trail else z1
    z3 = [[pattern(n * (2 if trail else 1) + 3 * i + c) for c in range(3)] for i in range(n)]
    for j, i in enumerate(keep):
        k, x = KIND[w[i]], out.iloc[j]
        e = k["trailedSourceMagTrue"] + z1[j] * k["trailedSourceMagSigma"]
        ep = k["PSFMagTrue"] + z2[j] * k["PSFMagSigma"] if trail else e
        rec.check(abs(x["trailedSourceMag"] - e) < 1e-9, "table:trailed", lambda: "%s: row %d %r expected %r" % (obj, i, x["trailedSourceMag"], e), obj)
        rec.check(abs(x["PSFMag"] - ep) < 1e-9, "table:psf", lambda: "%s: row %d %r expected %r" % (obj, i, x["PSFMag"], ep), obj)
        g, p = (float(x["RA_deg"]), float(x["Dec_deg"])), moved(k["RA_deg"], k["Dec_deg"], k["astrometricSigma_deg"], z3[j])
        rec.check(near(g, p) and valid(*g), "table:position", lambda: "%s: row %d %s expected %s" % (obj, i, g, p), obj)
        rec.check((x["RATrue_deg"], x["DecTrue_deg"]) == (k["RA_deg"], k["Dec_deg"]), "table:true", lambda: "%s: row %d true position %s" % (obj, i, (x["RATrue_deg"], x["DecTrue_deg"])), obj)
        for c in ("trailedSourceMagTrue", "PSFMagTrue", "trailedSourceMagSigma", "PSFMagSigma", "SNRPSFMag", "astrometricSigma_deg"):
            rec.check(x[c] == k[c], "table:kept", lambda: "%s: row %d %s %r" % (obj, i, c, x[c]), obj)
        rec.outcome((round(g[0], 9), round(g[1], 9), round(e, 9)))


def tables(n, first, rec):
    if first is None:  # a long table
        words = [tuple((i * i + i // 4) % len(KIND) for i in range(n))]
    else:
        words = [(first,) + rest for rest in itertools.product(range(len(KIND)), repeat=n - 1)]
    for w in words:
        for c, conf in enumerate(itertools.product((True, False), repeat=2)):
            for pat in range(len(PATTERNS)) if n < 4 else ((c + sum(w)) % len(PATTERNS),):
                lab = (sum(w) + c + pat) % 3
                df = pd.DataFrame([dict(KIND[k], v=i) for i, k in enumerate(w)])
                if lab:
                    df.index = [3 * i + 2 for i in range(n)] if lab == 1 else list(range(n))[::-1]
                obj = dict(rows=w[:9], length=n, cut=conf[0], trail=conf[1], pattern=pat, labels=lab)
                rec.state(("t", w, conf, pat))
                rec.step(n)
                rec.trace()
                rows(conf, w, PATTERNS[pat], rec, obj, df)


def full(cut, trail, cam, chunk, rec):
    """Complete runs: randomisation off gives the truth; on, with prescribed draws, moves it by the draws."""
    def run(rand, pattern=None):
        cfg = sim.base_config(filters="r,g", chunk=chunk).set("EXPERT", trailing_losses_on=str(trail), randomization_on=str(rand), default_snr_cut=str(cut))
        if cam == "circle":
            cfg = cfg.set("FOV", camera_model="circle", circle_radius="3")
        r = sim.Run(os.path.join(os.getcwd(), "run"), cfg)
        V = [sim.visit(5 + 3 * i, 60000.1 + 0.5 * i, "rg"[i % 2], ra=[359.9999, 10.0, 0.0][i % 3], dec=[0.0, 89.9999, -45.0][i % 3], depth=23.0) for i in range(6)]
        objs = ["o%d" % i for i in range(7)]
        ephs = [sim.eph(o, v, ra=(v["fieldRA"] + 1e-5 * i) % 360.0, dra=0.2 * i, rng=1.5) for i, o in enumerate(objs) for v in V]
        r.inputs(V, [sim.kep_orbit(o) for o in objs], [sim.phys(o, 17.0 + 0.8 * i, "r", {"g-r": 0.5}) for i, o in enumerate(objs)], ephs)
        rng = None
        if pattern is not None:
            r.rngs = rng = Normals(pattern)
        r.go()
        return r.rows() or [], rng
    obj = dict(kind="full", cut=cut, trail=trail, cam=cam, chunk=chunk)
    off, _ = run(False)
    rec.check(len(off) == 42, "full:off-rows", lambda: "%s: %d rows" % (obj, len(off)), obj)
    for x in off:
        rec.check(all(x[a] == x[b] for a, b in (("RA_deg", "RATrue_deg"), ("Dec_deg", "DecTrue_deg"), ("trailedSourceMag", "trailedSourceMagTrue"), ("PSFMag", "PSFMagTrue"))), "full:off", lambda: "%s: without randomisation %s" % (obj, x), obj)
    keep = [x for x in off if not cut or x["SNRPSFMag"] > 2.0]
    # rows of a chunk are contiguous: chunk of objects i // chunk
    blocks = [[x for x in keep if int(x["ObjID"][1:]) // chunk == b] for b in range(math.ceil(7 / chunk))]
    for pat in range(len(PATTERNS) + 1):
        f = PATTERNS[pat] if pat < len(PATTERNS) else (lambda i: 0.01 * ((i * 37) % 101) - 0.5)
        on, rng = run(True, f)
        rec.state(("full", str(obj), pat))
        rec.trace()
        rec.step(len(on))
        if not rec.check([(x["ObjID"], x["FieldID"]) for x in on] == [(x["ObjID"], x["FieldID"]) for b in blocks for x in b], "full:rows", lambda: "%s: %d rows expected %d" % (obj, len(on), len(keep)), obj):
            continue
        i0 = k = 0
        for b in blocks:
            n = len(b)
            for j, t in enumerate(b):
                x = on[k]
                k += 1
                z1 = f(i0 + j)
                z2 = f(i0 + n + j)
                z3 = [f(i0 + n * (2 if trail else 1) + 3 * j + c) for c in range(3)]
                e = t["trailedSourceMagTrue"] + z1 * t["trailedSourceMagSigma"]
                ep = t["PSFMagTrue"] + z2 * t["PSFMagSigma"] if trail else e
                p = moved(t["RA_deg"], t["Dec_deg"], t["astrometricSigma_deg"], z3)
                rec.check(abs(x["trailedSourceMag"] - e) < 2e-6 and abs(x["PSFMag"] - ep) < 2e-6, "full:mag", lambda: "%s draws %d: %s magnitudes %r %r expected %r %r" % (obj, pat, x["ObjID"], x["trailedSourceMag"], x["PSFMag"], e, ep), obj)
                rec.check(near((x["RA_deg"], x["Dec_deg"]), p, 1e-8) and valid(x["RA_deg"], x["Dec_deg"]), "full:position", lambda: "%s draws %d: %s at %s expected %s" % (obj, pat, x["ObjID"], (x["RA_deg"], x["Dec_deg"]), p), obj)
                for c in ("RATrue_deg", "DecTrue_deg", "trailedSourceMagTrue", "PSFMagTrue", "trailedSourceMagSigma", "SNRPSFMag"):
                    rec.check(x[c] == t[c], "full:true", lambda: "%s draws %d: %s %s is %r, without randomisation %r" % (obj, pat, x["ObjID"], c, x[c], t[c]), obj)
                rec.outcome((pat, round(e, 6), round(p[0], 7)))
            i0 += n * ((2 if trail else 1) + 3)


def shards(tier):
    q = tier == "quick"
    vals = [-3.0, -0.4, 0.0, 1.0, 2.2] if q else [-6.0, -3.0, -0.4, 0.0, 1.0, 2.2, 4.0]
    out = [["sky", k, vals] for k in range(len(SIGS))] + [["units"]]
    out += [["tables", n, f] for n in range(1, 5 if q else 7) for f in range(len(KIND))] + [["tables", n, None] for n in sim.SIZES]
    out += [["full", c, t, cam, ch] for c, t, cam in itertools.product((True, False), (True, False), ("none", "circle")) for ch in ((100, 1, 3) if q else (100, 1, 2, 3))]
    return out


def run(s, rec):
    rec.sample(s)
    {"sky": sky, "units": units, "tables": tables, "full": full}[s[0]](*s[1:], rec)
