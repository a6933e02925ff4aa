"""Stands in for the data-file backed libraries below sorcha's internal ephemeris generator (ASSIST and the SPICE
kernels are not available offline). Everything in sorcha itself runs unchanged: orbit parsing, observatory
handling, pointing precomputation, the pixel dictionary, light-time iteration and row assembly.

The stand-in universe: objects move in straight lines (or with the constant acceleration ACC) from the state their orbit gives at
its epoch, Earth on a circle, Sun in a straight line close to the origin. All positions au / days,
equatorial axes, in TDB days since JD_REF."""
import contextlib
import json
import math
import os

import numpy as np

JD_REF = 2451545.0
AU_KM = 149597870.7
GM_SUN = 0.00029591220828411956
GM_TOTAL = 0.00029630927493457475
SUN_R = (0.004, -0.003, 0.0015)
SUN_V = (1.0e-6, 5.0e-6, -2.0e-6)
OBL = math.radians(84381.448 / 3600)
EARTH_N = 2 * math.pi / 365.25
REARTH = 6378.137
OBS = {"X05": {"Longitude": 289.25058, "cos": 0.864981, "sin": -0.500958},
       "W84": {"Longitude": 289.19389, "cos": 0.865020, "sin": -0.500901},
       "I11": {"Longitude": 289.26345, "cos": 0.8650, "sin": -0.500901},
       "000": {"Longitude": 0.0, "cos": 0.62411, "sin": 0.77873},
       "EQ0": {"Longitude": 10.0, "cos": 1.0, "sin": 0.0},
       "POL": {"Longitude": 20.0, "cos": 0.0, "sin": 1.0}}


def sun_state(t):
    return [SUN_R[i] + SUN_V[i] * t for i in range(3)], list(SUN_V)


def earth_state(t):
    """barycentric, au and au/day"""
    a = EARTH_N * t
    x, y = math.cos(a), math.sin(a)
    vx, vy = -EARTH_N * y, EARTH_N * x
    c, s = math.cos(OBL), math.sin(OBL)
    return [x, y * c, y * s], [vx, vy * c, vy * s]


ACC = [0.0, 0.0, 0.0]  # of every object, from the epoch of its orbit; checks that set it set it back

ROT = 2 * math.pi * 1.00273790935  # rad/day


def rot(t):
    a = ROT * t
    return np.array([[math.cos(a), -math.sin(a), 0.0], [math.sin(a), math.cos(a), 0.0], [0.0, 0.0, 1.0]])


def obs_state(t, code="X05", geocentric=None):
    """Observer position and velocity (au, au/day), from the analytic rotation."""
    r, v = earth_state(t)
    o = OBS[code]
    lon = math.radians(o["Longitude"])
    b = (o["cos"] * math.cos(lon), o["cos"] * math.sin(lon), o["sin"])
    a = ROT * t
    k = REARTH / AU_KM
    p = (b[0] * math.cos(a) - b[1] * math.sin(a), b[0] * math.sin(a) + b[1] * math.cos(a), b[2])
    w = (-ROT * p[1], ROT * p[0], 0.0)
    return [r[i] + k * p[i] for i in range(3)], [v[i] + k * w[i] for i in range(3)]


class _P:
    def __init__(self, r, v, m):
        self.x, self.y, self.z = r
        self.vx, self.vy, self.vz = v
        self.m = m
        self.xyz, self.vxyz = list(r), list(v)


class FakeEphem:
    jd_ref = JD_REF

    def __init__(self, *a, **k):
        pass

    def get_particle(self, which, t):
        if which == "Sun" or which == 0:
            r, v = sun_state(t)
            return _P(r, v, GM_SUN)
        return _P([0, 0, 0], [0, 0, 0], (GM_TOTAL - GM_SUN) / 26)


class FakeExtras:
    def __init__(self, sim, ephem):
        self.sim = sim
        p = sim.particles[0]
        self.t0, self.r0, self.v0 = sim.t, (p.x, p.y, p.z), (p.vx, p.vy, p.vz)
        self.forces = ["SUN", "PLANETS", "ASTEROIDS", "GR_EIH"]

    def integrate_or_interpolate(self, t):
        dt = t - self.t0
        p = self.sim.particles[0]
        p.x, p.y, p.z = (self.r0[i] + self.v0[i] * dt + ACC[i] * dt * dt / 2 for i in range(3))
        p.vx, p.vy, p.vz = (self.v0[i] + ACC[i] * dt for i in range(3))


def str2et(s):
    if s.startswith("JD"):
        w = s.split()
        return (float(w[1]) - 2451545.0) * 86400.0  # TDT ~ TDB
    if "1962" in s:
        return -1.19e9
    raise ValueError(s)


def spkezr(target, et, frame, corr, center):
    r, v = earth_state(et / 86400.0)
    return np.array([x * AU_KM for x in r] + [x * AU_KM / 86400.0 for x in v]), 0.0


def spkpos(target, et, frame, corr, center):
    r, _ = earth_state(et / 86400.0)
    return np.array([x * AU_KM for x in r]), 0.0


CACHE_FILES = ["de440s.bsp", "earth_2025_250826_2125_predict.bpc", "earth_620120_250826.bpc", "earth_latest_high_prec.bpc",
               "linux_p1550p2650.440", "sb441-n16.bsp", "naif0012.tls", "pck00010.pck", "ObsCodes.json.gz"]


def fill_cache(d):
    from sorcha.utilities.sorchaConfigs import auxiliaryConfigs
    os.makedirs(d, exist_ok=True)
    a = auxiliaryConfigs()
    for n in list(a.data_file_list):
        p = os.path.join(d, n)
        if not os.path.exists(p):
            with open(p, "w") as f:
                f.write("placeholder\n")
    with open(os.path.join(d, a.observatory_codes), "w") as f:
        json.dump(OBS, f)
    m = os.path.join(d, a.meta_kernel)
    if os.path.exists(m):
        os.remove(m)
    return os.path.abspath(d)


@contextlib.contextmanager
def installed():
    import assist
    import spiceypy
    import sorcha.ephemeris.simulation_setup as ss

    patches = [(spiceypy, "furnsh", lambda *a: None), (spiceypy, "kclear", lambda: None), (spiceypy, "str2et", str2et),
               (spiceypy, "spkezr", spkezr), (spiceypy, "spkpos", spkpos),
               (spiceypy, "pxform", lambda f, t, et: rot(et / 86400.0)),
               (assist, "Ephem", FakeEphem), (assist, "Extras", FakeExtras)]
    for mod in (ss,):
        for n, v in (("Ephem", FakeEphem), ("Extras", FakeExtras)):
            if hasattr(mod, n):
                patches.append((mod, n, v))
    old = [(m, n, getattr(m, n)) for m, n, _ in patches]
    for m, n, v in patches:
        setattr(m, n, v)
    try:
        yield
    finally:
        for m, n, v in old:
            setattr(m, n, v)


def tdb(mjd_tai):
    """JD TDB days since JD_REF of a TAI MJD, as the stand-in SPICE gives it (sorcha passes six decimals)."""
    return round(mjd_tai + 2400000.5 + 32.184 / 86400.0, 6) - JD_REF


C_AUD = 2.99792458e5 * 86400.0 / AU_KM


def apparent(r0, v0, t0, t, robs):
    """Light-time corrected position: exact fixed point for straight-line motion."""
    lt = 0.0
    for _ in range(60):
        p = [r0[i] + v0[i] * (t - lt - t0) for i in range(3)]
        d = math.dist(p, robs)
        n = d / C_AUD
        if abs(n - lt) < 1e-16:
            break
        lt = n
    return p, lt


def ecl_to_eq(v):
    c, s = math.cos(OBL), math.sin(OBL)
    return [v[0], v[1] * c - v[2] * s, v[1] * s + v[2] * c]


def eq_to_ecl(v):
    c, s = math.cos(OBL), math.sin(OBL)
    return [v[0], v[1] * c + v[2] * s, -v[1] * s + v[2] * c]


BCART_COLS = ["ObjID", "FORMAT", "x", "y", "z", "xdot", "ydot", "zdot", "epochMJD_TDB"]


def bcart_orbit(obj, r_eq, v_eq, epoch):
    r, v = eq_to_ecl(r_eq), eq_to_ecl(v_eq)
    return dict(ObjID=obj, FORMAT="BCART", x=r[0], y=r[1], z=r[2], xdot=v[0], ydot=v[1], zdot=v[2], epochMJD_TDB=epoch)


def place(ra, dec, dist, t, rate_ra=0.0, rate_dec=0.0, code="X05"):
    """Barycentric state (equatorial, at time t) of an object seen from the observatory at ra, dec [deg] at distance
    dist [au], with the given own sky motion [deg/day]; light time is neglected here (the oracle computes it)."""
    ro, vo = obs_state(t, code)
    a, d = math.radians(ra), math.radians(dec)
    u = (math.cos(a) * math.cos(d), math.sin(a) * math.cos(d), math.sin(d))
    ea = (-math.sin(a), math.cos(a), 0.0)
    ed = (-math.cos(a) * math.sin(d), -math.sin(a) * math.sin(d), math.cos(d))
    ra_, rd_ = math.radians(rate_ra), math.radians(rate_dec)
    ve = earth_state(t)[1]
    return ([ro[i] + dist * u[i] for i in range(3)],
            [ve[i] + dist * (ra_ * ea[i] + rd_ * ed[i]) for i in range(3)])
