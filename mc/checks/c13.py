"""C13: A fixed random seed reproduces a run exactly."""
import itertools
import math
import os
import shutil
import subprocess
import sys

import numpy as np
import pandas as pd

from mc import sim

PID = "C13"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of draw interleavings, of histories of earlier runs in the process and of on/off settings of the random effects, on the real generators and complete runs compared with a run in a fresh process"
NOTE = (
    "All interleavings of draws of three effects up to a length show that streams do not touch each other. Every configuration of random effects is run after every history of up to two other runs (other seeds, surveys, "
    "failing runs, disturbed global generators) and its output files compared byte by byte with those of the command line in a fresh interpreter with another hash seed. Every combination of the other effects being on, but set so that they "
    "remove nothing, must leave the outcome of an effect unchanged. Streams of different seeds and effects are compared over several hundred seeds."
)
BOUND = {
    "quick": "interleavings of 3 effects up to 7 draws x 6 seeds; streams of 200 seeds x 3 effects; 8 configurations x 13 histories x fresh process; 3 effects x 8 settings of the others x 3 seeds",
    "thorough": "interleavings up to 9 draws; 2000 seeds; histories up to length 3; 9 seeds",
}
ORDERED = True

MODS = ["sorcha.modules.PPRandomizeMeasurements", "sorcha.modules.PPApplyFOVFilter", "sorcha.modules.PPDropObservations"]


def warm():
    import sorcha.sorcha  # noqa: F401
    import sorcha.des  # noqa: F401


# --- generators -----------------------------------------------------------------------------------------------------------------------
OPS = {0: lambda g, n: g.normal(0, 1, n), 1: lambda g, n: g.random(n), 2: lambda g, n: g.random(n)}


def interleave(seed, length, rec):
    from sorcha.utilities.sorchaModuleRNG import PerModuleRNG
    solo = {}
    for m in range(3):
        g = PerModuleRNG(seed).getModuleRNG(MODS[m])
        solo[m] = [list(OPS[m](g, 1 + i % 3)) for i in range(length)]
    for w in itertools.product(range(3), repeat=length):
        p = PerModuleRNG(seed)
        count = [0, 0, 0]
        for m in w:
            np.random.random()  # other users of the global generator
            got = list(OPS[m](p.getModuleRNG(MODS[m]), 1 + count[m] % 3))
            rec.step()
            rec.check(got == solo[m][count[m]], "interleaving", lambda: "seed %d, history %s: draw %d of %s is %s, alone %s" % (seed, w, count[m], MODS[m], got, solo[m][count[m]]), dict(seed=seed, w=w))
            count[m] += 1
        rec.state((seed, w))
        rec.trace()
        rec.outcome((seed, tuple(count)))


def distinct(lo, hi, rec):
    """First draws of every seed and effect in a range, including large seeds."""
    from sorcha.utilities.sorchaModuleRNG import PerModuleRNG
    seeds = list(range(lo, hi)) + [2 ** 31 - 1 - lo, 10 ** 6 + lo, 2 ** 30 + lo]
    first = {}
    for s in seeds:
        for m in MODS:
            v = tuple(PerModuleRNG(s).getModuleRNG(m).random(4))
            rec.state(("d", s, m))
            rec.step()
            rec.check(v == tuple(PerModuleRNG(s).getModuleRNG(m).random(4)), "same-seed", lambda: "seed %d %s not reproducible" % (s, m))
            rec.check(v not in first, "distinct", lambda: "seed %d %s has the stream of seed %s %s" % ((s, m) + first[v]))
            first[v] = (s, m)
    rec.trace(len(seeds))


# --- runs -----------------------------------------------------------------------------------------------------------------------------
def big(cfg):
    return cfg.set("FOV", camera_model="circle", circle_radius="2.0")


def configs():
    b = lambda **k: sim.base_config(filters="r,g", chunk=4, **k)  # noqa: E731
    fade = dict(fading_function_width="0.1", fading_function_peak_efficiency="0.7")
    return {
        "random": b().set("EXPERT", randomization_on="True", trailing_losses_on="True", vignetting_on="True"),
        "fill": big(b()).set("FOV", fill_factor="0.5"),
        "fading": b().set("FADINGFUNCTION", **fade),
        "linking": b().set("LINKINGFILTER", **dict(sim.LINKING, SSP_detection_efficiency=0.5)),
        "all": big(b()).set("EXPERT", randomization_on="True", trailing_losses_on="True", vignetting_on="True").set("FADINGFUNCTION", **fade).set("FOV", fill_factor="0.8")
        .set("LINKINGFILTER", **dict(sim.LINKING, SSP_detection_efficiency=0.5, drop_unlinked="False")),
        "all-db": big(b(output="sqlite3")).set("EXPERT", randomization_on="True").set("FADINGFUNCTION", **fade).set("FOV", fill_factor="0.8"),
        "ar": b(ephem="ar").set("EXPERT", randomization_on="True").set("FADINGFUNCTION", **fade),
        "des": sim.base_config("DES", filters="r,g", chunk=4).set("FADINGFUNCTION", fading_function_on="True"),
    }


def build(name, where, seed):
    from mc import arstub
    cfg = configs()[name]
    survey = "DES" if name == "des" else "rubin_sim"
    r = sim.Run(where, cfg, survey=survey, stats="st", seed=seed, eph_out="eo" if name == "ar" else None)
    V = [sim.visit(5 + 3 * i, 60000.1 + (i // 2) + 0.02 * (i % 2), "rg"[i % 2], ra=120.0, dec=20.0, depth=23.5) for i in range(10)]
    objs = ["o%d" % i for i in range(10)]
    params = [sim.phys(o, 18.0 + 0.35 * i, "r", {"g-r": 0.5}) for i, o in enumerate(objs)]
    if name == "ar":
        orbits = [arstub.bcart_orbit(o, *arstub.place(120.0 + 0.1 * i, 20.0, 1.5 + 0.1 * i, arstub.tdb(60002.0)), epoch=60002.0) for i, o in enumerate(objs)]
        r.inputs(V, orbits, params, orbit_cols=arstub.BCART_COLS)
    else:
        ephs = [sim.eph(o, v, ra=120.0 + 0.1 * i + 0.02 * j, dec=20.0 + 0.05 * j, rng=1.5 + 0.02 * i, dra=1.0 + i, des=name == "des") for i, o in enumerate(objs) for j, v in enumerate(V) if (i + j) % 7]
        r.inputs(V, [sim.kep_orbit(o) for o in objs], params, ephs)
    return r


FRESH = """
import sys, logging, warnings
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
sys.path.insert(0, %(v)r)
from mc import arstub
import sorcha_cmdline.run as run
sys.argv = ["sorcha run"] + sys.argv[1:]
if %(ar)r:
    import sorcha.sorcha
    with arstub.installed():
        run.main()
else:
    run.main()
"""


def fresh_run(r, name, hashseed, seed):
    sim.fresh(r.p("o"))
    r.cfg.write(r.p("config.ini"))
    a = ["-c", r.p("config.ini"), "-o", r.p("o"), "--ob", r.p("orbits.csv"), "-p", r.p("params.csv"), "--pd", r.p("pointing.db"), "-t", "out", "-s", r.survey, "--st", "st", "-f"]
    if name == "ar":
        from mc import arstub
        a += ["--ar", arstub.fill_cache(os.path.join(os.getcwd(), "arcache")), "--ew", "eo"]
    else:
        a += ["--er", r.ephfile]
    env = dict(os.environ, SORCHA_SEED=str(seed), PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, "-c", FRESH % dict(v=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), ar=name == "ar")] + a, env=env, capture_output=True, text=True)
    if p.returncode:
        raise AssertionError("fresh run of %s failed: %s" % (name, p.stderr[-2000:]))


def files(r):
    out = {}
    for f in sorted(os.listdir(r.p("o"))):
        if f.endswith((".log", ".err")):
            continue
        p = os.path.join(r.p("o"), f)
        out[f] = open(p, "rb").read() if f.endswith(".csv") else [tuple(x.items()) for x in sim.read_any(p)]
    return out


# what happens in the process before the run of interest
def other(k, rec):
    if k == "global":
        np.random.seed(12345)
        import random
        random.seed(1)
        np.random.random(17)
    elif k == "fail":
        r = build("random", os.path.join(os.getcwd(), "other"), 3)
        os.remove(r.p("params.csv"))
        sim.write_table(r.p("params.csv"), [sim.phys("zz", 18.0, "r", {"g-r": 0.5})], ["ObjID", "H_r", "GS", "g-r"])
        if r.go_refused() is None:
            raise AssertionError("run without parameters was not refused")
    else:
        name, seed = k
        build(name, os.path.join(os.getcwd(), "other"), seed).go()
    rec.step()


HIST1 = ["global", "fail", ("all", 7), ("des", 7)]


def histories(tier):
    out = [()] + [(h,) for h in HIST1] + list(itertools.permutations(HIST1, 2))[::3] + [(("all", 7), ("all", 7)), (("all", 7), ("ar", 8))]
    if tier != "quick":
        out += list(itertools.permutations(HIST1, 3)) + list(itertools.permutations(HIST1, 2))
    return list(dict.fromkeys(out))


def reproduce(name, tier, rec):
    seed = 20240 + len(name)
    r = build(name, os.path.join(os.getcwd(), "run"), seed)
    fresh_run(r, name, 77, seed)
    want = files(r)
    rec.trace()
    need = {"out.db" if name == "all-db" else "out.csv", "st.csv"} | ({"eo.csv"} if name == "ar" else set())
    rec.check(set(want) == need, "fresh-files", lambda: "%s: files %s" % (name, sorted(want)))
    other_seed = None
    for h in histories(tier):
        for k in h:
            other(tuple(k) if isinstance(k, list) else k, rec)
        r = build(name, os.path.join(os.getcwd(), "run"), seed)
        r.go()
        got = files(r)
        rec.state((name, h))
        rec.step()
        rec.trace()
        rec.outcome((name, str(got)))
        rec.check(got == want, "reproduce:" + name, lambda: "%s with seed %d after %s: differs from a fresh process in %s" % (name, seed, h, [f for f in set(got) | set(want) if got.get(f) != want.get(f)]), dict(name=name, history=h))
        if h == ():
            # the same arguments object run twice continues its streams; another object with the same seed does not
            r = build(name, os.path.join(os.getcwd(), "run"), seed)
            r.go()
            rec.check(files(r) == want, "again:" + name, lambda: "%s: second run in the process differs" % name)
    if name != "linking":
        r = build(name, os.path.join(os.getcwd(), "run"), seed + 1)
        r.go()
        other_seed = files(r)
        rec.check(other_seed["out.db" if name == "all-db" else "out.csv"] != want["out.db" if name == "all-db" else "out.csv"], "other-seed:" + name, lambda: "%s: seeds %d and %d give the same output" % (name, seed, seed + 1))


# Settings of the effects: (acting, switched on without removing or changing anything)
def effects(on, target, seed):
    """Run with the target effect acting and the effects in `on` on but harmless; returns the outcome of the target effect."""
    cfg = sim.base_config(filters="r", chunk=7)
    fov = dict(camera_model="circle", circle_radius="3.0")
    if target == "random" or "random" in on:
        cfg = cfg.set("EXPERT", randomization_on="True", default_snr_cut="False")
    if target == "fill" or "fill" in on:
        fov["fill_factor"] = "0.5" if target == "fill" else "1.0"
    if target == "fading" or "fading" in on:
        cfg = cfg.set("FADINGFUNCTION", fading_function_width="0.1", fading_function_peak_efficiency="0.5" if target == "fading" else "1.0")
    if "linking" in on:
        cfg = cfg.set("LINKINGFILTER", **dict(sim.LINKING, SSP_detection_efficiency=0.5, drop_unlinked="False"))
    if "rest" in on:
        cfg = cfg.set("EXPERT", vignetting_on="True", snr_limit="0.001").set("SATURATION", bright_limit="1.0")
    cfg = cfg.set("FOV", **fov)
    r = sim.Run(os.path.join(os.getcwd(), "run"), cfg, seed=seed)
    V = [sim.visit(5 + 3 * i, 60000.1 + (i // 2) + 0.02 * (i % 2), "r", ra=120.0, dec=20.0, depth=24.0) for i in range(8)]
    objs = ["o%d" % i for i in range(16)]
    ephs = [sim.eph(o, v, ra=120.0 + 0.1 * i + 0.02 * j, dec=20.0 + 0.05 * j, rng=1.5 + 0.02 * i) for i, o in enumerate(objs) for j, v in enumerate(V)]
    r.inputs(V, [sim.kep_orbit(o) for o in objs], [sim.phys(o, 14.0 + 0.05 * i, "r") for i, o in enumerate(objs)], ephs)
    r.go()
    rows = {(x["ObjID"], int(x["FieldID"])): x for x in r.rows() or []}
    if target == "random":
        return {k: tuple(x[c] for c in ("RA_deg", "Dec_deg", "trailedSourceMag", "PSFMag")) for k, x in rows.items()}
    return set(rows)


EFFECTS = ("random", "fill", "fading")


def independent(target, seed, rec):
    base = effects((), target, seed)
    others = [e for e in EFFECTS if e != target] + ["linking", "rest"]
    n = 16 * 8
    rec.check(len(base) == n if target == "random" else n / 4 < len(base) < 3 * n / 4, "independent-base", lambda: "%s alone keeps %d of %d" % (target, len(base), n))
    for k in range(len(others) + 1):
        for on in itertools.combinations(others, k):
            got = effects(on, target, seed)
            rec.state((target, seed, on))
            rec.step()
            rec.trace()
            rec.outcome((target, seed, str(sorted(got))))
            if target == "random" and "rest" in on:  # vignetting changes the uncertainties, hence the values
                got, want = set(got), set(base)
            else:
                want = base
            rec.check(got == want, "independent:" + target, lambda: "seed %d: outcome of %s changes when %s are on (but harmless): %s" % (seed, target, on, str([x for x in want if x not in got or (isinstance(got, dict) and got[x] != want[x])][:3])),
                      dict(target=target, on=on, seed=seed))


def streams(seeds, rec):
    """Effects and seeds do not share draws: the detections kept differ."""
    kept = {}
    for s in seeds:
        for t in ("fill", "fading"):
            k = frozenset(effects((), t, s))
            rec.state(("s", s, t))
            rec.trace()
            rec.step()
            rec.check(k not in kept, "streams", lambda: "seed %s %s keeps exactly the detections of seed %s %s" % ((s, t) + kept[k]))
            kept[k] = (s, t)


def shards(tier):
    q = tier == "quick"
    out = [["reproduce", n, tier] for n in configs()]
    out += [["independent", t, s] for t in EFFECTS for s in ((1, 4242, 2 ** 31 - 2) if q else range(1, 10))]
    out += [["streams", [s, s + 1, s + 1000]] for s in ((1, 99) if q else range(1, 40, 4))]
    out += [["interleave", s, n] for s in (0, 1, 2023, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1) for n in ((7,) if q else (7, 8, 9))]
    out += [["distinct", i, i + 50] for i in range(0, 200 if q else 2000, 50)]
    return out


def run(s, rec):
    rec.sample(s)
    {"reproduce": reproduce, "independent": independent, "streams": streams, "interleave": interleave, "distinct": distinct}[s[0]](*s[1:], rec)
