"""C30: The log says what was run and why it stopped, and looking on changes nothing."""
import itertools
import os
import re

from mc import arstub, sim
from mc.checks import c18
from mc.checks.c18 import AUXFILE, Judge, apply, bases, edits, scratch, text

PID = "C30"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of single edits of complete configurations through the real command, comparing the logs of every pair of configurations in which a setting differs; of seeds, switches and places of output on complete runs; and of refusals, judged by the error log"
NOTE = (
    "Every single edit of seven complete configurations (every key x removed, blank, mistyped, boundary and valid values) is run through the command. The log of a run must tell its settings: for every setting in force its value is in the log, "
    "and no two configurations that differ in a setting in force have the same log. The seed is taken from the log of unseeded runs and given back: the same files byte by byte. The detailed log (-l), another output directory or name, relative paths, and --force "
    "leave results byte by byte as they were. A refused run has its reason in the error log; a run that succeeds has an empty error log. Not demanded of the log: the URLs of auxiliary files, and settings of effects that are off."
)
BOUND = {
    "quick": "7 base configurations (4 Rubin, 3 DES), every accepted single edit (about 100 per base), every 3rd refused one; 5 configurations with random effects x 8 seeds and 2 unseeded runs; 8 configurations x 2 surveys x 10 combinations of switches",
    "thorough": "every edit; 5 configurations x 40 seeds and 10 unseeded runs",
}

WORDS = {  # told in words of the log's own
    "ephemerides_type", "camera_model", "comet_activity", "lc_model",
}


def normal(txt):
    """Lines of a log without the time."""
    out = []
    for l in txt.splitlines():
        out.append(re.sub(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d+ ", "", l).strip())
    return [l for l in out if l and "Command line:" not in l]


def tokens(txt):
    return set(re.findall(r"[^\s\[\](),'\"]+", txt))


def has(txt, toks, v):
    if isinstance(v, bool) or v is None:
        return True  # by comparison only
    if isinstance(v, list):
        return all(has(txt, toks, x) for x in v)
    if isinstance(v, (int, float)):
        for t in toks:
            try:
                if float(t.rstrip(".;:")) == v or float(t) == v:
                    return True
            except ValueError:
                continue
        return False
    return str(v) in txt


def logs(out):
    log = err = ""
    for n in sorted(os.listdir(out)):
        if n.endswith(".log"):
            log += open(os.path.join(out, n), errors="replace").read()
        elif n.endswith(".err"):
            err += open(os.path.join(out, n), errors="replace").read()
    return log, err


def effective(want):
    """The settings that have an effect, as far as this configuration has them on."""
    out = {}
    linking = want.get(("linkingfilter", "ssp_linking_on"))
    for (s, k), v in want.items():
        if k.endswith("_url") or k == "brute_force" or k == "drop_unlinked" and not linking:
            continue
        out[s, k] = v
    return out


def settings(name, part, parts, every, rec):
    d = scratch()
    survey, base = bases(d)[name]
    base = apply(base, [("INPUT", "size_serial_chunk", "10")])
    if name == "auxiliary":  # the files named there are not to be had
        base = apply(dict({s: kv for s, kv in base.items() if s != "SIMULATION"}), [("INPUT", "ephemerides_type", "external")])
    argv, stub = c18.build(name, survey, base, d)
    o = dict(zip(argv[::2], argv[1::2]))
    sim.write_table(o["-p"], [dict(ObjID="a", H_r=18.0, GS=0.15, G1=0.3, G2=0.2, G12=0.3, S=0.03, **{f + "-r": 0.1 for f in "ugizy"})], ["ObjID", "H_r", "GS", "G1", "G2", "G12", "S"] + [f + "-r" for f in "ugizy"])
    argv += ["--cp", sim.write_table(os.path.join(d, "complex.csv"), [dict(ObjID="a", x=1.0)], ["ObjID", "x"])]
    out, path = os.path.join(d, "out"), os.path.join(d, "c.ini")
    seen = {}
    n = 0
    for e in [None] + list(edits(base, d)):
        cfg = apply(base, [e] if e else [])
        verdict, why = Judge(cfg, survey).run()
        if verdict == "any" or verdict not in ("accept", "refuse"):
            continue
        if verdict == "refuse":
            n += 1
            if n % every or (n // every) % parts != part:
                continue
        elif e is not None and (e[1] == "ephemerides_type" or stub and e[0] == "AUXILIARY" or e[1] == "ar_healpix_order" and int(e[2]) > 12):
            continue  # needs other inputs altogether
        # every part runs all accepted edits of the keys it is given, and the base
        elif e is not None and sum(map(ord, e[1])) % parts != part:
            continue
        with open(path, "w") as f:
            f.write(text(cfg))
        sim.fresh(out)
        obj = dict(kind="settings", base=name, survey=survey, edit=e and [e[0], e[1], str(e[2])], config=text(cfg))
        try:
            code = sim.cli("run", ["-c", path, "-o", out] + argv, env=dict(SORCHA_SEED="3"), stub=stub, log=True)[0]
        except Exception:  # noqa: BLE001  settings whose inputs this run does not have may stop it later; C18 judges them
            code = "traceback"
        log, err = logs(out)
        rec.step()
        rec.state((name, obj["edit"] and tuple(obj["edit"])))
        rec.outcome((name, verdict, code == 0))
        if verdict == "refuse":
            rec.trace()
            if code != 0 and code != "traceback":
                rec.check(isinstance(code, str) and code.strip() and code.strip()[:60] in err and code.strip()[:60] in log, "refusal-not-logged", lambda: "refused with %r, error log: %r" % (code, err[-300:]), obj)
            continue
        if code == 0:
            rec.check(err == "", "error-log", lambda: "a run that succeeds has %r in its error log" % err[:300], obj)
        elif code != "traceback":
            rec.check(err.strip() != "", "refusal-not-logged", lambda: "refused with %r, error log empty" % (code,), obj)
        if code != 0:
            rec.outcome((name, "stopped", e and e[1]))
            continue  # asks for inputs this run does not have (C18 judges whether it should have stopped)
        eff = effective(why)
        echo = {l.strip() for l in text(cfg).splitlines()}  # the log quotes the configuration: what counts is what was understood of it
        rec.check(all(l in normal(log) for l in echo if l), "config-not-quoted", "the configuration is not quoted in the log", obj)
        log = "\n".join(l for l in normal(log) if l not in echo)
        toks = tokens(log)
        rec.trace()
        for (s, k), v in eff.items():
            rec.check(k in WORDS or has(log, toks, v), "not-in-log:%s:%s" % (s, k), lambda: "[%s] %s = %r is not in the log" % (s, k, v), obj)
        key = tuple(log.splitlines())
        for eff2, edit2, lines2 in seen.values():
            diff = [k for k in set(eff) | set(eff2) if not c18.same(eff.get(k), eff2.get(k))]
            if diff:
                rec.check(lines2 != key, "same-log:%s:%s" % sorted(diff)[0], lambda: "the logs of %s and %s are the same, although they differ in %s" % (edit2, obj["edit"], diff), obj)
        seen[len(seen)] = (eff, obj["edit"], key)


def world(d, survey, extra, ephem="external", fmt="csv"):
    des = survey.lower() == "des"
    cfg = sim.base_config("DES" if des else "rubin_sim", filters="r,g", chunk=2, output=fmt)
    if des:
        cfg = cfg.set("FADINGFUNCTION", fading_function_on="False")
    for s, kv in extra.items():
        cfg = cfg.set(s, **kv)
    V = [sim.visit(11 + j, 60000.9 + j // 2 + 0.02 * (j % 2), "rg"[j % 2], rot=20.0 * j) for j in range(8)]
    E = [sim.eph(o, v, ra=10.0 + 0.2 * i - 0.1 * j, dec=-5.0 + 0.15 * j, rng=1.3 + 0.1 * i, dra=0.2 + i, des=des) for i, o in enumerate("abcd") for j, v in enumerate(V)]
    r = sim.Run(d, cfg, survey=survey)
    r.inputs(V, [sim.kep_orbit(o) for o in "abcd"], [sim.phys(o, 18.0 + 1.2 * i, "r", {"g-r": 0.5}) for i, o in enumerate("abcd")], E)
    cfg.write(r.p("config.ini"))
    return r


def argv(r, survey, **kw):
    a = {"-c": r.p("config.ini"), "--ob": r.p("orbits.csv"), "-p": r.p("params.csv"), "--pd": r.p("pointing.db"), "--er": r.p("eph.csv"), "-s": survey, "-t": "out", "-o": r.p("o"), "--st": "stats"}
    a.update({"-" + k if len(k) == 1 else "--" + k: v for k, v in kw.items()})
    return [x for kv in a.items() for x in kv]


RANDOM = {
    "rand": ("rubin_sim", dict(EXPERT=dict(randomization_on="True"))),
    "fill": ("rubin_sim", dict(FOV=dict(camera_model="circle", fill_factor="0.5"))),
    "fade": ("rubin_sim", dict(FADINGFUNCTION=dict(fading_function_on="True", fading_function_width="0.2", fading_function_peak_efficiency="0.6"))),
    "all": ("rubin_sim", dict(EXPERT=dict(randomization_on="True", trailing_losses_on="True"), FOV=dict(camera_model="circle", fill_factor="0.7"), FADINGFUNCTION=dict(fading_function_on="True", fading_function_width="0.2", fading_function_peak_efficiency="0.8"))),
    "des": ("DES", dict(FADINGFUNCTION=dict(fading_function_on="True", des_transient_efficency="0.6"))),
}
SEEDS = (0, 1, 52, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 10**12)


def results(out):
    return {n: b for n, b in sim.snapshot(out).items() if not n.endswith((".log", ".err"))}


def go(r, survey, rec, obj, env, extra=(), **kw):
    out = sim.fresh(r.p("o"))
    code, _ = sim.cli("run", argv(r, survey, **kw) + list(extra), env=env, log=True)
    log, err = logs(out)
    rec.step()
    rec.check(code == 0 and err == "", "run-failed", lambda: "%s: exit %r, error log %r" % (obj, code, err[:200]), obj)
    return results(out), log


def seeds(name, n_seeds, n_free, rec):
    survey, extra = RANDOM[name]
    r = world(os.path.join(os.getcwd(), "run"), survey, extra)
    outs = {}
    more = [7919 * k + 3 for k in range(max(0, n_seeds - len(SEEDS)))]
    for s in list(SEEDS) + more:
        obj = dict(kind="seeds", name=name, seed=s)
        a, log = go(r, survey, rec, obj, dict(SORCHA_SEED=str(s)))
        b, _ = go(r, survey, rec, obj, dict(SORCHA_SEED=str(s)))
        rec.trace()
        rec.state((name, s))
        rec.check(a == b, "seed-repeat", "seed %s: two runs differ" % s, obj)
        rec.check(str(s) in tokens(log) or any(str(s) in t for t in tokens(log) if "SEED" in t), "seed-not-in-log", "the seed %s is not in the log" % s, obj)
        outs[s] = a
    rec.check(len({str(sorted(v.items())) for v in outs.values()}) > len(outs) // 2, "seed-without-effect", "the seed has no effect: %d seeds, %d results" % (len(outs), len({str(sorted(v.items())) for v in outs.values()})), dict(kind="seeds", name=name))
    free = []
    for k in range(n_free):
        obj = dict(kind="free", name=name, k=k)
        a, log = go(r, survey, rec, obj, {})
        free.append(a)
        cand = []
        for l in normal(log):
            if "seed" in l.lower():
                cand += [x for x in re.findall(r"\d+", l) if x not in cand]
        ok = False
        for c in cand[:6]:
            b, _ = go(r, survey, rec, obj, dict(SORCHA_SEED=c))
            if b == a:
                ok = True
                break
        rec.trace()
        rec.state((name, "free", k))
        rec.check(ok, "seed-of-log", "no seed in the log of an unseeded run repeats it (candidates %s)" % cand[:6], obj)
    rec.outcome((name, len(free)))


SETS = {
    "plain": {},
    "random": dict(EXPERT=dict(randomization_on="True", trailing_losses_on="True", vignetting_on="True"), FADINGFUNCTION=dict(fading_function_on="True", fading_function_width="0.2", fading_function_peak_efficiency="0.8")),
    "camera": dict(FOV=dict(camera_model="footprint")),
    "circle": dict(FOV=dict(camera_model="circle", circle_radius="1.2", fill_factor="0.8")),
    "cuts": dict(EXPERT=dict(mag_limit="22.5"), SATURATION=dict(bright_limit="19.0,19.3")),
    "linking": dict(LINKINGFILTER=dict(sim.LINKING, drop_unlinked="False")),
}
DES_SETS = {
    "plain": {},
    "camera": dict(FOV=dict(camera_model="footprint")),
    "cuts": dict(EXPERT=dict(mag_limit="22.5"), SATURATION=dict(bright_limit="19.0,19.3"), LINKINGFILTER=dict(motion_cut_lower="0.0", motion_cut_upper="3.0")),
    "fade": dict(FADINGFUNCTION=dict(fading_function_on="True", des_transient_efficency="0.8")),
}


def switches(survey, name, fmt, rec):
    r = world(os.path.join(os.getcwd(), "run"), survey, (SETS if survey != "DES" else DES_SETS)[name], fmt=fmt)
    env = dict(SORCHA_SEED="11")
    base, log0 = go(r, survey, rec, dict(kind="switches", name=name), env)
    rec.check(bool(base), "switch-empty", "no results", dict(name=name))
    cwd = os.getcwd()
    for verbose, how in itertools.product((False, True), ("same", "stem", "dir", "relative", "force")):
        obj = dict(kind="switches", survey=survey, name=name, fmt=fmt, verbose=verbose, how=how)
        extra = ["-l"] if verbose else []
        kw = {}
        if how == "stem":
            kw["t"] = "other-name"
        if how == "force":
            extra = extra + ["-f"]
        if how == "dir":
            kw["o"] = sim.fresh(r.p("another place"))
        if how == "relative":
            os.chdir(r.d)
            kw = {"c": "config.ini", "ob": "./orbits.csv", "p": "params.csv", "pd": "pointing.db", "er": "eph.csv", "o": "./o"}
        try:
            got, log = go(r, survey, rec, obj, env, extra, **kw)
        finally:
            os.chdir(cwd)
        if how == "dir":
            got = results(kw["o"])
            log = logs(kw["o"])[0]
        got = {n.replace("other-name", "out"): b for n, b in got.items()}
        rec.trace()
        rec.state((survey, name, fmt, verbose, how))
        if fmt == "hdf5":  # the files carry the time they were made
            import pandas as pd

            same = set(got) == set(base)
            if same:
                def table():
                    out = kw.get("o", r.p("o"))
                    out = os.path.join(r.d, out) if not os.path.isabs(out) else out
                    return pd.read_hdf(os.path.join(out, kw.get("t", "out") + ".h5"))
                t = table()
                if not hasattr(switches, "ref") or switches.ref[0] != (survey, name):
                    switches.ref = ((survey, name), t)
                same = t.equals(switches.ref[1])
        else:
            same = got == base
        rec.check(same, "switch-changes-results", lambda: "%s: results differ: %s" % (obj, [n for n in set(got) | set(base) if got.get(n) != base.get(n)]), obj)
        if verbose and how == "same":
            n0, n1 = normal(log0), normal(log)
            lost = [l for l in n0 if l not in n1 and "loglevel" not in l]
            rec.check(not lost and len(n1) > len(n0), "verbose-loses-lines", lambda: "%s: the log with -l has %d lines, without %d; missing with -l: %s" % (obj, len(n1), len(n0), lost[:3]), obj)
        rec.outcome((survey, name, verbose, how, same))


def shards(tier):
    q = tier == "quick"
    names = ["circle", "footprint", "nocamera", "auxiliary", "desvisits", "desplain", "desnone"]
    for n in names:
        for p in range(3):
            yield ("settings", n, p, 3, 3 if q else 1)
    for n in RANDOM:
        yield ("seeds", n, 8 if q else 40, 2 if q else 10)
    for s in ("rubin_sim", "DES"):
        for n in (SETS if s != "DES" else DES_SETS):
            for f in ("csv", "sqlite3", "hdf5"):
                yield ("switches", s, n, f)


def warm():
    import sorcha.des  # noqa: F401
    import sorcha.sorcha  # noqa: F401
    import sorcha_cmdline.run  # noqa: F401


def run(shard, rec):
    {"settings": settings, "seeds": seeds, "switches": switches}[shard[0]](*shard[1:], rec)


_ = (AUXFILE, arstub)
