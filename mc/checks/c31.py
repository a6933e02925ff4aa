"""C31: Runs side by side do not disturb each other."""
import contextlib
import itertools
import json
import os
import re
import shutil
import sys

from mc import arstub, sim
from mc.checks.c16 import content

PID = "C31"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of interleavings of two real runs at their file operations (every point of the first run at which the second runs from start to end, and pairs of switching points), with partial-order reduction: the recorded access sets of the runs show the remaining interleavings equivalent"
NOTE = (
    "Two complete runs are started through the command line, in processes of their own, in the same directory with the same inputs, the same cache and the same output directory, with different output names. The first is held at its n-th file operation (opening, listing, "
    "removing, renaming, connecting to a database, as Python's audit events report them), the second runs to its end or to its m-th operation, then the first goes on; for every n. Each run must leave the results, log and error log that it leaves alone, and everything else "
    "(inputs, cache, files of others, earlier outputs) must be as it was, with nothing left behind in the working, home or temporary directory. Every file that a run writes is shown to be its own: no other run reads or writes it, hence the interleavings not run lead to the same files. "
    "Names of which one is the other with a dot and more after it, and the same name twice, are left out: --force means to replace them."
)
BOUND = {
    "quick": "10 runs (3 output formats, generated ephemerides saved in 3 formats and read, both surveys, visits database, complex parameters, --force over earlier outputs, refusals early and late), all 100 ordered pairs with 7 pairs of names in turn; the second run at every 1st to 3rd file operation of the first; two-point schedules of 8 pairs on a grid; a cold cache at every operation",
    "thorough": "every file operation of every pair; two-point schedules of every pair on a grid of 12 x 12; all pairs of names",
}
ASSUMPTIONS = ["runs share nothing but the file system: code between two file operations has no effect that another process sees"]

VQ = "SELECT llcra, llcdec, lrcra, lrcdec, urcra, urcdec, ulcra, ulcdec, ra_centre, dec_centre, detectorID, magLim as limMag_perChip FROM observations WHERE visitId = ?"
# run -> (survey, ephemerides, format of outputs and saved ephemerides, settings, save ephemerides, statistics, arguments)
RUNS = {
    "csv": ("rubin_sim", "external", "csv", {}, False, True, ()),
    "sqlite": ("rubin_sim", "external", "sqlite3", dict(EXPERT=dict(randomization_on="True", trailing_losses_on="True")), False, False, ()),
    "hdf5": ("rubin_sim", "external", "hdf5", dict(LINKINGFILTER=dict(sim.LINKING, drop_unlinked="False")), False, True, ("-l",)),
    "ar": ("rubin_sim", "ar", "csv", dict(FADINGFUNCTION=dict(fading_function_on="True", fading_function_width="0.1", fading_function_peak_efficiency="0.8")), True, True, ()),
    "arsql": ("rubin_sim", "ar", "sqlite3", dict(FOV=dict(camera_model="circle", circle_radius="1.5")), True, False, ("-l",)),
    "des": ("DES", "external", "csv", dict(FADINGFUNCTION=dict(fading_function_on="False"), LINKINGFILTER=dict(distance_cut_lower="1.0", distance_cut_upper="9.0")), False, True, ()),
    "visits": ("DES", "external", "sqlite3", dict(FADINGFUNCTION=dict(fading_function_on="False"), FOV=dict(camera_model="visits_footprint", visits_query=VQ)), False, True, ("-f",)),
    "force": ("rubin_sim", "ar", "csv", dict(FOV=dict(camera_model="footprint")), True, True, ("-f",)),
    "late": ("rubin_sim", "external", "csv", {}, False, True, ("LATE",)),  # refused on its second chunk
    "early": ("rubin_sim", "external", "csv", {}, False, True, ("EARLY",)),  # refused: outputs are there
}
NAMES = (("run", "run2"), ("run2", "run"), ("out", "Out"), ("a*", "ab"), ("res-1", "res"), ("o[12]", "o1"), ("sorcha", "run-sorcha"))
LOG = re.compile(r"\.(log|err)$")
STAMP = re.compile(r"\d{4}-\d\d-\d\d[ -]\d\d[:-]\d\d[:-]\d\d(,\d+)?(-p\d+)?")


def cfg_of(name):
    survey, ephem, fmt, extra = RUNS[name][:4]
    c = sim.base_config(survey, filters="r,g", chunk=2, output=fmt, ephem=ephem)
    for s, kv in extra.items():
        c = c.set(s, **kv)
    return c


def world(d):
    """One directory with everything that the runs share."""
    sim.fresh(d)
    for k in ("o", "tmp", "home", "cwd"):
        os.makedirs(os.path.join(d, k))
    V = [sim.visit(11 + j, 60000.9 + j // 2 + 0.02 * (j % 2), "rg"[j % 2], ra=150.0, dec=8.0, rot=20.0 * j) for j in range(6)]
    ids = "abc"
    sim.write_pointing(os.path.join(d, "pointing.db"), V)
    orb = [arstub.bcart_orbit(o, *arstub.place(150.0 + 0.3 * i, 8.0 - 0.2 * i, 2.0 + i, V[0]["observationStartMJD"] + 2400000.5 - arstub.JD_REF, 0.05, 0.02), 60000.9) for i, o in enumerate(ids)]
    sim.write_table(os.path.join(d, "orbits.csv"), orb, arstub.BCART_COLS)
    P = [sim.phys(o, 17.0 + i, "r", {"g-r": 0.5}) for i, o in enumerate(ids)]
    sim.write_table(os.path.join(d, "params.csv"), P, list(P[0]))
    sim.write_table(os.path.join(d, "short.csv"), P[:-1], list(P[0]))
    X = [dict(ObjID=o, amp=0.1 * i) for i, o in enumerate(ids)]
    sim.write_table(os.path.join(d, "complex.csv"), X, list(X[0]))
    for des in (False, True):
        E = [sim.eph(o, v, ra=150.0 + 0.2 * i - 0.1 * j, dec=8.0 + 0.15 * j, rng=1.3 + 0.1 * i, dra=0.2 + i, des=des) for i, o in enumerate(ids) for j, v in enumerate(V)]
        sim.write_eph(os.path.join(d, "eph%d.csv" % des), E)
    late = [sim.eph(o, v, ra=150.0, dec=8.0) for o in ids for v in V]
    for e in late[-2:]:
        e["fieldMJD_TAI"] += 0.5  # not the time of the visit: noticed with the last object
    sim.write_eph(os.path.join(d, "late.csv"), late)
    sim.write_visits(os.path.join(d, "visits.db"), [(v["observationId"], k, 23.5, [(149.0 + k, 6.0), (149.9 + k, 6.0), (149.9 + k, 10.0), (149.0 + k, 10.0)]) for v in V for k in range(2)])
    arstub.fill_cache(os.path.join(d, "cache"))
    for n in RUNS:
        cfg_of(n).write(os.path.join(d, n + ".ini"))


def argv(d, name, stem):
    survey, ephem, fmt, extra, save, stats, more = RUNS[name]
    p = lambda n: os.path.join(d, n)
    a = ["-c", p(name + ".ini"), "--ob", p("orbits.csv"), "-p", p("params.csv"), "--pd", p("pointing.db"), "-s", survey, "-t", stem, "-o", p("o"), "--cp", p("complex.csv")]
    if ephem == "external":
        a += ["--er", p("late.csv" if "LATE" in more else "eph%d.csv" % (survey == "DES"))]
    else:
        a += ["--ar", p("cache")]
    if save:
        a += ["--ew", stem + "-eph"]
    if stats:
        a += ["--st", stem + "-stats"]
    if name == "visits":
        a += ["--vd", p("visits.db")]
    return a + [x for x in more if x.startswith("-")]


def earlier(d, name, stem):
    """What is there before the run."""
    if name in ("force", "early"):
        for n in (stem + ".csv", stem + "-stats.csv", stem + "-eph.csv")[: 3 if name == "force" else 1]:
            with open(os.path.join(d, "o", n), "w") as f:
                f.write("earlier\n")


def start(d, name, stem):
    """Runs in this process. Returns what it said and the kernel lists it loaded."""
    kernels = []
    inst = arstub.installed

    @contextlib.contextmanager
    def installed():
        import spiceypy

        with inst():
            spiceypy.furnsh = lambda p, *a: kernels.append(open(p).read() if isinstance(p, str) else str(p))
            yield

    arstub.installed = installed
    os.chdir(os.path.join(d, "cwd"))
    import tempfile

    tempfile.tempdir = None
    code, text = sim.cli("run", argv(d, name, stem), env=dict(SORCHA_SEED="5", HOME=os.path.join(d, "home"), TMPDIR=os.path.join(d, "tmp")), stub=RUNS[name][1] == "ar", log=True)
    arstub.installed = inst
    return dict(code=STAMP.sub("", str(code)), kernels=kernels)


WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def hook(d, visit):
    """visit(operation, path, writes) at every file operation below d (in this process, for good)."""
    root = os.path.realpath(d) + os.sep
    busy = [False]

    def on(event, args):
        if busy[0]:
            return
        if event == "open":
            path, mode, flags = args
            w = bool(mode and set(mode) & set("wax+")) or bool(isinstance(flags, int) and flags & WRITING and not mode)
            paths = [(path, w)]
        elif event == "sqlite3.connect":
            p = args[0] if isinstance(args[0], str) else os.fsdecode(args[0])
            paths = [(re.sub(r"^file:|\?.*$", "", p), not p.endswith("?mode=ro"))]
        elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.utime"):
            paths = [(args[0], True)]
        elif event in ("os.rename", "os.link", "os.symlink", "shutil.copyfile", "shutil.move"):
            paths = [(args[0], event == "os.rename"), (args[1], True)]
        elif event in ("os.listdir", "os.scandir", "glob.glob"):
            paths = [(args[0], False)]
        elif event == "mc.hdf":
            paths = [(args[0], args[1])]
        else:
            return
        hit = []
        for p, w in paths:
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if not isinstance(p, (str, os.PathLike)) or p is None:
                continue
            p = os.path.abspath(p)
            if p.startswith(root):
                hit.append((p[len(root):], bool(w)))
        if hit:
            busy[0] = True
            try:
                visit(event, hit)
            finally:
                busy[0] = False

    import pandas.io.pytables as pt

    old = pt.HDFStore.open

    def opened(self, mode="a", **kw):  # files that the C library opens
        sys.audit("mc.hdf", self._path, mode != "r")
        return old(self, mode, **kw)

    pt.HDFStore.open = opened
    sys.addaudithook(on)


def child(work):
    """Runs work() in a process of its own; returns (pid, pipe with its result)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 1
    try:
        os.close(r)
        out = work()
        with os.fdopen(w, "w") as f:
            json.dump(out, f)
        code = 0
    except BaseException as e:  # noqa: BLE001
        try:
            with os.fdopen(w, "w") as f:
                json.dump(dict(code="exception %s: %s" % (type(e).__name__, STAMP.sub("", str(e))), kernels=[], ops=[]), f)
        except BaseException:  # noqa: BLE001
            pass
    finally:
        os._exit(code)


def result(pid, r):
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text) if text else dict(code="died", kernels=[], ops=[])


def together(d, A, B, n, m=None):
    """Runs A up to its n-th file operation, B up to its m-th (or its end), A to its end, B to its end. n None: A alone."""
    (an, astem), (bn, bstem) = A, B or (None, None)
    if n is None:
        def alone():
            ops = []
            hook(d, lambda e, hit: ops.append([e, hit]))
            out = start(d, an, astem)
            return dict(out, ops=ops)

        return result(*child(alone)), None
    pipes = [os.pipe() for _ in range(3)]  # go, yield, resume
    (gr, gw), (yr, yw), (rr, rw) = pipes

    def second():
        for x in (gw, yr, rw):
            os.close(x)
        if os.read(gr, 1) != b"g":
            return dict(code="not started", kernels=[])
        k = [0]

        def visit(e, hit):
            k[0] += 1
            if k[0] == m:
                os.write(yw, b"y")
                os.read(rr, 1)

        if m is not None:
            hook(d, visit)
        out = start(d, bn, bstem)
        if m is None or k[0] < m:
            os.write(yw, b"y")
        return out

    def first():
        for x in (gr, yw, rr):
            os.close(x)
        k = [0]

        def visit(e, hit):
            k[0] += 1
            if k[0] == n:
                os.write(gw, b"g")
                os.read(yr, 1)

        hook(d, visit)
        out = start(d, an, astem)
        if k[0] < n:
            os.write(gw, b"g")
            os.read(yr, 1)
        try:
            os.write(rw, b"r")
        except BrokenPipeError:  # the second has ended
            pass
        return out

    b = child(second)
    a = child(first)
    for p in pipes:
        for x in p:
            os.close(x)
    ra = result(*a)
    return ra, result(*b)


def mine(stem, n):
    """Is the file n of the output directory one of the run's own?"""
    return re.fullmatch(re.escape(stem) + r"(-stats|-eph)?\.(csv|db|h5)", n) is not None or (
        n.startswith(stem + "-") and LOG.search(n) is not None and STAMP.match(n[len(stem) + 1:]) is not None)


def outputs(d, stem):
    """Contents of the files of the run; logs without the times."""
    o = os.path.join(d, "o")
    out = {}
    for n in sorted(os.listdir(o)):
        if not mine(stem, n):
            continue
        if LOG.search(n):
            key = STAMP.sub("", n)
            lines = [STAMP.sub("", l) for l in open(os.path.join(o, n), errors="replace").read().splitlines()]
            out.setdefault(key, []).append(lines)
        else:
            out[n] = content(o, n)
    return out


def rest(d, stems):
    """Everything that belongs to neither: content, and when it was changed."""
    out = {}
    for dp, dn, fn in os.walk(d):
        for f in fn:
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, d)
            if os.path.dirname(rel) == "o" and any(mine(s, f) for s in stems):
                continue
            out[rel] = (open(p, "rb").read(), os.stat(p).st_mtime_ns)
        for f in dn:
            out[os.path.relpath(os.path.join(dp, f), d) + "/"] = None
    return out


def explain(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return "%s is %s" % (k, "missing" if k not in b else "there")
        if a[k] != b[k]:
            return "%s: %s instead of %s" % (k, str(b[k])[:300], str(a[k])[:300])
    return None


def clear(d, pairs, cold=False):
    sim.fresh(os.path.join(d, "o"))
    if cold:
        k = os.path.join(d, "cache", "meta_kernel.txt")
        if os.path.exists(k):
            os.remove(k)
    for n, s in pairs:
        earlier(d, n, s)
    with open(os.path.join(d, "o", "other.csv"), "w") as f:
        f.write("of someone else\n")


SOLO = {}


def solo(d, run, cold=False):
    if (run, cold) not in SOLO:
        clear(d, [run], cold)
        before = rest(d, [run[1]])
        r, _ = together(d, run, None, None)
        after = rest(d, [run[1]])
        SOLO[(run, cold)] = (r, outputs(d, run[1]), before, after)
    return SOLO[(run, cold)]


def prepare():
    d = os.path.realpath(os.path.join(os.getcwd(), "w"))
    world(d)
    SOLO.clear()
    return d


def kernel_made(before, after):
    """A run with a cold cache writes the list of kernels."""
    return {k for k in set(after) - set(before)} == {"cache/meta_kernel.txt"} and all(after[k] == before[k] for k in before)


def case(d, A, B, n, m, cold, rec):
    obj = dict(a=A, b=B, n=n, m=m, cold=cold)
    sa, sb = solo(d, A, cold), solo(d, B, cold)
    clear(d, [A, B], cold)
    before = rest(d, [A[1], B[1]])
    ra, rb = together(d, A, B, n, m)
    rec.step(2)
    rec.trace()
    op = sa[0]["ops"][n - 1] if 0 < n <= len(sa[0]["ops"]) else ["end", []]
    rec.state((A, B, n, m, cold))
    rec.outcome((A[0], B[0], op[0], op[1] and os.path.splitext(op[1][0][0])[1], ra["code"] == "0", rb["code"] == "0"))
    where = lambda: "%s held at %s %s, %s" % (A, op[0], [p for p, _ in op[1]], "%s runs" % (B,) if m is None else "%s runs to operation %d" % (B, m))
    for who, run, got, alone in (("first", A, ra, sa), ("second", B, rb, sb)):
        rec.check(got["code"] == alone[0]["code"] and got["kernels"] == alone[0]["kernels"], "%s-ended-otherwise:%s" % (who, run[0]), lambda: "%s: %s ends with %r instead of %r" % (where(), run, got["code"], alone[0]["code"]), obj)
        diff = explain(alone[1], outputs(d, run[1]))
        rec.check(diff is None, "%s-differs:%s" % (who, run[0]), lambda: "%s: results of %s: %s" % (where(), run, diff), obj)
    after = rest(d, [A[1], B[1]])
    if cold and "cache/meta_kernel.txt" in after:
        rec.check(kernel_made(before, after), "others-changed", lambda: "%s: %s" % (where(), explain(before, after)), obj)
        return
    rec.check(before == after, "others-changed", lambda: "%s: %s" % (where(), explain(before, after)), obj)
    if before != after:
        world(d)
        warm_cache(d)


def alone(d, name, stem, rec):
    """A run by itself: everything it writes is its own; nothing else changes."""
    run = (name, stem)
    r, out, before, after = solo(d, run)
    obj = dict(a=run, b=None, n=None, m=None, cold=False)
    rec.step()
    rec.state(("alone", name, stem))
    wanted = "0" if name not in ("late", "early") else None
    rec.outcome(("alone", name, r["code"][:60], tuple(sorted(out)), len(r["ops"])))
    rec.check(bool(out), "alone:%s" % name, "the run leaves nothing", obj)
    rec.check(r["code"] == wanted if wanted else r["code"] != "0" and not r["code"].startswith("exception"), "alone:%s" % name, "the run ends with %r" % r["code"], obj)
    rec.check(before == after, "alone-changes:%s" % name, lambda: "%s changes what is not its own: %s" % (run, explain(before, after)), obj)
    for e, hit in r["ops"]:
        for p, w in hit:
            if not w or p == "o":
                continue
            own = os.path.dirname(p) == "o" and mine(stem, os.path.basename(re.sub(r"(-journal|-wal|-shm)$", "", p)))
            if not own and e == "sqlite3.connect" and before.get(p) is not None and before.get(p) == after.get(p):
                continue  # opened so that it could be written, and not written
            tmp = p.startswith("tmp/")  # temporary files with names of their own are fine while they are removed
            rec.check(own or tmp, "writes-others:%s" % name, lambda: "%s: %s of %s, which is not its own" % (run, e, p), obj)


def warm_cache(d):
    clear(d, [])
    together(d, ("ar", "warm"), None, None)
    sim.fresh(os.path.join(d, "o"))


def pairs():
    k = 0
    for a, b in itertools.product(RUNS, repeat=2):
        yield a, b, k
        k += 1


GRID = [("csv", "csv"), ("sqlite", "sqlite"), ("hdf5", "hdf5"), ("ar", "force"), ("arsql", "ar"), ("des", "csv"), ("visits", "visits"), ("force", "early")]


def shards(tier):
    q = tier == "quick"
    out = []
    for a, b, k in pairs():
        for j in ([k % len(NAMES)] if q else range(len(NAMES))):
            out.append(["pair", a, b, j, 1 + (k * 5 + k // 10) % 3 if q else 1])
    for a, b in GRID if q else itertools.product(RUNS, repeat=2):
        out.append(["grid", a, b, 0, 5 if q else 12])
    for a, b in (("ar", "ar"), ("ar", "arsql"), ("force", "ar")):
        out.append(["cold", a, b, 0, 1])
    for a in RUNS:
        out.append(["alone", a, None, None, None])
    return out


def run(shard, rec):
    kind, a, b, j, step = shard
    d = prepare()
    try:
        if kind != "cold":
            warm_cache(d)
        if kind == "alone":
            for stem in sorted({s for p in NAMES for s in p}):
                alone(d, a, stem, rec)
            return
        A, B = (a, NAMES[j][0]), (b, NAMES[j][1])
        total = len(solo(d, A, kind == "cold")[0]["ops"])
        rec.sample(dict(first=A, second=B, operations=total))
        if kind == "grid":
            other = len(solo(d, B)[0]["ops"])
            ns = sorted({1 + i * (total - 1) // (step - 1) for i in range(step)})
            ms = sorted({1 + i * (other - 1) // (step - 1) for i in range(step)})
            for n, m in itertools.product(ns, ms):
                case(d, A, B, n, m, False, rec)
        else:
            first = 1 + (j * 7 + len(a)) % step
            for n in range(first, total + 2, step):
                case(d, A, B, n, None, kind == "cold", rec)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(v, rec):
    o = v["obj"]
    d = prepare()
    if not o["cold"]:
        warm_cache(d)
    if o["b"] is None:
        alone(d, o["a"][0], o["a"][1], rec)
    else:
        case(d, tuple(o["a"]), tuple(o["b"]), o["n"], o["m"], o["cold"], rec)


def warm():
    import sorcha.des  # noqa: F401
    import sorcha.sorcha  # noqa: F401
    import sorcha_cmdline.run  # noqa: F401
    import tables  # noqa: F401
