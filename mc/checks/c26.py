"""C26: Interrupted set-up of auxiliary files never leaves a broken cache."""
import concurrent.futures
import contextlib
import gzip
import io
import itertools
import json
import os
import resource
import shutil
import types

from mc import arstub, sim
from mc.checks import c24

PID = "C26"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive fault injection into the set-up of the auxiliary files: a failure or kill at every executed line and at every download from every kind of prior cache, every subset of files already present, another set-up at every point of one, followed by further set-ups judged by loading the kernel list with SPICE itself"
RULE = "distinct (prior cache, set-up, fault, how the later set-up ended) combinations"
NOTE = (
    "The two ways to set up the files, sorcha bootstrap (with and without --force) and the start of a run (ephemeris object, kernels, observatories), run on a scratch cache with a stand-in for the network that serves small files, and fails, breaks off or stops the process where told to. "
    "After each history the kernel list that a successful set-up leaves is loaded with the real SPICE library: it has to hold every configured kernel once, from the cache, with the more precise Earth orientation after the others. "
    "Files already there (with contents that differ from the server's) have to be unchanged unless --force is given. The parallel downloads of bootstrap run in a fixed order (one shard uses the real pool)."
)
BOUND = {
    "quick": "all 2^12 subsets of files present x 2 set-ups; faults of 2 kinds at every line and 6 kinds at every download of 3 set-ups from 4 caches, followed by 2 set-ups; kernel list writes of every length; a second set-up at every line of a first; directory names of 20 to 200 characters",
    "thorough": "the same with 4 kinds of fault at every line from 8 caches, pairs of faults (fault during the repairing set-up), every size limit",
}
ASSUMPTIONS = ["renaming a file within a directory is atomic", "pooch moves a download into place only when it is complete"]

TEXT = "KPL/LSK\n\\begindata\n%s = ( 1 )\n\\begintext\n"


def aux(variant="default"):
    from sorcha.utilities.sorchaConfigs import auxiliaryConfigs

    if variant == "default":
        return auxiliaryConfigs()
    return auxiliaryConfigs(
        planet_ephemeris="de999 x.bsp", planet_ephemeris_url="https://example.org/de999.bsp",
        earth_high_precision="eh.bpc", earth_high_precision_url="https://example.org/eh.bpc",
        meta_kernel="my_kernel.txt",
    )


KERNELS = ("leap_seconds", "earth_historical", "earth_predict", "orientation_constants", "planet_ephemeris", "earth_high_precision")
OTHERS = ("jpl_planets", "jpl_small_bodies", "observatory_codes_compressed")


def server(a):
    """What the network serves: url -> bytes."""
    out = {}
    for n in KERNELS:
        out[getattr(a, n + "_url")] = (TEXT % ("SERVER_" + n.upper())).encode()
    out[a.jpl_planets_url] = b"planets from the server"
    out[a.jpl_small_bodies_url] = b"small bodies from the server"
    out[a.observatory_codes_compressed_url] = gzip.compress(json.dumps(arstub.OBS).encode(), mtime=0)
    return out


class Stop(Exception):
    pass


class Net:
    """The network: what fails, when. down: urls that cannot be reached; fault: (number of the download, kind)."""

    def __init__(self, files, down=(), fault=None, hook=None):
        self.files, self.down, self.fault, self.n, self.hook = files, set(down), fault, 0, hook

    def choose(self, url, progressbar=False):
        if not isinstance(url, str) or not url.startswith(("http://", "https://")):
            raise ValueError("Unrecognized URL protocol in %r" % url)
        return self.get

    def get(self, url, output_file, pooch, check_only=False):
        import requests.exceptions as rq

        if check_only:
            return url not in self.down
        self.n += 1
        k = self.fault[1] if self.fault and self.fault[0] == self.n else None
        data = self.files.get(url)
        if url in self.down or k == "refused" or data is None:
            raise rq.ConnectionError("cannot reach %s" % url)
        f = open(output_file, "wb") if isinstance(output_file, (str, os.PathLike)) else output_file
        if k in ("cut", "cutkill", "full", "interrupt"):
            f.write(data[: len(data) // 2])
            f.flush()
            if k == "cut":
                raise rq.ConnectionError("broken off")
            if k == "full":
                raise OSError(28, "No space left on device")
            if k == "interrupt":
                raise KeyboardInterrupt()
            os._exit(c24.KILLED)
        f.write(data)
        if f is not output_file:
            f.close()
        if k == "late":
            os._exit(c24.KILLED)


class Pool:
    """The thread pool of bootstrap, one download after the other."""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def submit(self, f, *a, **k):
        fut = concurrent.futures.Future()
        try:
            fut.set_result(f(*a, **k))
        except BaseException as e:  # noqa: BLE001
            fut.set_exception(e)
        return fut

    def map(self, f, *its, **k):
        futs = [self.submit(f, *x) for x in zip(*its)]
        return (x.result() for x in futs)

    def shutdown(self, *a, **k):
        pass


class FakeEphem:
    jd_ref = arstub.JD_REF

    def __init__(self, planets_path=None, asteroids_path=None):
        for p in (planets_path, asteroids_path):
            with open(p, "rb") as f:
                f.read()

    def get_particle(self, *a):
        return types.SimpleNamespace(m=1.0, x=0, y=0, z=0, vx=0, vy=0, vz=0)


@contextlib.contextmanager
def world(net, pool=True):
    import pooch.core
    import sorcha.ephemeris.simulation_setup as ss
    import time as real

    old = pooch.core.choose_downloader, pooch.core.time, concurrent.futures.ThreadPoolExecutor, ss.Ephem
    pooch.core.choose_downloader = net.choose
    pooch.core.time = types.SimpleNamespace(sleep=lambda s: None, time=real.time)
    if pool:
        concurrent.futures.ThreadPoolExecutor = Pool
    ss.Ephem = FakeEphem
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        pooch.core.choose_downloader, pooch.core.time, concurrent.futures.ThreadPoolExecutor, ss.Ephem = old


def setup(op, cache, a):
    """One set-up: 'boot', 'force' or 'run'."""
    import spiceypy as spice

    if op in ("boot", "force"):
        from sorcha_cmdline.bootstrap import execute

        execute(types.SimpleNamespace(cache=cache, force=op == "force"))
        return
    from sorcha.ephemeris.simulation_parsing import Observatory
    from sorcha.ephemeris.simulation_setup import create_assist_ephemeris, furnish_spiceypy

    args = types.SimpleNamespace(ar_data_file_path=cache)
    spice.kclear()
    create_assist_ephemeris(args, a)
    furnish_spiceypy(args, a)
    Observatory(args, a)


def attempt(op, cache, a, net, pool=True):
    """(ended well?, what it ended with)"""
    try:
        with world(net, pool):
            setup(op, cache, a)
    except SystemExit as e:
        return e.code in (0, None), "exit %s" % e.code
    except KeyboardInterrupt:
        return False, "interrupt"
    except Exception as e:  # noqa: BLE001
        return False, type(e).__name__
    return True, "ok"


def loaded(cache, a):
    """What SPICE loads by way of the kernel list: the files, or the message of the error."""
    import spiceypy as spice

    spice.kclear()
    try:
        spice.furnsh(os.path.join(cache, a.meta_kernel))
        n = spice.ktotal("ALL")
        out = [spice.kdata(i, "ALL", 400, 400, 400) for i in range(n)]
        return [x[0] for x in out if x[1] != "META"]
    except Exception as e:  # noqa: BLE001
        return "%s" % str(e).split("\n")[-1][:200]
    finally:
        spice.kclear()


def complete(cache, a):
    """Is the kernel list complete, in order, and are all of its files there? None, or what is wrong."""
    got = loaded(cache, a)
    if isinstance(got, str):
        return "SPICE does not load the list: " + got
    want = {os.path.realpath(os.path.join(cache, getattr(a, n))): n for n in KERNELS}
    have = [want.get(os.path.realpath(g), g) for g in got]
    if sorted(have) != sorted(KERNELS):
        return "the list names %s" % have
    if any(have.index("earth_high_precision") < have.index(x) for x in ("earth_historical", "earth_predict")):
        return "the order is %s" % have
    return None


def files(cache):
    return {k: v for k, v in sim.snapshot(cache).items()} if os.path.isdir(cache) else {}


def local(a, n):
    """A file that was there before, differing from that on the server."""
    if n in KERNELS:
        return (TEXT % ("LOCAL_" + n.upper())).encode()
    if n == "observatory_codes_compressed":
        return gzip.compress(json.dumps(dict(arstub.OBS, LOC={"Longitude": 1.0, "cos": 1.0, "sin": 0.0})).encode(), mtime=0)
    if n == "observatory_codes":
        return json.dumps(dict(arstub.OBS, JSN={"Longitude": 1.0, "cos": 1.0, "sin": 0.0})).encode()
    return ("local " + n).encode()


def meta_text(cache, a):
    """A proper kernel list, as made by an undisturbed set-up, and the mark of one that was there before."""
    return open(META[0]).read().replace(META[1], cache).encode() + OLD


OLD = b"\na list from before\n"


def left(cache, a):
    """The files from before that are still there."""
    out = []
    for n in ALL:
        p = os.path.join(cache, getattr(a, n))
        if os.path.exists(p) and open(p, "rb").read() == local(a, n):
            out.append(getattr(a, n))
    p = os.path.join(cache, a.meta_kernel)
    if os.path.exists(p) and open(p, "rb").read().endswith(OLD):
        out.append(a.meta_kernel)
    return out


META = []


def prime(a):
    """Makes an undisturbed set-up once, whose kernel list serves as the prior one."""
    d = os.path.abspath("prime")
    sim.fresh(d)
    ok, text = attempt("run", d, a, Net(server(a)))
    if not ok:
        raise AssertionError("undisturbed set-up failed: " + text)
    META[:] = [os.path.join(d, a.meta_kernel), d]


def fill(cache, a, names, meta=True):
    shutil.rmtree(cache, ignore_errors=True)
    os.makedirs(cache)
    for n in names:
        with open(os.path.join(cache, getattr(a, n)), "wb") as f:
            f.write(local(a, n))
    if meta:
        with open(os.path.join(cache, a.meta_kernel), "wb") as f:
            f.write(meta_text(cache, a))


ALL = KERNELS + OTHERS + ("observatory_codes",)
CACHES = {
    "none": None,
    "empty": ((), False),
    "whole": (ALL, True),
    "nolist": (ALL, False),
    "half": (ALL[::2], False),
    "listonly": ((), True),
    "nokernels": (OTHERS + ("observatory_codes",), True),
    "lastmissing": (ALL[:5] + ALL[6:], False),
}


def prepare(cache, a, which):
    if CACHES[which] is None:
        shutil.rmtree(cache, ignore_errors=True)
    else:
        fill(cache, a, *CACHES[which])
    return files(cache)


def judge(rec, tag, what, obj, op, res, cache, a, before, net_ok=False, fresh=False):
    """After a set-up without faults of its own."""
    ok, text = res
    rec.step()
    if ok:
        bad = complete(cache, a)
        rec.check(bad is None, tag + ":list", lambda: "%s: the set-up succeeded, but %s" % (what, bad), obj)
    after = files(cache)
    if op != "force":
        # the uncompressed observatory codes belong to the compressed ones, and are made again with them
        remade = {a.meta_kernel} | ({a.observatory_codes} if a.observatory_codes_compressed not in before else set())
        ch = [k for k, v in before.items() if after.get(k) != v and os.path.basename(k) not in remade]
        rec.check(not ch, tag + ":changed", lambda: "%s: files that were there are changed or gone: %s" % (what, ch), obj)
    if fresh and ok:
        s = server(a)
        old = left(cache, a)
        rec.check(not old, tag + ":stale", lambda: "%s: %s from before are still there after a forced set-up" % (what, old), obj)
        for n in KERNELS + OTHERS:
            p = os.path.join(cache, getattr(a, n))
            got = open(p, "rb").read() if os.path.exists(p) else None
            rec.check(got == s[getattr(a, n + "_url")], tag + ":stale", lambda: "%s: %s is not that of the server after a forced set-up" % (what, getattr(a, n)), obj)
        p = os.path.join(cache, a.observatory_codes)
        got = open(p, "rb").read() if os.path.exists(p) else b""
        rec.check(got == json.dumps(arstub.OBS).encode(), tag + ":stale", lambda: "%s: the observatory codes are not those of the server after a forced set-up" % what, obj)
    if net_ok:
        rec.check(ok, tag + ":failed", lambda: "%s: failed with %s" % (what, text), obj)


def shards(tier):
    th = tier == "thorough"
    out = [["subsets", i, 16] for i in range(16)]
    for c in (CACHES if th else ("none", "nolist", "half", "whole")):
        for op in ("boot", "force", "run"):
            for k in ("kill", "fail", "interrupt", "memory") if th else ("kill", "fail"):
                out += [["lines", c, op, k, i, 4] for i in range(4)]
            out += [["loads", c, op, i, 2] for i in range(2)]
    out += [["writes", op, i, 4] for op in ("boot", "force", "run") for i in range(4)]
    out += [["meet", c, x, y, i, 2] for c in ("none", "nolist", "half") for x in ("boot", "run") for y in ("boot", "run") for i in range(2)]
    out += [["paths", i, 8] for i in range(8)] + [["custom", 0], ["pool", 0]]
    return [s + [tier] for s in out]


def warm():
    import sorcha_cmdline.bootstrap  # noqa: F401
    import sorcha.utilities.retrieve_ephemeris_data_files  # noqa: F401
    import sorcha.ephemeris.simulation_setup  # noqa: F401

    c24.codes()


def run(shard, rec):
    a = aux()
    prime(a)
    globals()["do_" + shard[0]](shard, rec, a)


def do_subsets(shard, rec, a):
    """Every subset of the ten files and the list: what is there stays, the rest is fetched."""
    _, i, nsh, tier = shard
    cache = os.path.abspath("cache")
    s = server(a)
    for bits in range(i, 1 << 11, nsh):
        names = [n for k, n in enumerate(ALL) if bits >> k & 1]
        meta = bool(bits >> 10 & 1)
        for op in ("boot", "run"):
            fill(cache, a, names, meta)
            before = files(cache)
            what = "%s with %s%s there" % (op, ", ".join(names) or "nothing", " and the list" if meta else "")
            obj = dict(shard=shard, bits=bits, op=op)
            net = Net(s)
            res = attempt(op, cache, a, net)
            rec.state((bits, op))
            rec.trace()
            rec.outcome((len(names), meta, op, res[1]))
            judge(rec, "subsets", what, obj, op, res, cache, a, before, net_ok=True)
            missing = [n for n in KERNELS + OTHERS if n not in names]
            if op == "boot":
                for n in KERNELS + OTHERS + ("observatory_codes",):
                    p = os.path.join(cache, getattr(a, n))
                    rec.check(os.path.exists(p), "subsets:missing", lambda: "%s: %s is not there afterwards" % (what, n), obj)
            for n in missing:
                p = os.path.join(cache, getattr(a, n))
                if os.path.exists(p):
                    rec.check(open(p, "rb").read() == s[getattr(a, n + "_url")], "subsets:content", lambda: "%s: %s is not that of the server" % (what, n), obj)
            # the network is down: what is missing is an error, what is there is used
            fill(cache, a, names, meta)
            before = files(cache)
            res = attempt(op, cache, a, Net(s, down=s))
            rec.trace()
            judge(rec, "offline", what + ", network down", obj, op, res, cache, a, before)
            need = set(KERNELS) | (set(OTHERS[:2]) if op == "run" else set())
            if op == "run":
                enough = need <= set(names) and ({"observatory_codes", "observatory_codes_compressed"} & set(names))
                rec.check(res[0] == bool(enough), "offline:verdict", lambda: "%s, network down: ended with %s" % (what, res[1]), obj)


SEEN = {}


def follow(rec, tag, what, obj, cache, a, before, s, forced=False, rebuild=True):
    """The histories after a disturbed set-up: each of the set-ups, with and without network, from that state."""
    keep = cache + ".keep"
    shutil.rmtree(keep, ignore_errors=True)
    if os.path.isdir(cache):
        shutil.copytree(cache, keep)
    state = files(cache)
    # nothing that was there is damaged, unless a fresh download was forced
    if not forced:
        remade = {a.meta_kernel} | ({a.observatory_codes} if a.observatory_codes_compressed not in before else set())
        ch = [k for k, v in before.items() if state.get(k) != v and os.path.basename(k) not in remade]
        rec.check(not ch, tag + ":changed", lambda: "%s: files that were there are changed or gone: %s" % (what, ch), obj)
    m = [v for k, v in state.items() if os.path.basename(k) == a.meta_kernel]
    # what comes after depends on the state of the cache only: each one is followed once
    known = {getattr(a, n) for n in ALL} | {a.meta_kernel}
    key = (os.path.isdir(cache), tuple(sorted((k if k in known else "-", v) for k, v in state.items())), tuple(s))
    if rec in SEEN.get(key, ()):
        rec.outcome((tag, obj.get("shard", [])[1:4], bool(m), "seen"))
        return
    SEEN.clear() if len(SEEN) > 500 else None
    SEEN.setdefault(key, set()).add(rec)
    got = []
    for op, down in (("run", False), ("boot", False), ("run", True), ("force", False)):
        if os.path.isdir(keep):
            shutil.rmtree(cache, ignore_errors=True)
            shutil.copytree(keep, cache)
        else:
            shutil.rmtree(cache, ignore_errors=True)
        res = attempt(op, cache, a, Net(s, down=s if down else ()))
        w = "%s; then %s%s" % (what, op, " without network" if down else "")
        judge(rec, tag, w, obj, op, res, cache, a, {}, net_ok=op == "force", fresh=op == "force")
        if not down and op != "force" and a.observatory_codes not in {os.path.basename(k) for k in state}:
            rec.check(res[0], tag + ":failed", lambda: "%s: failed with %s" % (w, res[1]), obj)
        got.append(res[1])
        rec.trace()
    rec.outcome((tag, obj.get("shard", [])[1:4], bool(m), tuple(got)))


def sequence(op, cache, a, s):
    seq = []
    with world(Net(s)):
        with c24.watch(lambda i, c, ln: seq.append((os.path.basename(c.co_filename), ln))):
            setup(op, cache, a)
    return seq


def do_lines(shard, rec, a):
    _, c, op, kind, i, nsh, tier = shard
    cache = os.path.abspath("cache")
    s = server(a)
    prepare(cache, a, c)
    seq = sequence(op, cache, a, s)
    rec.check(len(seq) > 10, "lines:setup", lambda: "%d lines" % len(seq))
    for n in range(1 + i, len(seq) + 1, nsh):
        before = prepare(cache, a, c)

        def go():
            def act(j, co, ln):
                if j == n:
                    if kind == "kill":
                        os._exit(c24.KILLED)
                    raise {"fail": OSError(28, "No space left on device"), "interrupt": KeyboardInterrupt(), "memory": MemoryError()}[kind]

            try:
                with world(Net(s)), c24.watch(act):
                    setup(op, cache, a)
            except BaseException:  # noqa: BLE001
                return c24.STOPPED
            return c24.NORMAL

        st = c24.child(go)
        what = "%s on cache '%s', %s at line %d of %d (%s:%d)" % (op, c, kind, n, len(seq), *seq[n - 1])
        obj = dict(shard=shard, n=n)
        rec.state((c, op, kind, n))
        if st == c24.NORMAL:
            bad = complete(cache, a)
            rec.check(bad is None, "lines:list", lambda: "%s: the set-up ended normally, but %s" % (what, bad), obj)
        follow(rec, "lines", what, obj, cache, a, before, s, forced=op == "force")


DOWN = ("refused", "cut", "cutkill", "late", "full", "interrupt")


def do_loads(shard, rec, a):
    """A fault of every kind at every download; and servers that stay unreachable."""
    _, c, op, i, nsh, tier = shard
    cache = os.path.abspath("cache")
    s = server(a)
    prepare(cache, a, c)
    net = Net(s)
    attempt(op, cache, a, net)
    cases = [(n, k) for n in range(1, net.n + 1) for k in DOWN] + [(u, "down") for u in s]
    if tier == "thorough":
        cases += [(u, v) for u, v in itertools.combinations(s, 2)]
    for case in cases[i::nsh]:
        before = prepare(cache, a, c)
        urls = [x for x in case if x in s]

        def go():
            nt = Net(s, down=urls) if urls else Net(s, fault=case)
            ok, text = attempt(op, cache, a, nt)
            return c24.NORMAL if ok else c24.STOPPED

        st = c24.child(go)
        what = "%s on cache '%s', download %s" % (op, c, case)
        obj = dict(shard=shard, case=case)
        if op == "force":
            old = left(cache, a)
            rec.check(not old, "loads:old", lambda: "%s: %s from before are still there after a forced set-up that failed" % (what, old), obj)
        rec.state((c, op, case))
        if st == c24.NORMAL:
            bad = complete(cache, a)
            rec.check(bad is None, "loads:list", lambda: "%s: the set-up ended normally, but %s" % (what, bad), obj)
        follow(rec, "loads", what, obj, cache, a, before, s, forced=op == "force")


def do_writes(shard, rec, a):
    """The disk is full at every size of the kernel list."""
    _, op, i, nsh, tier = shard
    cache = os.path.abspath("cache")
    s = server(a)
    size = os.path.getsize(META[0])
    biggest = max(len(v) for v in s.values())
    step = 1 if tier == "thorough" else 8
    for c in ("nolist", "none"):
        for limit in list(range(0, size + 2 * step, step))[i::nsh]:
            before = prepare(cache, a, c)

            def go():
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
                ok, text = attempt(op, cache, a, Net(s))
                return c24.NORMAL if ok else c24.STOPPED

            st = c24.child(go)
            what = "%s on cache '%s', files cannot grow beyond %d bytes" % (op, c, limit)
            obj = dict(shard=shard, c=c, limit=limit)
            rec.state((op, c, limit))
            if st == c24.NORMAL:
                bad = complete(cache, a)
                rec.check(bad is None, "writes:list", lambda: "%s: the set-up ended normally, but %s" % (what, bad), obj)
            follow(rec, "writes", what, obj, cache, a, before, s, forced=op == "force")
    rec.check(size > biggest, "writes:setup", lambda: "list of %d bytes, files up to %d" % (size, biggest))


def do_meet(shard, rec, a):
    """Another process sets up the same cache while this one is at line n."""
    _, c, x, y, i, nsh, tier = shard
    cache = os.path.abspath("cache")
    s = server(a)
    prepare(cache, a, c)
    seq = sequence(x, cache, a, s)
    for n in range(1 + i, len(seq) + 1, nsh):
        before = prepare(cache, a, c)
        other = []

        def go2():
            ok, text = attempt(y, cache, a, Net(s))
            if not ok:
                return c24.STOPPED
            return c24.NORMAL if complete(cache, a) is None else 50

        def act(j, co, ln):
            if j == n and not other:
                other.append(c24.child(go2))

        def go():
            try:
                with world(Net(s)), c24.watch(act):
                    setup(x, cache, a)
            except BaseException:  # noqa: BLE001
                return c24.STOPPED if other and other[0] != 50 else 50
            if other and other[0] == 50:
                return 50
            return c24.NORMAL if complete(cache, a) is None else 51

        st = c24.child(go)
        what = "%s on cache '%s', and %s by another process while it is at line %d (%s:%d)" % (x, c, y, n, *seq[n - 1])
        obj = dict(shard=shard, n=n)
        rec.state((c, x, y, n))
        rec.trace(2)
        rec.step(2)
        rec.outcome((c, x, y, st))
        rec.check(st != 50, "meet:list", lambda: "%s: the other set-up succeeded with an incomplete list" % what, obj)
        rec.check(st != 51, "meet:list", lambda: "%s: the first set-up succeeded with an incomplete list" % what, obj)
        rec.check(st in (0, 1, 50, 51), "meet:crash", lambda: "%s: %s" % (what, st), obj)
        rec.check(st != c24.STOPPED, "meet:failed", lambda: "%s: failed" % what, obj)
        follow(rec, "meet", what, obj, cache, a, before, s)


def do_paths(shard, rec, a):
    """Directory names of every length, and awkward ones."""
    _, i, nsh, tier = shard
    base = os.path.abspath("p")
    s = server(a)
    top = len(base) + 2
    names = []
    for L in range(top + 1, 216):
        n = L - len(base) - 1
        names.append("/".join(["d" * 30] * (n // 31) + ["e" * (n % 31)] if n % 31 else ["d" * 30] * (n // 31)))
    names += ["a b", "a  b", "x+y", "été", "a$b", "a,b", "a(b)", "A", "a=b", "a.b", "a-b_c", "~x", "%20", "#1", "o'x", "'q'", "a''b"]
    names += [(x * 60)[:n] + "z" for x in ("k ", "y'", "m+") for n in range(72 - top, 82 - top)]
    for k, d in list(enumerate(names))[i::nsh]:
        for op in ("run", "boot"):
            shutil.rmtree(base, ignore_errors=True)
            cache = os.path.join(base, d)
            res = attempt(op, cache, a, Net(s))
            rec.state((d, op))
            rec.trace()
            rec.outcome((len(cache) // 79, op, res[1]))
            judge(rec, "paths", "%s on %s (%d characters)" % (op, cache, len(cache)), dict(shard=shard, d=d), op, res, cache, a, {}, net_ok=True)


def do_custom(shard, rec, a):
    """Other file names and another name of the list, in a fresh cache and beside the default files."""
    cache = os.path.abspath("cache")
    b = aux("custom")
    s = dict(server(a), **server(b))
    for c in CACHES:
        for first in (None, "boot", "run"):
            before = prepare(cache, a, c)
            if first:
                attempt(first, cache, a, Net(s))
                before = files(cache)
            res = attempt("run", cache, b, Net(s))
            rec.state((c, first))
            rec.trace()
            rec.outcome((c, first, res[1]))
            what = "configured names on cache '%s' after %s" % (c, first)
            judge(rec, "custom", what, dict(shard=shard, c=c), "run", res, cache, b, before, net_ok=True)
            # and the default files again
            res = attempt("run", cache, a, Net(s))
            judge(rec, "custom", what + ", then the default names", dict(shard=shard, c=c), "run", res, cache, a, {}, net_ok=True)


def do_pool(shard, rec, a):
    """With the real pool of threads."""
    cache = os.path.abspath("cache")
    s = server(a)
    for c in CACHES:
        for op in ("boot", "force"):
            for url in [None] + list(s):
                before = prepare(cache, a, c)
                res = attempt(op, cache, a, Net(s, down=[url] if url else ()), pool=False)
                rec.state((c, op, url))
                rec.trace()
                rec.outcome((c, op, url is None, res[1]))
                judge(rec, "pool", "%s on cache '%s', %s unreachable" % (op, c, url), dict(shard=shard, c=c, url=url), op, res, cache, a, before, net_ok=url is None, fresh=op == "force" and url is None)
                if url:
                    follow(rec, "pool", "%s on cache '%s', %s unreachable" % (op, c, url), dict(shard=shard, url=url), cache, a, before, s, forced=op == "force")
