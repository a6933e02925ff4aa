"""C24: Interrupted or failed runs are always recognised as such."""
import contextlib
import csv
import io
import itertools
import logging
import os
import re
import resource
import sqlite3
import sys
import time

from mc import sim
from mc.checks.c16 import argv, content, logs

PID = "C24"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive fault injection: a failure, an interrupt or a kill at every executed line of sorcha during complete runs, and a full disk at every file size, each judged by the real log checker and by the files left behind; every truncation of real logs and all small collections of logs through the checker"
RULE = "distinct (format, kind of fault, line it hit, verdict) combinations of runs that were stopped, and distinct verdicts of log collections"
NOTE = (
    "Runs are started through the command line in a child process. In the child the n-th executed line of any function of the sorcha packages fails (an exception, a memory error, an interrupt) or the process ends on the spot, for every n; or writes fail beyond a file "
    "size, for a grid of sizes. Then the real log checker judges the directory. A log may only count as complete if output, statistics and saved ephemeris are those of an undisturbed run, and a run that ends normally has to count as complete. "
    "The checker itself is given every truncation of real logs and all small collections of them. Faults inside C libraries between two lines, and power failures (data not yet on the disk), are not modelled."
)
BOUND = {
    "quick": "runs of 3 chunks in 3 formats (external and generated ephemerides) and DES: a failure and a kill at every 2nd executed line (csv run), at every 11th to 41st and the last 100 lines (the others); full disk at every 2500 bytes; every byte of 4 logs; all collections of up to 3 of 9 logs",
    "thorough": "every line with 4 kinds of fault for every run; full disk at every 150 bytes; collections of up to 4",
}
ASSUMPTIONS = ["a process that is killed leaves what it has written"]
OLD = logging.NOTSET

RUNS = {
    "csv": ("csv", None, "rubin_sim", None, "st"),
    "sqlite3": ("sqlite3", None, "rubin_sim", None, "st"),
    "hdf5": ("hdf5", None, "rubin_sim", None, None),
    "ar": ("csv", "ar", "rubin_sim", "eo", "st"),
    "arh5": ("sqlite3", "ar", "rubin_sim", "eo", None),
    "des": ("csv", None, "DES", None, "st"),
    "dessql": ("sqlite3", None, "DES", None, "st"),
}


class Fault(Exception):
    pass


def build(name, d, columns="basic", objects=3, per=3):
    fmt, gen, survey, ew, st = RUNS[name]
    des = survey == "DES"
    vs = [sim.visit(1 + i, 60000.9 + i // 2 + 0.02 * (i % 2), "r", ra=120.0, dec=20.0) for i in range(per)]
    cfg = sim.base_config(survey=survey, filters="r", chunk=1, output=fmt, columns=columns, ephem=gen or "external", eph_format="hdf5" if name == "arh5" else "csv")
    if not des:
        cfg = cfg.set("EXPERT", randomization_on="True", trailing_losses_on="True", vignetting_on="True").set("FOV", camera_model="circle", circle_radius=1.75)
    else:
        cfg = cfg.set("FADINGFUNCTION", fading_function_on="False")
    r = sim.Run(d, cfg, survey=survey)
    ids = ["ob%02d" % i for i in range(objects)]
    par = [sim.phys(o, 17.0) for o in ids]
    if gen:
        from mc import arstub

        orb = [arstub.bcart_orbit(o, *arstub.place(120.0, 20.0, 2.0, 60000.9 + 2400000.5 - arstub.JD_REF), 60000.9) for o in ids]
        r.inputs(vs, orb, par, orbit_cols=arstub.BCART_COLS)
        r.ar_cache = arstub.fill_cache(os.path.join(os.getcwd(), "arcache"))
    else:
        r.inputs(vs, [sim.kep_orbit(o) for o in ids], par, [sim.eph(o, v, des=des) if des else sim.eph(o, v) for o in ids for v in vs])
    r.cfg.write(r.p("config.ini"))
    return r


def start(r, name, out, quietlog=False):
    fmt, gen, survey, ew, st = RUNS[name]
    a = argv(r, out, "res", st, ew) + (["-s", "DES"] if survey == "DES" else []) + (["-l"] if quietlog else [])
    return sim.cli("run", a, env=dict(SORCHA_SEED="5"), stub=gen is not None, log=True)


def results(out):
    """Every file of the run but its log, databases with their indexes."""
    res = {n: content(out, n) for n in os.listdir(out) if not logs([n])}
    for n in list(res):
        if n.endswith(".db"):
            con = sqlite3.connect(os.path.join(out, n))
            try:
                res[n + " indexes"] = sorted(con.execute("SELECT name, tbl_name FROM sqlite_master WHERE type = 'index'").fetchall())
            except sqlite3.Error:
                res[n + " indexes"] = []
            con.close()
    return res


def verdict(out):
    """What the real checker says of the logs in the directory: {file: complete?}, and the text it prints."""
    from sorcha.utilities.check_output_logs import check_output_logs

    text = io.StringIO()
    try:
        with contextlib.redirect_stdout(text):
            check_output_logs(out, False)
    except SystemExit as e:
        return {}, str(e)
    found = {f for f in os.listdir(out) if f.endswith("sorcha.log")}
    failed = {os.path.basename(x) for x in re.findall(r"Failed run log filename:\n\t(.*)\n", text.getvalue())}
    return {f: f not in failed for f in found}, text.getvalue()


def codes():
    """The code objects of every function of the packages under test."""
    import types

    import sorcha
    import sorcha_cmdline

    import sorcha.des  # noqa: F401
    import sorcha.sorcha  # noqa: F401
    import sorcha_cmdline.run  # noqa: F401

    roots = tuple(os.path.dirname(os.path.abspath(m.__file__)) + os.sep for m in (sorcha, sorcha_cmdline))
    seen, out = set(), []

    def code(c):
        if c in seen:
            return
        seen.add(c)
        if os.path.abspath(c.co_filename).startswith(roots):
            out.append(c)
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    code(k)

    def fun(f):
        f = getattr(f, "py_func", f)
        f = getattr(f, "__func__", f)
        if isinstance(f, property):
            for g in (f.fget, f.fset):
                if g is not None:
                    fun(g)
            return
        if hasattr(f, "__wrapped__"):
            fun(f.__wrapped__)
        if isinstance(f, types.FunctionType):
            code(f.__code__)

    for n, m in sorted(sys.modules.items()):
        if n.split(".")[0] in ("sorcha", "sorcha_cmdline") and m is not None:
            for v in list(vars(m).values()):
                if isinstance(v, type) and v.__module__ == n:
                    for w in list(vars(v).values()):
                        fun(w)
                else:
                    fun(v)
    return out


TOOL = 3


@contextlib.contextmanager
def watch(action):
    """Calls action(n, code, line) for every executed line of the code under test."""
    mon = sys.monitoring
    n = [0]

    def line(c, ln):
        n[0] += 1
        action(n[0], c, ln)

    mon.use_tool_id(TOOL, "c24")
    mon.register_callback(TOOL, mon.events.LINE, line)
    cs = codes()
    for c in cs:
        mon.set_local_events(TOOL, c, mon.events.LINE)
    try:
        yield n
    finally:
        for c in cs:
            mon.set_local_events(TOOL, c, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)


def child(f):
    """Runs f() in a forked process; returns (exit status, killed?)."""
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            fd = os.open(os.devnull, os.O_WRONLY)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            code = f()
        except BaseException:  # noqa: BLE001
            code = 98
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


# what a child reports
NORMAL, STOPPED, KILLED = 0, 1, 77


def attempt(r, name, out, n=None, kind=None, limit=None, quietlog=False):
    sim.fresh(out)

    def go():
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))

        def act(i, c, ln):
            if i == n:
                if kind == "kill":
                    os._exit(KILLED)
                raise {"fail": Fault("injected"), "memory": MemoryError("injected"), "interrupt": KeyboardInterrupt(), "io": OSError(28, "No space left on device")}[kind]

        try:
            with watch(act) if n is not None else contextlib.nullcontext():
                code, _ = start(r, name, out, quietlog)
        except BaseException:  # noqa: BLE001
            return STOPPED
        return NORMAL if code == 0 else STOPPED

    return child(go)


def judge(status, out, ref, what, rec, tag, obj, logs_ok=True):
    v, text = verdict(out)
    rec.step()
    rec.trace()
    rec.check(status in (NORMAL, STOPPED, KILLED), tag + ":crash", lambda: "%s: the process ended with %s" % (what, status), obj)
    rec.check(len(v) <= 1, tag + ":logs", lambda: "%s: logs %s" % (what, sorted(v)), obj)
    complete = bool(v) and all(v.values())
    if complete:
        rec.check(results(out) == ref, tag + ":complete", lambda: "%s: the run (%s) counts as complete, but its files are not those of an undisturbed run: %s" % (
            what, {NORMAL: "ended normally", STOPPED: "stopped with an error", KILLED: "was killed"}.get(status), describe(out, ref)), obj)
    if status == NORMAL and logs_ok:
        rec.check(complete, tag + ":incomplete", lambda: "%s: the run ended normally, but its log does not count as complete: %s" % (what, text[-300:]), obj)
    return complete


def describe(out, ref):
    got = results(out)
    return {n: ("missing" if n not in got else "extra" if n not in ref else "%d of %d bytes" % (len(got[n]), len(ref[n]))) for n in set(got) | set(ref) if got.get(n) != ref.get(n)}


def reference(r, name, quietlog=False):
    """An undisturbed run: its files, its log and the lines it executes."""
    out = os.path.abspath("ref")
    sim.fresh(out)
    lines = []
    with watch(lambda i, c, ln: lines.append((os.path.basename(c.co_filename), ln))):
        code, text = start(r, name, out, quietlog)
    if code != 0:
        raise AssertionError("undisturbed run stopped: %s %s" % (code, text[-1500:]))
    log = [f for f in os.listdir(out) if f.endswith("sorcha.log")]
    return results(out), open(os.path.join(out, log[0])).read(), lines


NSH = 12
STEP = {"csv": 2, "sqlite3": 13, "hdf5": 23, "ar": 19, "arh5": 41, "des": 11, "dessql": 13}
LAST = 100  # lines at the end of a run that are always covered


def shards(tier):
    th = tier == "thorough"
    out = []
    for name in RUNS:
        kinds = ("fail", "kill", "memory", "interrupt", "io") if th else ("fail", "kill")
        step = 1 if th else STEP[name]
        for k in kinds:
            n = 48 if th else NSH if name == "csv" else 3
            out += [["lines", name, k, i, n, step] for i in range(n)]
    for name in RUNS:
        out += [["disk", name, i, 8, 150 if th else 10000 if RUNS[name][0] == "hdf5" else 2500] for i in range(8)]
    out += [["trunc", n, i, 8] for n in ("csv", "des", "ar", "failed") for i in range(8)]
    out += [["coll", k, i, 8] for k in range(1, 5 if th else 4) for i in range(8)]
    out += [["torn", i] for i in range(4)]
    return [s + [tier] for s in out]


def warm():
    codes()


def run(shard, rec):
    logging.disable(logging.NOTSET)
    try:
        {"lines": lines, "disk": disk, "trunc": trunc, "coll": coll, "torn": torn}[shard[0]](shard, rec)
    finally:
        logging.disable(logging.CRITICAL)


def lines(shard, rec):
    _, name, kind, i, nsh, step, tier = shard
    r = build(name, os.path.abspath("r"))
    ref, log, seq = reference(r, name)
    obj = dict(shard=shard)
    rec.check(len(ref) >= 1 and len(seq) > 300, "lines:setup", lambda: "%d lines, files %s" % (len(seq), sorted(ref)), obj)
    # the end of the run in full: output of the last chunk, statistics, index, completion message
    points = [n for n in range(1, len(seq) + 1) if n % step == (kind == "kill") % step or n > len(seq) - LAST]
    for n in points[i::nsh]:
        out = os.path.abspath("o")
        st = attempt(r, name, out, n, kind)
        what = "%s run, %s at line %d of %d (%s:%d)" % (name, kind, n, len(seq), *seq[n - 1])
        complete = judge(st, out, ref, what, rec, "lines", dict(obj, n=n))
        rec.state((name, kind, n))
        if st != NORMAL:
            rec.outcome((name, kind, seq[n - 1], complete))


def disk(shard, rec):
    _, name, i, nsh, step, tier = shard
    r = build(name, os.path.abspath("r"), columns="all", objects=5, per=24)
    ref, log, seq = reference(r, name, quietlog=True)
    size = max(os.path.getsize(os.path.join("ref", f)) for f in os.listdir("ref"))
    obj = dict(shard=shard)
    limits = sorted(set(range(0, size + step, step)) | {size - 400, size - 1, size, size + 1})
    for limit in limits[i::nsh]:
        out = os.path.abspath("o")
        st = attempt(r, name, out, limit=limit, quietlog=True)
        what = "%s run, files cannot grow beyond %d bytes" % (name, limit)
        # PyTables closes a file without reporting that its last entries could not be written
        tail = any(f.endswith(".h5") and 0 < os.path.getsize(os.path.join("ref", f)) - limit <= 2048 for f in ref)
        complete = judge(st, out, ref, what, rec, "disk-hdf5-end" if tail and st == NORMAL else "disk", dict(obj, limit=limit), logs_ok=limit > len(log) + 200)
        rec.state((name, limit))
        rec.outcome((name, st, complete))


def failed_log():
    """The log of a run that stops in its second chunk."""
    r = build("csv", os.path.abspath("r"))
    ref, log, seq = reference(r, "csv")
    out = os.path.abspath("o")
    attempt(r, "csv", out, len(seq) * 2 // 3, "io")
    f = [f for f in os.listdir(out) if f.endswith("sorcha.log")][0]
    return open(os.path.join(out, f)).read()


DONE = "Sorcha process is completed."


def trunc(shard, rec):
    """Every prefix of a log: only the whole one counts as complete."""
    _, name, i, nsh, tier = shard
    if name == "failed":
        log = failed_log()
    else:
        r = build(name, os.path.abspath("r"))
        _, log, _ = reference(r, name, quietlog=True)
        if name == "des":  # names in other scripts are cut in the middle of a character, too
            log = log.replace("orbits.csv", "orbites-\u00e9t\u00e9-\u65e5\u672c.csv")
    raw = log.encode("utf-8")
    rec.check((name == "failed") == (DONE not in log), "trunc:setup", lambda: "log ends with %r" % log[-200:])
    end = raw.rfind(DONE.encode()) + len(DONE) if name != "failed" else len(raw) + 1
    cuts = list(range(0, len(raw) + 1))[i::nsh]
    for k in range(0, len(cuts), 100):
        d = sim.fresh(os.path.abspath("t"))
        for c in cuts[k:k + 100]:
            with open(os.path.join(d, "r%06d-sorcha.log" % c), "wb") as f:
                f.write(raw[:c])
        v, text = verdict(d)
        rec.trace()
        for c in cuts[k:k + 100]:
            rec.state((name, c))
            rec.step()
            if end <= c < len(raw) - 1:
                continue  # the message is there and only blanks are cut off
            got = v.get("r%06d-sorcha.log" % c)
            want = name != "failed" and c >= len(raw) - 1
            rec.outcome(("trunc", want))
            rec.check(got == want, "trunc:verdict", lambda: "the first %d of %d bytes of the log of %s, ending %r: complete %s, expected %s" % (c, len(raw), name, raw[:c][-40:], got, want), dict(shard=shard, cut=c))


def kinds():
    r = build("csv", os.path.abspath("r"))
    _, good, _ = reference(r, "csv", quietlog=True)
    bad = failed_log()
    line = good.strip().split("\n")[-1]
    return {
        "good": (good.encode(), True),
        "good2": (good.replace("INFO", "INFO ").encode(), True),
        "failed": (bad.encode(), False),
        "empty": (b"", False),
        "blank": (b"\n\n", False),
        "cut": (good[: len(good) // 2].encode(), False),
        "later": ((good + "2026-01-01 00:00:00,000 root ERROR    later failure, \"quoted\" \n").encode(), False),
        "quoting": ((good[:-40] + "ERROR, a \"b\" " + line.replace("is completed", "is not completed") + "\n").encode(), False),
        "bytes": (good.encode()[:200] + b"\xff\xfe\xc3", False),
    }


NAMES = ("a-sorcha.log", "sub/b,1-sorcha.log", "sub/deep er/c-sorcha.log", "d'\"-sorcha.log")


def coll(shard, rec):
    """All collections of k logs, through the command line, printed and saved."""
    _, k, i, nsh, tier = shard
    ks = kinds()
    root = os.path.abspath("logs")
    words = list(itertools.product(sorted(ks), repeat=k))
    for w in words[i::nsh]:
        sim.fresh(root)
        for f, kind in zip(NAMES, w):
            p = os.path.join(root, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(ks[kind][0])
        for other in ("notes.txt", "sorcha.log.bak", "x-sorcha.err"):
            with open(os.path.join(root, other), "w") as fh:
                fh.write("not a log of a run\n")
        want = {os.path.join(root, f): ks[kind][1] for f, kind in zip(NAMES, w)}
        obj = dict(shard=shard, logs=w)
        rec.state(("coll", w))
        rec.step()
        rec.trace()
        code, text = sim.cli("outputs", ["check-logs", "-f", root])
        failed = re.findall(r"Failed run log filename:\n\t(.*)\n", text)
        rec.outcome(("coll", len(failed)))
        rec.check(code == 0 and sorted(failed) == sorted(f for f, ok in want.items() if not ok), "coll:printed", lambda: "logs %s: listed as failed %s (%s)" % (w, [os.path.relpath(f, root) for f in failed], code), obj)
        if not failed:
            rec.check(text.count("completed successfully") == 1, "coll:printed", lambda: "logs %s: %r" % (w, text), obj)
        saved = os.path.abspath("report.csv")
        if os.path.exists(saved):
            os.remove(saved)
        code, text = sim.cli("outputs", ["check-logs", "-f", root, "-o", saved])
        if all(want.values()) and not os.path.exists(saved):
            continue
        rows = list(csv.DictReader(open(saved, newline=""))) if os.path.exists(saved) else None
        got = None if rows is None else [(x["log_filename"], x["run_successful"] == "True") for x in rows]
        rec.check(code == 0 and got is not None and sorted(got) == sorted(want.items()), "coll:saved", lambda: "logs %s: report %s (%s)" % (w, got, code), obj)


def torn(shard, rec):
    """Several runs into one directory, one of which is killed: each log is judged on its own."""
    _, i, tier = shard
    r = build("csv", os.path.abspath("r"))
    ref, log, seq = reference(r, "csv", quietlog=True)
    for n in range(5 + i, len(seq), max(1, len(seq) // 40) * 4):
        out = os.path.abspath("o")
        sim.fresh(out)
        for sub, point in (("one", None), ("two", n), ("three", None)):
            attempt(r, "csv", os.path.join(out, sub), point, "kill" if point else None, quietlog=True)
        code, text = sim.cli("outputs", ["check-logs", "-f", out])
        failed = re.findall(r"Failed run log filename:\n\t(.*)\n", text)
        has = any(f.endswith("sorcha.log") for f in os.listdir(os.path.join(out, "two")))
        done = results(os.path.join(out, "two")) == ref
        want = [os.path.join(out, "two")] if has else []
        rec.state(("torn", n))
        rec.step(3)
        rec.trace(3)
        got = [os.path.dirname(f) for f in failed]
        rec.check(code == 0 and (got == want or (done and not got)), "torn:verdict", lambda: "killed at line %d: %s listed, expected %s" % (n, got, want), dict(shard=shard, n=n))
        rec.outcome(("torn", len(got), has))
