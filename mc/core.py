"""Explorer core: enumerates the shards of a check over worker processes, merges what they explored,
applies the known-findings file, writes the evidence file and the replay artefacts.

A check module provides
    PID, LEVEL, BOUND (text)                 what it decides and the bounds it enumerates
    shards(tier) -> list of JSON-able        a partition of the bounded space
    run(shard, rec)                          explores one shard completely
    replay(obj, rec)   (optional)            re-executes one recorded case; default: run(obj["shard"])
Everything a check explores is counted through Rec, so the evidence is measured, not declared.
"""
import hashlib
import json
import os
import sys
import time
import traceback
import multiprocessing as mp
import multiprocessing.connection as mpc
import resource

V = os.environ.get("VERIF_DIR", "/verif")
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big")


class Rec:
    """What one shard explored."""

    MAXV = 40

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.shard = None
        self.caps = []

    def state(self, key):
        """A distinct configuration/state reached; returns False when it was seen before in this shard."""
        k = h64(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def step(self, n=1):
        """Operations executed on the real code."""
        self.transitions += n

    def trace(self, n=1):
        """A complete execution of the real code compared with the reference model."""
        self.traces += n

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(h64(key))

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def cap(self, msg):
        self.caps.append(msg)

    def violation(self, sig, msg, obj=None):
        """sig identifies the failing input/site/history (matched against known findings)."""
        self.nviol += 1
        if len(self.violations) < self.MAXV:
            self.violations.append(dict(sig=str(sig), msg=str(msg)[:4000], obj=obj, shard=self.shard))

    def check(self, cond, sig, msg, obj=None):
        if not cond:
            self.violation(sig, msg() if callable(msg) else msg, obj)
        return bool(cond)


def _run_shard(args):
    mod, shard = args
    rec = Rec()
    rec.shard = shard
    try:
        mod.run(shard, rec)
        err = None
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        err = traceback.format_exc()
    return rec, err


MEMORY = 8 << 30  # address space of one worker; more than that is reported like any other failure
STALL = {"quick": 420, "thorough": 6 * 3600}  # seconds one shard may take before it counts as hanging


def _worker(conn, mod):
    # each worker runs in its own directory so that files written by the code under test stay apart
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    d = os.path.join(SCRATCH, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    while True:
        shard = conn.recv()
        if shard is None:
            os._exit(0)
        conn.send(_run_shard((mod, shard)))


def explore(mod, work, nproc, tier):
    """Yields (shard, Rec, error) for every shard. A worker that dies or hangs in a shard is an error of that shard."""
    ctx = mp.get_context("fork")
    todo = list(work)[::-1]
    busy = {}

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, mod), daemon=True)
        p.start()
        b.close()
        return p, a

    def give(p, conn):
        if todo:
            shard = todo.pop()
            conn.send(shard)
            busy[conn] = (p, shard, time.time())
        else:
            conn.send(None)
            p.join(5)

    for _ in range(nproc):
        give(*start())
    while busy:
        ready = mpc.wait(list(busy), timeout=5)
        for conn in ready:
            p, shard, t0 = busy.pop(conn)
            try:
                rec, err = conn.recv()
            except (EOFError, OSError):
                p.join(5)
                rec = Rec()
                rec.shard = shard
                yield shard, rec, "the process running this shard ended (exit status %s)" % p.exitcode
                if todo:
                    give(*start())
                continue
            yield shard, rec, err
            give(p, conn)
        for conn, (p, shard, t0) in list(busy.items()):
            if time.time() - t0 > STALL[tier]:
                busy.pop(conn)
                p.kill()
                p.join(5)
                rec = Rec()
                rec.shard = shard
                yield shard, rec, "the code under test does not end: no result within %d s" % STALL[tier]
                if todo:
                    give(*start())


def known_findings(pid):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def main(mod, tier, seed):
    t0 = time.time()
    shards = list(mod.shards(tier))
    order = sorted(range(len(shards)), key=lambda i: h64((seed, i)))  # the seed only orders the work
    if getattr(mod, "ORDERED", False):
        order = list(range(len(shards)))
    work = [shards[i] for i in order]
    nproc = min(len(work), int(os.environ.get("VERIF_JOBS", "0")) or getattr(mod, "JOBS", 8), os.cpu_count() or 1)
    if hasattr(mod, "warm"):
        try:
            mod.warm()
        except BaseException:  # noqa: BLE001  a failing warm-up shows again, as a violation, in the shards
            pass
    states, outcomes = set(), set()
    transitions = traces = nviol = 0
    samples, viols, errors, caps = [], [], [], []

    def merge(shard, rec, err):
        nonlocal transitions, traces, nviol
        states.update(rec.states)
        outcomes.update(rec.outcomes)
        transitions += rec.transitions
        traces += rec.traces
        nviol += rec.nviol
        if len(samples) < 4:
            samples.extend(rec.samples[: 4 - len(samples)])
        viols.extend(rec.violations)
        caps.extend(rec.caps)
        if err:
            errors.append((shard, err))

    for shard, rec, err in explore(mod, work, nproc, tier):
        merge(shard, rec, err)
        if os.environ.get("VERIF_FAILFAST") and (err or {v["sig"] for v in rec.violations} - {k["sig"] for k in known_findings(mod.PID)}):
            break  # development aid (tools/mutate.py): stop at the first violation
    # An exception that escapes a shard comes from the code under test where the model expects a result.
    for shard, err in errors:
        viols.append(dict(sig="exception:" + err.strip().splitlines()[-1][:120],
                          msg="unexpected exception while exploring\n" + err[-3000:], obj=None, shard=shard))
        nviol += 1

    known = known_findings(mod.PID)
    hit, fresh = {}, []
    for v in viols:
        for k in known:
            if v["sig"] == k["sig"]:
                hit.setdefault(k["sig"], k)
                break
        else:
            fresh.append(v)
    for k in known:  # every listed finding is announced, reproduced this run or not
        tag = "" if k["sig"] in hit else " (not reached in this run)"
        print("KNOWN-FINDING: property=%s %s%s" % (mod.PID, k["what"], tag))
    rdir = os.path.join(V, "replays")
    seen = set()
    out = []
    for v in fresh:
        if v["sig"] in seen and len(seen) >= 1:
            continue
        seen.add(v["sig"])
        if len(out) >= 8:
            break
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (mod.PID, len(out)))
        with open(path, "w") as f:
            json.dump(dict(property=mod.PID, tier=tier, **v), f, indent=1, default=str)
        out.append((path, v))
    for path, v in out:
        print("VIOLATION property=%s replay=%s" % (mod.PID, path))
        print("  " + v["sig"])
        print("  " + v["msg"].replace("\n", "\n  ")[:1500])
    wall = time.time() - t0
    cov = dict(shards=len(work), distinct_outcomes=len(outcomes), samples=samples or ["(none)"],
               bound=mod.BOUND[tier] if isinstance(mod.BOUND, dict) else mod.BOUND, exhaustive=not caps)
    if caps:
        cov["caps"] = caps[:10]
    if mod.LEVEL == "model_checking":
        cov.update(states=len(states), transitions=transitions, traces_validated_against_impl=traces)
    else:
        cov.update(evaluations=traces, distinct_nontrivial=len(outcomes), rule=mod.RULE, states=len(states),
                   transitions=transitions)
    cov["known_findings_reproduced"] = len(hit)
    ev = dict(property=mod.PID, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=mod.LEVEL,
              coverage=cov, assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ed = os.environ.get("VERIF_EVIDENCE", os.path.join(V, "evidence"))
    with open(os.path.join(ed, mod.PID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: states=%d transitions=%d traces=%d outcomes=%d shards=%d violations=%d known=%d wall=%.1fs"
          % (mod.PID, tier, len(states), transitions, traces, len(outcomes), len(work), len(fresh), len(hit), wall))
    return 1 if fresh else 0
