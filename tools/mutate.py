#!/usr/bin/python3
"""Development aid: small syntactic changes of sorcha's sources, each run through the checks given for its file.

mutate.py list FILE                 number of mutants of a file
mutate.py run  OUT.jsonl LANE EVERY OFFSET FILE=C01,C02 ...
Changes that no check reports are run through the test suite; those that pass it are written as survivors, to be looked at
by hand (equivalent change, outside the properties, or a hole in a check). Nothing here decides a property."""
import ast
import json
import os
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SKIP = ("verboselog", "pplogger", "logger", "print(", "sys.exit", "logging", "warn")


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def off(line, col):
        return starts[line - 1] + col

    def seg(n):
        return raw[off(n.lineno, n.col_offset):off(n.end_lineno, n.end_col_offset)].decode()

    out = []

    def add(n, new, kind):
        out.append((off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset), new, kind, n.lineno))

    tree = ast.parse(src)
    bound = {}

    class W(ast.NodeVisitor):
        def __init__(self):
            self.fn = 0
            self.names = set()

        def visit_FunctionDef(self, n):
            old = self.names
            self.names = {a.arg for a in n.args.args}
            self.fn += 1
            for s in n.body:
                self.visit(s)
            self.fn -= 1
            self.names = old

        def generic_stmt(self, n):
            t = seg(n)
            return any(k in t for k in SKIP)

        def visit(self, n):
            if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.While, ast.With, ast.Try)):
                if self.generic_stmt(n):
                    return
                if self.fn and isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    return
                if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
                    return
                if self.fn and isinstance(n, ast.Expr):
                    add(n, "pass", "drop statement")
                if self.fn and isinstance(n, ast.AugAssign):
                    add(n, "pass", "drop statement")
                if self.fn and isinstance(n, ast.Assign) and len(n.targets) == 1:
                    t = n.targets[0]
                    if isinstance(t, ast.Name):
                        if t.id in self.names:
                            add(n, "pass", "drop assignment")
                        self.names.add(t.id)
                    elif isinstance(t, (ast.Subscript, ast.Attribute)) and not isinstance(n.value, ast.Constant):
                        add(n, "pass", "drop assignment")
            return super().visit(n)

        def visit_If(self, n):
            body = seg(n.body[0])
            if not any(k in body for k in SKIP) or True:
                add(n.test, "(True)", "if True")
                add(n.test, "(False)", "if False")
            self.generic_visit(n)

        def visit_Continue(self, n):
            add(n, "break", "continue->break")

        def visit_Break(self, n):
            add(n, "continue", "break->continue") if False else None

        def visit_Compare(self, n):
            if len(n.ops) == 1:
                m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(n.ops[0]))
                if m:
                    add(n, "%s %s %s" % (seg(n.left), m, seg(n.comparators[0])), "compare")
            self.generic_visit(n)

        def visit_BinOp(self, n):
            m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.Mod: "//"}.get(type(n.op))
            if m and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and "\"" not in seg(n)[:1]:
                l, r = seg(n.left), seg(n.right)
                if isinstance(n.left, ast.BinOp):
                    l = "(" + l + ")"
                if isinstance(n.right, ast.BinOp):
                    r = "(" + r + ")"
                add(n, "(%s %s %s)" % (l, m, r), "arith")
            self.generic_visit(n)

        def visit_BoolOp(self, n):
            m = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + m.join("(" + seg(v) + ")" for v in n.values) + ")", "bool")
            for i, v in enumerate(n.values):
                rest = [seg(x) for j, x in enumerate(n.values) if j != i]
                op = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + op.join("(" + x + ")" for x in rest) + ")", "drop term")
            self.generic_visit(n)

        def visit_UnaryOp(self, n):
            if isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
                add(n, "(%s)" % seg(n.operand), "unary")
            self.generic_visit(n)

        def visit_Constant(self, n):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), "const")
            elif isinstance(v, int):
                add(n, str(v + 1), "const")
                if v:
                    add(n, str(v - 1), "const")
            elif isinstance(v, float):
                add(n, repr(v * 1.1 if v else 0.1), "const")
            elif isinstance(v, str) and self.fn and v in ("first", "last", "left", "right", "inner", "outer"):
                add(n, repr({"first": "last", "last": "first", "left": "right", "right": "left", "inner": "outer", "outer": "inner"}[v]), "const")

        def visit_Call(self, n):
            for i, k in enumerate(n.keywords):
                if k.arg:
                    parts = [seg(a) for a in n.args] + [seg(x) if hasattr(x, "lineno") else "" for j, x in enumerate(n.keywords) if j != i]
                    add(n, "%s(%s)" % (seg(n.func), ", ".join(parts)), "drop keyword")
            f = n.func
            if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and f.value.id in ("np", "pd", "os", "sys")) and f.attr not in ("values",):
                add(n, "(%s)" % seg(f.value), "drop call")
            elif len(n.args) == 1 and not n.keywords:
                add(n, "(%s)" % seg(n.args[0]), "drop call")
            elif len(n.args) == 2 and not n.keywords:
                add(n, "%s(%s, %s)" % (seg(f), seg(n.args[1]), seg(n.args[0])), "swap arguments")
            self.generic_visit(n)

        def visit_Slice(self, n):
            self.generic_visit(n)

    W().visit(tree)
    res = []
    for a, b, new, kind, line in out:
        t = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(t, path, "exec")
        except SyntaxError:
            continue
        if ast.dump(ast.parse(t)) == ast.dump(tree):
            continue
        res.append((t, kind, line, raw[a:b].decode(), new))
    return res


def sh(cmd, cwd=None, env=None, timeout=1500):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def tests(copy, lane):
    w = "/tmp/muttest-" + lane
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    e = dict(os.environ, PYTHONPATH=copy + "/src", PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=w + "/numba")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "--timeout=120", "--basetemp=%s/pytest" % w]
       + ["--ignore=tests/" + t for t in ("sorcha/test_demo_chunking.py", "sorcha/test_demo_command_line.py", "sorcha/test_demo_end2end.py",
                                           "sorcha/test_sorcha_copy_demo_files.py", "ephemeris/test_pixdict.py")]
       + ["-o", "junit_family=xunit2", "--junitxml=%s/j.xml" % w], cwd=copy, env=e)
    sh(["/usr/bin/python3", "/opt/vp/results.py", w + "/out.json", "junit:%s/j.xml" % w])
    try:
        got = set(json.load(open(w + "/out.json"))["passed"])
    except OSError:
        got = set()
    shutil.rmtree(w, ignore_errors=True)
    return not (set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got)


def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            m = mutants("/repo/src/sorcha/" + f)
            print(f, len(m))
            if os.environ.get("SHOW"):
                for i, (_, kind, line, old, new) in enumerate(m):
                    print(i, line, kind, repr(old[:60]), "->", repr(new[:60]))
        return
    outp, lane, every, offset = sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
    copy = "/tmp/mut-" + lane
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns(".pytest_cache", "docs", ".git"))
    done = set()
    if os.path.exists(outp):
        done = {(d["file"], d["i"]) for d in map(json.loads, open(outp))}
    for spec in sys.argv[6:]:
        f, checks = spec.split("=")
        path = copy + "/src/sorcha/" + f
        orig = open(path).read()
        ms = mutants(path)
        n = max(1, min(every, len(ms)))
        # "every" is the number of mutants per file, evenly spread
        idx = sorted({int((k + offset / 10.0) * len(ms) / n) for k in range(n)})
        for i in idx:
            if i >= len(ms) or (f, i) in done:
                continue
            t, kind, line, old, new = ms[i]
            open(path, "w").write(t)
            t0 = time.time()
            by = None
            for c in checks.split(","):
                e = dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE="/tmp/ev", VERIF_FAILFAST="1")
                rc, o = sh([V + "/run.sh", c, "quick"], env=e)
                if rc == 1 and "VIOLATION" in o:
                    by = c
                    break
                if rc not in (0, 1):
                    by = "%s rc=%s" % (c, rc)
            surv = tests(copy, lane) if by is None else None
            open(path, "w").write(orig)
            d = dict(file=f, i=i, line=line, kind=kind, old=old[:200], new=new[:200], caught=by, survivor=surv, s=round(time.time() - t0))
            with open(outp, "a") as g:
                g.write(json.dumps(d) + "\n")
    shutil.rmtree(copy, ignore_errors=True)


main()
