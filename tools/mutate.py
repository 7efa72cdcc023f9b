"""Mutation sweep (development only; no registered check uses this).

    mutate.py gen OUT            write every mutant of /repo's sources as JSON lines
    mutate.py tests OUT          keep those that pass the stable tests (OUT.alive)
    mutate.py traces DIR         simulate every job of the quick tier once, pickled
    mutate.py run OUT.alive DIR  replay the pickled traces against each mutant (OUT.alive.res)
"""

import ast
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
from concurrent.futures import ProcessPoolExecutor, as_completed

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FILES = ["conjugate/_beta_geometric.py", "conjugate/_compound_gamma.py", "conjugate/_random.py",
         "conjugate/distributions.py", "conjugate/models.py", "conjugate/plot.py", "conjugate/slice.py"]
PY = "/opt/venv/bin/python"

BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.MatMult: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


class Gen:
    def __init__(self, path):
        self.path = path
        self.src = open(os.path.join(REPO, path)).read()
        self.raw = self.src.encode()
        self.starts = [0]
        for line in self.raw.splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(line))
        self.out = []
        self.tree = ast.parse(self.src)

    def pos(self, line, col):
        return self.starts[line - 1] + col

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def put(self, n, new, what, where):
        a, b = n if isinstance(n, tuple) else self.span(n)
        old = self.raw[a:b].decode()
        if old == new:
            return
        line = self.raw[:a].count(b"\n") + 1
        self.out.append(dict(file=self.path, a=a, b=b, old=old, new=new, what=what, where=where, line=line))

    def visit_fn(self, fn, where):
        params = [a.arg for a in fn.args.args + fn.args.kwonlyargs if a.arg not in ("self", "cls")]
        attrs = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                attrs.setdefault(n.value.id, [])
                if n.attr not in attrs[n.value.id]:
                    attrs[n.value.id].append(n.attr)
        for d in fn.args.defaults + [d for d in fn.args.kw_defaults if d]:
            self.expr(d, where, params, attrs)
        for d in fn.decorator_list:
            if self.text(d) not in ("property", "classmethod", "staticmethod"):
                a, b = self.span(d)
                self.put((a - 1, b), "", "decorator removed", where)
        body = fn.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for s in body:
            self.stmt(s, where, params, attrs)

    def stmt(self, s, where, params, attrs):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.top(s, where)
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)):
            self.put(s, "pass", "statement removed", where)
        if isinstance(s, ast.Return) and s.value is not None:
            pass
        if isinstance(s, ast.If):
            self.put(s.test, "True", "condition true", where)
            self.put(s.test, "False", "condition false", where)
        for f, v in ast.iter_fields(s):
            if f == "annotation":
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.stmt):
                    self.stmt(x, where, params, attrs)
                elif isinstance(x, ast.expr):
                    self.expr(x, where, params, attrs)
                elif isinstance(x, ast.AST):
                    for y in ast.iter_child_nodes(x):
                        if isinstance(y, ast.stmt):
                            self.stmt(y, where, params, attrs)
                        elif isinstance(y, ast.expr):
                            self.expr(y, where, params, attrs)

    def expr(self, e, where, params, attrs):
        for n in ast.walk(e):
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                a, b = self.span(n.left)[1], self.span(n.right)[0]
                gap = self.raw[a:b].decode()
                new = re.sub(r"(\*\*|//|[-+*/%@])", BIN[type(n.op)], gap, count=1)
                self.put((a, b), new, "operator", where)
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = self.span(n.left)[1], self.span(n.comparators[0])[0]
                self.put((a, b), f" {CMP[type(n.ops[0])]} ", "comparison", where)
            elif isinstance(n, ast.BoolOp):
                a, b = self.span(n.values[0])[1], self.span(n.values[1])[0]
                self.put((a, b), " or " if isinstance(n.op, ast.And) else " and ", "connective", where)
            elif isinstance(n, ast.UnaryOp):
                self.put(n, self.text(n.operand), "unary removed", where)
            elif isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    self.put(n, str(not n.value), "constant", where)
                elif isinstance(n.value, (int, float)):
                    self.put(n, str(n.value + 1), "constant", where)
                    if n.value not in (0, 1):
                        self.put(n, "1", "constant", where)
                elif n.value is None:
                    self.put(n, "0", "constant", where)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                if n.value.id in ("np", "stats", "ss", "plt", "math"):
                    continue
                for o in attrs.get(n.value.id, [])[:4]:
                    if o != n.attr:
                        self.put(n, f"{n.value.id}.{o}", "attribute", where)
            elif isinstance(n, ast.Name) and n.id in params and isinstance(n.ctx, ast.Load):
                for o in params:
                    if o != n.id:
                        self.put(n, o, "name", where)
                        break
            elif isinstance(n, ast.Call):
                for i, k in enumerate(n.keywords):
                    a, b = self.pos(k.lineno, k.col_offset), self.pos(k.end_lineno, k.end_col_offset)
                    rest = self.raw[b:]
                    m = re.match(rb"\s*,\s*", rest)
                    self.put((a, b + (m.end() if m else 0)), "", "keyword dropped", where)
                if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                    self.put(n, "(" + self.text(n.args[0]) + ")", "call skipped", where)
                if len(n.args) >= 2:
                    x, y = n.args[:2]
                    a, b = self.span(x)[0], self.span(y)[1]
                    mid = self.raw[self.span(x)[1]:self.span(y)[0]].decode()
                    self.put((a, b), self.text(y) + mid + self.text(x), "arguments swapped", where)
                if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                    self.put(n, self.text(n.func.value), "method skipped", where)
            elif isinstance(n, ast.IfExp):
                self.put(n, self.text(n.body), "condition true", where)
                self.put(n, self.text(n.orelse), "condition false", where)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                self.put(n, self.text(n.value), "subscript dropped", where)

    def top(self, n, where=""):
        w = f"{where}.{n.name}" if where else n.name
        if isinstance(n, ast.FunctionDef):
            self.visit_fn(n, w)
        elif isinstance(n, ast.ClassDef):
            for s in n.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    self.top(s, w)
                elif isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                    self.expr(s.value, w, [], {})

    def all(self):
        for n in self.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.top(n)
        seen, out = set(), []
        for m in self.out:
            k = (m["a"], m["b"], m["new"])
            src = mutated(m, self.raw)
            if k in seen:
                continue
            seen.add(k)
            try:
                t = ast.parse(src)
            except SyntaxError:
                continue
            if ast.dump(t) != ast.dump(self.tree):
                out.append(m)
        return out


def mutated(m, raw):
    return (raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]).decode()


def tree(m):
    d = f"/tmp/mut/t{os.getpid()}"
    if not os.path.isdir(d):
        os.makedirs(d)
        for x in ("conjugate", "tests", "pyproject.toml"):
            s = os.path.join(REPO, x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x))
    for f in FILES:
        raw = open(os.path.join(REPO, f), "rb").read()
        with open(os.path.join(d, f), "wb") as h:
            h.write(mutated(m, raw).encode() if m and f == m["file"] else raw)
    return d


def test_one(m):
    d = tree(m)
    env = dict(os.environ, PYTHONPATH=d, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-cov", "tests"],
                           cwd=d, env=env, capture_output=True, text=True, timeout=120)
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def relevant(m):
    f, w = m["file"], m["where"]
    if f.endswith("models.py"):
        if re.search("valid|check|NotFound|wrapper", w):
            return ["C15"]
        if re.search("multivariate|linear_regression", w):
            return ["C08" if "predictive" in w else "C04", "C13", "C06", "C15", "C14"]
        if re.search("^(get_)?(normal|log_normal)", w):
            return ["C08" if "predictive" in w else "C03", "C13", "C15", "C11", "C06"]
        if re.search("binomial|bernoulli|geometric|categorical|multinomial|poisson", w):
            return ["C07" if "predictive" in w else "C01", "C13", "C15", "C06", "C11"]
        if re.search("exponential|known_shape|inverse_gamma|pareto|uniform|weibull", w):
            return ["C08" if "predictive" in w else "C02", "C13", "C15", "C06", "C11"]
        return ["C05", "C13", "C15", "C06", "C11", "C01", "C02", "C03", "C07", "C08"]
    if f.endswith("distributions.py"):
        last = w.split(".")[-1]
        if re.search("sample|rvs", last):
            return ["C22", "C20", "C14"]
        if re.search("log_likelihood", last):
            return ["C05", "C13", "C11"]
        if re.search("mul|add", last):
            return ["C16", "C14"]
        if last == "__getitem__":
            return ["C12", "C14"]
        if last == "__post_init__":
            return ["C21", "C18", "C17", "C12", "C14"]
        if last == "dist":
            return ["C09", "C18", "C10", "C22", "C07", "C08"]
        if re.search("from_|uninf|to_|inverse|gamma|wishart|get_", last):
            return ["C17", "C22", "C08", "C11", "C15"]
        return ["C21", "C09", "C17", "C16", "C12", "C22", "C18"]
    if f.endswith("plot.py"):
        return ["C18", "C19", "C21", "C14"]
    if f.endswith("slice.py"):
        return ["C12", "C18", "C14", "C11"]
    return ["C10", "C22", "C20", "C09", "C07", "C12", "C14"]


def run_one(m, traces):
    d = tree(m)
    env = dict(os.environ, VERIF_REPO=d, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1")
    for c in relevant(m):
        try:
            p = subprocess.run([PY, "-B", os.path.abspath(__file__), "replay", traces, c], cwd=HERE, env=env,
                               capture_output=True, text=True, timeout=1500)
        except subprocess.TimeoutExpired:
            return c, "TIMEOUT"
        if p.returncode == 1:
            return c, p.stdout.strip().splitlines()[-1][:300]
        if p.returncode != 0:
            return c, "RC%d " % p.returncode + (p.stdout + p.stderr)[-600:]
    return "", "SURVIVED"


def replay(traces, prop):
    sys.path.insert(0, HERE)
    from harness import core

    listed = core.known_findings(prop)
    try:
        from harness import real  # noqa: F401
    except Exception as e:
        print(json.dumps({"clause": "import", **core.crash_info(e)}))
        return 1
    from importlib import import_module

    part = int(os.environ.get("PART", "1"))  # replay every PARTth trace
    for kind, opts, meta, limit, trs in pickle.load(open(os.path.join(traces, prop + ".pkl"), "rb")):
        trs = trs[::part]
        res = core.Result()
        core.replay_traces(trs, import_module(f"harness.{kind}").replayer(opts), res, meta, limit, max_viol=1)
        bad = res.violations + [k for k in res.known if not [t for t in listed if t.split(" ", 1)[0] == k]]
        if bad:
            print(json.dumps(bad[0], default=repr))
            return 1
        if res.machinery:
            print(res.machinery[0])
            return 2
    return 0


def sim_one(prop, i, a):
    sys.path.insert(0, HERE)
    from harness import core

    trs = core.quint_run(a["spec"], a["main"], a["seed"], a["samples"], a["steps"], timeout=3000)
    meta = {"spec": a["spec"], "module": a["main"], "seed": a["seed"]}
    return prop, i, (a["kind"], a["opts"], meta, a.get("limit", 60), trs)


def main():
    cmd = sys.argv[1]
    os.makedirs("/tmp/mut", exist_ok=True)
    if cmd == "gen":
        n = 0
        with open(sys.argv[2], "w") as f:
            for p in FILES:
                for m in Gen(p).all():
                    m["id"] = n
                    n += 1
                    f.write(json.dumps(m) + "\n")
        print(n)
    elif cmd == "tests":
        ms = [json.loads(x) for x in open(sys.argv[2])]
        alive = 0
        with ProcessPoolExecutor(8) as ex, open(sys.argv[2] + ".alive", "w") as f:
            fs = {ex.submit(test_one, m): m for m in ms}
            for k in as_completed(fs):
                if k.result():
                    alive += 1
                    f.write(json.dumps(fs[k]) + "\n")
                    f.flush()
        print(alive, "of", len(ms))
    elif cmd == "traces":
        sys.path.insert(0, HERE)
        os.environ.setdefault("VERIF_REPO", REPO)
        from harness.checks import CHECKS

        os.makedirs(sys.argv[2], exist_ok=True)
        for p, c in CHECKS.items():
            f = os.path.join(sys.argv[2], p + ".pkl")
            if os.path.exists(f) or (len(sys.argv) > 3 and p not in sys.argv[3:]):
                continue
            with ProcessPoolExecutor(8) as ex:
                fs = [ex.submit(sim_one, p, i, a) for i, (_, a) in enumerate(x for j in c["jobs"] for x in j("quick", 1))]
                v = [k.result()[2] for k in fs]
            with open(f, "wb") as h:
                pickle.dump(v, h)
    elif cmd == "replay":
        return replay(sys.argv[2], sys.argv[3])
    elif cmd == "run":
        ms = [json.loads(x) for x in open(sys.argv[2])]
        res = sys.argv[2] + ".res"
        done = set()
        if os.path.exists(res):
            done = {json.loads(x)["id"] for x in open(res)}
        with ProcessPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex, open(res, "a") as f:
            fs = {ex.submit(run_one, m, sys.argv[3]): m for m in ms if m["id"] not in done}
            for k in as_completed(fs):
                c, msg = k.result()
                f.write(json.dumps({**fs[k], "by": c, "msg": msg}) + "\n")
                f.flush()
    return 0


if __name__ == "__main__":
    sys.exit(main())
