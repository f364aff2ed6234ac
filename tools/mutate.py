"""Mutation testing of the checks: mutate.py OUT.jsonl N SEED [path filter]

Draws N single-site AST mutants of /repo/src/spey, keeps those that pass the stable tests, and runs the checks mapped to the
file at a reduced scale until one reports a violation.  Works on scratch copies only.
"""
import ast, copy, glob, json, os, random, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_lib import PY, ROOT, env

MAP = {
    "math.py": "P03 P08", "helper_functions.py": "P30", "combiner/": "P35 P20 P21 P10",
    "interface/statistical_model.py": "P34 P35 P08 P06 P07 P09 P23 P24 P10 P18", "spey/__init__.py": "P25 P28 P34",
    "optimizer/": "P29 P06 P07 P23 P21", "test_statistics.py": "P11 P14 P15", "hypothesis_testing/distributions.py": "P12 P14",
    "toy_calculator.py": "P13", "upper_limits.py": "P19 P16", "asymptotic_calculator.py": "P12 P14", "hypothesis_testing/utils.py": "P12 P13",
    "contour.py": "P32", "backend_base.py": "P24 P22", "hypotest_base.py": "P35 P14 P15 P16 P17 P18 P13 P11 P32 P19",
    "model_config.py": "P22 P29 P07 P06", "base/utils.py": "P17 P19 P23", "backends/distributions.py": "P33 P01 P04 P02",
    "uncertainty_synthesizer.py": "P02 P01 P04", "default_pdf/__init__.py": "P01 P03 P04 P05 P22 P06 P07 P09 P31",
    "simple_pdf.py": "P01 P03 P04 P22 P05 P06", "third_moment.py": "P31 P01", "webutils.py": "P28", "cache.py": "P26 P10",
    "logger.py": "P27", "exceptions.py": "P34 P25", "utils.py": "P08 P14",
}
SKIP = ("about.py", "multiparam.py", "_version.py")
LOGS = {"log", "logging", "warnings"}


def checks_of(f):
    for k, v in MAP.items():
        if ("spey/" + f).endswith(k) or ("/" in k and k.endswith("/") and f.startswith(k)):
            return v.split()
    return []


class Sites(ast.NodeTransformer):
    """Enumerates (apply=None) or applies the mutation number `apply`."""

    def __init__(self, apply=None):
        self.i, self.apply, self.desc = -1, apply, None
        self.descs = []

    def hit(self, node, desc):
        self.i += 1
        d = f"line {getattr(node, 'lineno', '?')}: {desc}"
        self.descs.append(d)
        if self.i == self.apply:
            self.desc = d
            return True
        return False

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return node
        if isinstance(node.value, ast.Call):
            f = node.value.func
            while isinstance(f, (ast.Attribute, ast.Call)):
                f = f.value if isinstance(f, ast.Attribute) else f.func
            if isinstance(f, ast.Name) and f.id in LOGS:
                return node
            if self.hit(node, "delete " + ast.unparse(node)[:60]):
                return ast.copy_location(ast.Pass(), node)
        return self.generic_visit(node)

    def visit_Raise(self, node):
        return node

    def visit_Assert(self, node):
        if self.hit(node, "drop " + ast.unparse(node)[:60]):
            return ast.copy_location(ast.Pass(), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.body = [self.visit(x) for x in node.body]
        d = node.args
        for k in ("defaults", "kw_defaults"):
            setattr(d, k, [self.visit(x) if x is not None else None for x in getattr(d, k)])
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
              ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        neg = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}
        o = type(node.ops[0])
        if o in sw and self.hit(node, f"{o.__name__}->{sw[o].__name__} in {ast.unparse(node)[:60]}"):
            node.ops[0] = sw[o]()
        if o in neg and self.hit(node, f"{o.__name__}->{neg[o].__name__} in {ast.unparse(node)[:60]}"):
            node.ops[0] = neg[o]()
        return node

    def visit_BinOp(self, node):
        if isinstance(node.op, ast.Add) and any(isinstance(x, (ast.JoinedStr, ast.Constant)) and not isinstance(getattr(x, "value", None), (int, float)) for x in (node.left, node.right)):
            return node
        node = self.generic_visit(node)
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: ast.Mult}
        o = type(node.op)
        if o in sw and self.hit(node, f"{o.__name__}->{sw[o].__name__} in {ast.unparse(node)[:60]}"):
            node.op = sw[o]()
        return node

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, (ast.Not, ast.USub)) and self.hit(node, "drop unary in " + ast.unparse(node)[:60]):
            return node.operand
        return node

    def visit_BoolOp(self, node):
        node = self.generic_visit(node)
        if self.hit(node, "and<->or in " + ast.unparse(node)[:60]):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        if self.hit(node, "first operand only of " + ast.unparse(node)[:60]):
            return node.values[0]
        if self.hit(node, "last operand only of " + ast.unparse(node)[:60]):
            return node.values[-1]
        return node

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            if self.hit(node, f"{v}->{not v}"):
                return ast.copy_location(ast.Constant(not v), node)
        elif isinstance(v, (int, float)):
            w = v + 1 if isinstance(v, int) else (v * 1.3 if v else 0.1)
            if self.hit(node, f"{v}->{w}"):
                return ast.copy_location(ast.Constant(w), node)
        return node

    def visit_IfExp(self, node):
        node = self.generic_visit(node)
        if self.hit(node, "always the first of " + ast.unparse(node)[:60]):
            return node.body
        if self.hit(node, "always the second of " + ast.unparse(node)[:60]):
            return node.orelse
        return node

    def visit_If(self, node):
        node = self.generic_visit(node)
        if self.hit(node, "if True: was " + ast.unparse(node.test)[:60]):
            node.test = ast.Constant(True)
        if self.hit(node, "if False: was " + ast.unparse(node.test)[:60]):
            node.test = ast.Constant(False)
        return node

    def visit_Call(self, node):
        f = node.func
        while isinstance(f, (ast.Attribute, ast.Call)):
            f = f.value if isinstance(f, ast.Attribute) else f.func
        if isinstance(f, ast.Name) and f.id in LOGS:
            return node
        node = self.generic_visit(node)
        for k in list(node.keywords):
            if k.arg is not None and self.hit(node, f"drop {k.arg}= of {ast.unparse(node.func)[:50]}"):
                node.keywords.remove(k)
                break
            if k.arg is None and self.hit(node, f"drop ** of {ast.unparse(node.func)[:50]}"):
                node.keywords.remove(k)
                break
        names = {"min": "max", "max": "min", "any": "all", "all": "any", "floor": "ceil", "sort": "ravel"}
        n = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", None)
        if n in names and self.hit(node, f"{n}->{names[n]} in {ast.unparse(node)[:60]}"):
            if isinstance(node.func, ast.Attribute):
                node.func.attr = names[n]
            else:
                node.func.id = names[n]
        if n in ("copy", "deepcopy") and (node.args or isinstance(node.func, ast.Attribute)) and self.hit(node, "no copy in " + ast.unparse(node)[:60]):
            return node.args[0] if node.args else node.func.value
        return node


def sites(path):
    s = Sites()
    s.visit(ast.parse(open(path).read()))
    return s.descs


def run_one(m, wt):
    f, k = m["file"], m["site"]
    src = open(f"/repo/src/spey/{f}").read()
    s = Sites(k)
    tree = ast.fix_missing_locations(s.visit(ast.parse(src)))
    try:
        txt = ast.unparse(tree)
        compile(txt, f, "exec")
    except Exception as err:
        return {**m, "result": "invalid", "err": repr(err)}
    target = f"{wt}/src/spey/{f}"
    open(target, "w").write(txt)
    m = {**m, "desc": s.desc}
    try:
        e = env(wt)
        try:
            t = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60", "--deselect",
                                "tests/test_pkg_init.py::test_available_backends_and_get_backend_bibtex", "tests"],
                               cwd=wt, env=e, capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            return {**m, "result": "tests-hang"}
        if t.returncode:
            return {**m, "result": "tests"}
        out = {}
        for p in checks_of(f):
            e2 = env(wt, True)
            e2["VERIF_EVIDENCE_DIR"] = f"{wt}/ev"
            os.makedirs(f"{wt}/ev", exist_ok=True)
            try:
                r = subprocess.run([PY, "run.py", p, "--scale", SCALE], cwd=ROOT_COPY, env=e2, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                out[p] = "timeout"
                continue
            out[p] = r.returncode
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return {**m, "result": "caught", "by": p, "checks": out}
        return {**m, "result": "survived", "checks": out}
    finally:
        open(target, "w").write(src)


if __name__ == "__main__":
    outf, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    flt = sys.argv[4] if len(sys.argv) > 4 else ""
    SCALE = os.environ.get("SCALE", "0.3")
    J = int(os.environ.get("J", "3"))
    ROOT_COPY = tempfile.mkdtemp(prefix="mutv_", dir="/tmp")
    for x in ("run.py", "harness", "checks", "known_findings.json", "properties.jsonl", "tools"):
        subprocess.run(["cp", "-a", f"{ROOT}/{x}", ROOT_COPY], check=True)
    every = []
    for p in sorted(glob.glob("/repo/src/spey/**/*.py", recursive=True)):
        f = os.path.relpath(p, "/repo/src/spey")
        if f in SKIP or os.path.basename(f) in SKIP or (flt and flt not in f) or not checks_of(f):
            continue
        every += [{"file": f, "site": i, "desc": d} for i, d in enumerate(sites(p))]
    print(len(every), "sites", flush=True)
    done = set()
    for g in glob.glob("/tmp/mut_*.jsonl"):
        for l in open(g):
            d = json.loads(l)
            done.add((d["file"], d["desc"]))
    rng = random.Random(seed)
    rng.shuffle(every)
    # even out over the files
    cnt, pick = {}, []
    every = [m for m in every if (m["file"], m["desc"]) not in done]
    tot = {}
    for m in every:
        tot[m["file"]] = tot.get(m["file"], 0) + 1
    w = {f: max(4, int(round(n * (c ** 0.7) / sum(x ** 0.7 for x in tot.values())))) for f, c in tot.items()}
    for m in every:
        if cnt.get(m["file"], 0) < w[m["file"]]:
            cnt[m["file"]] = cnt.get(m["file"], 0) + 1
            pick.append(m)
    wts = [tempfile.mkdtemp(prefix="mutw_", dir="/tmp") for _ in range(J)]
    for w_ in wts:
        shutil.rmtree(w_)
        subprocess.run(["cp", "-a", "/repo", w_], check=True)
    free, lock = list(wts), threading.Lock()

    def job(m):
        with lock:
            wt = free.pop()
        try:
            r = run_one(m, wt)
        except Exception as err:
            r = {**m, "result": "error", "err": repr(err)}
        with lock:
            free.append(wt)
            open(outf, "a").write(json.dumps(r) + "\n")
    with ThreadPoolExecutor(J) as ex:
        list(ex.map(job, pick))
    for w_ in wts + [ROOT_COPY]:
        shutil.rmtree(w_)
