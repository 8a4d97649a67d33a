"""mutate.py N SEED OUT [file-substring …]: random source mutations of functions in a copy of /repo, and which checks see them.
Self-test of the machinery (not a check): survivors are reviewed by hand."""
import ast, copy, json, os, random, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS_OF = {
    "postbound/_core.py": ["C03", "C04"],
    "postbound/_hints.py": ["C02", "C01", "C05", "C08"],
    "postbound/_qep.py": ["C07", "C08", "C06"],
    "postbound/_pipelines.py": ["C10"],
    "postbound/_stages.py": ["C10"],
    "postbound/validation.py": ["C09"],
}


class Mut(ast.NodeTransformer):
    """counts mutation points; applies the chosen one"""
    def __init__(self, pick=None):
        self.n = 0
        self.pick = pick
        self.desc = None

    def point(self, node, f, what):
        i = self.n
        self.n += 1
        if i == self.pick:
            new = f()
            self.desc = f"line {getattr(node, 'lineno', '?')}: {what}: {ast.unparse(node)[:100]}  ==>  {ast.unparse(new)[:100] if new is not None else '-'}"
            return new
        return node

    CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot,
           ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

    def visit_Compare(self, n):
        self.generic_visit(n)
        def f():
            m = copy.deepcopy(n)
            m.ops[0] = self.CMP[type(n.ops[0])]()
            return m
        return self.point(n, f, "compare")

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        def f():
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return m
        r = self.point(n, f, "boolop")
        if r is n:
            r = self.point(n, lambda: n.values[0], "drop operand")
        if r is n:
            r = self.point(n, lambda: n.values[-1], "drop operand")
        return r

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return self.point(n, lambda: n.operand, "drop not")
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        T = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.Mult: ast.Add, ast.Div: ast.Mult}
        if type(n.op) in T:
            def f():
                m = copy.deepcopy(n)
                m.op = T[type(n.op)]()
                return m
            return self.point(n, f, "binop")
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        r = self.point(n, lambda: n.body, "ifexp body")
        return r if r is not n else self.point(n, lambda: n.orelse, "ifexp orelse")

    def visit_If(self, n):
        self.generic_visit(n)
        def neg():
            m = copy.deepcopy(n)
            m.test = ast.UnaryOp(ast.Not(), m.test)
            return m
        def no():
            m = copy.deepcopy(n)
            m.test = ast.Constant(False)
            return m
        r = self.point(n, neg, "negate if")
        return r if r is not n else self.point(n, no, "if False")

    def visit_Call(self, n):
        self.generic_visit(n)
        r = n
        if n.keywords:
            def f():
                m = copy.deepcopy(n)
                m.keywords.pop()
                return m
            r = self.point(n, f, "drop kwarg")
        if r is n and len(n.args) >= 2 and not isinstance(n.args[0], ast.Starred):
            def g():
                m = copy.deepcopy(n)
                m.args[0], m.args[1] = m.args[1], m.args[0]
                return m
            r = self.point(n, g, "swap args")
        if r is n and isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "max", "min"):
            def h():
                m = copy.deepcopy(n)
                m.func.id = {"any": "all", "all": "any", "max": "min", "min": "max"}[n.func.id]
                return m
            r = self.point(n, h, "any/all")
        return r

    def visit_comprehension(self, n):
        self.generic_visit(n)
        if n.ifs:
            def f():
                m = copy.deepcopy(n)
                m.ifs = []
                return m
            return self.point(n, f, "drop comp if")
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            return self.point(n, lambda: ast.Constant(not n.value), "bool")
        if isinstance(n.value, int):
            return self.point(n, lambda: ast.Constant(n.value + 1), "int")
        return n

    def stmt(self, n):
        self.generic_visit(n)
        return self.point(n, lambda: ast.Pass(), "drop stmt")

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return n
        return self.stmt(n)

    def visit_AugAssign(self, n):
        return self.stmt(n)

    def visit_Raise(self, n):
        return self.point(n, lambda: ast.Pass(), "drop raise")

    def visit_Assign(self, n):
        self.generic_visit(n)
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            return self.point(n, lambda: ast.Pass(), "drop assign")
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and not isinstance(n.value, ast.Constant):
            return self.point(n, lambda: ast.Return(ast.Constant(None)), "return None") if False else n
        return n


def functions(path):
    tree = ast.parse(open(path).read())
    out = []
    def walk(node, pre):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.ClassDef):
                walk(c, pre + c.name + ".")
            elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((pre + c.name, c))
    walk(tree, "")
    return tree, out


SKIP = ("__repr__", "__str__", "inspect", "ast", "_gen_", "plot", "__json__", "describe", "inspectify")


def main():
    n, seed, outp, subs = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4:]
    rng = random.Random(seed)
    work = f"/tmp/mut/w{seed}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    subprocess.run(["cp", "-a", "/repo", f"{work}/repo"], check=True)
    subprocess.run(["rsync", "-a", "--exclude", "seeded", "--exclude", "evidence", "--exclude", ".git", f"{HERE}/", f"{work}/verif"], check=False)
    if not os.path.exists(f"{work}/verif/check.py"):
        subprocess.run(["cp", "-a", HERE, f"{work}/verif"], check=True)
    index = json.load(open(f"{work}/verif/contracts/index.json"))
    cands = []
    only_fn = os.environ.get("FN")
    for f in json.loads(os.environ.get("FILES", "null")) or PROPS_OF:
        tree, fns = functions(f"{work}/repo/{f}")
        for name, fn in fns:
            if name.rsplit(".", 1)[-1] in SKIP or (only_fn and only_fn not in name):
                continue
            m = Mut()
            m.visit(copy.deepcopy(fn))
            cands += [(f, name, i) for i in range(m.n)]
    if subs:
        cands = [c for c in cands if any(s in c[0] + ":" + c[1] for s in subs)]
    rng.shuffle(cands)
    out = open(outp, "a")
    props_env = os.environ.get("PROPS")
    for f, name, i in cands[:n]:
        src = open(f"/repo/{f}").read()
        tree, fns = functions(f"{work}/repo/{f}")
        fn = dict(fns)[name]
        m = Mut(i)
        new = copy.deepcopy(fn)
        new = m.visit(new)
        ast.fix_missing_locations(new)
        lines = src.split("\n")
        a = min([fn.lineno] + [d.lineno for d in fn.decorator_list])
        ind = " " * fn.col_offset
        body = "\n".join(ind + l for l in ast.unparse(new).split("\n"))
        mutated = "\n".join(lines[:a - 1] + [body] + lines[fn.end_lineno:])
        with open(f"{work}/repo/{f}", "w") as fh:
            fh.write(mutated)
        props = props_env.split(",") if props_env else PROPS_OF[f]
        seen = []
        env = dict(os.environ, PYDV_REPO=f"{work}/repo")
        for p in props:
            try:
                r = subprocess.run(["python3-vt", "check.py", p], cwd=f"{work}/verif", env=env, capture_output=True, text=True, timeout=900)
                v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
                if v:
                    seen.append(p + ("" if any("no-failing" not in x for x in v) else "(proof)"))
                    break
            except subprocess.TimeoutExpired:
                seen.append(p + " timeout")
        out.write(json.dumps({"file": f, "fn": name, "i": i, "desc": m.desc, "seen": seen}) + "\n")
        out.flush()
        with open(f"{work}/repo/{f}", "w") as fh:
            fh.write(src)
    shutil.rmtree(work, ignore_errors=True)


main()
