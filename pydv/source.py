"""Mechanical extraction of the code under verification: every run parses /repo's current files.
Dropped: docstrings, comments, type annotations, `@overload` stubs, `if TYPE_CHECKING` blocks."""
from __future__ import annotations
import ast
import os

REPO_DIR = os.environ.get("PYDV_REPO", "/repo")
VERIF_DIR = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class FuncInfo:
    def __init__(self, module, qual, node, cls=None):
        self.module, self.qual, self.node, self.cls = module, qual, node, cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.is_static = self.is_class = self.is_property = self.is_abstract = False
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            n = ast.unparse(d)
            self.decorators.append(n)
            base = n.split("(")[0]
            if base == "staticmethod":
                self.is_static = True
            elif base == "classmethod":
                self.is_class = True
            elif base in ("property", "functools.cached_property", "cached_property"):
                self.is_property = True
            elif base.endswith("abstractmethod"):
                self.is_abstract = True
        self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    @property
    def full(self):
        return f"{self.module.name}:{self.qual}"

    def __repr__(self):
        return f"<fn {self.full}>"


def walk_own(fn):
    """nodes of a function excluding nested function bodies"""
    stack = list(getattr(fn, "body", [])) if not isinstance(fn, ast.Lambda) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            stack.append(c)


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.qual = f"{module.name}:{node.name}"
        self.methods, self.consts, self.setters = {}, {}, {}
        self.bases = [ast.unparse(b.value if isinstance(b, ast.Subscript) else b) for b in node.bases]
        self.is_dataclass = any(ast.unparse(d).split("(")[0].endswith("dataclass") for d in node.decorator_list)
        self.dataclass_args = next((ast.unparse(d) for d in node.decorator_list if "dataclass" in ast.unparse(d)), "")
        self.annotated = []          # (name, default node or None) in order
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(module, f"{node.name}.{st.name}", st, self)
                if any(d.split("(")[0].endswith("overload") for d in fi.decorators):
                    continue
                if any(d.endswith(".setter") for d in fi.decorators):
                    self.setters[st.name] = fi
                    continue
                self.methods[st.name] = fi
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.consts[st.targets[0].id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.annotated.append((st.target.id, st.value))
                if st.value is not None:
                    self.consts[st.target.id] = st.value
        self._mro = None

    def base_infos(self):
        out = []
        for b in self.bases:
            r = self.module.resolve(b)
            if r and r[0] == "class":
                out.append(r[1])
        return out

    def mro(self):
        if self._mro is None:
            # C3 is not needed: the repository has no diamond with conflicting overrides
            out = [self]
            for b in self.base_infos():
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
            self._mro = out
        return self._mro

    def all_base_names(self):
        names = set()
        for c in self.mro():
            names.add(c.name)
            names.update(x.split(".")[-1] for x in c.bases)
        return names

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return ("method", c.methods[name])
            if name in c.consts:
                v = c.consts[name]
                if isinstance(v, ast.Name) and v.id in c.methods:
                    return ("method", c.methods[v.id])
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
                    r = c.module.resolve(v.value.id)
                    if r and r[0] == "class" and r[1] is not c:
                        lk = r[1].lookup(v.attr)
                        if lk and lk[0] == "method":
                            return lk
                return ("const", (c, v))
        return None

    def issubclass(self, other):
        return other in self.mro()

    def is_enum(self):
        return bool(self.all_base_names() & {"Enum", "StrEnum", "IntEnum"})

    def enum_members(self):
        out = []
        for st in self.node.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                nm = st.targets[0].id
                if nm.startswith("_"):
                    continue
                try:
                    v = ast.literal_eval(st.value)
                except Exception:
                    v = ("auto", nm)
                out.append((nm, v))
        return out

    def __repr__(self):
        return f"<class {self.qual}>"


class Module:
    def __init__(self, name, path, repo):
        self.name, self.path, self.repo = name, path, repo
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self._scan(self.tree.body)
        stub = path + "i"
        if self.is_pkg and "attach_stub" in self.src and os.path.isfile(stub):
            # lazily loaded packages bind the names listed in their stub file
            with open(stub, encoding="utf-8") as f:
                self._scan(ast.parse(f.read()).body)

    def _pkg(self):
        return self.name if self.is_pkg else self.name.rsplit(".", 1)[0]

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                fi = FuncInfo(self, st.name, st)
                if any(d.split("(")[0].endswith("overload") for d in fi.decorators):
                    continue
                self.funcs[st.name] = fi
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = st.value
                    elif isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
                        for i, e in enumerate(t.elts):
                            if isinstance(st.value, ast.Tuple):
                                self.consts[e.id] = st.value.elts[i]
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.consts[st.target.id] = st.value
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    p = self._pkg().split(".")
                    p = p[: len(p) - (st.level - 1)]
                    base = ".".join(p + ([st.module] if st.module else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = (base, a.name)
            elif isinstance(st, ast.If):
                if "TYPE_CHECKING" in ast.unparse(st.test):
                    self._scan(st.body)

    def resolve(self, name):
        """name (possibly dotted) -> ('func'|'class'|'const'|'module'|'ext', obj)"""
        head, _, rest = name.partition(".")
        r = self._resolve1(head)
        while rest and r is not None:
            head, _, rest = rest.partition(".")
            if r[0] == "module":
                r = r[1]._resolve1(head) or (("ext", f"{r[1].name}.{head}") if False else None)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + head)
            elif r[0] == "class":
                lk = r[1].lookup(head)
                r = None if lk is None else (("func", lk[1]) if lk[0] == "method" else ("classconst", lk[1]))
            else:
                r = None
        return r

    def _resolve1(self, n, seen=None):
        if n in self.funcs:
            return ("func", self.funcs[n])
        if n in self.classes:
            return ("class", self.classes[n])
        if n in self.consts:
            return ("const", (self, self.consts[n], n))
        if n in self.imports:
            base, attr = self.imports[n]
            seen = seen or set()
            if (self.name, n) in seen:
                return None
            seen.add((self.name, n))
            if base.split(".")[0] in ("postbound", "contracts", "pydv"):
                if attr is None:
                    m = self.repo.module(base)
                    return ("module", m) if m else None
                m = self.repo.module(base)
                if m:
                    r = m._resolve1(attr, seen)
                    if r:
                        return r
                sub = self.repo.module(base + "." + attr)
                if sub:
                    return ("module", sub)
                if base.startswith("pydv"):
                    return ("ext", f"{base}.{attr}")
                return None
            return ("ext", base if attr is None else f"{base}.{attr}")
        if self.is_pkg:
            sub = self.repo.module(self.name + "." + n)
            if sub:
                return ("module", sub)
        return None


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO_DIR
        self.mods = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name.startswith("postbound"):
            p = os.path.join(self.root, *name.split("."))
        else:
            p = os.path.join(VERIF_DIR, *name.split("."))
        m = None
        for cand in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.isfile(cand):
                m = Module(name, cand, self)
                break
        self.mods[name] = m
        return m

    def class_(self, qual):
        mod, cls = qual.split(":")
        m = self.module(mod)
        if m is None:
            raise KeyError(f"module {mod} not found")
        if cls in m.classes:
            return m.classes[cls]
        r = m.resolve(cls)
        if r and r[0] == "class":
            return r[1]
        raise KeyError(f"class {qual} not found")

    def func(self, qual):
        mod, q = qual.split(":")
        m = self.module(mod)
        if m is None:
            raise KeyError(f"module {mod} not found")
        if "." in q:
            c, f = q.split(".", 1)
            if c in m.classes:
                lk = m.classes[c].lookup(f)
                if lk and lk[0] == "method":
                    return lk[1]
                if lk and lk[0] == "const":      # alias such as __radd__ = __add__
                    node = lk[1][1]
                    if isinstance(node, __import__("ast").Name):
                        return self.func(f"{mod}:{c}.{node.id}")
            raise KeyError(f"function {qual} not found")
        if q in m.funcs:
            return m.funcs[q]
        raise KeyError(f"function {qual} not found")


REPO = Repo()
