"""Program model: modules, classes, functions, imports and method resolution of the package under /repo/src/corrct."""
from __future__ import annotations
import ast
import hashlib
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "corrct"


class AnalysisBroken(Exception):
    """An anchor the rules need has vanished: exit with an error, never a silent pass."""


class ClassInfo:
    def __init__(self, name, mod, node, outer=None):
        self.name, self.mod, self.node = name, mod, node
        self.qual = f"{mod.name}.{name}"
        self.methods = {}
        self.setters = {}
        self.class_assigns = {}
        self.annots = {}
        self.bases = []  # ClassInfo | str (external dotted)
        self.subclasses = []
        self.is_dataclass = False
        self.fields = []
        self.decorators = []
        for d in node.decorator_list:
            self.decorators.append(ast.unparse(d))
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = [ast.unparse(d) for d in s.decorator_list]
                if any(d.endswith(".setter") for d in decs):
                    self.setters[s.name] = s
                    continue
                if any(d.split(".")[-1] == "overload" for d in decs):
                    continue
                self.methods[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.class_assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.annots[s.target.id] = s.annotation
                if s.value is not None:
                    self.class_assigns[s.target.id] = s.value
        self.is_dataclass = any(d.split("(")[0].split(".")[-1] == "dataclass" for d in self.decorators)

    def mro(self):
        # C3 is unnecessary for this package's hierarchies (single chains plus ABC mixins): depth-first, last duplicate wins
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, ClassInfo) else [b]):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.methods:
                return c, c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.setters:
                return c, c.setters[name]
        return None

    def all_subclasses(self):
        out, st = [], list(self.subclasses)
        while st:
            c = st.pop()
            if c not in out:
                out.append(c)
                st.extend(c.subclasses)
        return out

    def is_sub(self, other):
        return other in self.mro()

    def ext_bases(self):
        return [b for b in self.mro() if isinstance(b, str)]

    def is_abstract_method(self, name):
        r = self.find(name)
        return r is not None and any("abstractmethod" in ast.unparse(d) for d in r[1].decorator_list)

    @property
    def is_abstract(self):
        """Some method is abstract and not implemented."""
        return any(self.is_abstract_method(n) for c in self.mro() if isinstance(c, ClassInfo) for n in c.methods)

    def __repr__(self):
        return f"<class {self.qual}>"


class Module:
    def __init__(self, name, path, tree, src, is_pkg):
        self.name, self.path, self.tree, self.src, self.is_pkg = name, path, tree, src, is_pkg
        self.imports = {}
        self.functions = {}
        self.classes = {}
        self.assigns = {}
        self.annots = {}


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, "src", PKG)
        self.modules = {}
        self.by_qual_class = {}
        self.digest = hashlib.sha256()
        for dp, dn, fn in sorted(os.walk(self.root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f))
        if len(self.modules) < 10:
            raise AnalysisBroken(f"only {len(self.modules)} modules found under {self.root}")
        self._link()

    def _load(self, path):
        rel = os.path.relpath(path, os.path.dirname(self.root))[:-3]
        parts = rel.split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        name = ".".join(parts)
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        self.digest.update(src.encode())
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken(f"{path}: {e}")
        m = Module(name, path, tree, src, is_pkg)
        self.modules[name] = m
        self._scan(m, tree.body)

    def _scan(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(ast.unparse(d).split(".")[-1] == "overload" for d in s.decorator_list):
                    continue
                m.functions[s.name] = s
            elif isinstance(s, ast.ClassDef):
                m.classes[s.name] = ClassInfo(s.name, m, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.assigns[s.target.id] = s.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    m.imports[a.asname or a.name] = f"{base}.{a.name}"
            elif isinstance(s, ast.Try):
                self._scan(m, s.body)
                for h in s.handlers:
                    self._scan_missing(m, h.body)
            elif isinstance(s, ast.If):
                self._scan(m, s.body)
                self._scan_missing(m, s.orelse)

    def _scan_missing(self, m, body):
        keep = (dict(m.imports), dict(m.functions), dict(m.classes), dict(m.assigns))
        self._scan(m, body)
        for new, old in zip((m.imports, m.functions, m.classes, m.assigns), keep):
            new.update(old)

    def resolve(self, dotted):
        """Resolve a dotted name to ('mod',Module) / ('class',ClassInfo) / ('func',(Module,node)) / ('glob',(Module,name)) / ('ext',dotted)."""
        seen = 0
        while True:
            seen += 1
            if seen > 20:
                return "ext", dotted
            if dotted in self.modules:
                return "mod", self.modules[dotted]
            if not (dotted == PKG or dotted.startswith(PKG + ".")):
                return "ext", dotted
            parts = dotted.split(".")
            for i in range(len(parts) - 1, 0, -1):
                mn = ".".join(parts[:i])
                if mn in self.modules:
                    m = self.modules[mn]
                    rest = parts[i:]
                    n = rest[0]
                    if n in m.classes and len(rest) == 1:
                        return "class", m.classes[n]
                    if n in m.functions and len(rest) == 1:
                        return "func", (m, m.functions[n])
                    if n in m.imports:
                        dotted = ".".join([m.imports[n]] + rest[1:])
                        break
                    if n in m.assigns and len(rest) == 1:
                        return "glob", (m, n)
                    return "ext", dotted
            else:
                return "ext", dotted

    def resolve_name(self, m, dotted):
        """Resolve a (dotted) source name inside module m."""
        head, *rest = dotted.split(".")
        if head in m.classes:
            if not rest:
                return "class", m.classes[head]
            return "ext", dotted
        if head in m.functions:
            return "func", (m, m.functions[head])
        if head in m.imports:
            return self.resolve(".".join([m.imports[head]] + rest))
        if head in m.assigns:
            return "glob", (m, head)
        return "ext", dotted

    def _link(self):
        for m in self.modules.values():
            for c in m.classes.values():
                self.by_qual_class[c.qual] = c
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    if isinstance(b, ast.Subscript):
                        b = b.value
                    k, v = self.resolve_name(m, ast.unparse(b))
                    if k == "class":
                        c.bases.append(v)
                        v.subclasses.append(c)
                    else:
                        c.bases.append(v if isinstance(v, str) else ast.unparse(b))
        for c in self.by_qual_class.values():
            if c.is_dataclass:
                fields = {}
                for k in reversed(c.mro()):
                    if isinstance(k, ClassInfo) and k.is_dataclass:
                        for s in k.node.body:
                            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation):
                                fields[s.target.id] = (k, s)
                c.fields = [(n, k, s) for n, (k, s) in fields.items()]

    # -------------------------------------------------- anchors
    def cls(self, qual) -> ClassInfo:
        k, v = self.resolve(f"{PKG}.{qual}")
        if k != "class":
            raise AnalysisBroken(f"anchor vanished: class {PKG}.{qual}")
        return v

    def func(self, qual):
        """(Module, ClassInfo|None, node) of 'mod.func' or 'mod.Class.method'."""
        k, v = self.resolve(f"{PKG}.{qual}")
        if k == "func":
            return v[0], None, v[1]
        head, _, meth = qual.rpartition(".")
        k, c = self.resolve(f"{PKG}.{head}")
        if k == "class":
            r = c.find(meth)
            if r is not None:
                return r[0].mod, r[0], r[1]
        raise AnalysisBroken(f"anchor vanished: function {PKG}.{qual}")

    def find_func(self, qual):
        """Like func, but None when there is no such function."""
        try:
            return self.func(qual)
        except AnalysisBroken:
            return None

    def all_functions(self):
        """Yield (Module, ClassInfo|None, node) for every module-level function and method."""
        for m in self.modules.values():
            for f in m.functions.values():
                yield m, None, f
            for c in m.classes.values():
                for f in list(c.methods.values()) + list(c.setters.values()):
                    yield m, c, f


def funcqual(mod, cls, node):
    n = mod.name[len(PKG) + 1:] if mod.name != PKG else ""
    name = getattr(node, "name", "<lambda>")
    return ".".join(x for x in (n, cls.name if cls else None, name) if x)
