"""C18: every name, attribute and argument that the code uses exists."""
import ast
import builtins
import symtable
from ..effects import analyse_all
from ..model import Module, PKG, funcqual
from ..refcmp import Side
from ..terms import cofactors, show, subterms, t_and, t_not, assume, FALSE

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__annotations__", "__class__", "__module__", "__qualname__"}
OBJECT = {"__class__", "__dict__", "__doc__", "__module__", "__eq__", "__hash__", "__init__", "__repr__", "__str__", "__reduce__", "__sizeof__", "__ne__", "__setattr__", "__getattribute__", "__delattr__", "__new__",
          "__init_subclass__", "__subclasshook__", "__format__", "__dir__", "__annotations__", "__slots__", "__weakref__", "__mro__", "__name__", "__qualname__", "__subclasses__", "__bases__", "__dataclass_fields__"}
EXT_MEMBERS = {"LinearOperator": {"shape", "dtype", "ndim", "matvec", "rmatvec", "matmat", "rmatmat", "dot", "adjoint", "transpose", "H", "T", "_matvec", "_rmatvec", "_matmat", "_rmatmat", "_adjoint", "_transpose", "_init_dtype", "__call__",
                                  "__mul__", "__rmul__", "__matmul__", "__rmatmul__", "__pow__", "__add__", "__neg__", "__sub__", "__truediv__"}, "ABC": set(), "object": set(), "Generic": set(), "Protocol": set()}


# ---- names

def module_names(tree):
    """(names bound at module level at run time, whether a star import makes them unknowable)"""
    out, star = set(), False

    def targets(t):
        return [n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]

    def walk(body):
        nonlocal star
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(s.name)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    star |= a.name == "*"
                    out.add(a.asname or a.name.split(".")[0])
            elif isinstance(s, ast.If):
                if "TYPE_CHECKING" not in ast.unparse(s.test):
                    walk(s.body)
                walk(s.orelse)
            elif isinstance(s, ast.Try):
                walk(s.body + s.orelse + s.finalbody)
                for h in s.handlers:
                    if h.name:
                        out.add(h.name)
                    walk(h.body)
            elif isinstance(s, (ast.For, ast.While)):
                out.update(targets(s.target) if isinstance(s, ast.For) else [])
                walk(s.body + s.orelse)
            elif isinstance(s, ast.With):
                for i in s.items:
                    if i.optional_vars is not None:
                        out.update(targets(i.optional_vars))
                walk(s.body)
            elif isinstance(s, ast.Match):
                for c in s.cases:
                    out.update(n.name for n in ast.walk(c.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name)
                    walk(c.body)
            elif isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                if not isinstance(s, ast.AnnAssign) or s.value is not None:
                    out.update(targets(s))
            for n in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.If, ast.Try, ast.For, ast.While, ast.With)) else ():
                if isinstance(n, ast.NamedExpr):
                    out.add(n.target.id)
    walk(tree.body)
    for n in ast.walk(tree):
        if isinstance(n, ast.Global):
            out.update(n.names)
    return out, star


class NoAnnotations(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        n.annotation = ast.copy_location(ast.Constant(0), n)
        return n


def global_reads(m, tree):
    """(scope, name) for every name read from the module or the builtins."""
    t = ast.fix_missing_locations(NoAnnotations().visit(ast.parse(ast.unparse(tree))))
    out = []

    def rec(tab, q):
        for s in tab.get_symbols():
            if s.is_referenced() and (tab.get_type() == "module" or s.is_global()) and not (tab.get_type() == "module" and s.is_assigned()):
                out.append((".".join(q), s.get_name()))
        for c in tab.get_children():
            rec(c, q + [c.get_name()])
    rec(symtable.symtable(ast.unparse(t), m.path, "exec"), [])
    return out


def names_rule(chk, m, rule="names", tree=None):
    tree = tree or m.tree
    bound, star = module_names(tree)
    n, bad = 0, []
    for scope, name in sorted(set(global_reads(m, tree))):
        n += 1
        if not star and name not in bound and name not in BUILTIN:
            line = min([x.lineno for x in ast.walk(tree) if isinstance(x, ast.Name) and x.id == name] or [0])
            bad.append((scope, name, line))
    return n, bad


# ---- members of the package's own modules and classes

def member_of_module(prog, m, name):
    return name in m.functions or name in m.classes or name in m.imports or name in m.assigns or name in m.annots or f"{m.name}.{name}" in prog.modules or name in module_names(m.tree)[0] or name.startswith("__")


def class_members(c):
    """(names a class or its instances may have, whether other names are possible)"""
    out, open_ = set(OBJECT), False
    for k in c.mro():
        if isinstance(k, str):
            n = k.split(".")[-1].split("[")[0]
            if n in EXT_MEMBERS:
                out |= EXT_MEMBERS[n]
            else:
                open_ = True
            continue
        out |= own_members(k)
        if any(x in k.methods for x in ("__getattr__", "__getattribute__", "__setattr__")):
            open_ = True
    return out, open_


def own_members(k):
    if not hasattr(k, "_c18"):
        out = set(k.methods) | set(k.setters)
        for s in k.node.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                out.add(s.name)
            else:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.add(x.id)
        for f in ast.walk(k.node):
            if isinstance(f, ast.FunctionDef) and f.args.args:
                me = f.args.args[0].arg
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and (x.value.id == me or x.value.id in ("self", "cls")):
                        out.add(x.attr)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                        out.add("*")
        for x in ast.walk(k.mod.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == k.name:
                out.add(x.attr)
        k._c18 = out
    return k._c18


def own_attribute_reads(c, f):
    """Attributes read on the first parameter (when it is never re-assigned)."""
    decs = [ast.unparse(d) for d in f.decorator_list]
    if "staticmethod" in decs or not f.args.args:
        return []
    me = f.args.args[0].arg
    if any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(f)):
        return []
    guard = {x.args[1].value for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}
    caught = set()  # inside of a statement that handles missing attributes
    for x in ast.walk(f):
        if isinstance(x, ast.Try) and any(h.type is None or ast.unparse(h.type) in ("Exception", "BaseException") or "AttributeError" in ast.unparse(h.type) for h in x.handlers):
            caught |= {id(y) for s in x.body for y in ast.walk(s)}
    return [x for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me and x.attr not in guard and id(x) not in caught]


def possible_members(c):
    """Members of the class, and of the classes that may be the actual one."""
    out, open_ = class_members(c)
    for s in c.all_subclasses():
        o, p = class_members(s)
        out = out | o
        open_ |= p
    return out, open_ or "*" in out


# ---- calls

def signature_error(f, bound, call):
    """Why this call does not match the signature, or None."""
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args][1 if bound else 0:]
    npo = max(0, len(a.posonlyargs) - (1 if bound else 0))
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = sum(1 for x in call.args if not isinstance(x, ast.Starred))
    if n > len(pos) and a.vararg is None:
        return f"takes {len(pos)} positional arguments, {n} given"
    given = {k.arg for k in call.keywords if k.arg}
    kwable = set(pos[npo:]) | {x.arg for x in a.kwonlyargs}
    bad = sorted(given - kwable)
    if bad and a.kwarg is None:
        return f"has no parameter {', '.join(bad)}"
    if not star:
        twice = sorted(given & set(pos[:n]))
        if twice:
            return f"gets {', '.join(twice)} twice"
        if not dstar:
            nd = len(a.defaults)
            req = pos[:len(pos) - nd] if nd else pos
            miss = [p for p in req[n:] if p not in given]
            miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
            if miss:
                return f"is not given {', '.join(miss)}"
    return None


def fields_error(c, call):
    """The same, for the generated constructor of a data class."""
    names, req = [], []
    for n, k, s in c.fields:
        v = s.value
        if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "field":
            kw = {x.arg: x.value for x in v.keywords}
            if isinstance(kw.get("init"), ast.Constant) and kw["init"].value is False:
                continue
            if "default" not in kw and "default_factory" not in kw:
                req.append(n)
        elif v is None:
            req.append(n)
        names.append(n)
    if any(isinstance(x, ast.Starred) for x in call.args):
        return None
    if len(call.args) > len(names):
        return f"takes {len(names)} positional arguments, {len(call.args)} given"
    given = {k.arg for k in call.keywords if k.arg}
    bad = sorted(given - set(names))
    if bad:
        return f"has no field {', '.join(bad)}"
    if not any(k.arg is None for k in call.keywords):
        miss = [r for r in req if r not in given and names.index(r) >= len(call.args)]
        if miss:
            return f"is not given {', '.join(miss)}"
    return None


def plain(f):
    """No decorator that changes the signature."""
    return all(ast.unparse(d).split("(")[0].split(".")[-1] in ("staticmethod", "classmethod", "abstractmethod", "property", "overload", "override", "wraps", "njit", "jit", "setter") for d in f.decorator_list)


def locals_of(f):
    out = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]}
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f:
            out |= {a.arg for a in x.args.posonlyargs + x.args.args + x.args.kwonlyargs}
            if isinstance(x, ast.FunctionDef):
                out.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.split(".")[0] for a in x.names}
    return out


def targets_of(prog, m, c, f, call, loc):
    """[(what, function or class, bound)] for a call of the package's own functions, methods and classes; [] when unknown."""
    fn = call.func
    d = ast.unparse(fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and c is not None:
        for k in c.mro()[1:]:
            if isinstance(k, str):
                return []
            if fn.attr in k.methods:
                return [(f"{k.name}.{fn.attr}", k.methods[fn.attr], "staticmethod" not in [ast.unparse(x) for x in k.methods[fn.attr].decorator_list])] if plain(k.methods[fn.attr]) else []
        return []
    if d is None:
        return []
    head = d.split(".")[0]
    decs = [ast.unparse(x) for x in f.decorator_list] if f is not None else []
    if c is not None and f is not None and f.args.args and head == f.args.args[0].arg and d.count(".") == 1 and "staticmethod" not in decs:
        out = []
        for k in [c] + c.all_subclasses():
            r = k.find(fn.attr)
            if r is None or not plain(r[1]) or any(ast.unparse(x).split(".")[-1] in ("property", "setter") for x in r[1].decorator_list):
                return []
            if any(fn.attr in own_members(q) - set(q.methods) for q in k.mro() if not isinstance(q, str)):
                return []
            out.append((f"{k.name}.{fn.attr}", r[1], "staticmethod" not in [ast.unparse(x) for x in r[1].decorator_list]))
        return out
    if head in loc:
        return []
    k, v = prog.resolve_name(m, d)
    if k == "func":
        return [(v[1].name, v[1], False)] if plain(v[1]) and not v[1].decorator_list else []
    if k == "class":
        return ctor(v)
    if k == "ext" and "." in d:
        k2, c2 = prog.resolve_name(m, d.rpartition(".")[0])
        if k2 == "class":
            r = c2.find(fn.attr)
            if r is not None and plain(r[1]):
                ds = [ast.unparse(x) for x in r[1].decorator_list]
                return [(f"{c2.name}.{fn.attr}", r[1], "classmethod" in ds)]
    return []


def ctor(c):
    if any(isinstance(k, str) and k.split(".")[-1].split("[")[0] not in ("ABC", "object", "Generic", "LinearOperator", "Protocol") for k in c.mro()) or c.find("__new__"):
        return []
    r = c.find("__init__")
    if c.is_dataclass and (r is None or all(r[0] is not k for k in c.mro()[:1])):
        return [(c.name, c, False)] if r is None else []
    return [(c.name, r[1], True)] if r is not None and plain(r[1]) else []


# ---- values that may not have been assigned

def feasible(cond, pc):
    """Whether a condition can hold together with the path, by its case distinctions (they must not share inputs)."""
    c = t_and(cond, *[a if v else t_not(a) for a, v in pc])
    if c is FALSE:
        return False
    for a, v in pc:
        cond = assume(cond, a, v)
    if cond is FALSE:
        return False
    at = [x for x in subterms(cond) if x.op in ("lt", "eq", "in", "isinst", "isnone", "truth", "is")]
    ps = [x for a, _ in pc for x in subterms(a) if x.op in ("lt", "eq", "in", "isinst", "isnone", "truth", "is")]
    return len(set(at)) <= 2 and not any({z for z in subterms(x) if z.op == "sym"} & {z for z in subterms(y) if z.op == "sym"} for x in at for y in ps if x is not y)


def assigned_in_constructor(c, name):
    for k in c.mro():
        if isinstance(k, str) or "__init__" not in k.methods:
            continue
        for x in ast.walk(k.methods["__init__"]):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name:
                return True
    return False


def lifecycle_drivers(prog):
    """(class, method, module, function) of a text that constructs an object from any arguments, and calls one of its methods with any."""
    def sig(fn, skip):
        return (fn.args.posonlyargs + fn.args.args)[skip:], fn.args.kwonlyargs

    for c in prog.by_qual_class.values():
        for meth in sorted({x for k in c.mro() if not isinstance(k, str) for x in k.methods}):
            if meth.startswith("_") and meth not in ("__call__", "__str__", "__enter__", "__len__", "__getitem__"):
                continue
            out, call, mcall = [], [], []
            r = c.find("__init__")
            if r is None and c.is_dataclass:
                for n, _, s in c.fields:
                    out.append((n, s.annotation))
                    call.append(f"{n}={n}")
            elif r is not None:
                p, k = sig(r[1], 1)
                for x in p + k:
                    out.append((x.arg, x.annotation))
                    call.append(f"{x.arg}={x.arg}")
            k, fn = c.find(meth)
            decs = [ast.unparse(d) for d in fn.decorator_list]
            p, kw = sig(fn, 0 if "staticmethod" in decs else 1)
            for x in p:
                out.append(("m_" + x.arg, x.annotation))
                mcall.append("m_" + x.arg)
            for x in kw:
                out.append(("m_" + x.arg, x.annotation))
                mcall.append(f"{x.arg}=m_{x.arg}")
            args = ", ".join(n + (": " + ast.unparse(a) if a is not None else "") for n, a in out)
            src = f"def driver_({args}):\n    o = {c.name}({', '.join(call)})\n    return o.{meth}" + ("" if "property" in decs else f"({', '.join(mcall)})")
            tree = ast.parse(src)
            m = Module(c.mod.name, c.mod.path, tree, src, False)
            m.imports, m.functions, m.classes, m.assigns, m.annots = dict(c.mod.imports), dict(c.mod.functions), dict(c.mod.classes), dict(c.mod.assigns), dict(c.mod.annots)
            f = m.functions["driver_"] = tree.body[0]
            yield c, meth, m, f


EXAMPLE = '''
from __future__ import annotations
import math
def f(x: Missing, n: int = 3):
    return math.sin(x) + scale * n
class A:
    def __init__(self): self.a = 1
    def g(self): return self.b
def k(): return f(1, m=2) + f()
'''


def selftest(chk):
    t = ast.parse(EXAMPLE)
    m = Module("example", "<example>", t, EXAMPLE, False)
    n, bad = names_rule(chk, m)
    assert [b[1] for b in bad] == ["scale"], bad
    f = t.body[2]
    calls = [x for x in ast.walk(t.body[4]) if isinstance(x, ast.Call)]
    assert sorted(map(str, (signature_error(f, False, x) for x in calls))) == ["has no parameter m", "is not given x"]


def run(chk, prog):
    selftest(chk)
    chk.rule("names", "every name read from the module or the builtins, in any function, is bound at module level, imported, or a builtin")
    chk.rule("members", "every member used of one of the package's modules or classes exists there")
    chk.rule("own-attributes", "every attribute that a method reads on its object is a method, a class attribute, or assigned by some method of its class, of a parent, or of a sub-class")
    chk.rule("arguments", "every call of one of the package's own functions, methods or constructors matches its signature, for each class the object can be of")
    chk.rule("assigned", "no feasible path reads a local variable, or an attribute which the constructor assigns, before it is assigned")
    chk.assumptions += ["loops over inputs are entered at least once, where later code uses what they assign", "methods are called in the order their class documents (initialization before use)"]
    nn = nm = na = nc = 0
    for m in prog.modules.values():
        n, bad = names_rule(chk, m)
        nn += n
        for scope, name, line in bad:
            chk.finding("names", f"{m.name}:{scope}: {name}", (m.path, line, scope), f"the name '{name}' is not defined in {m.name}")
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    d = m.imports.get(a.asname or a.name)
                    if d and (d == PKG or d.startswith(PKG + ".")) and a.name != "*":
                        nm += 1
                        k, v = prog.resolve(d)
                        if k == "ext" and d not in prog.modules:
                            mm = prog.modules.get(d.rpartition(".")[0])
                            if mm is not None and not member_of_module(prog, mm, a.name):
                                chk.finding("members", f"{m.name}: import of {d}", (m.path, s.lineno, m.name), f"{d.rpartition('.')[0]} has no '{a.name}'")
    for m, c, f in prog.all_functions():
        q = funcqual(m, c, f)
        chk.units.add(q)
        loc = locals_of(f)
        for x in ast.walk(f):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                b = x.value
                d = ast.unparse(b) if isinstance(b, (ast.Name, ast.Attribute)) else ""
                if d and d.split(".")[0] not in loc and all(p.isidentifier() for p in d.split(".")):
                    k, v = prog.resolve_name(m, d)
                    if k == "mod":
                        nm += 1
                        if not member_of_module(prog, v, x.attr):
                            chk.finding("members", f"{q}: {d}.{x.attr}", (m.path, x.lineno, q), f"module {v.name} has no '{x.attr}'")
                    elif k == "class":
                        mem, open_ = class_members(v)
                        nm += 1
                        if not open_ and x.attr not in mem and "*" not in mem:
                            chk.finding("members", f"{q}: {d}.{x.attr}", (m.path, x.lineno, q), f"class {v.name} has no '{x.attr}'")
            if isinstance(x, ast.Call):
                errs = [(w, (fields_error(g, x) if not isinstance(g, ast.AST) else signature_error(g, b, x))) for w, g, b in targets_of(prog, m, c, f, x, loc)]
                nc += len(errs)
                # one of several possible classes may not be meant here: all of them, or the class itself, must fail
                if errs and errs[0][1] is not None:
                    chk.finding("arguments", f"{q}: call of {errs[0][0]}", (m.path, x.lineno, q), f"{errs[0][0]} {errs[0][1]}")
                elif any(e for _, e in errs):
                    w, e = next((w, e) for w, e in errs if e)
                    chk.finding("arguments", f"{q}: call of {w}", (m.path, x.lineno, q), f"{w} {e}")
        if c is not None:
            mem, open_ = possible_members(c)
            if not open_:
                for x in own_attribute_reads(c, f):
                    na += 1
                    if x.attr not in mem:
                        chk.finding("own-attributes", f"{q}: self.{x.attr}", (m.path, x.lineno, q), f"no method of {c.name} or its relatives assigns '{x.attr}'")
    chk.ok("names", "module-level names", nn)
    chk.ok("members", "members of modules and classes", nm)
    chk.ok("own-attributes", "attributes read on self", na)
    chk.ok("arguments", "calls of the package's functions", nc)

    def events(it, what, q):
        for e in it.events:
            if e.kind == "badcall":
                fn = e.data["func"].removeprefix(PKG + ".")
                chk.finding("arguments", f"{e.site[2]}: call of {fn}", e.site, f"{fn} {e.data['why']}")
            if e.kind == "unbound" or (e.kind == "noattr" and assigned_in_constructor(e.data["cls"], e.data["name"])):
                if e.data["definite"] or feasible(e.data["cond"], e.pc):
                    n = e.data["name"]
                    w = f"variable '{n}'" if e.kind == "unbound" else f"attribute '{n}' of {e.data['cls'].name}"
                    chk.finding("assigned", f"{e.site[2]}: {n}", e.site, f"{w} may be read before it is assigned" + (f" [when {show(e.data['cond'], 120)}]" if not e.data["definite"] else ""))
    k = 0
    for m, c, f, it, v, st in analyse_all(prog):
        chk.units |= it.analysed
        k += 1
        events(it, "function", funcqual(m, c, f))
    for q, why in prog.skipped:
        chk.undecide("assigned", q, why)
    chk.ok("assigned", "functions, for any arguments", k)
    k = 0
    for c, meth, m, f in lifecycle_drivers(prog):
        try:
            s = Side(prog, m, None, f)
        except Exception as e:
            chk.undecide("assigned", f"{c.name}.{meth}", f"not analysable ({type(e).__name__}: {str(e)[:60]})")
            continue
        k += 1
        events(s.it, "method", f"{c.name}.{meth}")
    chk.ok("assigned", "methods of newly constructed objects, for any arguments", k)
    chk.need("names", 500)
    chk.need("arguments", 200)
    chk.need("own-attributes", 500)
    chk.need("assigned", 500)
