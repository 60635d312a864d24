"""Shared effect analysis: every function of the package analysed with symbolic arguments (results cached per run)."""
from __future__ import annotations
import ast
from .interp import Interp, InstCell, State, Func, Ref, Tup, GV, ListCell, DictCell, ViewCell, ValCell
from .terms import sym
from .model import funcqual, ClassInfo

INPLACE_PROTOCOL = {"update_dual", "apply_proximal_dual", "apply_proximal_primal"}

_CACHE = {}


def is_public(name):
    return not name.startswith("_") or (name.startswith("__") and name.endswith("__"))


def dispatch_names(prog):
    """Private method names that are reached through dynamic dispatch: declared abstract somewhere, or overridden in a subclass."""
    out = {"_matvec", "_rmatvec", "_adjoint", "_transpose"}
    for c in prog.by_qual_class.values():
        for n, f in c.methods.items():
            if any("abstractmethod" in ast.unparse(d) for d in f.decorator_list):
                out.add(n)
    return {n for n in out if n not in ("__init__", "__post_init__")}


def analyse_all(prog, exact=True):
    key = (id(prog), exact)
    if key in _CACHE:
        return _CACHE[key]
    res = []
    prog.skipped = []  # functions with a construct the interpreter cannot evaluate
    for m, c, f in prog.all_functions():
        it = Interp(prog)
        try:
            v, st = it.entry(m, c, f)
        except Exception as e:
            prog.skipped.append((funcqual(m, c, f), f"not analysable ({type(e).__name__}: {str(e)[:80]})"))
            continue
        res.append((m, c, f, it, v, st))
    for k, c, f in inherited_entries(prog):
        it = Interp(prog)
        st = State()
        ref = it.alloc(st, InstCell(k, sym("self"), {"self"}, open_=True, exact=True))
        try:
            v, st = it.entry(c.mod, c, f, st=st, selfV=ref)
        except Exception as e:
            prog.skipped.append((f"{k.name}.{f.name}", f"not analysable ({type(e).__name__}: {str(e)[:80]})"))
            continue
        res.append((c.mod, c, f, it, v, st))
    _CACHE[key] = res
    return res


def inherited_entries(prog):
    """(subclass, defining class, method): inherited public methods that dispatch to something the subclass overrides."""
    for k in prog.by_qual_class.values():
        seen = set(k.methods)
        over = {n for n in k.methods if n not in ("__init__", "__post_init__")}
        for c in k.mro()[1:]:
            if not isinstance(c, ClassInfo):
                continue
            for n, f in c.methods.items():
                if n in seen or not is_public(n):
                    continue
                seen.add(n)
                if n.startswith("__") and n != "__call__":
                    continue
                if any(isinstance(x, ast.Attribute) and x.attr in over for x in ast.walk(f)):
                    yield k, c, f


def captured_attrs(prog):
    """(class qual, attr) -> set of constructor-argument storages the attribute may share memory with."""
    out = {}
    for c in prog.by_qual_class.values():
        r = c.find("__init__")
        if r is None and not c.is_dataclass:
            continue
        it = Interp(prog)
        st = State()
        ref = it.alloc(st, InstCell(c, None, {"self"}, exact=True))
        try:
            if r is not None:
                f = Func(r[1], r[0].mod, 0, r[0], ref)
                env = it.abstract_args(f, st)
                env[r[1].args.args[0].arg] = ref
                it.run(f, env, st, r[1])
            else:
                continue
        except Exception as e:
            continue
        for a, v in it.cell(st, ref).attrs.items():
            o = {x for x in reach_origins(it, st, v) if x.startswith("param:")}
            if o:
                out[(c.qual, a)] = o
    return out


def reach_origins(it, st, v, d=0, seen=None, elems=True):
    """Storage labels reachable from v (the array itself and elements of containers)."""
    seen = set() if seen is None else seen
    if d > 5:
        return set()
    if isinstance(v, Tup):
        r = set()
        for x in v.items:
            r |= reach_origins(it, st, x, d + 1, seen, elems)
        return r
    if isinstance(v, GV):
        return reach_origins(it, st, v.a, d + 1, seen, elems) | reach_origins(it, st, v.b, d + 1, seen, elems)
    if isinstance(v, Ref):
        if v.id in seen:
            return set()
        seen.add(v.id)
        try:
            c = it.cell(st, v)
        except KeyError:
            return set()
        r = set(it.origins(st, v))
        if isinstance(c, ListCell):
            for x in (c.items or ()) if c.items is not None else ([c.elem] if elems and c.elem is not None else []):
                r |= reach_origins(it, st, x, d + 1, seen, elems)
        elif isinstance(c, DictCell):
            for x in (c.items.values() if c.items is not None else ([c.elem] if elems and c.elem is not None else [])):
                r |= reach_origins(it, st, x, d + 1, seen, elems)
        return r
    return set()


def annotated_classes(prog, mod, ann):
    """Package classes named in an annotation."""
    out = []
    if ann is None:
        return out
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return out
    names = {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(ann) if isinstance(x, (ast.Name, ast.Attribute))}
    for c in prog.by_qual_class.values():
        if c.name in names:
            out.append(c)
    return out


def handed_over(prog, skip=()):
    """Construct every class with each of its package-object parameters given in turn, then call each public method.

    Yields (class, parameter, class of the object, method or None, interpreter): effects on the object have the origin "given:<parameter>"."""
    for k in prog.by_qual_class.values():
        r = k.find("__init__")
        if r is None or k.is_abstract:
            continue
        a = r[1].args
        for p in (a.posonlyargs + a.args + a.kwonlyargs)[1:]:
            cls = []
            for c in annotated_classes(prog, r[0].mod, p.annotation):
                for d in [c] + c.all_subclasses():
                    if d not in cls and not d.is_abstract and not d.is_dataclass and not any(x.name in skip for x in d.mro() if isinstance(x, ClassInfo)):
                        cls.append(d)
            for d in cls:
                meths, seen = [None], set()
                for b in k.mro():
                    if isinstance(b, ClassInfo):
                        for n, f in b.methods.items():
                            decs = [ast.unparse(x) for x in f.decorator_list]
                            if n not in seen and (not n.startswith("_") or n == "__call__") and not {"staticmethod", "classmethod", "property"} & set(decs) and not any("setter" in x or "abstract" in x or "overload" in x for x in decs):
                                meths.append((b, n, f))
                            seen.add(n)
                it, st0 = Interp(prog), State()
                obj = it.alloc(st0, InstCell(d, sym(p.arg), {"given:" + p.arg}, open_=True, exact=True))
                ref = it.alloc(st0, InstCell(k, None, {"self"}, exact=True))
                fn = Func(r[1], r[0].mod, 0, r[0], ref)
                try:
                    env = it.abstract_args(fn, st0, {p.arg: obj})
                    env[r[1].args.args[0].arg] = ref
                    it.run(fn, env, st0, r[1])
                except Exception:
                    continue  # an object of this class is rejected
                yield k, p.arg, d, None, it
                for m in meths[1:]:
                    it.events = []
                    st = st0.copy()
                    try:
                        it.entry(m[0].mod, m[0], m[2], st=st, selfV=ref)
                    except Exception as e:
                        prog.skipped.append((f"{k.name}.{m[1]}", f"not analysable with {p.arg}: {d.name} ({type(e).__name__}: {str(e)[:60]})"))
                        continue
                    yield k, p.arg, d, m[1], it
