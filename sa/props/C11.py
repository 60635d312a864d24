"""C11: calls and objects are independent: no state is shared through defaults, class attributes, globals or caches."""
import ast
from ..effects import analyse_all, reach_origins, captured_attrs
from ..interp import Interp, State, InstCell, Func, Ref
from ..model import funcqual

SHARED = ("default:", "glob:", "class:", "classattr:")
CACHES = ("cache", "lru_cache")


def what(o):
    k, _, r = o.partition(":")
    return {"default": "the default value of ", "glob": "the module variable ", "class": "the class attributes of ", "classattr": "the class attribute "}[k] + r.removeprefix("corrct.")


def shared_attrs(prog):
    """(class qual, attr) -> shared storages the attribute may hold after construction with the default arguments."""
    out, n = {}, 0
    for c in prog.by_qual_class.values():
        r = c.find("__init__")
        if r is None:
            continue
        it, st = Interp(prog), State()
        ref = it.alloc(st, InstCell(c, None, {"self"}, exact=True))
        fn = Func(r[1], r[0].mod, 0, r[0], ref)
        try:
            env = it.abstract_args(fn, st)
            a = r[1].args
            ps = a.posonlyargs + a.args
            for q, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(q, d) for q, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                env[q.arg] = it.default(fn, q.arg, d)
            env[ps[0].arg] = ref
            it.run(fn, env, st, r[1])
        except Exception:
            pass  # always rejected with the defaults: what was stored until then counts
        for a, v in it.cell(st, ref).attrs.items():
            n += 1
            o = {x for x in reach_origins(it, st, v) if x.startswith(SHARED)}
            if o:
                out[(c.qual, a)] = o
    return out, n


def run(chk, prog):
    chk.rule("shared-write", "no store, in-place operator, mutating method or attribute assignment reaches a default value, a class attribute or a module variable")
    chk.rule("shared-attribute", "no method writes through an attribute of its object that may hold a default value, a class attribute or a module variable")
    chk.rule("shared-result", "no function hands out a mutable default value, class attribute or module variable, nor a memoized mutable result")
    chk.rule("no-globals", "no function re-binds a module variable")
    chk.assumptions += ["attributes of constants (numbers, strings, tuples, functions, classes) are not storage", "the records a new collection selects from a catalogue of the module (the fluorescence lines) are the records of the catalogue"]
    attrs, n = shared_attrs(prog)
    nf = 0
    for m, c, f, it, v, st in analyse_all(prog):
        q = funcqual(m, c, f)
        nf += 1
        chk.units |= it.analysed
        for e in it.events:
            if e.kind not in ("mut", "setattr"):
                continue
            how = e.data["how"] if e.kind == "mut" else f"attribute assignment .{e.data['attr']}"
            for o in sorted(e.data["origins"]):
                if o.startswith(SHARED):
                    chk.finding("shared-write", f"{e.site[2]}: {o}", e.site, f"{how} writes to {what(o)}, which all calls share (path {' -> '.join(e.stack)})")
                elif o.startswith("self.") and c is not None:
                    a = o[5:].split(".")[0].split("[")[0]
                    for k in [c] + c.all_subclasses():
                        if (k.qual, a) in attrs:
                            s = sorted(attrs[(k.qual, a)])[0]
                            chk.finding("shared-attribute", f"{q}: self.{a}", e.site, f"{how} writes to self.{o[5:]}, which may be {what(s)}, shared by all objects of {k.name}")
                            break
        if v is not None:
            for o in sorted(x for x in reach_origins(it, st, v, elems=False) if x.startswith(SHARED)):
                if f.name.startswith("_") and not f.name.startswith("__"):
                    continue
                chk.finding("shared-result", f"{q}: {o}", (m.path, f.lineno, q), f"returns {what(o)}: writing to the result changes later results")
    for m, c, f in prog.all_functions():
        q = funcqual(m, c, f)
        for x in ast.walk(f):
            if isinstance(x, ast.Global):
                stores = {y.id for y in ast.walk(f) if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del))}
                for name in x.names:
                    if name in stores:
                        chk.finding("no-globals", f"{q}: {name}", (m.path, x.lineno, q), f"re-binds the module variable {name}")
        for d in f.decorator_list:
            name = ast.unparse(d).split("(")[0].split(".")[-1]
            if name in CACHES:
                it = Interp(prog)
                try:
                    v, st = it.entry(m, c, f)
                except Exception:
                    chk.undecide("shared-result", q, "a memoized function that is not analysable")
                    continue
                if isinstance(v, Ref) or v is not None and reach_origins(it, st, v):
                    chk.finding("shared-result", f"{q}: memoized", (m.path, f.lineno, q), "memoized, and its result can be written to: all callers with the same arguments share one result")
    for q, why in prog.skipped:
        chk.undecide("shared-write", q, why)
    chk.ok("shared-write", "functions, for any arguments", nf)
    chk.ok("shared-attribute", "attributes of newly constructed objects", n)
    chk.ok("shared-result", "functions, for any arguments", nf)
    chk.ok("no-globals", "functions", nf)
    chk.need("shared-write", 400)
    chk.need("shared-attribute", 200)
