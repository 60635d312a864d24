"""Lifecycle of acquired resources (executors, files, ASTRA objects) along every normal and exceptional path, with typestate exploration of the classes that keep them.

Any call may raise.  States are (tokens held, local variables, attributes of self); helpers of the package are inlined, `with`, `try`, context managers written as
generators and ExitStack are followed, and loops run until nothing new is reached."""
from __future__ import annotations
import ast
from .model import ClassInfo, funcqual

UNK, NONE, TRUE, FALSE, EMPTY = "?", "None", "True", "False", "[]"
SAFE = {"len", "isinstance", "list", "tuple", "dict", "set", "print", "range", "enumerate", "zip", "super", "type", "repr", "str", "bool", "callable", "hasattr", "perf_counter", "iter", "reversed", "int", "float"}
PASS = {"list", "tuple", "set", "sorted", "reversed", "enumerate", "iter", "closing", "filter"}
RELEASERS = ("dispose", "close", "shutdown", "release", "__exit__", "__del__")
MAXSTATES = 4000


class TooComplex(Exception):
    pass


class Tok(tuple):
    """(kind, file, line, generation)"""

    @property
    def kind(self):
        return self[0]


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return (b or "?") + "." + e.attr
    return None


def acquire_kind(name, call):
    parts = name.split(".")
    t, r = parts[-1], parts[-2] if len(parts) > 1 else ""
    if t in ("ThreadPoolExecutor", "ProcessPoolExecutor"):
        return "executor"
    if name in ("open", "io.open", "os.fdopen") or t in ("NamedTemporaryFile", "TemporaryFile"):
        return "file"
    if t == "create_projector":
        return "projector"
    if t == "link" and r:
        return "data"
    if t == "create":
        for k in ("algorithm", "projector", "matrix"):
            if r == k:
                return k
        if r.startswith("data"):
            return "data"
    return None


def release_kind(name):
    """kind released by a call of this name: a kind, "any", or None."""
    parts = name.split(".")
    t, r = parts[-1], parts[-2] if len(parts) > 1 else ""
    if t == "delete" and r not in ("np", "numpy"):
        return r if r in ("algorithm", "projector", "matrix") else "data" if r.startswith("data") else "any"
    return None


class St:
    __slots__ = ("held", "env", "attrs", "maybe", "_h")

    def __init__(self, held=frozenset(), env=None, attrs=None, maybe=frozenset()):
        self.held, self.env, self.attrs, self.maybe = held, env or {}, attrs or {}, maybe
        self._h = hash((held, frozenset(self.env.items()), frozenset(self.attrs.items()), maybe))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.held == o.held and self.env == o.env and self.attrs == o.attrs and self.maybe == o.maybe

    def w(self, **k):
        return St(k.get("held", self.held), k.get("env", self.env), k.get("attrs", self.attrs), k.get("maybe", self.maybe))

    def setv(self, name, val):
        return self.w(env={**self.env, name: val})

    def seta(self, name, val):
        return self.w(attrs={**self.attrs, name: val})

    def release(self, toks):
        return self.w(held=self.held - frozenset(toks))

    def rename(self, a, b):
        f = lambda v: (frozenset(b if t == a else t for t in v[0]), v[1])
        s = lambda x: frozenset(b if t == a else t for t in x)
        return St(s(self.held), {k: f(v) for k, v in self.env.items()}, {k: f(v) for k, v in self.attrs.items()}, s(self.maybe))


NOV = (frozenset(), UNK)


class Frame:
    def __init__(self, ana, mod, node, cls, self_cls, selfname, depth, cont=None, saved=None):
        self.ana, self.mod, self.node, self.cls, self.self_cls, self.selfname, self.depth, self.cont = ana, mod, node, cls, self_cls, selfname, depth, cont


class Analysis:
    """One function or class; `exec` returns lists of (kind, state, value)."""

    def __init__(self, prog, tracked=None):
        self.prog = prog
        self.n = 0
        self.sites = set()
        self.stack = []

    # ---- expressions: [(state, value)], raises appended to self-provided set

    def eval(self, e, st, fr, rs):
        m = getattr(self, "e_" + type(e).__name__, None)
        self.n += 1
        if self.n > 400000:
            raise TooComplex("too many steps")
        if m is not None:
            return m(e, st, fr, rs)
        out = [(st, NOV)]
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out = self.dedup([(s2, NOV) for s, _ in out for s2, _ in self.eval(c, s, fr, rs)])
            elif isinstance(c, (ast.keyword,)):
                out = self.dedup([(s2, NOV) for s, _ in out for s2, _ in self.eval(c.value, s, fr, rs)])
        return out

    @staticmethod
    def dedup(xs):
        return list(dict.fromkeys(xs))

    def e_Constant(self, e, st, fr, rs):
        return [(st, (frozenset(), {None: NONE, True: TRUE, False: FALSE}.get(e.value, UNK) if e.value is None or isinstance(e.value, bool) else UNK))]

    def e_Name(self, e, st, fr, rs):
        return [(st, st.env.get(e.id, (frozenset(), ("ref", e.id))))]

    def e_Attribute(self, e, st, fr, rs):
        if isinstance(e.value, ast.Name) and e.value.id == fr.selfname and fr.selfname not in st.env:
            return [(st, st.attrs.get(e.attr, (frozenset(), ("ref", "self." + e.attr))))]
        out = []
        for s, v in self.eval(e.value, st, fr, rs):
            d = dotted(e)
            if isinstance(v[1], tuple) and v[1][0] == "ref":
                d = v[1][1] + "." + e.attr
            out.append((s, (frozenset(), ("ref", d) if d else UNK)))
        return out

    def e_Lambda(self, e, st, fr, rs):
        return [(st, NOV)]

    def seq(self, es, st, fr, rs):
        outs = [(st, ())]
        for e in es:
            outs = self.dedup([(s2, vs + (v,)) for s, vs in outs for s2, v in self.eval(e.value if isinstance(e, ast.Starred) else e, s, fr, rs)])
        return outs

    def e_Tuple(self, e, st, fr, rs):
        return [(s, (frozenset().union(*[v[0] for v in vs]), UNK if e.elts else EMPTY)) for s, vs in self.seq(e.elts, st, fr, rs)]

    e_List = e_Set = e_Tuple

    def e_Dict(self, e, st, fr, rs):
        return [(s, (frozenset().union(*[v[0] for v in vs]), UNK if e.values else EMPTY)) for s, vs in self.seq([x for x in e.keys if x is not None] + e.values, st, fr, rs)]

    def e_Subscript(self, e, st, fr, rs):
        out = []
        for s, vs in self.seq([e.value, e.slice] if not isinstance(e.slice, ast.Slice) else [e.value], st, fr, rs):
            out.append((s, (frozenset(), ("part", vs[0][0]) if vs[0][0] and not isinstance(e.slice, ast.Slice) else UNK)))
        return out

    def e_IfExp(self, e, st, fr, rs):
        out = []
        for s, t in self.test(e.test, st, fr, rs):
            out += self.eval(e.body if t else e.orelse, s, fr, rs)
        return self.dedup(out)

    def e_BoolOp(self, e, st, fr, rs):
        out, cur = [], [(st, None)]
        for i, x in enumerate(e.values):
            nxt = []
            for s, _ in cur:
                for s2, v in self.eval(x, s, fr, rs):
                    nxt.append((s2, v))
            out += nxt if i < len(e.values) - 1 else []
            cur = nxt
        return self.dedup(out + cur)

    def e_NamedExpr(self, e, st, fr, rs):
        return [(s.setv(e.target.id, v), v) for s, v in self.eval(e.value, st, fr, rs)]

    def comp(self, e, elts, st, fr, rs):
        its = [st]
        toks = frozenset()
        for g in e.generators:
            nxt = []
            for s in its:
                for s2, v in self.eval(g.iter, s, fr, rs):
                    toks |= v[0]
                    nxt.append(self.bind(g.target, (v[0], UNK), s2, fr)[0])
            its = nxt
            for c in g.ifs:
                its = [s2 for s in its for s2, _ in self.eval(c, s, fr, rs)]
        out = []
        for s in its:
            for s1, vs in self.seq(elts, s, fr, rs):
                got = frozenset().union(*[v[0] for v in vs])
                keep = s1.w(env=st.env)
                out.append((keep, (got, UNK)))
                if s1.held != s.held and not toks:
                    out.append((s.w(env=st.env), (frozenset(), UNK)))  # nothing to iterate over
                    self.seq(elts, s1, fr, rs)  # a later element may fail
        return self.dedup(out)

    def e_ListComp(self, e, st, fr, rs):
        return self.comp(e, [e.elt], st, fr, rs)

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st, fr, rs):
        return self.comp(e, [e.key, e.value], st, fr, rs)

    def e_Yield(self, e, st, fr, rs):
        vals = self.eval(e.value, st, fr, rs) if e.value is not None else [(st, NOV)]
        if fr.cont is None:
            rs.update(s for s, _ in vals)
            return [(s, NOV) for s, _ in vals]
        out = []
        for s, v in vals:
            for kind, s2, v2 in fr.cont(s, v):
                if kind == "raise":
                    rs.add(s2)
                else:
                    out.append((s2.setv("__pend", (frozenset() if not v2 else v2[0], ("pend", kind))), NOV))
        return self.dedup(out)

    # ---- calls

    def func_name(self, f, v):
        if isinstance(v[1], tuple) and v[1][0] == "ref":
            return v[1][1]
        return dotted(f) or "?"

    def e_Call(self, e, st, fr, rs):
        f = e.func
        # the receiver
        if isinstance(f, ast.Attribute):
            base = self.eval(f.value, st, fr, rs)
        else:
            base = [(st, NOV)]
        out = []
        for s0, bv in base:
            fv = self.e_Attribute(f, s0, fr, set())[0][1] if isinstance(f, ast.Attribute) and not isinstance(f.value, ast.Call) else self.eval(f, s0, fr, rs)[0][1] if isinstance(f, ast.Name) else NOV
            for s, vs in self.seq(list(e.args) + [k.value for k in e.keywords], s0, fr, rs):
                out += self.call(e, f, bv, fv, vs, s, fr, rs)
        return self.dedup(out)

    def call(self, e, f, bv, fv, vs, s, fr, rs):
        toks = frozenset().union(*[v[0] for v in vs]) if vs else frozenset()
        name = self.func_name(f, fv)
        tail = f.attr if isinstance(f, ast.Attribute) else name.split(".")[-1]
        if isinstance(fv[1], tuple) and fv[1][0] == "func":
            return self.inline(fr.mod, fv[1][1], fr.cls, fr.self_cls, fr.selfname, e, vs, s, fr, rs, closure=True)
        if isinstance(bv[1], tuple) and bv[1][0] == "stack":
            key = bv[1][1]
            if tail in ("enter_context", "callback", "push"):
                got = toks
                if tail != "enter_context" and e.args and isinstance(e.args[0], ast.Attribute):
                    d = dotted(e.args[0]) or ""
                    if d.split(".")[-1] in ("shutdown", "close", "release"):
                        for _, v in self.eval(e.args[0].value, s, fr, set()):
                            got |= v[0]
                old = s.env.get(key, NOV)
                return [(s.setv(key, (old[0] | got, UNK)), (toks, UNK))]
            return [(s, NOV)]
        # release
        k = release_kind(name)
        if k is not None and (toks or any(isinstance(v[1], tuple) and v[1][0] == "part" for v in vs)):
            s2 = s.release(t for t in toks if k in ("any", t.kind))
            for v in vs:
                if isinstance(v[1], tuple) and v[1][0] == "part":
                    s2 = s2.w(maybe=s2.maybe | v[1][1])
            rs.add(s2)
            return [(s2, NOV)]
        if isinstance(f, ast.Attribute) and tail in ("shutdown", "close", "release") and bv[0]:
            s2 = s.release(bv[0])
            rs.add(s2)
            return [(s2, NOV)]
        if tail in ("finalize", "register") and toks:  # weakref.finalize, atexit.register
            return [(s.release(toks), NOV)]
        # containers
        if isinstance(f, ast.Attribute) and tail in ("append", "extend", "add", "insert") and (toks or isinstance(f.value, (ast.Name, ast.Attribute))):
            if toks:
                return [(self.into(f.value, toks, s, fr), NOV)]
            if any(v[1] != UNK or True for v in vs) and not toks:
                return [(s, NOV)]
        if isinstance(f, ast.Attribute) and tail == "pop" and bv[0]:
            return [(self.into(f.value, None, s, fr), (bv[0], UNK))]
        if isinstance(f, ast.Attribute) and tail == "clear" and isinstance(f.value, (ast.Name, ast.Attribute)) and (bv[0] or bv[1] == EMPTY):
            return [(self.into(f.value, None, s, fr), NOV)]
        if isinstance(f, ast.Attribute) and tail in ("copy", "values", "items", "keys") and bv[0]:
            return [(s, (bv[0], UNK))]
        if tail in PASS and isinstance(f, ast.Name) or tail == "closing":
            return [(s, (toks, EMPTY if all(v[1] == EMPTY for v in vs) and not vs[1:] else UNK))] if vs else [(s, (frozenset(), EMPTY))]
        if tail == "ExitStack":
            key = f"__stack{e.lineno}"
            return [(s.setv(key, NOV), (frozenset(), ("stack", key)))]
        # acquisition
        k = acquire_kind(name, e)
        if k is not None:
            rs.add(s)
            t = Tok((k, fr.mod.path, e.lineno, 0))
            self.sites.add(t)
            if t in s.held:
                o = Tok((k, fr.mod.path, e.lineno, 1))
                s = s.release({o}) if o in s.held and not self.lost(s, o) else s
                s = s.rename(t, o)
            return [(s.w(held=s.held | {t}), (frozenset({t}), UNK))]
        # functions of the package
        r = self.resolve(f, fr)
        if r is not None:
            mod, node, cls, self_cls, keep = r
            decs = [ast.unparse(d).split("(")[0].split(".")[-1] for d in node.decorator_list]
            if "contextmanager" not in decs and "abstractmethod" not in decs:
                static = "staticmethod" in decs
                ps = node.args.posonlyargs + node.args.args
                selfname = ps[0].arg if cls is not None and ps and not static else None
                return self.inline(mod, node, cls, self_cls if keep else None, selfname if keep else None, e, vs, s, fr, rs, skip=0 if cls is None or static or (isinstance(f, ast.Attribute) and self.explicit_self(f, fr, e)) else 1, drop_self=selfname is not None)
        if not (isinstance(f, ast.Name) and tail in SAFE):
            rs.add(s)
        return [(s, NOV)]

    def lost(self, s, t):
        return not any(t in v[0] for v in list(s.env.values()) + list(s.attrs.values()))

    def into(self, target, toks, s, fr):
        """Add tokens to the container `target` (None: it is emptied)."""
        if isinstance(target, ast.Name):
            old = s.env.get(target.id, NOV)
            return s.setv(target.id, (old[0] | toks, UNK) if toks is not None else (frozenset(), EMPTY))
        if isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id == fr.selfname:
            old = s.attrs.get(target.attr, NOV)
            return s.seta(target.attr, (old[0] | toks, UNK) if toks is not None else (frozenset(), EMPTY))
        return s.release(toks) if toks else s  # kept by another object

    def explicit_self(self, f, fr, e):
        """Class.method(self, ...): the object is the first argument."""
        return isinstance(f.value, (ast.Name, ast.Attribute)) and self.class_named(f.value, fr) is not None

    def class_named(self, e, fr):
        d = dotted(e)
        if d is None:
            return None
        last = d.split(".")[-1]
        c = fr.mod.classes.get(d)
        if c is not None:
            return c if isinstance(c, ClassInfo) else self.prog.by_qual_class.get(f"{fr.mod.name}.{d}")
        if d.split(".")[0] in fr.mod.imports or d in fr.mod.imports:
            cs = [c for c in self.prog.by_qual_class.values() if c.name == last]
            return cs[0] if len(cs) == 1 else None
        return None

    def resolve(self, f, fr):
        """(module, function, class, class of self, whether self is the same object)"""
        if isinstance(f, ast.Name):
            g = fr.mod.functions.get(f.id)
            if g is not None:
                return fr.mod, getattr(g, "node", g), None, None, False
            if f.id in fr.mod.imports:
                return self.imported(fr.mod.imports[f.id], f.id)
            return None
        if not isinstance(f, ast.Attribute):
            return None
        b = f.value
        if isinstance(b, ast.Name) and b.id == fr.selfname and fr.self_cls is not None:
            r = fr.self_cls.find(f.attr)
            return (r[0].mod, r[1], r[0], fr.self_cls, True) if r else None
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super" and fr.self_cls is not None and fr.cls is not None:
            mro = fr.self_cls.mro()
            for c in mro[mro.index(fr.cls) + 1:] if fr.cls in mro else []:
                if isinstance(c, ClassInfo) and f.attr in c.methods:
                    return c.mod, c.methods[f.attr], c, fr.self_cls, True
            return None
        c = self.class_named(b, fr)
        if c is not None and fr.self_cls is not None and c in fr.self_cls.mro():
            r = c.find(f.attr)
            return (r[0].mod, r[1], r[0], fr.self_cls, True) if r else None
        d = dotted(b)
        if d and d.split(".")[0] in fr.mod.imports:
            return self.imported(fr.mod.imports[d.split(".")[0]], f.attr)
        return None

    def imported(self, imp, name):
        q = imp if isinstance(imp, str) else ".".join(str(x) for x in imp if x) if isinstance(imp, tuple) else str(imp)
        for m in self.prog.modules.values():
            if name in m.functions and (q == m.name or q == f"{m.name}.{name}" or q.endswith("." + m.name.split(".")[-1]) and m.name.endswith(q.split(".")[-1])):
                g = m.functions[name]
                return m, getattr(g, "node", g), None, None, False
        return None

    def inline(self, mod, node, cls, self_cls, selfname, e, vs, s, fr, rs, closure=False, skip=0, drop_self=False, cont=None):
        if fr.depth > 8 or node in self.stack:
            rs.add(s)
            return [(s, NOV)]
        ps = [a.arg for a in node.args.posonlyargs + node.args.args]
        if drop_self:
            ps = ps[1:]
            if skip == 0 and e.args:
                vs = vs[1:]
                args = e.args[1:]
            else:
                args = e.args
        else:
            args = e.args
        env = dict(s.env) if closure else {}
        n = len(args)
        for p, v in zip(ps, vs[:n]):
            env[p] = v
        for k, v in zip(e.keywords, vs[n:]):
            if k.arg:
                env[k.arg] = v
        for p in ps + [a.arg for a in node.args.kwonlyargs]:
            env.setdefault(p, NOV)
        if node.args.vararg:
            env[node.args.vararg.arg] = (frozenset().union(*[v[0] for v in vs[len(ps):n]]) if n > len(ps) else frozenset(), UNK)
        f2 = Frame(self, mod, node, cls, self_cls, selfname, fr.depth + 1, cont or (fr.cont if closure else None))
        outer = {("\0" * (fr.depth + 1)) + k: v for k, v in s.env.items()}
        s1 = s.w(env={**outer, **env}, attrs=s.attrs if self_cls is not None or closure else s.attrs)
        self.stack.append(node)
        try:
            res = self.block(node.body, s1, f2)
        finally:
            self.stack.pop()
        out = []
        for kind, s2, v in res:
            pend = s2.env.get("__pend")
            back = s2.w(env={**s.env, **{k: s2.env[k] for k in s.env if closure and k in s2.env and k not in ps}, **{k: v2 for k, v2 in s2.env.items() if k.startswith("__stack")}})
            if cont is not None and pend is not None:
                back = back.setv("__pend", pend)
            if kind == "raise":
                rs.add(back)
            else:
                out.append((back, v if v is not None else (frozenset(), NONE)))
        return self.dedup(out)

    # ---- conditions

    def test(self, e, st, fr, rs):
        """[(state, truth)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not t) for s, t in self.test(e.operand, st, fr, rs)]
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            out, cur = [], [st]
            for x in e.values:
                nxt = []
                for s in cur:
                    for s2, t in self.test(x, s, fr, rs):
                        (out if t == stop else nxt).append((s2, stop) if t == stop else s2)
                cur = nxt
            return self.dedup(out + [(s, not stop) for s in cur])
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value in (None, True, False) and not isinstance(e.comparators[0].value, int | float) | isinstance(e.comparators[0].value, bool) | (e.comparators[0].value is None):
            pass
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(e.comparators[0], ast.Constant) and (e.comparators[0].value is None or isinstance(e.comparators[0].value, bool)):
            want = {None: NONE, True: TRUE, False: FALSE}[e.comparators[0].value]
            pos = isinstance(e.ops[0], (ast.Is, ast.Eq))
            out = []
            for s, v in self.eval(e.left, st, fr, rs):
                if v[1] == want:
                    out.append((s, pos))
                elif v[0] or v[1] in (NONE, TRUE, FALSE, EMPTY):
                    out.append((s, not pos))
                else:
                    out += [(self.refine(e.left, want, s, fr), pos), (s, not pos)]
            return self.dedup(out)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Call) and isinstance(e.left.func, ast.Name) and e.left.func.id == "len" and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value in (0, 1):
            op, k = type(e.ops[0]), e.comparators[0].value
            pos = {(ast.Gt, 0): True, (ast.NotEq, 0): True, (ast.GtE, 1): True, (ast.Eq, 0): False, (ast.LtE, 0): False, (ast.Lt, 1): False}.get((op, k))
            if pos is not None:
                return [(s, t == pos) for s, t in self.test(e.left.args[0], st, fr, rs)]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("len", "bool", "any") and len(e.args) == 1:
            return self.test(e.args[0], st, fr, rs)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "hasattr" and len(e.args) == 2 and isinstance(e.args[0], ast.Name) and e.args[0].id == fr.selfname and isinstance(e.args[1], ast.Constant):
            return [(st, True)] if e.args[1].value in st.attrs else [(st, True), (st, False)]
        out = []
        for s, v in self.eval(e, st, fr, rs):
            if v[0] or v[1] == TRUE:
                out.append((s, True))
            elif v[1] in (NONE, FALSE, EMPTY):
                out.append((s, False))
            else:
                out += [(self.refine(e, TRUE if isinstance(v[1], str) or v[1][1].startswith("self.") else None, s, fr), True), (self.refine(e, FALSE if isinstance(v[1], str) or v[1][1].startswith("self.") else None, s, fr), False)]
        return self.dedup(out)

    def refine(self, e, c, s, fr):
        if c is None or c in (TRUE, FALSE) and not (isinstance(e, ast.Attribute) and e.attr.startswith(("is_", "has_"))):
            return s
        if isinstance(e, ast.Name) and e.id in s.env:
            return s.setv(e.id, (frozenset(), c))
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == fr.selfname:
            return s.seta(e.attr, (frozenset(), c))
        return s

    # ---- statements

    def block(self, body, st, fr):
        cur, done = [st], []
        for s in body:
            nxt = []
            for x in cur:
                for kind, s2, v in self.stmt(s, x, fr):
                    (nxt if kind == "next" else done).append(s2 if kind == "next" else (kind, s2, v))
            cur = self.dedup(nxt)
            if len(cur) > MAXSTATES:
                raise TooComplex("too many states")
            if not cur:
                break
        return self.dedup(done) + [("next", s, None) for s in cur]

    def stmt(self, s, st, fr):
        rs = set()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            out = m(s, st, fr, rs)
        else:
            out = []
            cur = [st]
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    cur = self.dedup([s2 for x in cur for s2, _ in self.eval(c, x, fr, rs)])
            out = [("next", x, None) for x in cur]
        return self.dedup(out + [("raise", x, None) for x in rs])

    def bind(self, t, v, s, fr):
        if isinstance(t, ast.Name):
            return [s.setv(t.id, v)]
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == fr.selfname:
            return [s.seta(t.attr, v)]
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                s = self.bind(x.value if isinstance(x, ast.Starred) else x, v, s, fr)[0]
            return [s]
        if isinstance(t, ast.Subscript):
            return [self.into(t.value, v[0], s, fr)] if v[0] else [s]
        if isinstance(t, ast.Attribute) and v[0]:
            return [s.release(v[0])]  # kept by another object
        return [s]

    def s_Assign(self, s, st, fr, rs):
        out = []
        if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(s.targets[0].elts) == len(s.value.elts):
            for x, vs in self.seq(s.value.elts, st, fr, rs):
                for t, v in zip(s.targets[0].elts, vs):
                    x = self.bind(t, v, x, fr)[0]
                out.append(("next", x, None))
            return out
        for x, v in self.eval(s.value, st, fr, rs):
            for t in s.targets:
                x = self.bind(t, v, x, fr)[0]
            out.append(("next", x, None))
        return out

    def s_AnnAssign(self, s, st, fr, rs):
        if s.value is None:
            return [("next", st, None)]
        return [("next", self.bind(s.target, v, x, fr)[0], None) for x, v in self.eval(s.value, st, fr, rs)]

    def s_AugAssign(self, s, st, fr, rs):
        out = []
        for x, v in self.eval(s.value, st, fr, rs):
            out.append(("next", self.into(s.target, v[0], x, fr) if v[0] else x, None))
        return out

    def s_Return(self, s, st, fr, rs):
        return [("return", x, v) for x, v in (self.eval(s.value, st, fr, rs) if s.value is not None else [(st, (frozenset(), NONE))])]

    def s_Raise(self, s, st, fr, rs):
        for c in (s.exc, s.cause):
            if c is not None:
                self.eval(c, st, fr, rs)
        rs.add(st)
        return []

    def s_Assert(self, s, st, fr, rs):
        out = []
        for x, t in self.test(s.test, st, fr, rs):
            rs.add(x) if not t else out.append(("next", x, None))
        return out

    def s_Pass(self, s, st, fr, rs):
        return [("next", st, None)]

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_ClassDef = s_Pass

    def s_Break(self, s, st, fr, rs):
        return [("break", st, None)]

    def s_Continue(self, s, st, fr, rs):
        return [("continue", st, None)]

    def s_FunctionDef(self, s, st, fr, rs):
        return [("next", st.setv(s.name, (frozenset(), ("func", s))), None)]

    def s_Delete(self, s, st, fr, rs):
        for t in s.targets:
            if isinstance(t, ast.Name) and t.id in st.env:
                st = st.w(env={k: v for k, v in st.env.items() if k != t.id})
            elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == fr.selfname:
                st = st.w(attrs={k: v for k, v in st.attrs.items() if k != t.attr})
        return [("next", st, None)]

    def s_If(self, s, st, fr, rs):
        out = []
        for x, t in self.test(s.test, st, fr, rs):
            out += self.block(s.body if t else s.orelse, x, fr)
        return out

    def s_Match(self, s, st, fr, rs):
        out = [("next", st, None)]
        for x, _ in self.eval(s.subject, st, fr, rs):
            for c in s.cases:
                out += self.block(c.body, x, fr)
        return out

    def loop(self, entry, body, orelse, fr, step, rs, must=False):
        """step(state) -> [(state, whether the body is entered)]"""
        out, seen, work = [], set(), list(entry)
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > 300:
                raise TooComplex("loop does not settle")
            for s2, enter in step(x):
                if not enter:
                    out += self.block(orelse, s2, fr) if orelse else [("next", s2, None)]
                    continue
                for kind, s3, v in self.block(body, s2, fr):
                    if kind in ("next", "continue"):
                        work.append(s3)
                    elif kind == "break":
                        out.append(("next", s3, None))
                    else:
                        out.append((kind, s3, v))
        return out

    def s_For(self, s, st, fr, rs):
        out = []
        for x, v in self.eval(s.iter, st, fr, rs):
            if v[0]:
                # the elements of a container of resources, all treated in the same way
                x = self.bind(s.target, (v[0], UNK), x, fr)[0]
                for kind, s3, v3 in self.block(s.body, x, fr):
                    if kind in ("next", "continue"):
                        out += self.block(s.orelse, s3, fr) if s.orelse else [("next", s3, None)]
                    elif kind == "break":
                        # the other elements are left
                        out.append(("next", s3.w(held=s3.held | (v[0] & x.held)), None))
                    else:
                        out.append((kind, s3, v3))
            else:
                empty = v[1] == EMPTY
                out += self.loop([x], s.body, s.orelse, fr, lambda y: [(y, False)] + ([] if empty else [(self.bind(s.target, NOV, y, fr)[0], True)]), rs)
        return out

    s_AsyncFor = s_For

    def s_While(self, s, st, fr, rs):
        return self.loop([st], s.body, s.orelse, fr, lambda y: self.test(s.test, y, fr, rs), rs)

    def s_Try(self, s, st, fr, rs):
        out = []
        for kind, x, v in self.block(s.body, st, fr):
            if kind == "raise":
                caught = False
                for h in s.handlers:
                    names = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(h.type) if isinstance(n, (ast.Name, ast.Attribute))} if h.type is not None else {"BaseException"}
                    y = x.setv(h.name, NOV) if h.name else x
                    out += self.block(h.body, y, fr)
                    if names & {"BaseException", "Exception"}:
                        caught = True
                        break
                if not caught:
                    out.append((kind, x, v))
            elif kind == "next" and s.orelse:
                out += self.block(s.orelse, x, fr)
            else:
                out.append((kind, x, v))
        if not s.finalbody:
            return out
        res = []
        for kind, x, v in self.dedup(out):
            for k2, y, v2 in self.block(s.finalbody, x, fr):
                res.append((kind, y, v) if k2 == "next" else (k2, y, v2))
        return res

    s_TryStar = s_Try

    def s_With(self, s, st, fr, rs):
        return self.with_items(s, 0, st, fr, rs)

    s_AsyncWith = s_With

    def with_items(self, s, i, st, fr, rs):
        if i == len(s.items):
            return self.block(s.body, st, fr)
        it = s.items[i]
        e = it.context_expr
        if isinstance(e, ast.Call):
            r = self.resolve(e.func, fr)
            if r is not None and any(ast.unparse(d).split("(")[0].split(".")[-1] == "contextmanager" for d in r[1].decorator_list):
                mod, node, cls, self_cls, keep = r
                out = []
                for x, vs in self.seq(list(e.args) + [k.value for k in e.keywords], st, fr, rs):
                    outer = x.env

                    def cont(y, v, outer=outer):
                        z = y.w(env={**{"\1" + k: w for k, w in y.env.items()}, **outer})
                        if it.optional_vars is not None:
                            z = self.bind(it.optional_vars, v, z, fr)[0]
                        res = []
                        for kind, q, v2 in self.with_items(s, i + 1, z, fr, rs):
                            inner = {k[1:]: w for k, w in q.env.items() if k.startswith("\1")}
                            mine = {k: w for k, w in q.env.items() if not k.startswith("\1")}
                            res.append((kind, q.w(env={**inner, **{"\2" + k: w for k, w in mine.items()}}), v2))
                        return res
                    ps = node.args.posonlyargs + node.args.args
                    selfname = ps[0].arg if cls is not None and ps else None
                    rr = set()
                    for y, _ in self.inline(mod, node, cls, self_cls if keep else None, selfname if keep else None, e, vs, x, fr, rr, skip=0 if cls is None else 1, drop_self=selfname is not None, cont=cont):
                        p = y.env.get("__pend")
                        y = y.w(env={k: w for k, w in y.env.items() if k != "__pend"})
                        out.append((p[1][1] if p else "next", y, (p[0], UNK) if p else None))
                    rs |= rr
                return out
        out = []
        for x, v in self.eval(e, st, fr, rs):
            y = self.bind(it.optional_vars, v, x, fr)[0] if it.optional_vars is not None else x
            stack = v[1][1] if isinstance(v[1], tuple) and v[1][0] == "stack" else None
            suppress = isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] == "suppress"
            for kind, z, v2 in self.with_items(s, i + 1, y, fr, rs):
                toks = v[0]
                if stack:
                    toks = toks | z.env.get(stack, NOV)[0]
                z = z.release(toks)
                out.append((kind, z, v2))
                if kind == "raise" and suppress:
                    out.append(("next", z, None))
        return out


def describe(t):
    what = {"executor": "executor", "file": "file", "projector": "ASTRA projector", "data": "ASTRA data object", "algorithm": "ASTRA algorithm", "matrix": "ASTRA matrix"}[t[0]]
    return what if not t[1].startswith("self.") else f"{what} of {t[1]}"


def run_function(prog, m, c, f, self_cls=None, attrs=None, held=frozenset()):
    """[(kind, state, value)] of one function, with the given attributes of self."""
    an = Analysis(prog)
    decs = [ast.unparse(d) for d in f.decorator_list]
    ps = f.args.posonlyargs + f.args.args
    selfname = ps[0].arg if c is not None and ps and "staticmethod" not in decs and "classmethod" not in decs else None
    fr = Frame(an, m, f, c, self_cls or c, selfname, 0)
    env = {a.arg: NOV for a in ps + f.args.kwonlyargs if a.arg != selfname}
    for a in (f.args.vararg, f.args.kwarg):
        if a:
            env[a.arg] = NOV
    an.stack.append(f)
    res = an.block(f.body, St(held, env, attrs or {}), fr)
    return res, an


def leaks(res, methods=True):
    """[(token, kind of exit, certain)] held at an exit and referenced neither by the result nor by self."""
    out = []
    for kind, s, v in res:
        ref = set(v[0]) if kind == "return" and v is not None else set()
        for a in s.attrs.values():
            ref |= a[0]
        for t in s.held - ref:
            out.append((t, kind, t not in s.maybe))
    return out


def canonical(s, names=None):
    """The attributes that matter at the end of a method: held tokens renamed by attribute."""
    held, attrs = set(), {}
    for a, v in sorted(s.attrs.items()):
        if names is not None and a not in names and not v[0]:
            continue
        toks = frozenset(Tok((t.kind, "self." + a, 0, 0)) for t in v[0] if t in s.held)
        held |= toks
        c = v[1]
        if toks:
            attrs[a] = (toks, UNK)
        elif v[0]:
            attrs[a] = (frozenset(), UNK)  # released, but still referenced
        elif c in (NONE, TRUE, FALSE, EMPTY):
            attrs[a] = (frozenset(), c)
    return frozenset(held), attrs
