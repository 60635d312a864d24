"""Abstract interpreter producing gated value numbers, a may-alias heap with storage origins, and an effect log.

Nothing of the analysed package is imported or executed: the syntax tree is evaluated over the abstract domain
(hash-consed value terms x heap cells), branches are joined with gates, loops are summarised by header symbols (mu).
"""
from __future__ import annotations
import ast
import builtins
import math
import itertools
from fractions import Fraction
from .terms import (T, subst, mk, const, sym, app, add, sub, mul, div, neg, power, gate, t_not, t_and, t_or, NONE, TRUE, FALSE,
                    is_const, is_num, cval, skey, show, subterms)
from .model import Program, ClassInfo, Module, funcqual, AnalysisBroken, PKG


# ------------------------------------------------------------------ values
class V:
    __slots__ = ()


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("R", self.id))

    def __repr__(self):
        return f"&{self.id}"


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return f"Tup{self.items}"


class Func(V):
    def __init__(self, node, mod, frame, cls=None, selfV=None, name=None):
        self.node, self.mod, self.frame, self.cls, self.selfV = node, mod, frame, cls, selfV
        self.name = name or getattr(node, "name", "<lambda>")

    @property
    def qual(self):
        return funcqual(self.mod, self.cls, self.node)

    def __eq__(self, o):
        return isinstance(o, Func) and o.node is self.node and o.frame == self.frame and o.selfV == self.selfV

    def __hash__(self):
        return hash((id(self.node), self.frame))

    def __repr__(self):
        return f"<func {self.qual}>"


class Cls(V):
    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Cls) and o.c is self.c

    def __hash__(self):
        return hash(id(self.c))


class Ext(V):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<ext {self.name}>"


class Mod(V):
    def __init__(self, m):
        self.m = m

    def __eq__(self, o):
        return isinstance(o, Mod) and o.m is self.m

    def __hash__(self):
        return hash(id(self.m))


class EMeth(V):
    """Bound method `name` of an unknown / builtin value."""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, EMeth) and o.recv == self.recv and o.name == self.name

    def __hash__(self):
        return hash((self.recv, self.name))


class GV(V):
    """Gated value: if(cond; a; b)."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, GV) and o.c is self.c and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash((self.c.uid, self.a, self.b))

    def __repr__(self):
        return f"GV({self.c}; {self.a}; {self.b})"


class Super(V):
    def __init__(self, cls, selfV):
        self.cls, self.selfV = cls, selfV


class Partial(V):
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class _Unbound(V):
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()
UNB_T = mk("unbound")


# ------------------------------------------------------------------ heap cells (immutable; replaced functionally)
class Cell:
    kind = "?"

    def clone(self, **kw):
        c = object.__new__(type(self))
        c.__dict__.update(self.__dict__)
        c.__dict__.update(kw)
        return c

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.__dict__ == o.__dict__)

    __hash__ = None


class ValCell(Cell):
    kind = "val"

    def __init__(self, term, origins=frozenset(), ty=None, maybe_none=False, elem_ann=None, mod=None):
        self.term, self.origins, self.ty, self.maybe_none = term, frozenset(origins), ty, maybe_none
        self.attrs = {}
        self.elem_ann, self.mod = elem_ann, mod


class InstCell(Cell):
    kind = "inst"

    def __init__(self, cls, term, origins=frozenset(), open_=False, maybe_none=False, exact=False):
        self.cls, self.term, self.origins, self.open, self.maybe_none = cls, term, frozenset(origins), open_, maybe_none
        self.attrs = {}
        self.exact = exact


class ListCell(Cell):
    kind = "list"

    def __init__(self, items, term=None, origins=frozenset(), elem=None, pykind="list"):
        self.items, self.term, self.origins, self.elem, self.pykind = items, term, frozenset(origins), elem, pykind


class DictCell(Cell):
    kind = "dict"

    def __init__(self, items, term=None, origins=frozenset(), elem=None):
        self.items, self.term, self.origins, self.elem = items, term, frozenset(origins), elem


class ViewCell(Cell):
    kind = "view"

    def __init__(self, base, fn):
        self.base, self.fn = base, fn  # fn: ('get', idx T) | ('app', name, args tuple)
        self.attrs = {}


class State:
    __slots__ = ("frames", "heap", "pc", "known", "dead")

    def __init__(self, frames=None, heap=None, pc=(), known=None):
        self.dead = False
        self.frames = frames if frames is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.known = known if known is not None else {}

    def copy(self):
        return State({k: dict(v) for k, v in self.frames.items()}, dict(self.heap), self.pc, dict(self.known))

    def assume(self, c: T, val: bool):
        if c.op == "const":
            if isinstance(c.args[0], (bool, type(None))) and bool(c.args[0]) != val:
                self.dead = True
            return
        if c.op == "not":
            return self.assume(c.args[0], not val)
        if (c.op == "and" and val) or (c.op == "or" and not val):
            for a in c.args:
                self.assume(a, val)
            return
        if c.op == "gate":
            g, a, b = c.args
            if b.op == "const" and bool(b.args[0]) != val:
                self.assume(g, True)
                self.assume(a, val)
                return
            if a.op == "const" and bool(a.args[0]) != val:
                self.assume(g, False)
                self.assume(b, val)
                return
        if c.uid in self.known:
            if self.known[c.uid] != val:
                self.dead = True
            return
        self.known[c.uid] = val
        old = self.pc
        self.pc = self.pc + ((c, val),)
        # unit propagation through the compound conditions assumed earlier
        for c0, v0 in old:
            if c0.op in ("gate", "and", "or"):
                r = simp_known(self.known, c0, top=True)
                if r is not c0:
                    self.assume(r, v0)

    def set_pc(self, pc):
        self.pc = pc
        self.known = {c.uid: v for c, v in pc}


def simp_known(known, c, top=False):
    if c.op == "const":
        return c
    if not top:
        k = known.get(c.uid)
        if k is not None:
            return TRUE if k else FALSE
    if c.op == "not":
        return t_not(simp_known(known, c.args[0]))
    if c.op == "and":
        return t_and(*[simp_known(known, a) for a in c.args])
    if c.op == "or":
        return t_or(*[simp_known(known, a) for a in c.args])
    if c.op == "gate":
        g = simp_known(known, c.args[0])
        if g.op == "const":
            return simp_known(known, c.args[1] if cval(g) else c.args[2])
    return c


class Event:
    __slots__ = ("kind", "site", "pc", "stack", "data", "seq")

    def __init__(self, kind, site, pc, stack, data, seq):
        self.kind, self.site, self.pc, self.stack, self.data, self.seq = kind, site, pc, stack, data, seq

    def __repr__(self):
        return f"<{self.kind} {self.site} {self.data}>"


class Abort(Exception):
    """The current path ends (raise / no return)."""


class Loop:
    def __init__(self):
        self.id = None
        self.site = None
        self.iter = None
        self.idx = None
        self.mus = {}
        self.pc = ()
        self.breaks = []
        self.head = None
        self.body = None
        self.func = None
        self.init = None
        self.depth = 0


PURE_ARRAY_VIEW_METHODS = {"reshape", "ravel", "squeeze", "transpose", "swapaxes", "view", "diagonal"}
VIEW_ATTRS = {"T", "real", "imag", "flat", "data", "mT"}
NUMERIC_ATTRS = {"shape", "ndim", "size", "dtype", "nbytes", "itemsize"}
MUT_METHODS = {"fill", "sort", "resize", "partition", "put", "itemset", "append", "extend", "insert", "pop", "remove", "clear",
               "update", "setdefault", "popitem", "reverse", "add", "discard", "setfield", "byteswap_inplace", "append_left"}
NP_VIEW = {"np.asarray", "np.asanyarray", "np.ascontiguousarray", "np.asfortranarray", "np.require", "np.asarray_chkfinite"}
NP_VIEW_FN = {"np.reshape", "np.ravel", "np.squeeze", "np.transpose", "np.swapaxes", "np.moveaxis", "np.rollaxis", "np.flip", "np.fliplr",
              "np.flipud", "np.broadcast_to", "np.expand_dims", "np.atleast_1d", "np.atleast_2d", "np.atleast_3d", "np.real",
              "np.imag", "np.diagonal", "np.split", "np.array_split", "np.rot90", "np.permute_dims"}
NP_MUT0 = {"np.copyto", "np.put", "np.place", "np.putmask", "np.fill_diagonal", "np.random.shuffle", "np.put_along_axis"}
METH2NP = {"sum", "mean", "std", "var", "min", "max", "prod", "any", "all", "argmax", "argmin", "argsort", "cumsum", "dot", "conj", "conjugate",
           "clip", "round", "trace", "nonzero", "take", "repeat", "astype", "copy", "flatten", "tolist", "item", "searchsorted", "ptp", "cumprod"}

IMMUTABLE_TYS = {"int", "float", "str", "bool", "slice", "complex", "bytes"}


def np_name(n):
    if n == "numpy":
        return "np"
    if n.startswith("numpy."):
        return "np." + n[6:]
    return n


MIXED = mk("opaque", "any element")


class Interp:
    def __init__(self, prog: Program, max_depth=12, opaque=(), record=(), max_steps=400_000, on_opaque=None, closed_world=True):
        self.prog = prog
        self.max_depth = max_depth
        self.opaque = set(opaque)
        self.record = set(record)
        self.base_heap = {}
        self.globals = {}
        self.defaults = {}
        self.classvals = {}
        self.events = []
        self.loops = []
        self._ids = itertools.count(1)
        self._seq = itertools.count(1)
        self.stack = []  # call stack of (qual, node)
        self.steps = 0
        self.max_steps = max_steps
        self.symty = {}
        self.eqsrc = {}  # equality test -> the two lengths compared
        self.concats = set()  # terms that are concatenations of strings  # sym/attr term uid -> python type name
        self.mushape = {}  # loop-carried array cell -> its value on entry
        self.symdim = {}  # array symbol uid -> declared number of axes (driver texts: `v: Arr[2]`)
        self.symnone = set()  # term uids that may be None
        self.unsupported = []
        self.loop_depth = 0
        self.n_calls = 0
        self.analysed = set()
        self.nonneg_terms = set()
        self.closed_world = closed_world
        self.call_hook = None
        self.raise_conds = []

    # ---------------------------------------------------------------- small helpers
    def new_id(self):
        return next(self._ids)

    def cell(self, st, ref) -> Cell:
        c = st.heap.get(ref.id)
        return c if c is not None else self.base_heap[ref.id]

    def alloc(self, st, cell) -> Ref:
        i = self.new_id()
        st.heap[i] = cell
        return Ref(i)

    def arr(self, st, term, origins=("fresh",), ty=None) -> V:
        """A value of unknown Python type: array-like storage of its own."""
        if is_const(term) or ty in IMMUTABLE_TYS:
            return term
        return self.alloc(st, ValCell(term, origins, ty=ty))

    def site(self, node):
        mod = self.stack[-1][2] if self.stack else None
        return (mod.path if mod else "?", getattr(node, "lineno", 0), self.stack[-1][0] if self.stack else "?")

    def event(self, kind, node, st, **data):
        e = Event(kind, self.site(node), st.pc, tuple(s[0] for s in self.stack), data, next(self._seq))
        self.events.append(e)
        return e

    def opaque_term(self, node, why, *args):
        s = self.site(node)
        return mk("opaque", why, *args)

    # ---------------------------------------------------------------- V -> term
    def read(self, st, v) -> T:
        """Value term of v in state st."""
        return self._read(st, v, 0)

    def _read(self, st, v, d):
        if isinstance(v, T):
            return v
        if d > 12:
            return mk("opaque", "deep")
        if isinstance(v, Tup):
            return mk("tuple", *[self._read(st, x, d + 1) for x in v.items])
        if isinstance(v, GV):
            return gate(v.c, self._read(st, v.a, d + 1), self._read(st, v.b, d + 1))
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, ViewCell):
                b = self._read(st, c.base, d + 1)
                return self.view_term(b, c.fn)
            if isinstance(c, ListCell):
                if c.items is not None:
                    return mk("list", *[self._read(st, x, d + 1) for x in c.items])
                return c.term if c.term is not None else mk("opaque", "list")
            if isinstance(c, DictCell):
                if c.items is not None:
                    return mk("dict", *[mk("tuple", k if isinstance(k, T) else const(k), self._read(st, x, d + 1)) for k, x in c.items.items()])
                return c.term if c.term is not None else mk("opaque", "dict")
            if isinstance(c, InstCell):
                if c.term is not None:
                    return c.term
                if c.cls.is_dataclass:
                    return mk("inst", c.cls.qual, *[mk("kw", k, self._read(st, x, d + 1)) for k, x in sorted(c.attrs.items())])
                return mk("inst", c.cls.qual, *[mk("kw", k, self._read(st, x, d + 1)) for k, x in sorted(c.attrs.items()) if d < 4])
            return c.term
        if isinstance(v, Func):
            if isinstance(v.node, ast.Lambda) or v.frame:
                return self.lambda_term(st, v)
            if v.selfV is not None:
                return mk("attr", self._read(st, v.selfV, d + 1), v.name)
            return mk("func", v.qual)
        if isinstance(v, Cls):
            return mk("class", v.c.qual)
        if isinstance(v, Ext):
            return mk("ext", np_name(v.name))
        if isinstance(v, Mod):
            return mk("ext", v.m.name)
        if isinstance(v, EMeth):
            return mk("attr", self._read(st, v.recv, d + 1), v.name)
        if v is UNBOUND:
            return UNB_T
        if isinstance(v, Partial):
            return mk("partial", self._read(st, v.f, d + 1), *[self._read(st, x, d + 1) for x in v.args])
        return mk("opaque", "value")

    def lambda_term(self, st, f):
        """A closure is named by what it returns for symbolic arguments (numbered by nesting depth), not by its place in the file."""
        name = mk("closure", f.qual + "@" + str(getattr(f.node, "lineno", 0)))
        d = getattr(self, "_lamdepth", 0)
        a = f.node.args
        if d > 2 or a.vararg or a.kwarg or a.kwonlyargs or any(x[1] is f.node for x in self.stack):
            return name
        ps = (a.posonlyargs + a.args)[1 if f.selfV is not None else 0:]
        self._lamdepth = d + 1
        try:
            q = st.copy()
            ops = {}
            args = [self.abstract(sym(f"lambda{d}.{i}"), p.annotation, f.mod, q, {"fresh"}) for i, p in enumerate(ps)]
            heap0 = dict(q.heap)
            v = self.run(f, self.bind(f, args, {}, q, f.node), q, f.node)
            t = self.read(q, v)
            if any(q.heap.get(k) is not c and self.term_of_cell(q, k) is not self.term_of_cell(st, k) for k, c in st.heap.items()):
                return name
        except Abort:
            return name
        finally:
            self._lamdepth = d
        return mk("closure", const(len(ps) - len(a.defaults)), t)

    def term_of_cell(self, st, k):
        return self.read(st, Ref(k))

    @staticmethod
    def _viewkey(fn):
        return mk("attr", const("view"), fn[1]) if fn[0] == "attr" else mk("app", "viewof", const(fn[1]), *fn[2])

    def view_term(self, b, fn):
        if b.op == "app" and b.args[0] == "updview" and b.args[2] is self._viewkey(fn):
            return b.args[3]
        if b.op == "vec" and fn[0] == "app":
            if fn[1] in ("np.flip", "np.flipud") and (not fn[2] or len(fn[2]) == 1 and fn[2][0] in (mk("kw", "axis", const(0)), mk("kw", "axis", const(-1)))) and not any(x.op == "vec" for x in b.args):
                return mk("vec", *reversed(b.args))
            if fn[1] == "astype" and is_const(fn[2][0], "int") and all(is_num(x) and isinstance(cval(x), int) or self.symty.get(x.uid) == "int" for x in b.args):
                return b
            if fn[1] == "np.reshape" and fn[2]:
                r = self.vec_reshape(b, fn[2])
                if r is not None:
                    return r
        if fn[0] == "app" and fn[1] == "np.reshape" and len(fn[2]) == 1 and b.op == "get" and isinstance(b.args[1], T) and b.args[1].op == "app" and b.args[1].args[0] == "np.ravel" \
                and len(b.args[1].args) == 2 and self.ndim_of(b.args[0]) == 1 and fn[2][0] is self.shape_attr(b.args[1].args[1], "shape"):
            return self.t_get(b.args[0], b.args[1].args[1])  # a table looked up at every item of an array
        if fn[0] == "get":
            return self.t_get(b, fn[1])
        if fn[0] == "attr" or fn[1] in ("np.transpose", "np.swapaxes", "np.moveaxis"):
            t = self.permuted(b, *(("np.transpose", ()) if fn[0] == "attr" else fn[1:])) if fn[0] != "attr" or fn[1] == "T" else None
            if t is not None:
                return t
        if fn[0] == "attr":
            return mk("attr", b, fn[1])
        if fn[1] in ("np.reshape", "np.expand_dims", "np.atleast_2d") and b.op != "vec":
            i = self.new_axes(b, fn[1], fn[2])
            if i is not None:
                return self.t_get(b, i)
        return mk("app", fn[1], b, *fn[2])

    def permuted(self, b, n, args):
        """The array with its axes in another order, in one form, where the number of axes and the order are known."""
        k = self.ndim_of(b)
        if k is None or not 1 < k < 9 or b.op == "vec":
            return None
        v = [a.args[1] if a.op == "kw" else a for a in args]
        if len({a.args[0] for a in args if a.op == "kw"}) not in (0, len(args)):
            return None
        names = {"np.transpose": ("axes",), "np.swapaxes": ("axis1", "axis2"), "np.moveaxis": ("source", "destination")}[n]
        if any(a.op == "kw" for a in args):
            d = {a.args[0]: a.args[1] for a in args}
            if set(d) - set(names):
                return None
            v = [d[x] for x in names if x in d]
        if n == "np.transpose" and len(v) == 1 and v[0].op in ("tuple", "list", "vec"):
            v = list(v[0].args)
        if not all(is_num(x) and isinstance(cval(x), int) and not isinstance(cval(x), bool) and -k <= cval(x) < k for x in v):
            return None
        v = [int(cval(x)) % k for x in v]
        if n == "np.transpose":
            p = v or list(range(k))[::-1]
            if sorted(p) != list(range(k)):
                return None
        elif len(v) != 2:
            return None
        else:
            p = list(range(k))
            if n == "np.swapaxes":
                p[v[0]], p[v[1]] = p[v[1]], p[v[0]]
            else:
                p.insert(v[1], p.pop(v[0]))
        if b.op == "attr" and b.args[1] == "T":
            b, p = b.args[0], [k - 1 - i for i in p]
        elif b.op == "app" and b.args[0] == "np.transpose" and len(b.args) == 3 and b.args[2].op == "kw" and b.args[2].args[1].op == "tuple" and all(is_num(x) for x in b.args[2].args[1].args):
            b, p = b.args[1], [cval(b.args[2].args[1].args[i]) for i in p]
        if p == list(range(k)):
            return b
        return mk("attr", b, "T") if k == 2 else mk("app", "np.transpose", b, mk("kw", "axes", mk("tuple", *[const(i) for i in p])))

    def new_axes(self, b, n, args):
        """The index that inserts the axes that the function inserts."""
        full, new = mk("slice", NONE, NONE, NONE), const(None)
        if n == "np.expand_dims":
            if len(args) != 1:
                return None
            ax = args[0].args[1] if args[0].op == "kw" else args[0]
            if not is_num(ax) or not isinstance(cval(ax), int) or abs(cval(ax)) > 6:
                return None
            k = cval(ax)
            ix = [full] * k + [new] if k >= 0 else [const(Ellipsis), new] + [full] * (-k - 1)
        else:
            if self.ndim_of(b) != 1:
                return None
            if n == "np.atleast_2d":
                return new if not args else None
            dims = args[0] if len(args) == 1 else mk("tuple", *args)
            if dims.op not in ("tuple", "list", "vec") or len(dims.args) < 2:
                return None
            lens = (self.shape_attr(b, "size"), mk("get", self.shape_attr(b, "shape"), const(0)), mk("app", "len", b), const(-1))
            rest = [x for x in dims.args if not is_const(x, 1)]
            if len(rest) != 1 or not any(rest[0] is x for x in lens):
                return None
            ix = [new if is_const(x, 1) else full for x in dims.args]
        return mk("tuple", *ix) if len(ix) > 1 else ix[0]

    def vec_reshape(self, b, args):
        dims = args[0] if len(args) == 1 else mk("tuple", *args)
        dims = list(dims.args) if dims.op in ("tuple", "list", "vec") else [dims]
        sh = self.vec_shape(b)
        if sh is None or not all(is_num(x) and isinstance(cval(x), int) for x in dims):
            return None
        leaves = [b]
        while leaves and leaves[0].op == "vec":
            leaves = [y for x in leaves for y in x.args]
        dims, n = [cval(x) for x in dims], 1
        for x in dims:
            n *= x if x != -1 else 1
        if dims.count(-1) > 1 or not n or len(leaves) % n:
            return None
        dims = [x if x != -1 else len(leaves) // n for x in dims]
        for x in reversed(dims[1:]):
            leaves = [mk("vec", *leaves[k:k + x]) for k in range(0, len(leaves), x)]
        return mk("vec", *leaves) if len(leaves) == dims[0] else None

    @staticmethod
    def trim_index(i):
        """x[k, ...], x[k, :, :] and x[k] are the same."""
        if i.op == "tuple" and i.args:
            a = list(i.args)
            dots = [x.op == "const" and cval(x) is Ellipsis for x in a]
            while len(a) > 1 and (dots[-1] or a[-1].op == "slice" and all(is_const(y, None) for y in a[-1].args) and not any(dots)):
                a.pop()
                dots.pop()
            return mk("tuple", *a) if len(a) > 1 else a[0]
        return i

    def expand_dots(self, b, i):
        """x[..., k] is x[:, k] for an array known to have two axes."""
        if i.op != "tuple" or not any(x.op == "const" and cval(x) is Ellipsis for x in i.args):
            return i
        n = self.ndim_of(b)
        if n is None:
            return i
        full = mk("slice", const(None), const(None), const(None))
        for x in i.args:
            if x.op == "list" and x.args and all(self.is_scalar_t(y) and not self.is_bool_term(y) and not is_const(y, None) for y in x.args):
                continue  # a list of positions
            if not (x.op == "slice" or x.op == "const" and (cval(x) is None or cval(x) is Ellipsis) or self.is_scalar_t(x) and not self.is_bool_term(x) and not (x.op == "const" and isinstance(cval(x), bool))):
                return i
        n -= sum(1 for x in i.args if not (x.op == "const" and (cval(x) is None or cval(x) is Ellipsis)))
        if n < 0:
            return i
        out = []
        for x in i.args:
            out += [full] * n if x.op == "const" and cval(x) is Ellipsis else [x]
        return mk("tuple", *out) if len(out) != 1 else out[0]

    def vec_index(self, b, ix):
        """Index of a small array with known items (integers, new axes, constant slices, one ellipsis), or None."""
        dots = [k for k, x in enumerate(ix) if x.op == "const" and cval(x) is Ellipsis]
        if len(dots) > 1:
            return None
        if dots:
            n = (self.ndim_of(b) or 1) - sum(1 for x in ix if not is_const(x, None)) + 1
            if n < 0:
                return None
            ix = ix[:dots[0]] + [mk("slice", const(None), const(None), const(None))] * n + ix[dots[0] + 1:]
        if not ix:
            return b
        if is_const(ix[0], None):
            r = self.vec_index(b, ix[1:])
            return None if r is None else mk("vec", r)
        if b.op != "vec":
            return None
        if is_num(ix[0]) and isinstance(cval(ix[0]), int) and -len(b.args) <= cval(ix[0]) < len(b.args):
            return self.vec_index(b.args[cval(ix[0])], ix[1:])
        if ix[0].op == "slice" and all(is_const(a) for a in ix[0].args):
            rows = [self.vec_index(x, ix[1:]) for x in b.args[slice(*[cval(a) for a in ix[0].args])]]
            return mk("vec", *rows) if rows and all(r is not None for r in rows) else None
        return None

    @staticmethod
    def stack_rows(t):
        """The items of an array stacked along its first axis, or None."""
        if t.op == "app" and t.args[0] == "np.stack" and t.args[1].op in ("list", "tuple") and t.args[1].args and (len(t.args) == 2 or len(t.args) == 3 and t.args[2] is mk("kw", "axis", const(0))):
            return t.args[1].args
        return None

    def vec_shape(self, t, d=0):
        if t.op != "vec":
            return () if self.is_scalar_t(t) else None
        s = {self.vec_shape(x, d + 1) for x in t.args}
        return (len(t.args), *s.pop()) if len(s) == 1 and None not in s else None

    ITEMWISE = {"astype", "np.floor", "np.ceil", "np.round", "np.abs", "np.sqrt", "np.radians", "np.degrees"}

    def integral(self, x):
        """The integer that a number of integral value is, however it was computed."""
        if self.is_int_t(x):
            return x
        if is_num(x):
            return const(int(cval(x))) if cval(x) == int(cval(x)) else None
        if x.op in ("mul", "add"):
            a = [self.integral(y) for y in x.args]
            if None not in a:
                r = a[0]
                for y in a[1:]:
                    r = mul(r, y) if x.op == "mul" else add(r, y)
                return r
        return None

    def itemwise(self, b, d=0):
        """A function of each item of a small array, as the array of its values."""
        if b.op == "vec":
            return b if all(self.is_scalar_t(x) for x in b.args) else None
        if b.op == "app" and b.args[0] in self.ITEMWISE and isinstance(b.args[1], T) and d < 4 and all(isinstance(x, T) and x.op == "const" for x in b.args[2:]):
            v = self.itemwise(b.args[1], d + 1)
            if v is not None:
                if b.args[0] == "astype" and is_const(b.args[2], "int"):  # as int() of each
                    w = [x if self.is_int_t(x) or x.op == "app" and x.args[0] in ("np.round", "np.ceil", "np.floor") else mk("app", "int", x) for x in v.args]
                    for x in w:
                        self.symty.setdefault(x.uid, "int")
                    return mk("vec", *w)
                keep = b.args[0] in ("np.floor", "np.ceil", "np.round")
                return mk("vec", *[(self.integral(x) if keep else None) or mk("app", b.args[0], x, *b.args[2:]) for x in v.args])
        return None

    def reversed_axes(self, b, i):
        """x[..., ::-1, ...] is the flip of the indexed array."""
        ix = i.args if i.op == "tuple" else (i,)
        back = mk("slice", NONE, NONE, const(-1))
        if not any(k is back for k in ix) or b.op in ("vec", "list", "tuple", "const"):
            return None
        n = self.ndim_of(b)
        used = sum(1 for k in ix if not is_const(k, None))
        dots = [k.op == "const" and cval(k) is Ellipsis for k in ix]
        if sum(1 for k in ix if k.op == "list") > 1 or (dots != [True] + [False] * (len(ix) - 1) if n is None else used > n or any(dots)):
            return None
        left, axes = 0 if n is None else n - used, []
        scal = False
        for k in reversed(ix):
            if k is back:
                left += 1
                axes.append(-left)
            elif k.op == "slice" or is_const(k, None) or k.op == "list" and k.args and all(self.is_scalar_t(y) and not self.is_bool_term(y) for y in k.args):
                left += 1
            elif self.is_scalar_t(k) and not self.is_bool_term(k):
                scal = True
            elif not (k is ix[0] and dots[0]):
                return None
        if scal and any(k.op == "list" for k in ix):
            return None
        whole = mk("slice", NONE, NONE, NONE)
        r = self.t_get(b, mk("tuple", *[whole if k is back else k for k in ix]) if len(ix) > 1 else whole)
        ax = sorted(axes)
        if n == len(ax) == 1 or len(ax) == 1:
            return mk("app", "np.flip", r, mk("kw", "axis", const(ax[0])))
        return mk("app", "np.flip", r, mk("kw", "axis", mk("tuple", *[const(k) for k in ax])))

    def t_get(self, b: T, i: T) -> T:
        i = self.trim_index(self.expand_dots(b, i))
        if b.op == "app" and b.args[0] == "listcat" and is_num(i) and isinstance(cval(i), int):
            k = cval(i)
            if k < 0 and b.args[2].op == "list" and -k <= len(b.args[2].args):
                return b.args[2].args[k]
            if k >= 0 and b.args[1].op == "list":
                return b.args[1].args[k] if k < len(b.args[1].args) else self.t_get(b.args[2], const(k - len(b.args[1].args)))
            if k == 0 and b.args[1].op == "listcomp" and b.args[2].op == "list" and b.args[2].args:
                return gate(mk("lt", const(0), self.t_len(b.args[1])), self.t_get(b.args[1], const(0)), b.args[2].args[0])
        r = self.reversed_axes(b, i)
        if r is not None:
            return r
        if b.op == "app" and b.args[0] in self.ITEMWISE and (is_num(i) or i.op == "slice" and all(is_const(a) for a in i.args)):
            b = self.itemwise(b) or b
        if b.op in ("tuple", "list", "vec") and is_num(i) and isinstance(cval(i), int):
            n = len(b.args)
            if -n <= cval(i) < n:
                return b.args[cval(i)]
        if b.op == "vec" and i.op in ("vec", "list") and all(is_num(x) and isinstance(cval(x), int) and -len(b.args) <= cval(x) < len(b.args) for x in i.args):
            return mk("vec", *[b.args[cval(x)] for x in i.args])
        if b.op == "vec" and i.op == "tuple" and len(i.args) == 2 and is_num(i.args[0]) and isinstance(cval(i.args[0]), int) and b.args and b.args[0].op == "vec" and -len(b.args) <= cval(i.args[0]) < len(b.args):
            return self.t_get(b.args[cval(i.args[0])], i.args[1])
        if b.op in ("tuple", "list", "vec") and i.op == "slice" and all(is_const(a) for a in i.args):
            try:
                return mk(b.op, *b.args[slice(*[cval(a) for a in i.args])])
            except Exception:
                pass
        if b.op == "vec" and (i.op == "tuple" or is_const(i, None)):
            r = self.vec_index(b, list(i.args) if i.op == "tuple" else [i])
            if r is not None:
                return r
        rows = self.stack_rows(b)
        if rows is not None:
            k, rest = (i.args[0], i.args[1:]) if i.op == "tuple" and i.args else (i, ())
            if is_num(k) and isinstance(cval(k), int) and -len(rows) <= cval(k) < len(rows):
                x = rows[cval(k)]
                return self.t_get(x, mk("tuple", *rest) if len(rest) > 1 else rest[0]) if rest else x
        if b.op == "gate":
            return gate(b.args[0], self.t_get(b.args[1], i), self.t_get(b.args[2], i))
        if b.op == "upd":
            if b.args[1] is i:
                return b.args[2]
            j = b.args[1]
            if is_const(i) and is_const(j) and type(cval(i)) is type(cval(j)) and isinstance(cval(i), str):
                return self.t_get(b.args[0], i)
            if is_const(i) and is_const(j) and isinstance(cval(i), int) and isinstance(cval(j), int) and cval(i) >= 0 and cval(j) >= 0:
                return self.t_get(b.args[0], i)
        if b.op == "get":
            # the only position of an axis of one item
            p, q = ([(k, x) for k, x in enumerate(j.args if j.op == "tuple" else (j,)) if not (x.op == "slice" and all(is_const(a, None) for a in x.args))] for j in (i, b.args[1]))
            if len(p) == len(q) == 1 and p[0][0] == q[0][0] and all(z[0][1].op == "list" and len(z[0][1].args) == 1 for z in (p, q)) and p[0][1].args[0] in (const(0), const(-1)) and self.is_scalar_t(q[0][1].args[0]):
                return b
        if i.op == "idx_":
            if b.op == "app" and b.args[0] == "np.arange" and len(b.args) == 2:
                return i
            if b.op == "app" and b.args[0] in ("np.zeros_like", "np.ones_like", "np.zeros", "np.ones") and len(b.args) == 2 and self.ndim_of(b) == 1:
                return const(0 if "zeros" in b.args[0] else 1)
            if b.op == "get" and b.args[1].op == "slice" and is_const(b.args[1].args[2], None):
                lo, hi = b.args[1].args[:2]
                if is_const(lo, None) and is_num(hi) and cval(hi) < 0:
                    return self.t_get(b.args[0], i)
                if is_const(hi, None) and is_num(lo) and cval(lo) > 0:
                    return self.t_get(b.args[0], add(i, lo))
        if b.op == "attr" and b.args[1] == "flat" and is_const(i, 0) and self.is_scalar_t(b.args[0]):
            return b.args[0]
        if b.op == "attr" and b.args[1] == "shape" and is_num(i) and cval(i) == 0:
            y = b.args[0]
            if y.op == "app" and y.args[0] == "np.stack" and y.args[1].op == "list" and (len(y.args) == 2 or y.args[2] is mk("kw", "axis", const(0))):
                return const(len(y.args[1].args))
        if b.op == "dict":
            for kv in b.args:
                if kv.args[0] is i:
                    return kv.args[1]
        if b.op == "app" and b.args[0] == "dictmerge" and is_const(i):
            rest = list(b.args[1:])
            while rest and rest[-1].op == "tuple" and is_const(rest[-1].args[0]):
                k = rest.pop()
                if k.args[0] is i:
                    return k.args[1]
            if len(rest) == 1 and rest[0].op != "tuple":
                return self.t_get(rest[0], i)
        if b.op == "listcomp" and i is b.args[0]:
            return b.args[1]
        if b.op == "fill" and i.op == "idx_" and i.args[0] is b.args[1].args[0]:
            j = b.args[1]
            return b.args[2] if i is j else subst(b.args[2], lambda x: i if x is j else None)
        if b.op == "app" and b.args[0] in ("dictcomp", "keys"):
            r = self._dictcomp_get(b, i)
            if r is not None:
                return r
        if i.op == "slice" and all(is_const(a, None) for a in i.args):
            return b
        if i.op == "const" and cval(i) is Ellipsis:
            return b
        if b.op == "get" and is_const(b.args[1], None):
            k, rest = (i.args[0], i.args[1:]) if i.op == "tuple" and i.args else (i, ())
            if is_num(k) and cval(k) in (0, -1):
                return self.t_get(b.args[0], mk("tuple", *rest) if len(rest) > 1 else rest[0]) if rest else b.args[0]
        if b.op == "mul" and i.op in ("slice", "tuple", "const", "idx_"):
            v = [x for x in b.args if not self.is_scalar_t(x)]
            if len(v) == 1 and len(b.args) > 1:
                r = self.t_get(v[0], i)  # the elements of a scaled array
                for x in b.args:
                    if x is not v[0]:
                        r = mul(x, r)
                return r
        if b.op == "const" and isinstance(cval(b), str) and (i.op == "slice" and all(is_const(a) for a in i.args) or is_num(i)):
            try:
                return const(cval(b)[slice(*[cval(a) for a in i.args]) if i.op == "slice" else cval(i)])
            except (IndexError, TypeError):
                pass
        return mk("get", b, i)

    # ---------------------------------------------------------------- origins (may-alias storage labels)
    def origins(self, st, v, deep=False) -> frozenset:
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, ViewCell):
                return self.origins(st, c.base)
            return c.origins
        if isinstance(v, GV):
            return self.origins(st, v.a) | self.origins(st, v.b)
        if isinstance(v, Tup) and deep:
            r = frozenset()
            for x in v.items:
                r |= self.origins(st, x, True)
            return r
        return frozenset()

    # ---------------------------------------------------------------- mutation
    def mutate(self, st, v, newterm_fn, node, how, **info):
        """In-place modification of the storage v refers to; newterm_fn: old term -> new term."""
        if isinstance(v, GV):
            for br, val in ((v.a, True), (v.b, False)):
                d = self.decide(st, v.c)
                if d is None:
                    if isinstance(br, (Ref, GV)):
                        self.mutate(st, br, lambda old, br=br, val=val: gate(v.c, newterm_fn(old), old) if val else gate(v.c, old, newterm_fn(old)), node, how, **info)
                elif d == val:
                    self.mutate(st, br, newterm_fn, node, how, **info)
            return
        if not isinstance(v, Ref):
            return
        c = self.cell(st, v)
        if isinstance(c, ViewCell):
            fn = c.fn
            if fn[0] == "get":
                self.mutate(st, c.base, lambda old: self.t_upd(old, fn[1], newterm_fn(self.t_get(old, fn[1]))), node, how, **info)
            elif fn[0] == "app" and fn[1] in ("np.asarray",):
                self.mutate(st, c.base, newterm_fn, node, how, **info)
            else:
                self.mutate(st, c.base, lambda old: self._updview(old, fn, newterm_fn(self.view_term(old, fn))), node, how, **info)
            return
        self.event("mut", node, st, origins=c.origins, how=how, ref=v.id, **info)
        if isinstance(c, ValCell):
            st.heap[v.id] = c.clone(term=newterm_fn(c.term))
        elif isinstance(c, ListCell):
            st.heap[v.id] = c.clone(items=None, term=newterm_fn(self.read(st, v)))
        elif isinstance(c, DictCell):
            st.heap[v.id] = c.clone(items=None, term=newterm_fn(self.read(st, v)))
        elif isinstance(c, InstCell):
            if c.term is not None:
                st.heap[v.id] = c.clone(term=newterm_fn(c.term))

    def _updview(self, old, fn, new):
        k = self._viewkey(fn)
        if old.op == "app" and old.args[0] == "updview" and old.args[2] is k:
            old = old.args[1]
        return mk("app", "updview", old, k, new)

    def t_upd(self, b, i, v):
        i = self.trim_index(self.expand_dots(b, i))
        if i.op == "slice" and all(is_const(a, None) for a in i.args):
            return v
        if i.op == "const" and cval(i) is Ellipsis:
            return v
        if b.op == "vec":
            r = self._vec_upd(b, i, v)
            if r is not None:
                return r
        if b.op == "get" and is_const(b.args[1], None) and is_num(i) and cval(i) in (0, -1) and self.ndim_of(v) is not None and self.ndim_of(v) == self.ndim_of(b.args[0]):
            return mk("get", v, const(None))
        rows = self.stack_rows(b)
        if rows is not None and is_num(i) and isinstance(cval(i), int) and -len(rows) <= cval(i) < len(rows) and self.ndim_of(v) is not None and self.ndim_of(v) == self.ndim_of(rows[cval(i)]):
            rows = list(rows)
            rows[cval(i)] = v
            return mk("app", "np.stack", mk(b.args[1].op, *rows), *b.args[2:])
        if v.op == "get" and v.args[0] is b and v.args[1] is i:
            return b  # x[i] = x[i]
        if i.op == "gate" and all(self.is_bool_term(x) for x in i.args[1:]):
            return gate(i.args[0], self.t_upd(b, i.args[1], v), self.t_upd(b, i.args[2], v))
        if self.is_bool_term(i):
            return mk("app", "np.where", i, v, b)
        if b.op == "upd" and b.args[1] is i:
            b = b.args[0]
        return mk("upd", b, i, v)

    def _vec_upd(self, b, i, v):
        """Item assignment into a small array whose items are known."""
        n = len(b.args)
        if i.op == "tuple" and len(i.args) == 1:
            i = i.args[0]
        if i.op == "tuple" and len(i.args) == 2 and b.args and all(x.op == "vec" for x in b.args):
            rows, k = list(b.args), i.args[0]
            if is_num(k) and isinstance(cval(k), int) and -n <= cval(k) < n:
                r = self._vec_upd(rows[cval(k)], i.args[1], v)
                if r is None:
                    return None
                rows[cval(k)] = r
                return mk("vec", *rows)
            if k.op == "slice" and all(is_const(a) for a in k.args) and not (v.op == "vec" or not self.is_scalar_t(v)):
                for j in range(n)[slice(*[cval(a) for a in k.args])]:
                    rows[j] = self._vec_upd(rows[j], i.args[1], v)
                    if rows[j] is None:
                        return None
                return mk("vec", *rows)
            if k.op == "slice" and all(is_const(a) for a in k.args) and v.op == "vec":
                js = list(range(n)[slice(*[cval(a) for a in k.args])])
                if len(v.args) not in (1, len(js)) or not all(self.is_scalar_t(x) for x in v.args):
                    return None
                for z, j in enumerate(js):
                    rows[j] = self._vec_upd(rows[j], i.args[1], v.args[z % len(v.args)])
                    if rows[j] is None:
                        return None
                return mk("vec", *rows)
            return None
        items = list(b.args)
        if is_num(i) and isinstance(cval(i), int) and -n <= cval(i) < n:
            if items[cval(i)].op == "vec":
                v = self._vec_upd(items[cval(i)], mk("slice", NONE, NONE, NONE), v)
                if v is None:
                    return None
            elif v.op in ("vec", "list", "tuple", "listcomp") or v.op == "app" and v.args[0] == "tuplecat":
                return None
            items[cval(i)] = v
            return mk("vec", *items)
        if i.op == "slice" and all(is_const(a) for a in i.args):
            ix = list(range(n)[slice(*[cval(a) for a in i.args])])
        elif i.op in ("vec", "list") and all(is_num(x) and isinstance(cval(x), int) and -n <= cval(x) < n for x in i.args):
            ix = [cval(x) for x in i.args]
        else:
            return None
        vs = list(v.args) if v.op in ("vec", "list", "tuple") else [v] * len(ix)
        if len(vs) != len(ix) or not all(self.is_scalar_t(x) for x in vs) or any(items[j].op == "vec" for j in ix):
            return None
        for j, x in zip(ix, vs):
            items[j] = x
        return mk("vec", *items)

    def is_scalar_t(self, t, d=0):
        """A term that certainly is a single number."""
        if is_num(t) or t.op == "idx_" or (t.op == "ext" and t.args[0] in ("np.pi", "np.inf", "np.e", "np.nan")) or self.symty.get(t.uid) in ("int", "float"):
            return True
        if t.op in ("add", "mul") and d < 20:
            return all(self.is_scalar_t(x, d + 1) for x in t.args)
        if t.op == "pow" and d < 20:
            return self.is_scalar_t(t.args[0], d + 1) and self.is_scalar_t(t.args[1], d + 1)
        if t.op == "attr":
            return t.args[1] in ("ndim", "size")
        if t.op == "get":
            if t.args[0].op == "attr" and t.args[0].args[1] == "shape" and (is_num(t.args[1]) or t.args[1].op == "idx_"):
                return True
            return d < 20 and self.ndim_of(t.args[0]) == 1 and self.is_scalar_t(t.args[1], d + 1)
        if t.op == "gate":
            return self.is_scalar_t(t.args[1], d + 1) and self.is_scalar_t(t.args[2], d + 1)
        if t.op == "app" and d < 20:
            if t.args[0] in ("len", "int", "float"):
                return True
            if t.args[0] in ("np.sum", "np.mean", "np.min", "np.max", "np.prod", "np.std", "np.var", "np.linalg.norm", "np.argmax", "np.argmin", "np.median") and not any(x.op == "kw" and x.args[0] in ("axis", "keepdims") for x in t.args[1:]) \
                    and len([x for x in t.args[1:] if x.op != "kw"]) == 1:
                return True
            if t.args[0] in ("floordiv", "mod", "max", "min", "np.floor", "np.ceil", "np.round", "np.abs", "np.sqrt", "astype", "np.arctan2", "np.sin", "np.cos", "np.exp", "np.log"):
                return self.is_scalar_t(t.args[1], d + 1) and all(self.is_scalar_t(x, d + 1) or x.op == "const" for x in t.args[2:])
        return False

    def is_size_t(self, t, d=0):
        """A term that certainly is a size: not negative."""
        if is_num(t):
            return isinstance(cval(t), int) and cval(t) >= 0
        if t.op in ("mul", "add") and d < 6:
            return all(self.is_size_t(x, d + 1) for x in t.args)
        return t.op == "get" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and is_num(t.args[1]) or t.op == "app" and t.args[0] == "len" or t.op == "attr" and t.args[1] in ("ndim", "size")

    def is_int_t(self, t, d=0):
        """A term that certainly is an integer, or an array or sequence of integers."""
        if d > 10:
            return False
        if t.op == "const":
            return isinstance(cval(t), int)
        if t.op == "idx_" or self.symty.get(t.uid) == "int":
            return True
        if t.op in ("tuple", "list", "vec", "add", "mul"):
            return bool(t.args) and all(self.is_int_t(x, d + 1) for x in t.args)
        if t.op == "get":
            return self.is_int_t(t.args[0], d + 1)
        if t.op == "upd":
            return self.is_int_t(t.args[0], d + 1) and self.is_int_t(t.args[2], d + 1)
        if t.op == "attr":
            return t.args[1] in ("ndim", "size", "shape")
        if t.op == "gate":
            return self.is_int_t(t.args[1], d + 1) and self.is_int_t(t.args[2], d + 1)
        if t.op == "app":
            if t.args[0] == "len":
                return True
            if t.args[0] == "astype":
                return is_const(t.args[2], "int")
            if t.args[0] in ("np.atleast", "np.flip"):
                return self.is_int_t(t.args[1], d + 1)
            if t.args[0] == "tuplecat":
                return all(self.is_int_t(x, d + 1) or x.op == "tuple" and not x.args for x in t.args[1:])
            if t.args[0] in ("floordiv", "mod"):
                return all(self.is_int_t(x, d + 1) for x in t.args[1:])
        return False

    ND_SAME = {"astype", "np.pad", "np.roll", "np.exp", "np.log", "np.abs", "np.sqrt", "np.sign", "np.conj", "np.rad2deg", "np.deg2rad", "np.sin", "np.cos", "np.flip", "np.ceil",
               "np.fft.fftn", "np.fft.ifftn", "np.fft.rfft", "np.fft.irfft", "np.fft.fft", "np.fft.ifft", "np.fft.rfftn", "np.fft.irfftn", "np.fft.ifftshift", "np.fft.fftshift", "scipy.signal.fftconvolve",
               "scipy.ndimage.convolve", "scipy.ndimage.gaussian_filter", "scipy.ndimage.shift", "scipy.ndimage.zoom", "np.sort", "np.cumsum", "np.real", "np.imag", "np.angle", "np.floor", "np.zeros_like", "np.ones_like", "np.empty_like", "np.full_like", "np.round", "np.diff", "np.argsort"}

    def min_ndim(self, t, d=0):
        """A lower bound of the number of axes."""
        n = self.ndim_of(t)
        if n is not None or d > 6:
            return n or 0
        if t.op in ("add", "mul"):
            return max(self.min_ndim(x, d + 1) for x in t.args)
        if t.op == "app" and len(t.args) > 1 and t.args[0] in self.ND_SAME and isinstance(t.args[1], T):
            return self.min_ndim(t.args[1], d + 1)
        return 0

    def ndim_of(self, t, d=0):
        """The number of axes of an array term where it is known, else None."""
        if d > 12:
            return None
        n = self.symdim.get(t.uid)
        if n is not None:
            return n
        if t.op in ("upd", "fill"):
            return self.ndim_of(t.args[0], d + 1)
        if t.op == "gate":
            n = self.ndim_of(t.args[1], d + 1)
            return n if n is not None and n == self.ndim_of(t.args[2], d + 1) else None
        if t.op == "mu":
            return self.ndim_of(self.mushape[t.uid], d + 1) if t.uid in self.mushape else None
        if t.op == "vec":
            return 1 + (self.ndim_of(t.args[0], d + 1) or 0) if t.args and t.args[0].op == "vec" else 1
        if t.op in ("mul", "add") or t.op in ("max", "min") or t.op == "app" and t.args[0] in ("max", "min", "np.maximum", "np.minimum", "mod", "floordiv"):
            ns = [0 if self.is_scalar_t(x, d + 1) else self.ndim_of(x, d + 1) for x in t.args[1 if t.op == "app" else 0:]]
            return max(ns) if all(x is not None for x in ns) else None
        if t.op == "app" and len(t.args) > 1:
            if t.args[0] == ".apply" and len(t.args) == 3 and t.args[1].op == "app" and str(t.args[1].args[0]).startswith("scipy.spatial.transform."):
                return 2 if self.ndim_of(t.args[2], d + 1) == 2 else None
            if self.stack_rows(t) is not None:
                ns = {self.ndim_of(x, d + 1) for x in t.args[1].args}
                return 1 + ns.pop() if len(ns) == 1 and None not in ns else None
            if t.args[0] in ("np.transpose", "np.moveaxis", "np.swapaxes"):
                return self.ndim_of(t.args[1], d + 1)
            if t.args[0] == "np.squeeze" and len(t.args) == 2 and t.args[1].op == "app" and str(t.args[1].args[0]).endswith("._get_fourier_filter"):
                return 1  # a column
            if t.args[0] == "np.squeeze" and len(t.args) == 2:
                u = t.args[1]
                while u.op == "app" and u.args[0] in ("astype", "np.array") and len(u.args) > 1 and isinstance(u.args[1], T):
                    u = u.args[1]
                dims = self.literal_dims(u)
                if dims is not None:
                    return sum(1 for k in dims if k != 1)
            if t.args[0] in self.ND_SAME:
                return self.ndim_of(t.args[1], d + 1)
            if t.args[0] in ("np.zeros", "np.ones", "np.empty", "np.full", "np.reshape"):
                s = t.args[2 if t.args[0] == "np.reshape" else 1] if len(t.args) > (2 if t.args[0] == "np.reshape" else 1) else None
                if isinstance(s, T) and s.op in ("tuple", "list"):
                    return len(s.args)
                if isinstance(s, T) and self.is_scalar_t(s, d + 1):
                    return 1
            if t.args[0] in ("np.mean", "np.sum", "np.max", "np.min", "np.std", "np.var", "np.argmax", "np.argmin", "np.median") and len(t.args) > 2 and isinstance(t.args[2], T):
                n = self.ndim_of(t.args[1], d + 1)
                kws = {a.args[0]: a.args[1] for a in t.args[2:] if isinstance(a, T) and a.op == "kw"}
                pos = [a for a in t.args[2:] if isinstance(a, T) and a.op != "kw"]
                ax = kws.get("axis", pos[0] if pos else None)
                if n is not None and len(pos) <= 1 and set(kws) <= {"axis", "keepdims", "dtype", "ddof"}:
                    if is_const(kws.get("keepdims", FALSE), True):
                        return n
                    if ax is not None and "keepdims" not in kws:
                        if is_num(ax):
                            return n - 1
                        if ax.op in ("tuple", "list", "vec") and all(is_num(k) for k in ax.args):
                            return n - len(ax.args)
        if t.op == "attr" and t.args[1] in ("real", "imag", "T"):
            return self.ndim_of(t.args[0], d + 1)
        if t.op == "app" and t.args[0] in ("np.fft.fftfreq", "np.fft.rfftfreq", "np.arange", "np.linspace"):
            return 1
        if t.op == "pow":
            return self.ndim_of(t.args[0], d + 1) if self.is_scalar_t(t.args[1], d + 1) else None
        if t.op == "get" and isinstance(t.args[1], T):
            n = self.ndim_of(t.args[0], d + 1)
            if n is None:
                return None
            if t.args[1].op not in ("tuple", "slice", "const", "gate", "list") and not self.is_bool_term(t.args[1]):
                k = self.ndim_of(t.args[1], d + 1)  # an array of indices
                if k is not None:
                    return n - 1 + k
            for i in (t.args[1].args if t.args[1].op == "tuple" else (t.args[1],)):
                if not isinstance(i, T):
                    return None
                if i.op == "list" and i.args and all(self.is_scalar_t(y, d + 1) for y in i.args) and not any(j is not i and j.op not in ("slice",) for j in (t.args[1].args if t.args[1].op == "tuple" else ())):
                    continue
                if i.op == "slice" or self.symty.get(i.uid) == "slice" or (i.op == "const" and cval(i) is Ellipsis) or i.op == "gate" and i.args[1].op == i.args[2].op == "slice":
                    continue
                if is_const(i, None):
                    n += 1
                elif (i.op == "const" and isinstance(cval(i), int) and not isinstance(cval(i), bool)) or (self.is_scalar_t(i, d + 1) and not self.is_bool_term(i)):
                    n -= 1
                else:
                    return None
            return n if n >= 0 else None
        return None

    def literal_dims(self, t):
        """The shape of an array written out as (nested) lists of scalars."""
        if t.op in ("vec", "list", "tuple") and t.args:
            sub = {self.literal_dims(x) for x in t.args}
            return (len(t.args),) + sub.pop() if len(sub) == 1 and None not in sub else None
        return () if self.is_scalar_t(t) else None

    def vec_of(self, t, d=0):
        """The small array with known numbers as items that np.array(t) is, or None."""
        if t.op == "vec":
            return t
        if t.op == "range" and all(is_num(a) and isinstance(cval(a), int) for a in t.args):
            r = range(*[cval(a) for a in t.args])
            return mk("vec", *[const(i) for i in r]) if len(r) <= 16 else None
        if t.op in ("tuple", "list") and 0 < len(t.args) <= 16:
            if all(self.is_scalar_t(x) for x in t.args):
                return mk("vec", *t.args)
            if d == 0:
                rows = [self.vec_of(x, 1) for x in t.args]
                if all(r is not None for r in rows) and len({len(r.args) for r in rows}) == 1:
                    return mk("vec", *rows)
        return None

    def is_bool_term(self, t):
        if t.op in ("lt", "eq", "not", "and", "or", "isnone"):
            return True
        if t.op == "app" and t.args[0] in ("np.logical_and", "np.logical_or", "np.logical_not", "np.isnan", "np.isinf", "np.isfinite", "np.isclose", "invert"):
            return True
        if t.op == "app" and t.args[0] in ("bitand", "bitor"):
            return any(self.is_bool_term(a) for a in t.args[1:])
        if t.op == "app" and t.args[0] == "astype":
            return True if is_const(t.args[2], "bool") else False
        return False

    # ---------------------------------------------------------------- conditions
    def decide(self, st, c: T):
        c = self.simp(st, c)
        if c.op == "const":
            return bool(cval(c))
        return None

    def simp(self, st, c: T) -> T:
        if c.op == "const":
            return c
        k = st.known.get(c.uid)
        if k is not None:
            return TRUE if k else FALSE
        if c.op == "not":
            return t_not(self.simp(st, c.args[0]))
        if c.op == "and":
            return t_and(*[self.simp(st, a) for a in c.args])
        if c.op == "or":
            return t_or(*[self.simp(st, a) for a in c.args])
        if c.op == "gate":
            g = self.simp(st, c.args[0])
            if g.op == "const":
                return self.simp(st, c.args[1] if cval(g) else c.args[2])
        return c

    def simp_gate(self, st, t: T) -> T:
        while t.op == "gate":
            d = self.decide(st, t.args[0])
            if d is None:
                return t
            t = t.args[1] if d else t.args[2]
        return t

    def norm_v(self, st, v):
        while True:
            if isinstance(v, GV):
                d = self.decide(st, v.c)
                if d is None:
                    return v
                v = v.a if d else v.b
            elif isinstance(v, T) and v.op == "gate":
                d = self.decide(st, v.args[0])
                if d is None:
                    return v
                v = v.args[1] if d else v.args[2]
            else:
                return v

    def t_isnone(self, st, v) -> T:
        v = self.norm_v(st, v)
        if isinstance(v, GV):
            a, b = self.t_isnone(st, v.a), self.t_isnone(st, v.b)
            return gate(v.c, a, b)
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, (ValCell, InstCell)) and c.maybe_none:
                return mk("isnone", c.term)
            if isinstance(c, ValCell) and c.term.op in ("gate", "const", "mu"):
                return self.term_isnone(c.term)
            if isinstance(c, ViewCell):
                t = self.read(st, v)
                if t.op != "get" or t.args[0].op != "get":
                    return self.term_isnone(t) if t.op in ("gate", "const", "attr") else FALSE
            return FALSE
        if isinstance(v, T):
            return self.term_isnone(v)
        if v is UNBOUND:
            return FALSE
        return FALSE

    def term_isnone(self, t: T) -> T:
        if is_const(t, None):
            return TRUE
        if t.op == "const":
            return FALSE
        if t.op == "gate":
            return gate(t.args[0], self.term_isnone(t.args[1]), self.term_isnone(t.args[2]))
        if t.op in ("sym", "attr", "mu"):
            if t.op == "mu" or t.uid in self.symnone:
                return mk("isnone", t)
            return FALSE
        return FALSE

    def truth(self, st, v) -> T:
        v = self.norm_v(st, v)
        if isinstance(v, GV):
            return gate(v.c, self.truth(st, v.a), self.truth(st, v.b))
        if isinstance(v, Tup):
            return const(len(v.items) > 0)
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, ListCell) and c.items is not None or isinstance(c, DictCell) and c.items is not None:
                return const(len(c.items) > 0)
            if isinstance(c, InstCell):
                if not c.maybe_none:
                    if c.cls.find("__len__") or c.cls.find("__bool__"):
                        return mk("truth", self.read(st, v))
                    return TRUE
                return t_not(mk("isnone", c.term))
            t = self.read(st, v)
            return self.term_truth(t)
        if isinstance(v, T):
            return self.term_truth(v)
        return TRUE

    def term_truth(self, t):
        if t.op == "const":
            try:
                return const(bool(cval(t)))
            except Exception:
                return TRUE
        if t.op in ("eq", "lt", "not", "and", "or", "isnone", "in", "isinst", "truth", "hasattr", "le"):
            return t
        if t.op == "gate":
            return gate(t.args[0], self.term_truth(t.args[1]), self.term_truth(t.args[2]))
        if t.op in ("tuple", "list", "dict"):
            return const(len(t.args) > 0)
        if self.is_bool_term(t) or self.symty.get(t.uid) == "bool":
            return t
        if t.op == "app" and t.args[0] in ("len",):
            return t_not(mk("eq", *sorted((t, const(0)), key=skey)))
        return mk("truth", t)

    # ---------------------------------------------------------------- merging
    def merge_v(self, c: T, a, b):
        if a is b or (type(a) is type(b) and a == b):
            return a
        if c.op == "const":
            return a if cval(c) else b
        if isinstance(a, T) and isinstance(b, T):
            return gate(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_v(c, x, y) for x, y in zip(a.items, b.items)])
        if c.op == "not":
            return self.merge_v(c.args[0], b, a)
        if isinstance(a, GV) and a.c is c:
            a = a.a
        if isinstance(b, GV) and b.c is c:
            b = b.b
        if type(a) is type(b) and a == b:
            return a
        return GV(c, a, b)

    def merge_cell(self, c: T, x: Cell, y: Cell, sx, sy):
        if x is y or (type(x) is type(y) and x.__dict__ == y.__dict__):
            return x
        if type(x) is not type(y):
            return ValCell(gate(c, getattr(x, "term", None) or mk("opaque", "m"), getattr(y, "term", None) or mk("opaque", "m")),
                           getattr(x, "origins", frozenset()) | getattr(y, "origins", frozenset()))
        if isinstance(x, ValCell):
            n = x.clone(term=gate(c, x.term, y.term), origins=x.origins | y.origins)
            n.attrs = self.merge_attrs(c, x.attrs, y.attrs, True, x.term)
            return n
        if isinstance(x, InstCell):
            t = x.term if x.term is y.term else (gate(c, x.term, y.term) if x.term is not None and y.term is not None else None)
            n = x.clone(term=t, origins=x.origins | y.origins)
            n.attrs = self.merge_attrs(c, x.attrs, y.attrs, x.open, x.term)
            return n
        if isinstance(x, ListCell):
            if x.items is not None and y.items is not None and len(x.items) == len(y.items):
                return x.clone(items=tuple(self.merge_v(c, p, q) for p, q in zip(x.items, y.items)), origins=x.origins | y.origins)
            tx = mk("list", *[self.read(sx, i) for i in x.items]) if x.items is not None else x.term
            ty = mk("list", *[self.read(sy, i) for i in y.items]) if y.items is not None else y.term
            elem = x.elem or y.elem
            if elem is None:
                its = list(x.items or ()) + list(y.items or ())
                elem = its[0] if its else None
            return x.clone(items=None, term=gate(c, tx or mk("opaque", "list"), ty or mk("opaque", "list")), origins=x.origins | y.origins, elem=elem)
        if isinstance(x, DictCell):
            if x.items is not None and y.items is not None:
                keys = list(dict.fromkeys(list(x.items) + list(y.items)))
                return x.clone(items={k: self.merge_v(c, x.items.get(k, UNBOUND), y.items.get(k, UNBOUND)) for k in keys}, origins=x.origins | y.origins)
            return x.clone(items=None, term=gate(c, x.term or mk("opaque", "d"), y.term or mk("opaque", "d")), elem=x.elem or y.elem)
        if isinstance(x, ViewCell):
            return x
        return x

    def merge_attrs(self, c, p, q, lazily, term=None):
        out = {}
        for k in list(dict.fromkeys(list(p) + list(q))):
            if k in p and k in q:
                out[k] = self.merge_v(c, p[k], q[k])
            elif lazily:
                # lazily materialised attribute of an open object: keep it, absence means "not looked at yet"
                w = p.get(k, q.get(k))
                if self._is_lazy(w) or term is None:
                    out[k] = w
                else:
                    other = mk("attr", term, k)
                    out[k] = self.merge_v(c, w, other) if k in p else self.merge_v(c, other, w)
            else:
                out[k] = self.merge_v(c, p.get(k, UNBOUND), q.get(k, UNBOUND))
        return out

    def merge_states(self, c: T, a: State, b: State, pc) -> State:
        if c.op == "const":
            r = (a if cval(c) else b)
            r = r.copy()
            r.set_pc(pc)
            return r
        st = State({}, {}, (), {})
        st.set_pc(pc)
        for fid in set(a.frames) | set(b.frames):
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is None or fb is None:
                st.frames[fid] = dict(fa if fb is None else fb)
                continue
            f = {}
            for k in list(dict.fromkeys(list(fa) + list(fb))):
                f[k] = self.merge_v(c, fa.get(k, UNBOUND), fb.get(k, UNBOUND))
            st.frames[fid] = f
        ha, hb = a.heap, b.heap
        out = dict(ha)
        for i, y in hb.items():
            x = ha.get(i)
            if x is None:
                if i in self.base_heap:
                    x = self.base_heap[i]
                    out[i] = self.merge_cell(c, x, y, a, b)
                else:
                    out[i] = y
            elif x is not y:
                out[i] = self.merge_cell(c, x, y, a, b)
        for i, x in ha.items():
            if i not in hb and i in self.base_heap:
                out[i] = self.merge_cell(c, x, self.base_heap[i], a, b)
        st.heap = out
        return st

    def pc_delta(self, pc, base):
        """Conjunction of the conditions in pc beyond those already in base."""
        known = {(c.uid, v) for c, v in base}
        return t_and(*[c if v else t_not(c) for c, v in pc if (c.uid, v) not in known])

    def merge_outcomes(self, outs, pc, want=lambda o: o[1]):
        """Fold a list of (cond, V, State) with mutually exclusive conditions."""
        cond, v, st = outs[-1]
        st = st.copy()
        for cond, v2, st2 in reversed(outs[:-1]):
            v = self.merge_v(cond, v2, v)
            st = self.merge_states(cond, st2, st, pc)
        st.set_pc(pc)
        return v, st

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts, st: State, fid):
        """Returns list of (kind, value, State), kinds: next / return / break / continue / raise."""
        cur = st
        outs = []
        for s in stmts:
            self.steps += 1
            if self.steps > self.max_steps:
                raise AnalysisBroken(f"step budget exceeded in {self.stack[-1][0] if self.stack else '?'}")
            try:
                res = self.exec_stmt(s, cur, fid)
            except Abort:
                outs.append(("raise", None, cur))
                return outs
            nxt = [r for r in res if r[0] == "next"]
            outs.extend(r for r in res if r[0] != "next")
            if not nxt:
                return outs
            assert len(nxt) == 1
            cur = nxt[0][2]
        outs.append(("next", None, cur))
        return outs

    def exec_stmt(self, s, st, fid):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported.append((type(s).__name__, self.site(s)))
            return [("next", None, st)]
        return m(s, st, fid)

    def s_Pass(self, s, st, fid):
        return [("next", None, st)]

    def s_Import(self, s, st, fid):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            st.frames[fid][nm] = self.resolve_dotted(a.name if a.asname else a.name.split(".")[0])
        return [("next", None, st)]

    def s_ImportFrom(self, s, st, fid):
        mod = self.stack[-1][2]
        base = s.module or ""
        if s.level:
            parts = mod.name.split(".")
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            st.frames[fid][a.asname or a.name] = self.resolve_dotted(f"{base}.{a.name}")
        return [("next", None, st)]

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant):
            return [("next", None, st)]
        self.ev(s.value, st, fid)
        return [("next", None, st)]

    def s_Assign(self, s, st, fid):
        v = self.ev(s.value, st, fid)
        for t in s.targets:
            self.assign(t, v, st, fid)
        return [("next", None, st)]

    def s_AnnAssign(self, s, st, fid):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fid), st, fid)
        return [("next", None, st)]

    def s_AugAssign(self, s, st, fid):
        rhs = self.ev(s.value, st, fid)
        opn = type(s.op).__name__
        tgt = s.target
        if isinstance(tgt, ast.Subscript):
            base = self.storable(tgt.value, st, fid)
            idx = self.ev(tgt.slice, st, fid)
            old = self.subscript(base, idx, st, tgt)
            ot = self.read(st, old)
            new = self.binop_t(opn, ot, self.read(st, rhs))
            self.store_sub(base, idx, new, st, tgt, how=f"augmented assignment '{ast.unparse(s)[:80]}'")
            return [("next", None, st)]
        old = self.ev(tgt, st, fid)
        self.aug(tgt, old, opn, rhs, st, fid, s)
        return [("next", None, st)]

    def aug(self, tgt, old, opn, rhs, st, fid, s):
        old = self.norm_v(st, old)
        if isinstance(old, GV):
            # in place for the mutable alternatives, rebinding for the others
            self.assign(tgt, self.aug_v(old, opn, rhs, st, s), st, fid)
            return
        self.assign(tgt, self.aug_v(old, opn, rhs, st, s), st, fid, aug=True)

    def aug_v(self, old, opn, rhs, st, s):
        if isinstance(old, GV):
            a = self.under(st, old.c, True, lambda q: self.aug_v(old.a, opn, rhs, q, s))
            b = self.under(st, old.c, False, lambda q: self.aug_v(old.b, opn, rhs, q, s))
            if a is UNBOUND or b is UNBOUND:
                return b if a is UNBOUND else a
            return self.merge_v(old.c, a, b)
        if isinstance(old, Ref):
            c = self.cell(st, old)
            if isinstance(c, ListCell):
                if opn == "Add":
                    self.list_extend(old, rhs, st, s)
                    return old
            elif isinstance(c, (ValCell, ViewCell)):
                if isinstance(c, ValCell) and c.ty in IMMUTABLE_TYS or isinstance(c, ValCell) and c.ty == "tuple":
                    return self.binop(opn, old, rhs, st, s)
                rt = self.read(st, rhs)
                self.mutate(st, old, lambda o: self.binop_t(opn, o, rt), s, f"in-place operator '{ast.unparse(s)[:80]}'")
                return old
        return self.binop(opn, old, rhs, st, s)

    def under(self, st, c, val, f):
        """Evaluate f on st under assumption c==val, applying effects conditionally (approximation: effects are kept gated)."""
        q = st.copy()
        q.assume(c, val)
        if q.dead:
            return UNBOUND
        v = f(q)
        base = st.copy()
        m = self.merge_states(c if val else t_not(c), q, base, st.pc)
        st.frames, st.heap = m.frames, m.heap
        return v

    def s_Delete(self, s, st, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[fid][t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, fid)
                self.mutate(st, base, lambda o: mk("app", "del", o), t, "del item")
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st, fid)
                self.event("delattr", t, st, obj=base, attr=t.attr)
        return [("next", None, st)]

    def s_Return(self, s, st, fid):
        v = self.ev(s.value, st, fid) if s.value is not None else NONE
        return [("return", v, st)]

    def s_Break(self, s, st, fid):
        return [("break", None, st)]

    def s_Continue(self, s, st, fid):
        return [("continue", None, st)]

    def s_Raise(self, s, st, fid):
        exc = ast.unparse(s.exc)[:120] if s.exc is not None else "reraise"
        if s.exc is not None:
            try:
                self.ev(s.exc, st, fid)
            except Abort:
                pass
        name = None
        if isinstance(s.exc, ast.Call):
            name = ast.unparse(s.exc.func)
        elif s.exc is not None:
            name = ast.unparse(s.exc)
        self.event("raise", s, st, exc=name, text=exc)
        return [("raise", name, st)]

    def s_Assert(self, s, st, fid):
        c = self.truth(st, self.ev(s.test, st, fid))
        st.assume(c, True)
        return [("next", None, st)]

    def s_FunctionDef(self, s, st, fid):
        cls = self.stack[-1][3] if self.stack else None
        st.frames[fid][s.name] = Func(s, self.stack[-1][2], fid, None, None, s.name)
        return [("next", None, st)]

    def s_ClassDef(self, s, st, fid):
        st.frames[fid][s.name] = Ext("local." + s.name)
        return [("next", None, st)]

    def s_If(self, s, st, fid):
        c = self.truth(st, self.ev(s.test, st, fid))
        c = self.simp(st, c)
        if c.op == "const":
            return self.exec_block(s.body if cval(c) else s.orelse, st, fid)
        pc = st.pc
        a, b = st, st.copy()
        a = st.copy()
        a.assume(c, True)
        b.assume(c, False)
        if a.dead != b.dead:
            return self.exec_block(s.orelse if a.dead else s.body, b if a.dead else a, fid)
        ra = self.exec_block(s.body, a, fid)
        rb = self.exec_block(s.orelse, b, fid) if s.orelse else [("next", None, b)]
        na = [r for r in ra if r[0] == "next"]
        nb = [r for r in rb if r[0] == "next"]
        outs = [r for r in ra + rb if r[0] != "next"]
        if na and nb:
            # conditions learned inside a branch (e.g. a conditional raise) survive only if learned in both
            known_b = {(x.uid, v) for x, v in nb[0][2].pc}
            keep = tuple(x for x in na[0][2].pc if (x[0].uid, x[1]) in known_b)
            da = self.pc_delta(na[0][2].pc, pc)
            outs.append(("next", None, self.merge_states(c, na[0][2], nb[0][2], keep)))
        elif na or nb:
            outs.append((na or nb)[0])
        return outs

    def s_With(self, s, st, fid):
        exits = []
        for it in s.items:
            v = self.ev(it.context_expr, st, fid)
            ev = self.event("enter", it.context_expr, st, obj=v, text=ast.unparse(it.context_expr)[:100])
            r = v
            if isinstance(v, Ref):
                c = self.cell(st, v)
                if isinstance(c, InstCell):
                    f = c.cls.find("__enter__")
                    if f:
                        r = self.call_method(v, "__enter__", [], {}, st, it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, st, fid)
            exits.append((v, it))
        outs = self.exec_block(s.body, st, fid)
        res = []
        for k, val, q in outs:
            for v, it in reversed(exits):
                self.event("exit", it.context_expr, q, obj=v, how=k)
                if isinstance(v, Ref):
                    c = self.cell(q, v)
                    if isinstance(c, InstCell) and c.cls.find("__exit__") and k != "raise":
                        self.call_method(v, "__exit__", [NONE, NONE, NONE], {}, q, it.context_expr)
            res.append((k, val, q))
        return res

    @staticmethod
    def catcher(handlers, kinds):
        """The handler that catches an error of the only kind there is, if that can be told."""
        if len(kinds) != 1:
            return None
        e = getattr(builtins, str(next(iter(kinds))), None)
        if not (isinstance(e, type) and issubclass(e, BaseException)):
            return None
        for h in handlers:
            if h.type is None:
                return h
            for t in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
                c = getattr(builtins, ast.unparse(t), None)
                if not isinstance(c, type):
                    return None
                if issubclass(e, c):
                    return h
        return None

    def s_Try(self, s, st, fid):
        pc = st.pc
        pre = st.copy()
        self._try_depth = getattr(self, "_try_depth", 0) + 1
        n_ev = len(self.events)
        atomic = False
        if s.handlers and len(s.body) == 1 and isinstance(s.body[0], (ast.Assign, ast.AugAssign)):
            # one assignment: what raises is its right-hand side, before anything is stored (unless evaluating that side has effects itself)
            q = st.copy()
            try:
                self.ev(s.body[0].value, q, fid)
                atomic = not self._diff(pre, q)
            except Abort:
                pass
            del self.events[n_ev:]
        res = self.exec_block(s.body, st, fid)
        if s.handlers:
            for e in self.events[n_ev:]:
                if e.kind == "raise":
                    e.data.setdefault("caught", True)
        self._try_depth -= 1
        nxt = [r for r in res if r[0] == "next"]
        outs = [r for r in res if r[0] not in ("next", "raise")]
        raised = [r for r in res if r[0] == "raise"]
        if s.handlers and not nxt and not outs:
            # the body always raises, and always the same kind of error: one handler runs, whatever happens
            h = self.catcher(s.handlers, {e.data.get("exc") for e in self.events[n_ev:] if e.kind == "raise"})
            if h is not None:
                hs = pre.copy()
                if h.name:
                    hs.frames[fid][h.name] = self.arr(hs, mk("opaque", "exception"))
                res = self.exec_block(h.body, hs, fid)
                if s.finalbody:
                    fin = []
                    for kind, val, q in res:
                        for k2, v2, q2 in self.exec_block(s.finalbody, q, fid):
                            fin.append((kind, val, q2) if k2 == "next" else (k2, v2, q2))
                    res = fin
                return res
        if not s.handlers:
            outs += raised
        else:
            for k, h in enumerate(s.handlers):
                for r in outs:
                    r[2].assume(sym(f"exc:{ast.unparse(h.type) if h.type else 'any'}:{k}"), False)
        if nxt and s.orelse:
            r2 = self.exec_block(s.orelse, nxt[0][2], fid)
            nxt = [r for r in r2 if r[0] == "next"]
            outs += [r for r in r2 if r[0] != "next"]
        hn = []
        for k, h in enumerate(s.handlers):
            hs = pre.copy()
            # values assigned in the body may or may not be visible
            src = nxt[0][2] if nxt else (raised[-1][2] if raised else None)
            ec = sym(f"exc:{ast.unparse(h.type) if h.type else 'any'}:{k}")
            if src is not None and not atomic:
                hs = self.merge_states(mk("mid", ec), src, pre, pc)
            for c, v in pc:
                hs.assume(c, v)
            hs.assume(ec, True)
            if h.name:
                hs.frames[fid][h.name] = self.arr(hs, mk("opaque", "exception"))
            r3 = self.exec_block(h.body, hs, fid)
            for kind, val, q in r3:
                if kind == "next":
                    hn.append((ec, q))
                else:
                    outs.append((kind, val, q))
        if nxt:
            cur = nxt[0][2]
            for ec, q in hn:
                cur = self.merge_states(ec, q, cur, pc)
            nxt = [("next", None, cur)]
        elif hn:
            cur = hn[-1][1]
            for ec, q in hn[:-1]:
                cur = self.merge_states(ec, q, cur, pc)
            cur = cur.copy()
            cur.set_pc(pc)
            nxt = [("next", None, cur)]
        allr = outs + nxt
        if s.finalbody:
            fin = []
            for kind, val, q in allr:
                for k2, v2, q2 in self.exec_block(s.finalbody, q, fid):
                    fin.append((kind, val, q2) if k2 == "next" else (k2, v2, q2))
            allr = fin
        ns = [r for r in allr if r[0] == "next"]
        if len(ns) > 1:
            raise AnalysisBroken("try produced several normal exits")
        return allr

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st, fid):
        itv = self.ev(s.iter, st, fid)
        return self.run_for(s, itv, st, fid)

    def run_for(self, s, itv, st, fid):
        items = self.iter_items(itv, st)
        if items is not None and len(items) <= 16:
            outs, cur, brk = [], st, []
            pc = st.pc
            for x in items:
                self.assign(s.target, x, cur, fid)
                r = self.exec_block(s.body, cur, fid)
                outs += [z for z in r if z[0] in ("return", "raise")]
                brk += [z for z in r if z[0] == "break"]
                go = [z for z in r if z[0] in ("next", "continue")]
                if not go:
                    cur = None
                    break
                cur = self.join_by_pc(go, pc)
            if cur is not None and s.orelse:
                r = self.exec_block(s.orelse, cur, fid)
                outs += [z for z in r if z[0] != "next"]
                n = [z for z in r if z[0] == "next"]
                cur = n[0][2] if n else None
            ends = ([("next", None, cur)] if cur is not None else []) + [("next", None, b[2]) for b in brk]
            if ends:
                ends = [ends[-1]] + ends[:-1] if False else ends
                # breaks carry their pc; exhaustion is the complement
                order = [("next", None, b[2]) for b in brk] + ([("next", None, cur)] if cur is not None else [])
                outs.append(("next", None, self.join_by_pc(order, pc)))
            return outs
        return self.loop(s, st, fid, itv=itv)

    def s_While(self, s, st, fid):
        return self.loop(s, st, fid, itv=None)

    def join_by_pc(self, outs, pc):
        if len(outs) == 1:
            r = outs[0][2]
            return r
        common = None
        for o in outs:
            k = {(c.uid, v) for c, v in o[2].pc}
            common = k if common is None else common & k
        keep = tuple(x for x in outs[0][2].pc if (x[0].uid, x[1]) in common)
        lst = [(self.pc_delta(o[2].pc, keep), NONE, o[2]) for o in outs]
        _, r = self.merge_outcomes(lst, keep)
        return r

    def iter_items(self, v, st):
        v = self.norm_v(st, v)
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, ListCell) and c.items is not None:
                return list(c.items)
            if isinstance(c, DictCell) and c.items is not None and not any(x is UNBOUND or isinstance(x, GV) for x in c.items.values()):
                return [k if isinstance(k, T) else const(k) for k in c.items]
            if isinstance(c, ValCell) and c.term.op in ("tuple", "list", "vec") and not c.attrs:
                return list(c.term.args)
            if isinstance(c, ValCell) and not c.attrs and self.stack_rows(c.term) is not None:
                return list(self.stack_rows(c.term))
            if isinstance(c, ViewCell):
                t = self.read(st, v)
                if t.op == "vec":
                    return list(t.args)
        if isinstance(v, T) and v.op in ("tuple", "list", "vec"):
            return list(v.args)
        if isinstance(v, T) and self.stack_rows(v) is not None:
            return list(self.stack_rows(v))
        if isinstance(v, T) and v.op == "range" and all(is_num(a) for a in v.args):
            r = range(*[cval(a) for a in v.args])
            if len(r) <= 12:
                return [const(i) for i in r]
        if isinstance(v, IterV):
            return v.items(self, st)
        return None

    def iter_elem(self, v, st, depth):
        """(element V, idx term, iter term) for iteration over a non-enumerable value."""
        v = self.norm_v(st, v)
        if isinstance(v, IterV):
            return v.elem(self, st, depth)
        t = self.read(st, v)
        idx = mk("idx_", self.len_rep(st, self.t_len(t)), depth)
        if t.op == "range":
            a = t.args
            if len(a) == 1:
                return idx, idx, t
            start = a[0]
            step = a[2] if len(a) > 2 else const(1)
            return add(start, mul(idx, step)), idx, t
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, ListCell) and c.items is None and c.elem is not None:
                return self.elem_of(c.elem, t, idx, st), idx, t
            if isinstance(c, ValCell) and c.elem_ann is not None:
                return self.abstract(self.t_get(t, idx), c.elem_ann, c.mod, st, c.origins), idx, t
            if isinstance(c, (ValCell, ViewCell, ListCell)):
                return self.alloc(st, ViewCell(v, ("get", idx))), idx, t
        return self.t_get(t, idx), idx, t

    def mixed_elem(self, c, v, st):
        """Representative of the elements of a container, after storing v in it: instances that differ have no common representative."""
        olds = [c.elem] if c.items is None else list(c.items.values() if isinstance(c, DictCell) else c.items)
        olds = [o for o in olds if o is not None]
        if not olds:
            return v
        inst = [o for o in (*olds, v) if isinstance(o, Ref) and isinstance(self.cell(st, o), InstCell)]
        if inst and any(not isinstance(o, Ref) or o.id != inst[0].id for o in (*olds, v)):
            return MIXED
        return olds[0]

    def elem_of(self, elem, t, idx, st):
        if isinstance(elem, T):
            return self.t_get(t, idx)
        if isinstance(elem, Ref):
            c = self.cell(st, elem)
            if isinstance(c, InstCell):
                return elem
            return self.alloc(st, ValCell(self.t_get(t, idx), self.origins(st, elem)))
        if isinstance(elem, Tup):
            return Tup([self.elem_of(e, self.t_get(t, idx), const(k), st) for k, e in enumerate(elem.items)])
        return elem

    def _dictcomp_get(self, b, i):
        """Items of {key(k): value(k) for k in ...}: its k-th key, and the value stored under that key (futures and positions are distinct keys)."""
        from .terms import subst
        d = b.args[1] if b.args[0] == "keys" else b
        if not (d.op == "app" and d.args[0] == "dictcomp"):
            return None
        lc = d.args[1]
        if lc.op != "listcomp" or lc.args[1].op != "tuple" or len(lc.args[1].args) != 2:
            return None
        ix, (kt, vt) = lc.args[0], lc.args[1].args
        if b.args[0] == "keys":
            return subst(kt, lambda x: i if x is ix else None) if i.op == "idx_" else None
        if not (kt is ix or kt.op == "app" and kt.args[0] == "future"):
            return None
        if i is kt:
            return vt
        for j in {x for x in subterms(i) if x.op == "idx_"}:
            if subst(kt, lambda x: j if x is ix else None) is i:
                return subst(vt, lambda x: j if x is ix else None)
        return None

    def t_len(self, t):
        if t.op == "app" and t.args[0] == "dictcomp" and t.args[1].op == "listcomp":
            return t.args[1].args[2]
        if t.op in ("list", "tuple", "dict", "vec"):
            return const(len(t.args))
        if t.op == "app" and t.args[0] == "astype":
            return self.t_len(t.args[1])
        if t.op == "app" and t.args[0] == "np.atleast" and is_const(t.args[2], 1) and t.args[1].op in ("attr", "app") and self.t_len(t.args[1]).op != "app":
            return self.t_len(t.args[1])
        if t.op == "range":
            if len(t.args) == 1:
                return t.args[0]
            if len(t.args) == 2:
                return sub(t.args[1], t.args[0])
            return app("len", t)
        if t.op == "app" and t.args[0] == "listcat":
            return add(self.t_len(t.args[1]), self.t_len(t.args[2]))
        if t.op == "listcomp":
            return t.args[2]
        if t.op == "const" and isinstance(cval(t), str):
            return const(len(cval(t)))
        if t.op == "attr" and t.args[1] == "shape":
            n = self.ndim_of(t.args[0])
            return mk("attr", t.args[0], "ndim") if n is None else const(n)
        if t.op == "gate":
            return gate(t.args[0], self.t_len(t.args[1]), self.t_len(t.args[2]))
        if t.op == "app" and t.args[0] in ("np.arange", "np.zeros_like", "np.ones_like", "np.empty_like", "np.zeros", "np.ones", "np.empty", "np.full", "np.full_like"):
            s = self.shape_attr(t, "shape")
            if s.op in ("tuple", "list") and s.args:
                return s.args[0]
        if t.op == "app" and t.args[0] == "np.argsort" and len(t.args) == 2 and self.ndim_of(t.args[1]) == 1:
            return self.t_len(t.args[1])
        if t.op == "get" and t.args[1].op == "slice" and is_const(t.args[1].args[2], None):
            lo, hi = t.args[1].args[:2]
            if is_const(lo, None) and is_num(hi) and cval(hi) < 0:
                return add(self.t_len(t.args[0]), hi)  # all but the last ones
            if is_const(hi, None) and is_num(lo) and cval(lo) > 0:
                return sub(self.t_len(t.args[0]), lo)
        if (self.ndim_of(t) or 0) > 0:
            s = self.shape_attr(t, "shape")
            return s.args[0] if s.op in ("tuple", "list") and s.args else self.t_get(s, const(0))
        if t.op == "app" and t.args[0] in self.ARRAY_FNS:
            return self.t_get(self.shape_attr(t, "shape"), const(0))
        return app("len", t)

    ARRAY_FNS = {"np.squeeze", "np.concatenate", "np.stack", "np.sort", "np.abs", "np.flip", "np.roll", "np.ravel", "np.cumsum", "np.diff", "np.exp", "np.log", "np.array"}

    def len_rep(self, st, n):
        """The simplest expression of a length, given the equalities that hold on this path."""
        for c, v in st.pc:
            if v is not True or is_num(n):
                continue
            p = self.eqsrc.get(c.uid) or (c.args if c.op == "eq" else ())
            if any(x is n for x in p) and all(self.lengthlike(x) for x in p):
                n = min(p, key=lambda x: (x.op == "gate", len(skey(x)), skey(x)))
        return n

    def lengthlike(self, t):
        if t.op == "gate":
            return self.lengthlike(t.args[1]) and self.lengthlike(t.args[2])
        return self.is_size_t(t) or self.symty.get(t.uid) == "int"

    def _diff(self, a: State, b: State):
        """Variables and heap cells of a that changed in b."""
        out = []
        for fid, fa in a.frames.items():
            fb = b.frames.get(fid, {})
            for k, v in fb.items():
                if k not in fa:
                    out.append(("newvar", fid, k))
                elif fa[k] is not v and not (type(fa[k]) is type(v) and fa[k] == v):
                    out.append(("var", fid, k))
        for i, x in a.heap.items():
            y = b.heap.get(i)
            if y is not None and y is not x and x != y:
                out.extend(self._celldiff(i, x, y))
        for i in b.heap:
            if i not in a.heap and i in self.base_heap and b.heap[i] is not self.base_heap[i]:
                out.extend(self._celldiff(i, self.base_heap[i], b.heap[i]))
        return out

    def _celldiff(self, i, x, y):
        if isinstance(x, (InstCell, ValCell)) and type(x) is type(y):
            out = []
            if x.term is not y.term:
                out.append(("cell", i, None))
            for k in y.attrs:
                if k in x.attrs:
                    if x.attrs[k] is not y.attrs[k] and not (type(x.attrs[k]) is type(y.attrs[k]) and x.attrs[k] == y.attrs[k]):
                        out.append(("attr", i, k))
                elif not (isinstance(x, InstCell) and not x.open) and not self._lazy_same(y.attrs[k]):
                    out.append(("attr", i, k))
                elif isinstance(x, InstCell) and not x.open:
                    out.append(("attr", i, k))
            return out
        if isinstance(x, DictCell) and isinstance(y, DictCell) and x.items is not None and y.items is not None and set(x.items) == set(y.items):
            return [("ditem", i, k) for k in y.items if not (type(x.items[k]) is type(y.items[k]) and x.items[k] == y.items[k])]
        if isinstance(x, ListCell) and isinstance(y, ListCell) and x.items is not None and y.items is not None and len(x.items) == len(y.items):
            return [("litem", i, k) for k in range(len(x.items)) if not (type(x.items[k]) is type(y.items[k]) and x.items[k] == y.items[k])]
        return [("cell", i, None)]

    def _lazy_same(self, v):
        return self._is_lazy(v)

    def _is_lazy(self, v):
        if isinstance(v, Ref):
            return v.id in self.lazy_ids
        if isinstance(v, T):
            return v.op == "attr"
        return isinstance(v, (Func, EMeth))

    lazy_ids: set = set()

    def mu_value(self, name, lid, init, nxt, s0, s1, st):
        t = mk("mu", lid, name)
        if init is UNBOUND or init is None:
            init = nxt
        if isinstance(init, T) and isinstance(nxt, T):
            return t
        if isinstance(init, Tup) and isinstance(nxt, Tup) and len(init.items) == len(nxt.items):
            return Tup([self.mu_value(f"{name}.{k}", lid, a, b, s0, s1, st) for k, (a, b) in enumerate(zip(init.items, nxt.items))])
        if isinstance(init, (Func, Cls, Ext, Mod)) and type(init) is type(nxt):
            return nxt
        org = frozenset()
        cls = None
        for v, s in ((init, s0), (nxt, s1)):
            try:
                org |= self.origins(s, v)
            except KeyError:
                pass
            if isinstance(v, Ref):
                try:
                    c = self.cell(s, v)
                except KeyError:
                    continue
                if isinstance(c, InstCell):
                    cls = c.cls
        both_inst = all(isinstance(v, Ref) and isinstance(s.heap.get(v.id, self.base_heap.get(v.id)), InstCell) for v, s in ((init, s0), (nxt, s1)))
        if both_inst:
            return self.alloc(st, InstCell(cls, t, org, open_=True))
        both_list = [s.heap.get(v.id, self.base_heap.get(v.id)) if isinstance(v, Ref) else None for v, s in ((init, s0), (nxt, s1))]
        if all(isinstance(c, ListCell) for c in both_list):
            el = next((c.elem if c.items is None else (c.items[0] if c.items else None) for c in reversed(both_list)), None)
            return self.alloc(st, ListCell(None, t, org, el))
        return self.alloc(st, ValCell(t, org))

    def loop(self, s, st, fid, itv):
        L = Loop()
        L.site = self.site(s)
        L.func = self.stack[-1][0] if self.stack else "?"
        L.id = f"{L.func}#{len([1 for x in self.loops if x.func == L.func])}" + (f".{self.loop_depth}" if self.loop_depth else "")
        depth = self.loop_depth
        L.depth = depth
        self.loop_depth += 1
        L.pc = st.pc
        L.init = st.copy()
        pc0 = st.pc
        mus = {}  # key -> V at header
        names = {}  # key -> unique name
        mucells = set()  # header cells that stand for "the array the variable refers to": rebound at every iteration
        n_ev = len(self.events)
        n_lp = len(self.loops)
        head = None
        body_end = None
        outs = []
        for rnd in range(6):
            del self.events[n_ev:]
            del self.loops[n_lp:]
            head = st.copy()
            # install header symbols
            for key in list(mus):
                self._install(head, key, mus[key])
            head0 = head.copy()
            q = head.copy()
            if itv is not None:
                el, idx, it = self.iter_elem(itv, q, depth)
                L.iter, L.idx = it, idx
                self.assign(s.target, el, q, fid)
            else:
                c = self.truth(q, self.ev(s.test, q, fid))
                L.iter, L.idx = c, None
                q.assume(c, True)
            res = self.exec_block(s.body, q, fid)
            go = [z for z in res if z[0] in ("next", "continue")]
            outs = [z for z in res if z[0] in ("return", "raise")]
            brk = [z for z in res if z[0] == "break"]
            end = self.join_by_pc(go, q.pc) if go else None
            changed = False
            diffs = self._diff(head0, end) if end is not None else []
            tgt_names = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if itv is not None else set()
            for kind, a, b in diffs:
                key = (kind if kind != "newvar" else "var", a, b)
                if key in mus:
                    continue
                if key[0] == "var" and b in tgt_names and a == fid:
                    continue
                if key[0] == "cell" and key[1] in mucells:
                    continue
                nm = self._keyname(key, head0, end)
                while nm in names.values():
                    nm += "'"
                names[key] = nm
                init, nxt = self._lookup(st, key), self._lookup(end, key)
                mus[key] = self._mkmu(key, nm, L.id, init, nxt, st, end, st)
                if isinstance(mus[key], Ref) and isinstance(st.heap.get(mus[key].id), ValCell):
                    mucells.add(mus[key].id)
                changed = True
            # origins may have grown through the loop
            for key, v in list(mus.items()):
                if isinstance(v, Ref):
                    nv = self._lookup(end, key) if end is not None else None
                    if nv is not None and not isinstance(nv, Cell):
                        cell = self.cell(st, v) if v.id in st.heap else None
                        try:
                            o = self.origins(end, nv)
                        except KeyError:
                            o = frozenset()
                        if cell is not None and hasattr(cell, "origins") and not o <= cell.origins:
                            st.heap[v.id] = cell.clone(origins=cell.origins | o)
                            changed = True
            body_end = end
            if not changed:
                break
        self.loop_depth -= 1
        L.head = head0
        L.body = body_end
        L.keys = {}
        L.names = names
        for key, v in mus.items():
            nm = names[key]
            init = self._lookup(L.init, key)
            nxt = self._lookup(body_end, key) if body_end is not None else None

            def rd(state, x, cellref=key[1]):
                if x is None or x is UNBOUND:
                    return UNB_T
                if isinstance(x, Cell):
                    return self.read(state, Ref(cellref))
                return self.read(state, x)
            L.mus[nm] = (rd(L.init, init), rd(body_end, nxt) if body_end is not None else None)
            L.keys[nm] = key
        self.loops.append(L)
        # exit state: header state (values at some header visit) or a break state
        ex = head0.copy()
        if itv is not None and body_end is not None:
            for n in [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)]:
                v = body_end.frames[fid].get(n)
                if v is not None:
                    # the loop variable keeps its last value
                    ex.frames[fid][n] = self._import(body_end, v, ex)
        if itv is None:
            n_ev2 = len(self.events)
            c = self.truth(ex, self.ev(s.test, ex, fid))
            del self.events[n_ev2:]
            ex.assume(c, False)
        ex.set_pc(pc0)
        self._canon_accumulators(L, ex, mus)
        for j, b in enumerate(brk):
            bc = mk("brk", L.id, j)
            L.breaks.append((self.pc_delta(b[2].pc, pc0), b[2]))
            ex = self.merge_states(bc, b[2], ex, pc0)
        res = [(k, v, q) for k, v, q in outs]
        if s.orelse:
            r2 = self.exec_block(s.orelse, ex, fid)
            res += r2
        else:
            res.append(("next", None, ex))
        return res

    def _import(self, src, v, dst):
        """Make heap cells reachable from v in src available in dst."""
        seen = set()

        def go(x):
            if isinstance(x, Ref):
                if x.id in seen:
                    return
                seen.add(x.id)
                if x.id not in dst.heap and x.id in src.heap:
                    dst.heap[x.id] = src.heap[x.id]
                    c = src.heap[x.id]
                    if isinstance(c, ViewCell):
                        go(c.base)
                    for a in getattr(c, "attrs", {}).values():
                        go(a)
                    for a in (getattr(c, "items", None) or ()):
                        go(a)
                    if isinstance(c, DictCell) and c.items:
                        for a in c.items.values():
                            go(a)
                    if getattr(c, "elem", None) is not None:
                        go(c.elem)
            elif isinstance(x, Tup):
                for a in x.items:
                    go(a)
            elif isinstance(x, GV):
                go(x.a)
                go(x.b)
        go(v)
        return v

    def _keyname(self, key, s0, s1):
        if key[0] == "var":
            return key[2]
        if key[0] == "attr":
            c = s0.heap.get(key[1]) or self.base_heap.get(key[1])
            return f"{self._cellname(key[1], s0)}.{key[2]}"
        if key[0] in ("ditem", "litem"):
            k = key[2]
            return f"{self._cellname(key[1], s0)}[{k if not isinstance(k, T) else show(k)}]"
        return self._cellname(key[1], s0)

    def _cellname(self, cid, st):
        # a name through which the cell is reachable (innermost frame first)
        for fid in sorted(st.frames, reverse=True):
            for k, v in st.frames[fid].items():
                if isinstance(v, Ref) and v.id == cid:
                    return k
        for fid in sorted(st.frames, reverse=True):
            for k, v in st.frames[fid].items():
                if isinstance(v, Ref):
                    c = st.heap.get(v.id) or self.base_heap.get(v.id)
                    for a, w in getattr(c, "attrs", {}).items():
                        if isinstance(w, Ref) and w.id == cid:
                            return f"{k}.{a}"
                        if isinstance(w, Ref):
                            c2 = st.heap.get(w.id) or self.base_heap.get(w.id)
                            for a2, w2 in getattr(c2, "attrs", {}).items():
                                if isinstance(w2, Ref) and w2.id == cid:
                                    return f"{k}.{a}.{a2}"
                elif isinstance(v, GV):
                    for w in (v.a, v.b):
                        if isinstance(w, Ref) and w.id == cid:
                            return k
        return f"cell{cid}"

    def _lookup(self, st, key):
        if key[0] == "var":
            return st.frames.get(key[1], {}).get(key[2])
        c = st.heap.get(key[1]) or self.base_heap.get(key[1])
        if c is None:
            return None
        if key[0] == "attr":
            return c.attrs.get(key[2])
        if key[0] == "ditem":
            return c.items.get(key[2]) if c.items is not None else None
        if key[0] == "litem":
            return c.items[key[2]] if c.items is not None and key[2] < len(c.items) else None
        return c

    def _mkmu(self, key, nm, lid, init, nxt, s0, s1, st):
        if key[0] in ("var", "attr", "ditem", "litem"):
            return self.mu_value(nm, lid, init, nxt, s0, s1, st)
        mu = mk("mu", lid, nm)
        if isinstance(init, ValCell) and init.term is not None and init.term is not mu:
            self.mushape[mu.uid] = init.term  # item assignment and in-place arithmetic keep the shape of an array
        return mu

    def _install(self, st, key, v):
        if key[0] == "var":
            st.frames.setdefault(key[1], {})[key[2]] = v
            return
        c = st.heap.get(key[1]) or self.base_heap.get(key[1])
        if c is None:
            return
        if key[0] == "attr":
            n = c.clone()
            n.attrs = dict(c.attrs)
            n.attrs[key[2]] = v
            st.heap[key[1]] = n
        elif key[0] == "ditem":
            if c.items is not None:
                it = dict(c.items)
                it[key[2]] = v
                st.heap[key[1]] = c.clone(items=it)
        elif key[0] == "litem":
            if c.items is not None:
                it = list(c.items)
                it[key[2]] = v
                st.heap[key[1]] = c.clone(items=tuple(it))
        elif isinstance(c, (ListCell, DictCell)):
            el = c.elem
            if c.items:
                el = (list(c.items.values()) if isinstance(c, DictCell) else list(c.items))[0]
            if isinstance(el, Ref) and isinstance(st.heap.get(el.id) or self.base_heap.get(el.id), InstCell):
                el = MIXED
            st.heap[key[1]] = c.clone(items=None, term=v, elem=el)
        elif isinstance(c, ViewCell):
            pass
        else:
            st.heap[key[1]] = c.clone(term=v)

    def _canon_accumulators(self, L, ex, mus):
        """append-loops become list comprehensions; index-fill loops become maps."""
        for key, v in mus.items():
            nm = L.names[key]
            init, nxt = L.mus.get(nm, (None, None))
            if nxt is None or L.breaks:
                continue
            mu = mk("mu", L.id, nm)
            newt = None
            if nxt.op == "app" and nxt.args[0] == "append" and nxt.args[1] is mu and init is not None and init.op == "list" and not init.args and L.idx is not None:
                val = nxt.args[2]
                if not any(x is mu for x in subterms(val)):
                    newt = mk("listcomp", L.idx, val, self.t_len(L.iter) if L.iter.op != "zip_" else L.idx.args[0])
            elif (nxt.op == "upd" and nxt.args[0] is mu and L.idx is not None and nxt.args[1] is L.idx and init is not None and init.op == "app" and init.args[0] == "listrep"
                  and init.args[2] is L.idx.args[0] and not any(x is mu for x in subterms(nxt.args[2]))):
                newt = mk("listcomp", L.idx, nxt.args[2], init.args[2])  # every item is assigned
            elif nxt.op == "upd" and nxt.args[0] is mu and L.idx is not None and nxt.args[1] is L.idx and init is not None:
                # every position is written once: what it held before is what the array held before the loop
                old, first = mk("get", mu, L.idx), self.t_get(init, L.idx)
                val = subst(nxt.args[2], lambda x: first if x is old else None)
                if not any(x is mu for x in subterms(val)):
                    while init.op == "fill" and init.args[1] is L.idx:
                        init = init.args[0]
                    newt = mk("fill", init, L.idx, val)
            if newt is not None:
                if key[0] == "cell":
                    c = ex.heap.get(key[1]) or self.base_heap.get(key[1])
                    if isinstance(c, (ListCell, DictCell)) and c.items is None or isinstance(c, ValCell):
                        ex.heap[key[1]] = c.clone(term=newt)
                elif key[0] == "var" and isinstance(v, T):
                    ex.frames[key[1]][key[2]] = newt

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, st, fid, aug=False):
        if isinstance(t, ast.Name):
            st.frames[fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, fid)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fid)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, st, fid)
            self.setattr(obj, t.attr, v, st, t, aug=aug)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == "__dict__":
            obj = self.ev(t.value.value, st, fid)
            k = self.read(st, self.ev(t.slice, st, fid))
            self.setattr(obj, cval(k) if k.op == "const" and isinstance(cval(k), str) else "?", v, st, t, aug=aug)
        elif isinstance(t, ast.Subscript):
            base = self.storable(t.value, st, fid)
            idx = self.ev(t.slice, st, fid)
            self.store_sub(base, idx, v, st, t, how=f"item assignment '{ast.unparse(t)[:80]} = ...'")

    def storable(self, e, st, fid):
        """The container that an element is assigned to: a value known only by its term becomes storage of its own."""
        v = self.ev(e, st, fid)
        if isinstance(v, T) and isinstance(e, ast.Name) and v.op in ("attr", "get", "app") and e.id in st.frames.get(fid, ()) and not self.is_scalar_t(v):
            v = st.frames[fid][e.id] = self.alloc(st, ValCell(v, ("opaque",)))
        if isinstance(v, EMeth) and isinstance(v.recv, Ref) and isinstance(self.cell(st, v.recv), ValCell):
            # an attribute of an external object is an array
            c = self.cell(st, v.recv)
            if v.name not in c.attrs:
                self._lazy_attr(v.recv, c, v.name, self.alloc(st, ValCell(mk("attr", self.read(st, v.recv), v.name), ("opaque",))), st)
            x = self.cell(st, v.recv).attrs[v.name]
            if isinstance(e, ast.Name) and e.id in st.frames.get(fid, ()):
                st.frames[fid][e.id] = x
            return x
        return v

    def unpack(self, t, v, st, fid):
        v = self.norm_v(st, v)
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        items = self.iter_items(v, st)
        if items is None and isinstance(v, GV):
            ia, ib = self.iter_items(v.a, st), self.iter_items(v.b, st)
            if ia is not None and ib is not None and len(ia) == len(ib):
                items = [self.merge_v(v.c, a, b) for a, b in zip(ia, ib)]
        if items is not None and (len(items) == n or star and len(items) >= n - 1):
            if star:
                k = star[0]
                m = len(items) - (n - 1)
                vals = items[:k] + [self.alloc(st, ListCell(tuple(items[k:k + m]), origins=("fresh",)))] + items[k + m:]
            else:
                vals = items
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st, fid)
            return
        for i, e in enumerate(t.elts):
            if star and i == star[0]:
                self.assign(e, self.subscript(v, mk("slice", const(i), const(-(n - 1 - i)) if n - 1 - i else NONE, NONE), st, t), st, fid)
            else:
                k = const(i) if not star or i < star[0] else const(i - n)
                self.assign(e, self.subscript(v, k, st, t), st, fid)

    def setattr(self, obj, name, v, st, node, aug=False):
        obj = self.norm_v(st, obj)
        if isinstance(obj, GV):
            for br, val in ((obj.a, True), (obj.b, False)):
                self.under(st, obj.c, val, lambda q, br=br: self.setattr(br, name, v, q, node))
            return
        if isinstance(obj, Ref):
            c = self.cell(st, obj)
            if isinstance(c, ViewCell):
                self.event("setattr", node, st, origins=self.origins(st, obj), attr=name, value=v, obj=obj, cls=None)
                return
            if isinstance(c, InstCell):
                r = c.cls.find_setter(name)
                if r is not None:
                    self.call_func(Func(r[1], r[0].mod, 0, r[0], obj), [v], {}, st, node)
                    return
            if not (aug and isinstance(v, Ref) and getattr(c, "attrs", {}).get(name) == v):
                self.event("setattr", node, st, origins=c.origins, attr=name, value=v, obj=obj, cls=getattr(c, "cls", None), old=c.attrs.get(name) if hasattr(c, "attrs") else None)
            if isinstance(c, (InstCell, ValCell)):
                n = c.clone()
                n.attrs = dict(c.attrs)
                if name == "?":  # the attribute is not known: any of them may have changed
                    for k in n.attrs:
                        n.attrs[k] = self.alloc(st, ValCell(mk("opaque", "attribute assigned by computed name", mk("attr", self.read(st, obj), k), self.read(st, v)), c.origins))
                    n.attrs.pop("?", None)
                else:
                    n.attrs[name] = v
                st.heap[obj.id] = n
        elif isinstance(obj, Cls):
            self.event("setattr", node, st, origins=frozenset({f"class:{obj.c.qual}"}), attr=name, value=v, obj=obj, cls=obj.c)
        elif isinstance(obj, (Mod, Ext)):
            self.event("setattr", node, st, origins=frozenset({"module"}), attr=name, value=v, obj=obj, cls=None)

    def store_sub(self, base, idx, v, st, node, how="item assignment"):
        base = self.norm_v(st, base)
        if isinstance(base, GV):
            for br, val in ((base.a, True), (base.b, False)):
                if isinstance(br, (Ref, GV)):
                    self.under(st, base.c, val, lambda q, br=br: self.store_sub(br, idx, v, q, node, how))
            return
        if not isinstance(base, Ref):
            return
        it = self.read(st, idx)
        c = self.cell(st, base)
        if isinstance(c, ListCell) and c.items is not None and is_num(it) and isinstance(cval(it), int) and -len(c.items) <= cval(it) < len(c.items):
            self.event("mut", node, st, origins=c.origins, how=how, ref=base.id)
            l = list(c.items)
            l[cval(it)] = v
            st.heap[base.id] = c.clone(items=tuple(l))
            return
        if isinstance(c, DictCell) and c.items is not None and it.op == "const":
            self.event("mut", node, st, origins=c.origins, how=how, ref=base.id)
            d = dict(c.items)
            d[cval(it)] = v
            st.heap[base.id] = c.clone(items=d)
            return
        vt = self.read(st, v)
        if isinstance(c, (ListCell, DictCell)):
            self.event("mut", node, st, origins=c.origins, how=how, ref=base.id)
            old = self.read(st, base)
            st.heap[base.id] = c.clone(items=None, term=self.t_upd(old, it, vt), elem=self.mixed_elem(c, v, st))
            return
        if isinstance(c, InstCell):
            if c.cls.find("__setitem__"):
                self.call_method(base, "__setitem__", [idx, v], {}, st, node)
                return
        vt2 = vt
        # x[mask] = f(x)[mask]  ==  where(mask, f(x), x)
        if self.is_bool_term(it) and vt.op == "get" and vt.args[1] is it:
            vt2 = vt.args[0]
        self.mutate(st, base, lambda o: self.t_upd(o, it, vt2), node, how, idx=it, val=vt2)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st, fid) -> V:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsupported.append((type(e).__name__, self.site(e)))
            return self.arr(st, mk("opaque", "expr " + type(e).__name__))
        return m(e, st, fid)

    def e_Constant(self, e, st, fid):
        return const(e.value)

    def e_Name(self, e, st, fid):
        return self.lookup_name(e.id, st, fid, e)

    def lookup_name(self, n, st, fid, node=None):
        f = fid
        while f:
            fr = st.frames.get(f)
            if fr is None:
                break
            if n in fr:
                v = fr[n]
                v = self.norm_v(st, v)
                if v is UNBOUND:
                    self.event("unbound", node, st, name=n, definite=True)
                    raise Abort()
                if isinstance(v, GV) and self._has_unbound(v):
                    self.event("unbound", node, st, name=n, definite=False, cond=self._unb_cond(v))
                    v = self._drop_unbound(v)
                return v
            if n in fr.get("%locals", ()):
                self.event("unbound", node, st, name=n, definite=True)
                raise Abort()
            f = fr.get("%parent", 0)
        mod = self.stack[-1][2] if self.stack else None
        # module of the frame
        fr = st.frames.get(fid)
        if fr is not None and fr.get("%mod") is not None:
            mod = fr["%mod"]
        return self.lookup_global(n, mod, st, node)

    def _has_unbound(self, v):
        return v is UNBOUND or isinstance(v, GV) and (self._has_unbound(v.a) or self._has_unbound(v.b))

    def _unb_cond(self, v):
        if v is UNBOUND:
            return TRUE
        if isinstance(v, GV):
            return gate(v.c, self._unb_cond(v.a), self._unb_cond(v.b))
        return FALSE

    def _drop_unbound(self, v):
        if isinstance(v, GV):
            a, b = self._drop_unbound(v.a), self._drop_unbound(v.b)
            if a is UNBOUND:
                return b
            if b is UNBOUND:
                return a
            return self.merge_v(v.c, a, b)
        return v

    def lookup_global(self, n, mod, st, node):
        import builtins
        if mod is not None:
            if n in mod.classes or n in mod.functions or n in mod.assigns or n in mod.imports:
                k, x = self.prog.resolve_name(mod, n)
                return self.wrap_resolved(k, x, st, n)
        if hasattr(builtins, n):
            return Ext("builtins." + n)
        self.event("undefined", node, st, name=n)
        return Ext("?." + n)

    def resolve_dotted(self, dotted):
        k, x = self.prog.resolve(dotted)
        return self.wrap_resolved(k, x, None, dotted)

    def wrap_resolved(self, k, x, st, n):
        if k == "class":
            return Cls(x)
        if k == "func":
            return Func(x[1], x[0], 0, None)
        if k == "mod":
            return Mod(x)
        if k == "glob":
            return self.global_value(x[0], x[1])
        return Ext(x)

    def global_value(self, mod, name):
        key = (mod.name, name)
        if key in self.globals:
            v = self.globals[key]
            return v if v is not None else self.arr_base(mk("opaque", "global " + name), f"glob:{mod.name}.{name}")
        self.globals[key] = None
        st = State()
        fid = self.new_id()
        st.frames[fid] = {"%parent": 0, "%mod": mod}
        self.stack.append((mod.name + ".<module>", None, mod, None))
        try:
            v = self.ev(mod.assigns[name], st, fid)
        except Abort:
            v = mk("opaque", "global " + name)
        finally:
            self.stack.pop()
        for i, c in st.heap.items():
            if hasattr(c, "origins"):
                c = c.clone(origins=frozenset({f"glob:{mod.name}.{name}"}))
            self.base_heap[i] = c
        self.globals[key] = v
        return v

    def arr_base(self, term, origin):
        i = self.new_id()
        self.base_heap[i] = ValCell(term, {origin})
        return Ref(i)

    def e_Tuple(self, e, st, fid):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fid)
                its = self.iter_items(v, st)
                if its is None:
                    if len(e.elts) == 1:  # [*x] is list(x)
                        return self.call(Ext("builtins." + ("tuple" if isinstance(e, ast.Tuple) else "list")), [v], {}, st, e)
                    t = [self.read(st, i) for i in items]
                    rest = [y for y in e.elts[e.elts.index(x) + 1:]]
                    more = [mk("star", self.read(st, self.ev(y.value, st, fid))) if isinstance(y, ast.Starred) else self.read(st, self.ev(y, st, fid)) for y in rest]
                    return mk("app", "tuplecat", mk("tuple", *t), self.read(st, v), mk("tuple", *more))
                items.extend(its)
            else:
                items.append(self.ev(x, st, fid))
        return Tup(items)

    def e_List(self, e, st, fid):
        v = self.e_Tuple(e, st, fid)
        if isinstance(v, Tup):
            return self.alloc(st, ListCell(v.items, origins=("fresh",)))
        if isinstance(v, Ref):
            return v
        return self.alloc(st, ListCell(None, v, ("fresh",)))

    def e_Set(self, e, st, fid):
        v = self.e_Tuple(e, st, fid)
        return self.alloc(st, ListCell(v.items if isinstance(v, Tup) else None, None if isinstance(v, Tup) else v, ("fresh",), pykind="set"))

    def e_Dict(self, e, st, fid):
        items = {}
        ok = True
        term = []

        def flush():
            term.extend(mk("tuple", const(k) if not isinstance(k, T) else k, self.read(st, v)) for k, v in items.items())
            items.clear()
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, fid)
            if k is None:
                c = self.cell(st, vv) if isinstance(vv, Ref) else None
                if isinstance(c, DictCell) and c.items is not None:
                    items.update(c.items)
                else:
                    ok = False
                    flush()
                    term.append(self.read(st, vv))
                continue
            kt = self.read(st, self.ev(k, st, fid))
            if kt.op == "const":
                items[cval(kt)] = vv
            else:
                items[kt] = vv
        if ok:
            return self.alloc(st, DictCell(items, origins=("fresh",)))
        flush()
        t = mk("app", "dictmerge", *term)
        return self.alloc(st, DictCell(None, t, ("fresh",)))

    def e_Slice(self, e, st, fid):
        parts = [self.read(st, self.ev(x, st, fid)) if x is not None else NONE for x in (e.lower, e.upper, e.step)]
        return mk("slice", *parts[:2], NONE if is_const(parts[2], 1) else parts[2])

    def e_JoinedStr(self, e, st, fid):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                t = self.read(st, self.ev(x.value, st, fid))
                if t.op == "const" and x.format_spec is None and isinstance(cval(t), (str, int)):
                    parts.append(const(str(cval(t))))
                else:
                    parts.append(mk("app", "format", t, const(ast.unparse(x.format_spec) if x.format_spec else "")))
        return self.concat(parts)

    def is_str_t(self, t):
        return t.op == "const" and isinstance(cval(t), str) or t.op == "app" and t.args[0] in ("fstr", "str", "format") or self.symty.get(t.uid) == "str" or t.op == "gate" and self.is_str_t(t.args[1]) and self.is_str_t(t.args[2])

    def concat(self, parts):
        """Concatenation of strings: nested concatenations are flattened, literal parts joined."""
        out = []

        def push(p):
            if p.op == "app" and p.args[0] == "format" and is_const(p.args[2], "") and self.is_str_t(p.args[1]):
                return push(p.args[1])
            if p.op == "app" and p.args[0] == "fstr" and all(isinstance(x, T) for x in p.args[1:]) and p.uid in self.concats:
                for x in p.args[1:]:
                    push(x)
            elif p.op == "const" and isinstance(cval(p), str) and out and out[-1].op == "const" and isinstance(cval(out[-1]), str):
                out[-1] = const(cval(out[-1]) + cval(p))
            elif not is_const(p, ""):
                out.append(p)
        for p in parts:
            push(p)
        g = next((k for k, p in enumerate(out) if p.op == "gate"), None)
        if g is not None and sum(p.op == "gate" for p in out) <= 4:
            return gate(out[g].args[0], self.concat(out[:g] + [out[g].args[1]] + out[g + 1:]), self.concat(out[:g] + [out[g].args[2]] + out[g + 1:]))
        if not out:
            return const("")
        if len(out) == 1 and self.is_str_t(out[0]):
            return out[0]
        t = mk("app", "fstr", *out)
        self.symty[t.uid] = "str"
        self.concats.add(t.uid)
        return t

    def e_FormattedValue(self, e, st, fid):
        return self.ev(e.value, st, fid)

    def e_Lambda(self, e, st, fid):
        return Func(e, self.stack[-1][2], fid, None, None, "<lambda>")

    def e_Starred(self, e, st, fid):
        return self.ev(e.value, st, fid)

    def e_NamedExpr(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        self.assign(e.target, v, st, fid)
        return v

    def e_Await(self, e, st, fid):
        return self.ev(e.value, st, fid)

    def e_IfExp(self, e, st, fid):
        c = self.simp(st, self.truth(st, self.ev(e.test, st, fid)))
        if c.op == "const":
            return self.ev(e.body if cval(c) else e.orelse, st, fid)
        return self.branch_v(c, st, lambda q: self.ev(e.body, q, fid), lambda q: self.ev(e.orelse, q, fid))

    def branch_v(self, c, st, fa, fb):
        pc = st.pc
        a, b = st.copy(), st.copy()
        a.assume(c, True)
        b.assume(c, False)
        if a.dead != b.dead:
            return fb(st) if a.dead else fa(st)
        try:
            va = fa(a)
        except Abort:
            va = None
        try:
            vb = fb(b)
        except Abort:
            vb = None
        if va is None and vb is None:
            raise Abort()
        if va is None or vb is None:
            q, v = (b, vb) if va is None else (a, va)
            st.frames, st.heap, st.pc, st.known = q.frames, q.heap, q.pc, q.known
            return v
        m = self.merge_states(c, a, b, pc)
        st.frames, st.heap = m.frames, m.heap
        st.set_pc(pc)
        return self.merge_v(c, va, vb)

    def e_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)

        def rec(i, q):
            v = self.ev(e.values[i], q, fid)
            if i == len(e.values) - 1:
                return v
            c = self.simp(q, self.truth(q, v))
            if c.op == "const":
                if bool(cval(c)) == isand:
                    return rec(i + 1, q)
                return v
            if isand:
                return self.branch_v(c, q, lambda z: rec(i + 1, z), lambda z: v if not self._boolish(v) else FALSE)
            return self.branch_v(c, q, lambda z: v if not self._boolish(v) else TRUE, lambda z: rec(i + 1, z))
        r = rec(0, st)
        if isinstance(r, T) and r.op == "gate":
            g, a, b = r.args
            if is_const(b, False) and self._boolish(a):
                return t_and(g, a)
            if is_const(a, True) and self._boolish(b):
                return t_or(g, b)
        return r

    def _boolish(self, v):
        return isinstance(v, T) and (v.op in ("eq", "lt", "not", "and", "or", "isnone", "in", "isinst", "truth", "hasattr", "gate") or v.op == "const" and isinstance(cval(v), bool)
                                     or self.symty.get(v.uid) == "bool")

    def e_UnaryOp(self, e, st, fid):
        v = self.ev(e.operand, st, fid)
        if isinstance(e.op, ast.Not):
            return t_not(self.truth(st, v))
        t = self.read(st, v)
        if isinstance(e.op, ast.USub):
            return self.like(st, self.neg_t(t), v)
        if isinstance(e.op, ast.UAdd):
            return v
        if t.op == "const" and isinstance(cval(t), int) and not isinstance(cval(t), bool):
            return const(~cval(t))
        return self.like(st, mk("app", "invert", t) if not self.is_bool_term(t) else t_not(t), v)

    def neg_t(self, t):
        return mk("vec", *[self.neg_t(x) for x in t.args]) if t.op == "vec" else neg(t)

    def like(self, st, t, *vs):
        """Result of an operation: fresh storage if any operand may be an array, else an immutable term."""
        if t.op == "const":
            return t
        for v in vs:
            if isinstance(v, (Ref, GV)):
                return self.alloc(st, ValCell(t, ("fresh",)))
        return t

    BIN = {"Add": add, "Sub": sub, "Mult": mul, "Div": div, "Pow": power}

    def scalar_bool(self, t):
        if t.op in ("lt", "eq"):
            return all(self.is_scalar_t(x) for x in t.args)
        return t.op in ("not", "and", "or") and all(self.scalar_bool(x) for x in t.args)

    def binop_t(self, opn, a, b):
        if opn in ("Add", "Sub", "Mult"):
            for x, f in ((a, lambda z: self.binop_t(opn, z, b)), (b, lambda z: self.binop_t(opn, a, z))):
                if x.op in ("lt", "eq", "not", "and", "or") and self.scalar_bool(x):
                    return gate(x, f(const(1)), f(const(0)))  # a condition counts as 1 or 0
        if a.op == "gate" and b.op == "gate" and a.args[0] is b.args[0]:
            return gate(a.args[0], self.binop_t(opn, a.args[1], b.args[1]), self.binop_t(opn, a.args[2], b.args[2]))
        if a.op == "vec" or b.op == "vec":
            if a.op == "vec" and b.op == "vec" and (len(a.args) != len(b.args) or a.args and (a.args[0].op == "vec") != (b.args[0].op == "vec")):
                sa, sb = self.vec_shape(a), self.vec_shape(b)
                if sa is not None and sb is not None:
                    if len(sa) != len(sb):
                        return self.binop_t(opn, mk("vec", a), b) if len(sa) < len(sb) else self.binop_t(opn, a, mk("vec", b))
                    n = max(len(a.args), len(b.args))
                    if min(len(a.args), len(b.args)) == 1:
                        return mk("vec", *[self.binop_t(opn, a.args[k % len(a.args)], b.args[k % len(b.args)]) for k in range(n)])
            elif a.op == "vec" and b.op == "vec" and len(a.args) == len(b.args):
                return mk("vec", *[self.binop_t(opn, x, y) for x, y in zip(a.args, b.args)])
            for x, y in ((a, b), (b, a)):
                if x.op == "vec" and y.op != "vec" and len(x.args) == 1:
                    sh = self.vec_shape(x)
                    if sh is not None and set(sh) == {1} and self.min_ndim(y) >= len(sh):
                        for _ in sh:
                            x = x.args[0]
                        return self.binop_t(opn, *((x, y) if y is b else (y, x)))
            if a.op == "vec" and self.is_scalar_t(b):
                return mk("vec", *[self.binop_t(opn, x, b) for x in a.args])
            if b.op == "vec" and self.is_scalar_t(a):
                return mk("vec", *[self.binop_t(opn, a, y) for y in b.args])
        if opn == "Pow" and is_num(b) and a.op == "app" and a.args[0] == "np.stack" and a.args[1].op in ("list", "tuple"):
            return mk("app", "np.stack", mk(a.args[1].op, *[self.binop_t(opn, x, b) for x in a.args[1].args]), *a.args[2:])
        if opn == "Add" and a.op == b.op and a.op in ("tuple", "list"):
            return mk(a.op, *a.args, *b.args)
        if opn == "Mult" and a.op == "const" and b.op == "const" and isinstance(cval(a), str) and isinstance(cval(b), int):
            return const(cval(a) * cval(b))
        if opn == "Add" and a.op == "const" and b.op == "const" and isinstance(cval(a), str) and isinstance(cval(b), str):
            return const(cval(a) + cval(b))
        if opn == "Add" and (self.is_str_t(a) and (self.is_str_t(b) or a.op == "const") or self.is_str_t(b) and b.op == "const"):
            return self.concat([a, b])
        if opn == "Mult" and a.op in ("tuple", "list") and is_num(b) and isinstance(cval(b), int) and len(a.args) * cval(b) < 64:
            return mk(a.op, *(list(a.args) * cval(b)))
        if opn == "Mult" and b.op in ("tuple", "list") and is_num(a) and isinstance(cval(a), int):
            return self.binop_t(opn, b, a)
        if opn == "Mult" and (a.op == "list" or b.op == "list"):
            return mk("app", "listrep", *(a, b) if a.op == "list" else (b, a))
        f = self.BIN.get(opn)
        if f is not None:
            return f(a, b)
        if is_num(a) and is_num(b):
            try:
                x, y = cval(a), cval(b)
                return const({"FloorDiv": lambda: x // y, "Mod": lambda: x % y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y,
                              "LShift": lambda: x << y, "RShift": lambda: x >> y, "BitXor": lambda: x ^ y}[opn]())
            except Exception:
                pass
        if opn == "FloorDiv" and is_num(b) and isinstance(cval(b), int) and cval(b) and a.op == "mul":
            for k, x in (a.args, a.args[::-1]):
                if is_num(k) and isinstance(cval(k), int) and cval(k) % cval(b) == 0 and self.is_int_t(x):
                    return mul(x, const(cval(k) // cval(b)))
        if opn == "FloorDiv" and a.op == "mul" and len(a.args) == 2 and self.is_scalar_t(b) and self.is_int_t(b) and any(x is b for x in a.args):
            y = a.args[1] if a.args[0] is b else a.args[0]
            if self.is_int_t(y) and self.is_scalar_t(y):
                return y  # n * k // k
        if opn in ("BitAnd", "BitOr"):
            if self.is_bool_term(a) and self.is_bool_term(b):
                return t_and(a, b) if opn == "BitAnd" else t_or(a, b)
            return mk("app", opn.lower(), *sorted((a, b), key=skey))
        if opn == "Mod" and a.op == "const" and isinstance(cval(a), str):
            return mk("app", "fstr", a, b)
        return mk("app", {"FloorDiv": "floordiv", "Mod": "mod", "MatMult": "matmul", "BitXor": "bitxor"}.get(opn, opn.lower()), a, b)

    def binop(self, opn, a, b, st, node):
        a, b = self.norm_v(st, a), self.norm_v(st, b)
        if opn == "Add" and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if opn == "Mult" and isinstance(a, Tup) and isinstance(b, T) and is_num(b) and isinstance(cval(b), int):
            return Tup(a.items * cval(b))
        ca = self.cell(st, a) if isinstance(a, Ref) else None
        cb = self.cell(st, b) if isinstance(b, Ref) else None
        if isinstance(ca, ListCell) or isinstance(cb, ListCell):
            if opn == "Add" and isinstance(ca, ListCell) and isinstance(cb, ListCell):
                if ca.items is not None and cb.items is not None:
                    return self.alloc(st, ListCell(ca.items + cb.items, origins=("fresh",)))
                return self.alloc(st, ListCell(None, mk("app", "listcat", self.read(st, a), self.read(st, b)), ("fresh",), ca.elem or cb.elem))
            if opn == "Mult":
                l, n = (ca, b) if isinstance(ca, ListCell) else (cb, a)
                n = self.read(st, n)
                if l.items is not None and is_num(n) and isinstance(cval(n), int) and len(l.items) * cval(n) < 64:
                    return self.alloc(st, ListCell(l.items * cval(n), origins=("fresh",)))
                return self.alloc(st, ListCell(None, mk("app", "listrep", self.read(st, a if l is ca else b), n), ("fresh",), l.elem or (l.items[0] if l.items else None)))
        if opn == "BitOr" and (isinstance(a, (Cls, Ext)) or isinstance(b, (Cls, Ext))):
            return mk("app", "union", self.read(st, a), self.read(st, b))
        for x, meth, y in ((a, "__" + {"MatMult": "matmul", "Add": "add", "Mult": "mul", "Sub": "sub"}.get(opn, "nop") + "__", b),):
            c = self.cell(st, x) if isinstance(x, Ref) else None
            if isinstance(c, InstCell) and c.cls.find(meth):
                return self.call_method(x, meth, [y], {}, st, node)
            if isinstance(c, InstCell) and opn == "MatMult" and c.cls.find("__call__"):
                pass
        ta, tb = self.read(st, a), self.read(st, b)
        return self.like(st, self.binop_t(opn, ta, tb), a, b)

    def e_BinOp(self, e, st, fid):
        a = self.ev(e.left, st, fid)
        b = self.ev(e.right, st, fid)
        return self.binop(type(e.op).__name__, a, b, st, e)

    def e_Compare(self, e, st, fid):
        left = self.ev(e.left, st, fid)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fid)
            res.append(self.compare(type(op).__name__, left, right, st))
            left = right
        if len(res) == 1:
            return res[0]
        return t_and(*[self.read(st, r) for r in res])

    def t_eq(self, a, b):
        if a is b and a.op in ("get", "app") and self.is_scalar_t(a) and self.is_int_t(a):
            return TRUE
        if a is b and (a.op in ("const", "sym") or a.op == "attr" and a.args[1] in ("shape", "ndim", "size", "dtype")):
            return TRUE
        if a.op == "const" and b.op == "const":
            return const(cval(a) == cval(b))
        if a.op == "gate":
            return gate(a.args[0], self.t_eq(a.args[1], b), self.t_eq(a.args[2], b))
        if b.op == "gate":
            return gate(b.args[0], self.t_eq(a, b.args[1]), self.t_eq(a, b.args[2]))
        if a.op in ("ext", "class", "func") and b.op in ("ext", "class", "func"):
            return const(a is b)
        for x, y in ((a, b), (b, a)):
            if x.op == "ext" and x.args[0] == "np.inf" and is_const(y):
                return const(cval(y) == float("inf"))
        if a.op == b.op and a.op in ("tuple", "list") and len(a.args) != len(b.args):
            return FALSE
        if a.op == b.op == "tuple":
            return t_and(*[self.t_eq(x, y) for x, y in zip(a.args, b.args)])
        for x, y in ((a, b), (b, a)):
            if is_const(y) and isinstance(cval(y), str) and (x.op in ("add", "mul", "pow", "list", "tuple") or self.symty.get(x.uid) in ("int", "float", "bool")):
                return FALSE
            if is_const(y, None):
                return self.term_isnone(x)
        return mk("eq", *sorted((a, b), key=skey))

    def t_lt(self, a, b):
        for x, f in ((a, lambda z: self.t_lt(z, b)), (b, lambda z: self.t_lt(a, z))):
            if x.op in ("lt", "eq", "not", "and", "or") and self.scalar_bool(x):
                return gate(x, f(const(1)), f(const(0)))
        if is_num(a) and is_num(b):
            return const(cval(a) < cval(b))
        if a.op == "gate" and (is_const(b) or b.op == "sym"):
            return gate(a.args[0], self.t_lt(a.args[1], b), self.t_lt(a.args[2], b))
        if b.op == "gate" and (is_const(a) or a.op == "sym"):
            return gate(b.args[0], self.t_lt(a, b.args[1]), self.t_lt(a, b.args[2]))
        return mk("lt", a, b)

    def compare(self, op, a, b, st):
        a, b = self.norm_v(st, a), self.norm_v(st, b)
        if op in ("Is", "IsNot"):
            if isinstance(b, T) and is_const(b, None):
                r = self.t_isnone(st, a)
            elif isinstance(a, T) and is_const(a, None):
                r = self.t_isnone(st, b)
            else:
                ta, tb = self.read(st, a), self.read(st, b)
                if isinstance(a, Ref) and isinstance(b, Ref):
                    r = TRUE if a == b else mk("is", *sorted((ta, tb), key=skey))
                elif any(isinstance(x, Ref) and isinstance(self.cell(st, x), ValCell) and self.cell(st, x).ty == "ndarray" and isinstance(y, T) and y.op == "const" for x, y in ((a, b), (b, a))):
                    r = FALSE  # an array is not a number or a string
                else:
                    r = self.t_eq(ta, tb)
            return r if op == "Is" else t_not(r)
        if op in ("In", "NotIn"):
            r = self.t_in(a, b, st)
            return r if op == "In" else t_not(r)
        ta, tb = self.read(st, a), self.read(st, b)
        for x, y, l in ((ta, tb, True), (tb, ta, False)):
            if x.op == "gate" and any(z.op == "vec" for z in x.args[1:]):
                r = gate(x.args[0], *[self.read(st, self.compare(op, z, y, st) if l else self.compare(op, y, z, st)) for z in x.args[1:]])
                return self.alloc(st, ValCell(r, ("fresh",), ty="ndarray"))
        if (ta.op == "vec" or tb.op == "vec") and len((ta if ta.op == "vec" else tb).args) > 0:
            n = len((ta if ta.op == "vec" else tb).args)
            xs = ta.args if ta.op in ("vec", "tuple", "list") else (ta,) * n if is_num(ta) else ()
            ys = tb.args if tb.op in ("vec", "tuple", "list") else (tb,) * n if is_num(tb) else ()
            if len(xs) == len(ys) == n and (all(is_num(x) for x in xs) and all(is_num(y) for y in ys) or all(self.is_scalar_t(x) for x in tuple(xs) + tuple(ys))):
                rs = [self.compare(op, x, y, st) for x, y in zip(xs, ys)]
                if all(isinstance(r, T) and (r.op == "const" or self.is_bool_term(r)) for r in rs):
                    return self.alloc(st, ValCell(mk("vec", *rs), ("fresh",), ty="ndarray"))
            for x, y in ((ta, tb), (tb, ta)):  # one element, over all of the array
                sh = self.vec_shape(x) if x.op == "vec" and y.op != "vec" else None
                if sh is not None and set(sh) == {1} and (self.min_ndim(y) >= len(sh) or len(sh) == 1 and self.ndim_of(y) is None and not self.is_scalar_t(y)):
                    z = x
                    for _ in sh:
                        z = z.args[0]
                    ta, tb = (z, tb) if x is ta else (ta, z)
                    break
        if op in ("Eq", "NotEq"):
            r = self.t_eq(ta, tb)
            if r.op != "const" and not is_num(ta) and not is_num(tb):
                self.eqsrc.setdefault(r.uid, (ta, tb))
            return self.bool_like(st, r if op == "Eq" else t_not(r), a, b)
        if op == "Lt":
            r = self.t_lt(ta, tb)
        elif op == "Gt":
            r = self.t_lt(tb, ta)
        elif op == "LtE":
            r = t_not(self.t_lt(tb, ta))
        else:
            r = t_not(self.t_lt(ta, tb))
        return self.bool_like(st, r, a, b)

    def bool_like(self, st, t, *vs):
        return t

    def t_in(self, a, b, st):
        ta = self.read(st, a)
        its = self.iter_items(b, st)
        if its is not None and len(its) <= 40:
            tb = [self.read(st, x) for x in its]
            return t_or(*[self.t_eq(ta, x) for x in tb]) if tb else FALSE
        tb = self.read(st, b)
        if ta.op == "const" and tb.op == "const" and isinstance(cval(tb), str):
            return const(cval(ta) in cval(tb))
        return mk("in", ta, tb)

    # ---------------------------------------------------------------- subscripts
    def e_Subscript(self, e, st, fid):
        base = self.ev(e.value, st, fid)
        idx = self.ev(e.slice, st, fid)
        return self.subscript(base, idx, st, e)

    def subscript(self, base, idx, st, node):
        base = self.norm_v(st, base)
        if isinstance(base, GV):
            return self.branch_v(base.c, st, lambda q: self.subscript(base.a, idx, q, node), lambda q: self.subscript(base.b, idx, q, node))
        it = self.read(st, idx)
        if isinstance(base, Tup):
            if is_num(it) and isinstance(cval(it), int) and -len(base.items) <= cval(it) < len(base.items):
                return base.items[cval(it)]
            if it.op == "slice" and all(is_const(a) for a in it.args):
                return Tup(base.items[slice(*[cval(a) for a in it.args])])
            return self.t_get(self.read(st, base), it)
        if isinstance(base, T):
            return self.t_get(base, it)
        if isinstance(base, (Ext, Cls)):
            return base  # generics
        if isinstance(base, Ref):
            c = self.cell(st, base)
            if isinstance(c, ListCell):
                if c.items is not None:
                    if is_num(it) and isinstance(cval(it), int):
                        if -len(c.items) <= cval(it) < len(c.items):
                            return c.items[cval(it)]
                    if it.op == "slice" and all(is_const(a) for a in it.args):
                        return self.alloc(st, ListCell(c.items[slice(*[cval(a) for a in it.args])], origins=("fresh",)))
                    if len(c.items) and all(isinstance(x, Ref) for x in c.items):
                        pass
                t = self.t_get(self.read(st, base), it)
                if it.op == "slice":
                    return self.alloc(st, ListCell(None, t, ("fresh",), c.elem or (c.items[0] if c.items else None)))
                el = c.elem if c.items is None else (c.items[0] if c.items else None)
                if el is not None and isinstance(el, Ref):
                    ec = self.cell(st, el)
                    org = self.origins(st, el)
                    if c.items is not None:
                        for x in c.items:
                            org |= self.origins(st, x)
                    if isinstance(ec, InstCell):
                        return self.alloc(st, InstCell(ec.cls, t, org, open_=True))
                    return self.alloc(st, ValCell(t, org))
                if el is not None and isinstance(el, T):
                    return t
                return self.alloc(st, ValCell(t, c.origins))
            if isinstance(c, DictCell):
                if c.items is not None:
                    k = cval(it) if it.op == "const" else it
                    if k in c.items:
                        v = self.norm_v(st, c.items[k])
                        return v
                    if it.op == "const" and not any(isinstance(x, T) for x in c.items):
                        self.event("keyerror", node, st, key=it)
                        return mk("opaque", "missing key")
                t = self.t_get(self.read(st, base), it)
                el = c.elem if c.items is None else next(iter(c.items.values()), None)
                if isinstance(el, Ref):
                    org = c.origins | self.origins(st, el)
                    return self.alloc(st, ValCell(t, org))
                return self.alloc(st, ValCell(t, c.origins))
            if isinstance(c, InstCell):
                if c.cls.find("__getitem__"):
                    return self.call_method(base, "__getitem__", [idx], {}, st, node)
                t = self.t_get(self.read(st, base), it)
                return self.alloc(st, ValCell(t, c.origins))
            t = self.t_get(self.read(st, base), it)
            if isinstance(c, ValCell) and c.elem_ann is not None and it.op != "slice":
                return self.abstract(t, c.elem_ann, c.mod, st, c.origins)
            if isinstance(c, ValCell) and c.term.op in ("tuple", "list") and t.op == "const":
                return t
            if self._copy_index(idx, it, st):
                return self.alloc(st, ValCell(t, ("fresh",)))
            return self.alloc(st, ViewCell(base, ("get", it)))
        return self.arr(st, self.t_get(self.read(st, base), it))

    def _copy_index(self, idx, it, st):
        """True if NumPy indexing with idx makes a copy (mask / fancy index)."""
        if self.is_bool_term(it):
            return True
        if it.op == "list":
            return True
        if isinstance(idx, Ref):
            c = self.cell(st, idx)
            if isinstance(c, ListCell):
                return True
            if isinstance(c, ValCell) and c.ty in IMMUTABLE_TYS:
                return False
            if isinstance(c, ValCell) and c.term.op == "app" and c.term.args[0] in ("np.array", "np.nonzero", "np.arange", "np.argsort", "np.flatnonzero", "np.where", "np.ix_"):
                return True
            if isinstance(c, ValCell) and (c.ty == "ndarray"):
                return True
        if isinstance(idx, Tup):
            return any(self._copy_index(x, self.read(st, x), st) for x in idx.items)
        if it.op in ("tuple",):
            return any(self.is_bool_term(a) for a in it.args)
        return False

    # ---------------------------------------------------------------- attributes
    def e_Attribute(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        return self.getattr(v, e.attr, st, e)

    def getattr(self, v, name, st, node):
        v = self.norm_v(st, v)
        if isinstance(v, GV):
            return self.branch_v(v.c, st, lambda q: self.getattr(v.a, name, q, node), lambda q: self.getattr(v.b, name, q, node))
        if isinstance(v, Mod):
            return self.resolve_dotted(f"{v.m.name}.{name}")
        if isinstance(v, Ext):
            if name == "newaxis" and np_name(f"{v.name}.{name}") == "np.newaxis":
                return NONE
            return Ext(f"{v.name}.{name}")
        if isinstance(v, Super):
            return self.super_attr(v, name, st, node)
        if isinstance(v, Cls):
            if name == "__name__":
                return const(v.c.name)
            r = v.c.find(name)
            if r is not None:
                decs = [ast.unparse(d) for d in r[1].decorator_list]
                if "classmethod" in decs:
                    return Func(r[1], r[0].mod, 0, r[0], v)
                return Func(r[1], r[0].mod, 0, r[0])
            a = self.class_value(v.c, name)
            if a is not None:
                return a
            return EMeth(mk("class", v.c.qual), name)
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, InstCell):
                return self.inst_attr(v, c, name, st, node)
            if isinstance(c, (ListCell, DictCell)):
                return EMeth(v, name)
            if name in VIEW_ATTRS:
                if isinstance(c, ValCell) and name in c.attrs:
                    return c.attrs[name]
                t = mk("attr", self.read(st, v), name)
                if isinstance(c, ValCell) and c.ty == "operator":
                    return self._lazy_attr(v, c, name, self.alloc(st, ValCell(t, c.origins, ty="operator")), st)
                return self.alloc(st, ViewCell(v, ("attr", name)))
            if isinstance(c, (ValCell, ViewCell)) and name in c.attrs:
                return c.attrs[name]
            return self.val_attr(v, c, name, st)
        if isinstance(v, T):
            if v.op == "const" and isinstance(cval(v), (str, bytes)):
                return EMeth(v, name)
            if v.op == "idx_" or v.op == "range":
                return EMeth(v, name)
            if name in NUMERIC_ATTRS or name in ("real", "imag"):
                return mk("attr", v, name)
            return EMeth(v, name)
        if isinstance(v, Func):
            if name == "__name__":
                return const(v.name)
            return EMeth(v, name)
        if isinstance(v, IterV):
            return EMeth(v, name)
        if isinstance(v, Tup):
            return EMeth(v, name)
        return EMeth(v, name)

    KNOWN_METHODS = (MUT_METHODS | METH2NP | PURE_ARRAY_VIEW_METHODS |
                     {"items", "keys", "values", "get", "lower", "upper", "split", "strip", "startswith", "endswith", "format", "join", "replace", "index",
                      "count", "submit", "map", "result", "shutdown", "tobytes", "toarray", "dot", "lower", "standard_normal", "choice", "random", "permutation"})

    def val_attr(self, v, c, name, st):
        t = self.read(st, v)
        if name in NUMERIC_ATTRS:
            return self.shape_attr(t, name)
        if name in self.KNOWN_METHODS:
            return EMeth(v, name)
        # unknown attribute: could be a data attribute or a method: keep both readings open
        return EMeth(v, name)

    ELEMENTWISE = {"np.abs", "np.exp", "np.log", "np.sqrt", "np.sign", "astype", "np.zeros_like", "np.ones_like", "np.empty_like", "max", "min", "np.conj",
                   "np.real", "np.imag", "np.sin", "np.cos", "np.fft.fftn", "np.fft.fft", "np.fft.ifft", "np.fft.fftshift"}

    SHAPE_SAME = {"np.flip", "np.roll", "np.sort", "np.cumsum", "np.fft.fftn", "np.fft.ifftn", "np.fft.fft", "np.fft.ifft", "np.fft.fftshift", "np.fft.ifftshift", "np.sqrt", "np.sin", "np.cos", "np.floor", "np.ceil",
                  "np.round", "np.real", "np.imag", "np.angle", "scipy.ndimage.gaussian_filter", "scipy.ndimage.convolve", "scipy.ndimage.shift"}

    def index_dims(self, x):
        """Shape of x[...] for positions, one list of positions, new axes and whole axes, else None."""
        n, ix = self.ndim_of(x.args[0]), x.args[1].args if x.args[1].op == "tuple" else (x.args[1],)
        if n is None or sum(1 for i in ix if not is_const(i, None)) > n or sum(1 for i in ix if i.op == "list") > 1:
            return None
        b = self.shape_attr(x.args[0], "shape")
        if b.op != "tuple" or len(b.args) != n:
            return None
        dims, k = [], 0
        for i in ix:
            if is_const(i, None):
                dims.append(const(1))
                continue
            if i.op == "list" and i.args and all(self.is_scalar_t(y) and not self.is_bool_term(y) for y in i.args):
                if any(self.is_scalar_t(j) and not is_const(j, None) for j in ix):
                    return None
                dims.append(const(len(i.args)))
            elif i.op == "slice" and all(is_const(a, None) for a in i.args):
                dims.append(b.args[k])
            elif not (self.is_scalar_t(i) and not self.is_bool_term(i)):
                return None
            k += 1
        return dims + list(b.args[k:])

    def shape_attr(self, t, name):
        # shape of elementwise results is the shape of the operand
        x = t
        for _ in range(20):
            if x.op == "app" and x.args[0] in ("np.zeros_like", "np.ones_like", "np.empty_like", "np.full_like", "np.abs", "astype", "np.exp", "np.log", "np.conj", "np.sign") and len(x.args) >= 2 and name != "dtype":
                x = x.args[1]
            elif x.op == "upd" or x.op == "fill":
                x = x.args[0]
            elif x.op == "mu" and x.uid in self.mushape and name != "dtype":
                x = self.mushape[x.uid]
            elif x.op == "app" and x.args[0] in ("np.zeros", "np.ones", "np.empty", "np.full") and name == "shape" and len(x.args) >= 2:
                s = x.args[1]
                return s if s.op in ("tuple", "list", "sym", "attr", "gate", "app") and not self.symty.get(s.uid) == "int" else mk("tuple", s)
            elif x.op == "mul" and is_num(x.args[0]):
                x = x.args[1]
            elif x.op in ("add", "mul") and name != "dtype" and len([y for y in x.args if not self.is_scalar_t(y)]) == 1:
                x = [y for y in x.args if not self.is_scalar_t(y)][0]
            elif x.op == "app" and x.args[0] in self.SHAPE_SAME and name != "dtype" and not any(isinstance(a, T) and a.op == "kw" and a.args[0] in ("n", "s") for a in x.args[1:]) and (not x.args[0].startswith("np.fft") or x.args[0].endswith("shift") or all(isinstance(a, T) and a.op == "kw" for a in x.args[2:])):
                x = x.args[1]
            elif x.op == "pow" and name != "dtype" and self.is_scalar_t(x.args[1]):
                x = x.args[0]
            elif x.op == "attr" and x.args[1] == "T" and name in ("ndim", "size", "dtype"):
                x = x.args[0]
            else:
                break
        if name == "shape" and x.op == "app" and x.args[0] == "np.linspace":
            k = [y.args[1] for y in x.args[1:] if isinstance(y, T) and y.op == "kw" and y.args[0] == "num"]
            if k and self.is_scalar_t(k[0]) and self.ndim_of(x) == 1:
                return mk("tuple", k[0])
        if name == "shape" and x.op == "app" and x.args[0] == "np.reshape" and len(x.args) == 3 and x.args[2].op in ("tuple", "list") and all(self.is_size_t(k) for k in x.args[2].args):
            return mk("tuple", *x.args[2].args)
        if name == "shape" and x.op == "app" and (x.args[0] == "np.arange" and len(x.args) == 2 or x.args[0] == "np.fft.fftfreq" and len(x.args) >= 2) and self.is_scalar_t(x.args[1]):
            return mk("tuple", x.args[1])
        if x.op == "vec" and name in ("shape", "ndim", "size"):
            dims, y, n = [], x, 1
            while y.op == "vec":
                dims.append(len(y.args))
                n *= len(y.args)
                y = y.args[0] if y.args else y
                if not dims[-1]:
                    break
            return {"shape": mk("tuple", *[const(d) for d in dims]), "ndim": const(len(dims)), "size": const(n)}[name]
        if name == "ndim" and x.op == "app" and x.args[0] in ("np.zeros", "np.ones", "np.empty") and x.args[1].op in ("tuple", "list"):
            return const(len(x.args[1].args))
        if name == "ndim":
            k = self.ndim_of(x)
            if k is not None:
                return const(k)
        r = mk("attr", x, name)
        if name == "shape" and x.op == "app" and x.args[0] == "np.transpose" and len(x.args) == 3:
            a = x.args[2].args[1] if x.args[2].op == "kw" else x.args[2]
            if isinstance(a, T) and a.op in ("vec", "tuple", "list") and all(is_num(k) and isinstance(cval(k), int) for k in a.args) and self.ndim_of(x.args[1]) == len(a.args):
                b = self.shape_attr(x.args[1], "shape")
                return mk("tuple", *[self.t_get(b, const(cval(k) % len(a.args))) for k in a.args])
        if name == "shape" and x.op == "get" and is_const(x.args[1], None) and self.ndim_of(x) is not None:
            b = self.shape_attr(x.args[0], "shape")
            if b.op == "tuple":
                return mk("tuple", const(1), *b.args)
        if name == "shape" and x.op == "app" and x.args[0] == "np.moveaxis":
            k = {a.args[0]: a.args[1] for a in x.args[2:] if isinstance(a, T) and a.op == "kw"}
            n = self.ndim_of(x.args[1])
            b = self.shape_attr(x.args[1], "shape")
            if set(k) == {"source", "destination"} and n and b.op == "tuple" and len(b.args) == n and all(is_num(v) and isinstance(cval(v), int) and -n <= cval(v) < n for v in k.values()):
                d = list(b.args)
                y = d.pop(cval(k["source"]) % n)
                d.insert(cval(k["destination"]) % n, y)
                return mk("tuple", *d)
        if name == "shape" and x.op == "get":
            dims = self.index_dims(x)
            if dims is not None:
                return mk("tuple", *dims)
        if name == "shape" and self.stack_rows(x) is not None and self.ndim_of(x) is not None:
            b = self.shape_attr(x.args[1].args[0], "shape")
            if b.op == "tuple":
                return mk("tuple", const(len(x.args[1].args)), *b.args)
        if name == "shape" and self.ndim_of(x) is not None:
            k = self.ndim_of(x)
            for i in range(k):
                self.symty[mk("get", r, const(i)).uid] = "int"
            return mk("tuple", *[mk("get", r, const(i)) for i in range(k)])
        if name == "size" and self.ndim_of(x) == 1:
            return self.t_get(self.shape_attr(x, "shape"), const(0))
        if name in ("ndim", "size") and (is_num(x) or x.op == "sym" and self.symty.get(x.uid) in ("int", "float", "bool") and x.uid not in self.symnone):
            return const(0 if name == "ndim" else 1)
        if name in ("ndim", "size"):
            self.symty[r.uid] = "int"
        return r

    def _lazy_attr(self, ref, c, name, v, st):
        n = c.clone()
        n.attrs = dict(c.attrs)
        n.attrs[name] = v
        st.heap[ref.id] = n
        if isinstance(v, Ref):
            self.lazy_ids.add(v.id)
        return v

    def class_value(self, cls, name):
        for k in cls.mro():
            if isinstance(k, ClassInfo) and name in k.class_assigns:
                key = (k.qual, name)
                if key not in self.classvals:
                    self.classvals[key] = None
                    st = State()
                    fid = self.new_id()
                    st.frames[fid] = {"%parent": 0, "%mod": k.mod}
                    self.stack.append((k.qual + ".<class>", None, k.mod, k))
                    try:
                        v = self.ev_classbody(k, k.class_assigns[name], st, fid)
                    except Abort:
                        v = mk("opaque", "classattr")
                    finally:
                        self.stack.pop()
                    for i, c in st.heap.items():
                        if hasattr(c, "origins"):
                            c = c.clone(origins=frozenset({f"classattr:{k.qual}.{name}"}))
                        self.base_heap[i] = c
                    self.classvals[key] = v
                return self.classvals[key] if self.classvals[key] is not None else mk("opaque", "classattr")
        return None

    def ev_classbody(self, k, expr, st, fid):
        # names defined earlier in the class body are visible
        for n in {x.id for x in ast.walk(expr) if isinstance(x, ast.Name)}:
            if n in k.class_assigns and k.class_assigns[n] is not expr:
                v = self.class_value(k, n)
                if v is not None:
                    st.frames[fid][n] = v
            elif n in k.methods:
                st.frames[fid][n] = Func(k.methods[n], k.mod, 0, k)
        return self.ev(expr, st, fid)

    def inst_attr(self, ref, c, name, st, node):
        if name in c.attrs:
            v = self.norm_v(st, c.attrs[name])
            if v is UNBOUND:
                self.event("noattr", node, st, cls=c.cls, name=name, definite=True)
                raise Abort()
            if isinstance(v, GV) and self._has_unbound(v):
                self.event("noattr", node, st, cls=c.cls, name=name, definite=False, cond=self._unb_cond(v))
                v = self._drop_unbound(v)
            return v
        if name == "__class__":
            return Cls(c.cls)
        if name in ("__getattribute__", "__getattr__", "__setattr__", "__delattr__", "__hash__", "__eq__", "__repr__", "__str__", "__doc__", "__module__"):
            if c.cls.find(name) is None:
                return EMeth(ref, name)
        if name == "__dict__" and not c.open and c.attrs and not any(v is UNBOUND for v in c.attrs.values()):
            return self.alloc(st, DictCell(dict(c.attrs), None, c.origins))
        if name == "__dict__":
            return self.alloc(st, DictCell(None, mk("attr", self.read(st, ref), "__dict__"), c.origins))
        r = c.cls.find(name)
        if r is not None:
            k, fn = r
            decs = [ast.unparse(d) for d in fn.decorator_list]
            if c.open and not c.exact and self._overridden(c.cls, name) :
                if "property" in decs:
                    t = mk("attr", self.read(st, ref), name)
                    return self._lazy_attr(ref, c, name, self.abstract(t, fn.returns, k.mod, st, {self._sub_origin(c, name)}), st)
                return AMeth(ref, c.cls, name)
            if "property" in decs or "cached_property" in [d.split(".")[-1] for d in decs]:
                if k.qual + "." + name in self.opaque or name in self.opaque:
                    t = mk("attr", self.read(st, ref), name)
                    return self._lazy_attr(ref, c, name, self.abstract(t, fn.returns, k.mod, st, {self._sub_origin(c, name)}), st)
                return self.call_func(Func(fn, k.mod, 0, k, ref), [], {}, st, node)
            if "staticmethod" in decs:
                return Func(fn, k.mod, 0, k)
            if "classmethod" in decs:
                return Func(fn, k.mod, 0, k, Cls(c.cls))
            return Func(fn, k.mod, 0, k, ref)
        ext = c.cls.ext_bases()
        isop = any("LinearOperator" in b for b in ext)
        if isop and name in ("T", "H"):
            return self.linop_T(ref, c, name, st, node)
        if isop and name in ("dot", "matvec", "rmatvec", "matmat", "rmatmat", "adjoint", "transpose"):
            if name in ("transpose", "adjoint"):
                return AMeth(ref, c.cls, name)
            return AMeth(ref, c.cls, name)
        if not c.open:
            v = self.class_value(c.cls, name)
            if v is not None:
                return v
            if ext and any(b not in ("abc.ABC", "object", "ABC") for b in ext):
                return EMeth(ref, name)
            self.event("noattr", node, st, cls=c.cls, name=name, definite=True)
            raise Abort()
        # open object: lazily materialise a symbolic attribute with the declared type
        t = mk("attr", self.read(st, ref), name)
        ann, m = self.attr_ann(c.cls, name)
        if not self.attr_known(c.cls, name):
            v = self.class_value(c.cls, name)
            if v is not None:
                return v
            if not isop and not (ext and any(b not in ("abc.ABC", "object") for b in ext)):
                self.event("noattr", node, st, cls=c.cls, name=name, definite=True, open=True)
        v = self.abstract(t, ann, m or c.cls.mod, st, {self._sub_origin(c, name)})
        return self._lazy_attr(ref, c, name, v, st)

    def _sub_origin(self, c, name):
        o = sorted(c.origins)
        return (o[0] if o else "obj") + "." + name

    def _overridden(self, cls, name):
        if cls.is_abstract_method(name):
            return True
        return any(name in s.methods for s in cls.all_subclasses())

    _attr_tab: dict = {}

    def attr_known(self, cls, name):
        tab = self._attrs_of(cls)
        return name in tab

    def _attrs_of(self, cls):
        key = id(cls)
        if key in self._attr_tab:
            return self._attr_tab[key][1]
        tab = {}
        for k in [c for c in cls.mro() if isinstance(c, ClassInfo)] + cls.all_subclasses():
            for n, a in k.annots.items():
                tab.setdefault(n, (a, k.mod))
            for f in list(k.methods.values()) + list(k.setters.values()):
                if not f.args.args:
                    continue
                me = f.args.args[0].arg
                pann = {a.arg: a.annotation for a in f.args.args + f.args.kwonlyargs}
                for s in ast.walk(f):
                    tgts = []
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            tgts += [(x, s.value if not isinstance(t, ast.Tuple) else None, None) for x in ([t] if not isinstance(t, ast.Tuple) else t.elts)]
                    elif isinstance(s, ast.AnnAssign):
                        tgts = [(s.target, s.value, s.annotation)]
                    elif isinstance(s, ast.AugAssign):
                        tgts = [(s.target, None, None)]
                    elif isinstance(s, ast.With):
                        tgts = [(i.optional_vars, None, None) for i in s.items if i.optional_vars is not None]
                    for t, val, ann in tgts:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                            if ann is None and isinstance(val, ast.Name) and val.id in pann:
                                ann = pann[val.id]
                            if ann is None and isinstance(val, ast.Call) and isinstance(val.func, (ast.Name, ast.Attribute)):
                                kk, cc = self.prog.resolve_name(k.mod, ast.unparse(val.func))
                                if kk == "class":
                                    ann = val.func
                            if t.attr not in tab or tab[t.attr][0] is None and ann is not None:
                                tab[t.attr] = (ann, k.mod)
        self._attr_tab[key] = (cls, tab)
        return tab

    def attr_ann(self, cls, name):
        return self._attrs_of(cls).get(name, (None, None))

    def super_attr(self, v, name, st, node):
        c = self.cell(st, v.selfV) if isinstance(v.selfV, Ref) else None
        dyn = c.cls if isinstance(c, InstCell) else v.cls
        mro = dyn.mro()
        i = mro.index(v.cls) if v.cls in mro else 0
        for k in mro[i + 1:]:
            if isinstance(k, ClassInfo) and name in k.methods:
                fn = k.methods[name]
                if "property" in [ast.unparse(d) for d in fn.decorator_list]:
                    return self.call_func(Func(fn, k.mod, 0, k, v.selfV), [], {}, st, node)
                return Func(fn, k.mod, 0, k, v.selfV)
            if isinstance(k, str):
                if "LinearOperator" in k:
                    return ExtSuper(v.selfV, "LinearOperator", name)
        return ExtSuper(v.selfV, "object", name)

    def linop_T(self, ref, c, name, st, node):
        """scipy LinearOperator: .T -> _transpose(), .H -> _adjoint()."""
        meth = "_transpose" if name == "T" else "_adjoint"
        r = c.cls.find(meth)
        opaque = c.open and not c.exact and self._overridden(c.cls, meth)
        if r is not None and not opaque and (r[0].qual + "." + meth) not in self.opaque and meth not in self.opaque:
            return self.call_func(Func(r[1], r[0].mod, 0, r[0], ref), [], {}, st, node)
        t = mk("attr", self.read(st, ref), name)
        v = self.alloc(st, InstCell(c.cls, t, c.origins, open_=True))
        return self._lazy_attr(ref, c, name, v, st) if c.open else v

    # ---------------------------------------------------------------- comprehensions
    def comp(self, e, st, fid, elt_fn):
        """Returns ('items', [V...]) or ('gen', idx, V, len)."""
        f2 = self.new_id()
        st.frames[f2] = {"%parent": fid, "%mod": st.frames[fid].get("%mod")}

        def rec(gi, q):
            if gi == len(e.generators):
                return "items", [elt_fn(q, f2)]
            g = e.generators[gi]
            itv = self.ev(g.iter, q, f2)
            items = self.iter_items(itv, q)
            if items is not None and len(items) <= 48:
                out = []
                for x in items:
                    self.assign(g.target, x, q, f2)
                    conds = [self.simp(q, self.truth(q, self.ev(i, q, f2))) for i in g.ifs]
                    cc = t_and(*conds) if conds else TRUE
                    if is_const(cc, False):
                        continue
                    if cc.op != "const":
                        k2 = None
                        q2 = q.copy()
                        q2.assume(cc, True)
                        k, r = rec(gi + 1, q2)
                        self._merge_back(st if q is st else q, q2)
                        if k == "gen":
                            return k, r
                        out.extend([("?", cc, y) for y in r])
                        continue
                    k, r = rec(gi + 1, q)
                    if k == "gen":
                        return k, r
                    out.extend(r)
                return "items", out
            depth = self.loop_depth
            self.loop_depth += 1
            try:
                el, idx, it = self.iter_elem(itv, q, depth)
                self.assign(g.target, el, q, f2)
                conds = [self.simp(q, self.truth(q, self.ev(i, q, f2))) for i in g.ifs]
                cc = t_and(*conds) if conds else TRUE
                k, r = rec(gi + 1, q)
                if k == "items":
                    r = r[0] if len(r) == 1 else Tup([x if not isinstance(x, tuple) else x[2] for x in r])
                    return "gen", (idx, r, self.t_len(it) if it.op not in ("zip_", "enum_") else idx.args[0], cc)
                return "gen", (idx, ("nested", r), self.t_len(it) if it.op not in ("zip_", "enum_") else idx.args[0], cc)
            finally:
                self.loop_depth -= 1
        k, r = rec(0, st)
        return k, r

    def _merge_back(self, st, q):
        for i, c in q.heap.items():
            if i not in st.heap:
                st.heap[i] = c

    def comp_term(self, st, r):
        idx, v, ln, cc = r
        if isinstance(v, tuple) and v and v[0] == "nested":
            vt = self.comp_term(st, v[1])
            return mk("listcomp2", idx, vt, ln)
        vt = self.read(st, v) if not isinstance(v, tuple) else mk("opaque", "compitem")
        if not is_const(cc, True):
            return mk("app", "filter", mk("listcomp", idx, vt, ln), cc)
        return mk("listcomp", idx, vt, ln)

    def e_ListComp(self, e, st, fid, pykind="list"):
        k, r = self.comp(e, st, fid, lambda q, f: self.ev(e.elt, q, f))
        if k == "items":
            if any(isinstance(x, tuple) for x in r):
                terms = [mk("cond", x[1], self.read(st, x[2])) if isinstance(x, tuple) else self.read(st, x) for x in r]
                el = next((x[2] if isinstance(x, tuple) else x for x in r), None)
                return self.alloc(st, ListCell(None, mk("list?", *terms), ("fresh",), el, pykind))
            return self.alloc(st, ListCell(tuple(r), origins=("fresh",), pykind=pykind))
        el = r[1]
        while isinstance(el, tuple) and el and el[0] == "nested":
            el = el[1][1]
        return self.alloc(st, ListCell(None, self.comp_term(st, r), ("fresh",), el if not isinstance(el, tuple) else None, pykind))

    def e_GeneratorExp(self, e, st, fid):
        return self.e_ListComp(e, st, fid, "gen")

    def e_SetComp(self, e, st, fid):
        return self.e_ListComp(e, st, fid, "set")

    def e_DictComp(self, e, st, fid):
        k, r = self.comp(e, st, fid, lambda q, f: Tup([self.ev(e.key, q, f), self.ev(e.value, q, f)]))
        if k == "items" and not any(isinstance(x, tuple) for x in r):
            d = {}
            for x in r:
                kt = self.read(st, x.items[0])
                d[cval(kt) if kt.op == "const" else kt] = x.items[1]
            return self.alloc(st, DictCell(d, origins=("fresh",)))
        if k == "items":
            return self.alloc(st, DictCell(None, mk("opaque", "dict?"), ("fresh",)))
        el = r[1].items[1] if isinstance(r[1], Tup) else None
        return self.alloc(st, DictCell(None, mk("app", "dictcomp", self.comp_term(st, r)), ("fresh",), el))

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st, fid):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fid
            while f:
                fr = st.frames[f]
                if "%self" in fr:
                    return Super(fr["%cls"], fr["%self"])
                f = fr.get("%parent", 0)
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
            return self.alloc(st, DictCell(None, mk("opaque", "locals"), ("fresh",)))
        f = self.ev(e.func, st, fid)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fid)
                its = self.iter_items(v, st)
                if its is None:
                    args.append(StarV(v))
                else:
                    args.extend(its)
            else:
                args.append(self.ev(a, st, fid))
        for k in e.keywords:
            v = self.ev(k.value, st, fid)
            if k.arg is None:
                c = self.cell(st, v) if isinstance(v, Ref) else None
                if isinstance(c, DictCell) and c.items is not None and all(isinstance(x, str) for x in c.items):
                    kw.update(c.items)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st, e)

    def call(self, f, args, kw, st, node):
        self.n_calls += 1
        f = self.norm_v(st, f)
        if isinstance(f, GV):
            return self.branch_v(f.c, st, lambda q: self.call(f.a, list(args), dict(kw), q, node), lambda q: self.call(f.b, list(args), dict(kw), q, node))
        if self.call_hook is not None:
            r = self.call_hook(self, f, args, kw, st, node)
            if r is not None:
                return r
        if isinstance(f, Func):
            return self.call_func(f, args, kw, st, node)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, list(f.args) + list(args), k2, st, node)
        if isinstance(f, Cls):
            return self.construct(f.c, args, kw, st, node)
        if isinstance(f, AMeth):
            return self.call_abstract(f, args, kw, st, node)
        if isinstance(f, ExtSuper):
            return self.call_ext_super(f, args, kw, st, node)
        if isinstance(f, Ext):
            from . import extern
            return extern.call_ext(self, f.name, args, kw, st, node)
        if isinstance(f, EMeth):
            from . import extern
            return extern.call_meth(self, f.recv, f.name, args, kw, st, node)
        if isinstance(f, Ref):
            c = self.cell(st, f)
            if isinstance(c, InstCell):
                r = c.cls.find("__call__")
                if r is not None:
                    return self.call(self.inst_attr(f, c, "__call__", st, node), args, kw, st, node)
                if any("LinearOperator" in b for b in c.cls.ext_bases()):
                    return self.call_abstract(AMeth(f, c.cls, "__call__"), args, kw, st, node)
            return self.call_unknown(f, args, kw, st, node)
        return self.call_unknown(f, args, kw, st, node)

    def argterms(self, args, kw, st):
        ts = [self.read(st, a) if not isinstance(a, StarV) else mk("star", self.read(st, a.v)) for a in args]
        ks = [mk("kw", k, self.read(st, v)) for k, v in sorted(kw.items())]
        return ts + ks

    def call_unknown(self, f, args, kw, st, node):
        """A callable value we know nothing about (callback parameter, abstract operator): pure, fresh result."""
        ft = self.read(st, f)
        t = mk("app", "call", ft, *self.argterms(args, kw, st))
        self.event("ucall", node, st, callee=ft, args=list(args), kw=dict(kw), term=t)
        return self.alloc(st, ValCell(t, ("fresh",)))

    def call_abstract(self, f, args, kw, st, node):
        """Method with several possible implementations: opaque, canonical by method name."""
        rt = self.read(st, f.ref)
        t = mk("app", "." + f.name, rt, *self.argterms(args, kw, st))
        self.event("acall", node, st, cls=f.cls, name=f.name, recv=rt, args=list(args), kw=dict(kw), term=t, ref=f.ref)
        r = f.cls.find(f.name)
        ann = r[1].returns if r is not None else None
        if f.name == "__call__":
            t = mk("app", "call", rt, *self.argterms(args, kw, st))
            return self.alloc(st, ValCell(t, ("fresh",)))
        if ann is not None and f.name not in ("__call__",):
            v = self.abstract(t, ann, r[0].mod, st, {"fresh"}, lenient=True)
            return v
        return self.alloc(st, ValCell(t, ("fresh",)))

    def call_ext_super(self, f, args, kw, st, node):
        if f.base == "LinearOperator" and f.name == "__init__":
            c = self.cell(st, f.selfV)
            vals = {"dtype": args[0] if len(args) > 0 else kw.get("dtype", NONE), "shape": args[1] if len(args) > 1 else kw.get("shape", NONE)}
            n = c.clone()
            n.attrs = dict(c.attrs)
            n.attrs.update(vals)
            st.heap[f.selfV.id] = n
            return NONE
        if f.name in ("__init__", "__init_subclass__", "__setattr__", "__exit__", "__enter__", "__post_init__"):
            return NONE
        t = mk("app", "super." + f.name, self.read(st, f.selfV), *self.argterms(args, kw, st))
        return self.alloc(st, ValCell(t, ("fresh",)))

    def bind(self, f: Func, args, kw, st, node):
        """Bind arguments to parameters; returns dict name->V."""
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        pos = list(args)
        if f.selfV is not None:
            pos = [f.selfV] + pos
        star = [x for x in pos if isinstance(x, StarV)]
        if star:
            i = next(k for k, x in enumerate(pos) if isinstance(x, StarV))
            rest = pos[i]
            npos = pos[:i]
            k = 0
            for p in params[len(npos):]:
                if p not in kw:
                    npos.append(self.subscript(rest.v, const(k), st, node))
                    k += 1
            pos = npos
        for p, v in zip(params, pos):
            out[p] = v
        if a.vararg is not None:
            extra = pos[len(params):]
            out[a.vararg.arg] = Tup(extra)
        extra_kw = {}
        allp = set(params) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in allp:
                out[k] = v
            elif k != "**":
                extra_kw[k] = v
        if a.kwarg is None and extra_kw:
            self.event("badcall", node, st, func=f.qual, why=f"has no parameter {', '.join(sorted(extra_kw))}")
        if a.vararg is None and len(pos) > len(params):
            self.event("badcall", node, st, func=f.qual, why=f"takes {len(params)} positional arguments, {len(pos)} given")
        if a.kwarg is not None:
            if "**" in kw and not extra_kw:
                out[a.kwarg.arg] = kw["**"]
            else:
                out[a.kwarg.arg] = self.alloc(st, DictCell(dict(extra_kw), origins=("fresh",)))
        nd = len(a.defaults)
        for i, d in enumerate(a.defaults):
            p = params[len(params) - nd + i]
            if p not in out:
                if "**" in kw:
                    out[p] = self.alloc(st, ValCell(mk("opaque", "kwargs"), self.origins(st, kw["**"])))
                else:
                    out[p] = self.default(f, p, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.default(f, x.arg, d)
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in out:
                if "**" not in kw and not star:
                    self.event("badcall", node, st, func=f.qual, why=f"is not given {p}")
                out[p] = self.alloc(st, ValCell(mk("opaque", "missing arg"), ("fresh",)))
        return out

    def default(self, f, p, d):
        key = (id(f.node), p)
        if key not in self.defaults:
            st = State()
            fid = self.new_id()
            st.frames[fid] = {"%parent": 0, "%mod": f.mod}
            self.stack.append((f.qual, f.node, f.mod, f.cls))
            try:
                if f.cls is not None:
                    v = self.ev_classbody(f.cls, d, st, fid)
                else:
                    v = self.ev(d, st, fid)
            except Abort:
                v = mk("opaque", "default")
            finally:
                self.stack.pop()
            for i, c in st.heap.items():
                if hasattr(c, "origins"):
                    c = c.clone(origins=frozenset({f"default:{f.qual}({p})"}))
                self.base_heap[i] = c
            self.defaults[key] = v
        return self.defaults[key]

    def call_func(self, f: Func, args, kw, st, node):
        q = f.qual
        if q in self.record or f.name in self.record:
            self.event("call", node, st, func=q, args=list(args), kw=dict(kw), selfV=f.selfV, terms=self.argterms(args, kw, st))
        rec = sum(1 for s in self.stack if s[1] is f.node)
        if rec and f.selfV is not None and isinstance(f.selfV, Ref):  # the same method of another object (an operator made of operators)
            rec = sum(1 for s in self.stack if s[1] is f.node and s[4:] == (f.selfV.id,)) if rec < 3 else rec
        if q in self.opaque or rec > 0 or len(self.stack) > self.max_depth:
            return self.opaque_call(f, args, kw, st, node)
        env = self.bind(f, args, kw, st, node)
        return self.run(f, env, st, node)

    def canon_args(self, f, args, kw):
        """The same call written with as many positional arguments as possible and without arguments equal to their default."""
        a = getattr(f.node, "args", None)
        if a is None or a.vararg is not None or "**" in kw or any(isinstance(x, StarV) for x in args):
            return args, kw
        ps = [p.arg for p in a.posonlyargs + a.args]
        if f.selfV is not None and ps:
            ps = ps[1:]
        dfl = dict(zip([p.arg for p in a.args][::-1], a.defaults[::-1]))
        dfl.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        if len(args) > len(ps):
            return args, kw
        full = dict(zip(ps, args))
        if any(k in full for k in kw):
            return args, kw
        full.update(kw)

        def is_default(p, v):
            d = dfl.get(p)
            if isinstance(v, Ext) and isinstance(d, (ast.Name, ast.Attribute)):
                dv = self.default(f, p, d)
                return isinstance(dv, Ext) and dv.name == v.name
            return isinstance(d, ast.Constant) and isinstance(v, T) and is_const(v) and type(cval(v)) is type(d.value) and cval(v) == d.value
        full = {p: v for p, v in full.items() if not is_default(p, v)}
        out = []
        for p in ps:
            if p not in full:
                break
            out.append(full.pop(p))
        return out, dict(sorted(full.items()))

    def opaque_call(self, f, args, kw, st, node):
        recv = [self.read(st, f.selfV)] if f.selfV is not None else []
        cargs, ckw = self.canon_args(f, args, kw)
        t = mk("app", f.qual, *recv, *self.argterms(cargs, ckw, st))
        self.event("opaque_call", node, st, func=f.qual, args=list(args), kw=dict(kw), f=f)
        ann = getattr(f.node, "returns", None)
        if ann is not None:
            return self.abstract(t, ann, f.mod, st, {"fresh"}, lenient=True)
        return self.alloc(st, ValCell(t, ("fresh",)))

    def run(self, f: Func, env, st, node):
        """Inline the body of f with bound environment env; effects on st; returns V."""
        fid = self.new_id()
        fr = {"%parent": f.frame or 0, "%mod": f.mod}
        fr.update(env)
        if f.cls is not None and f.node.args.args and "staticmethod" not in [ast.unparse(d) for d in getattr(f.node, "decorator_list", [])]:
            fr["%cls"] = f.cls
            fr["%self"] = env.get(f.node.args.args[0].arg)
        st.frames[fid] = fr
        self.stack.append((f.qual if not f.frame else (self.stack[-1][0] if self.stack else "") + "." + f.name, f.node, f.mod, f.cls, getattr(f.selfV, "id", None)))
        self.analysed.add(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st, fid)
                st.frames.pop(fid, None)
                return v
            fr["%locals"] = self.locals_of(f.node)
            pc0 = st.pc
            work = st.copy()
            outs = self.exec_block(f.node.body, work, fid)
            rets = []
            raises = []
            for k, v, q in outs:
                if k == "return":
                    rets.append((q.pc, v, q))
                elif k == "next":
                    rets.append((q.pc, NONE, q))
                elif k == "raise":
                    raises.append(self.pc_delta(q.pc, pc0))
            if not rets:
                raise Abort()
            common = None
            for _, _, q1 in rets:
                k = {(c.uid, b) for c, b in q1.pc}
                common = k if common is None else common & k
            keep = tuple(x for x in rets[0][2].pc if (x[0].uid, x[1]) in common)
            # conditions of every outcome (the others are errors) do not select among them
            v, q = self.merge_outcomes([(self.pc_delta(pc, keep), v, q) for pc, v, q in rets], keep)
            st.frames, st.heap = q.frames, q.heap
            st.set_pc(keep)
            for r in raises:
                st.assume(r, False)
            if not self._captured(v, fid, st):
                st.frames.pop(fid, None)
            return v
        finally:
            self.stack.pop()

    def _captured(self, v, fid, st):
        # keep the frame if any closure may still refer to it
        return any(isinstance(n, Func) and n.frame == fid for n in self._funcs_in(v, st))

    def _funcs_in(self, v, st, seen=None, d=0):
        if seen is None:
            seen = set()
        if d > 6:
            return
        if isinstance(v, Func):
            yield v
        elif isinstance(v, Tup):
            for x in v.items:
                yield from self._funcs_in(x, st, seen, d + 1)
        elif isinstance(v, GV):
            yield from self._funcs_in(v.a, st, seen, d + 1)
            yield from self._funcs_in(v.b, st, seen, d + 1)
        elif isinstance(v, Ref) and v.id not in seen:
            seen.add(v.id)
            c = st.heap.get(v.id) or self.base_heap.get(v.id)
            if c is None:
                return
            for x in getattr(c, "attrs", {}).values():
                yield from self._funcs_in(x, st, seen, d + 1)
            its = getattr(c, "items", None)
            if its:
                for x in (its.values() if isinstance(its, dict) else its):
                    yield from self._funcs_in(x, st, seen, d + 1)

    _loc: dict = {}

    def locals_of(self, node):
        if id(node) in self._loc:
            return self._loc[id(node)][1]
        names = set()

        def walk(n):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    names.add(ch.name)
                    continue
                if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    # comprehension targets are local to the comprehension (walrus aside)
                    for w in ast.walk(ch):
                        if isinstance(w, ast.NamedExpr):
                            names.add(w.target.id)
                    continue
                if isinstance(ch, ast.Name) and isinstance(ch.ctx, ast.Store):
                    names.add(ch.id)
                elif isinstance(ch, (ast.Import, ast.ImportFrom)):
                    for a in ch.names:
                        names.add(a.asname or a.name.split(".")[0])
                elif isinstance(ch, ast.ExceptHandler) and ch.name:
                    names.add(ch.name)
                walk(ch)
        walk(node)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            names.discard(x.arg)
        gl = {n for s in ast.walk(node) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
        names -= gl
        self._loc[id(node)] = (node, names)
        return names

    def call_method(self, ref, name, args, kw, st, node):
        f = self.getattr(ref, name, st, node)
        return self.call(f, args, kw, st, node)

    def construct(self, cls, args, kw, st, node):
        self.event("new", node, st, cls=cls, args=list(args), kw=dict(kw))
        if any(b in ("enum.Enum", "Exception", "ValueError") for b in cls.ext_bases()):
            return self.arr(st, mk("app", cls.qual, *self.argterms(args, kw, st)))
        if ("new:" + cls.qual) in self.opaque or cls.qual in self.opaque:
            t = mk("app", cls.qual, *self.argterms(args, kw, st))
            return self.alloc(st, InstCell(cls, t, ("fresh",), open_=True, exact=True))
        ref = self.alloc(st, InstCell(cls, None, ("fresh",), exact=True))
        r = cls.find("__init__")
        if r is not None:
            self.call_func(Func(r[1], r[0].mod, 0, r[0], ref), args, kw, st, node)
        elif cls.is_dataclass:
            self.dc_init(ref, cls, args, kw, st, node)
        return ref

    def dc_init(self, ref, cls, args, kw, st, node):
        names = [n for n, _, _ in cls.fields]
        vals = dict(zip(names, args))
        for k, v in kw.items():
            vals[k] = v
        for n, k, s in cls.fields:
            if n not in vals:
                if s.value is None:
                    if "**" in kw:
                        vals[n] = self.alloc(st, ValCell(mk("get", self.read(st, kw["**"]), const(n)), self.origins(st, kw["**"])))
                    else:
                        self.event("badcall", node, st, func=cls.qual, why=f"is not given {n}")
                        vals[n] = self.alloc(st, ValCell(mk("opaque", "missing field"), ("fresh",)))
                elif isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split(".")[-1] == "field":
                    fac = next((x.value for x in s.value.keywords if x.arg == "default_factory"), None)
                    dv = next((x.value for x in s.value.keywords if x.arg == "default"), None)
                    fid = self.new_id()
                    st.frames[fid] = {"%parent": 0, "%mod": k.mod}
                    if fac is not None:
                        vals[n] = self.call(self.ev(fac, st, fid), [], {}, st, node)
                    elif dv is not None:
                        vals[n] = self.ev(dv, st, fid)
                    else:
                        vals[n] = NONE
                    st.frames.pop(fid, None)
                else:
                    vals[n] = self.class_value(k, n)
        vals.pop("**", None)
        c = self.cell(st, ref)
        nc = c.clone()
        nc.attrs = dict(c.attrs)
        nc.attrs.update(vals)
        st.heap[ref.id] = nc
        if cls.find("__post_init__"):
            self.call_method(ref, "__post_init__", [], {}, st, node)

    # ---------------------------------------------------------------- abstract values from annotations
    def abstract(self, term: T, ann, mod, st, origins, lenient=False) -> V:
        """A symbolic value of the declared type."""
        tys, none, classes, elem = self.parse_ann(ann, mod)
        if none:
            self.symnone.add(term.uid)
        if len(classes) == 1 and not tys:
            return self.alloc(st, InstCell(classes[0], term, origins, open_=True, maybe_none=none))
        if classes and not tys:
            # several classes: common base if there is one
            base = None
            for c in classes:
                if all(d.is_sub(c) for d in classes):
                    base = c
            if base is not None:
                return self.alloc(st, InstCell(base, term, origins, open_=True, maybe_none=none))
        if tys and not classes and all(t in IMMUTABLE_TYS for t in tys):
            if len(tys) == 1:
                self.symty[term.uid] = tys[0]
            elif set(tys) <= {"int", "float", "complex"}:
                self.symty[term.uid] = "float"
            return term
        if ann is not None and tys == ["None"]:
            return NONE
        ty = tys[0] if len(tys) == 1 and not classes else None
        if tys and not classes and ty is None and set(tys) <= {"float", "int", "ndarray"}:
            ty = "num|array"
        if ty == "tuple" and elem is not None and isinstance(elem, list) and all(x is not ... for x in elem):
            if not none:
                return Tup([self.abstract(self.t_get(term, const(i)), x, mod, st, origins) for i, x in enumerate(elem)])
        e0 = None
        if elem is not None and not isinstance(elem, list):
            e0 = elem
        elif isinstance(elem, list) and elem and elem[-1] is ...:
            e0 = elem[0]
        return self.alloc(st, ValCell(term, origins, ty=ty, maybe_none=none or (ann is None and False), elem_ann=e0 if ty != "ndarray" else None, mod=mod))

    def parse_ann(self, ann, mod):
        """-> (python type names, may be None, package classes, element annotation(s))."""
        if ann is None:
            return [], False, [], None
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return ["None"], True, [], None
            if isinstance(ann.value, str):
                try:
                    return self.parse_ann(ast.parse(ann.value, mode="eval").body, mod)
                except SyntaxError:
                    return [], False, [], None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            a = self.parse_ann(ann.left, mod)
            b = self.parse_ann(ann.right, mod)
            return self._join_ann(a, b)
        if isinstance(ann, ast.Subscript):
            head = ast.unparse(ann.value).split(".")[-1]
            sl = ann.slice
            if head == "Optional":
                a = self.parse_ann(sl, mod)
                return a[0], True, a[2], a[3]
            if head == "Union":
                r = None
                for x in (sl.elts if isinstance(sl, ast.Tuple) else [sl]):
                    p = self.parse_ann(x, mod)
                    r = p if r is None else self._join_ann(r, p)
                return r
            if head in ("Sequence", "list", "List", "Iterable", "Collection"):
                return ["list"], False, [], sl
            if head in ("tuple", "Tuple"):
                els = sl.elts if isinstance(sl, ast.Tuple) else [sl]
                els = [... if isinstance(x, ast.Constant) and x.value is Ellipsis else x for x in els]
                return ["tuple"], False, [], els
            if head in ("dict", "Dict", "Mapping"):
                return ["dict"], False, [], None
            if head in ("NDArray",):
                return ["ndarray"], False, [], None
            if head in ("Callable",):
                return ["callable"], False, [], None
            if head == "Literal":
                els = sl.elts if isinstance(sl, ast.Tuple) else [sl]
                return ["str"], False, [], None
            if head in ("ClassVar", "Final", "type", "Type"):
                return [head], False, [], None
            return [], False, [], None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            s = ast.unparse(ann)
            last = s.split(".")[-1]
            if last in ("int", "float", "str", "bool", "complex", "list", "dict", "tuple", "bytes", "slice"):
                return [last], False, [], None
            if last == "None":
                return ["None"], True, [], None
            if last in ("NDArray", "ndarray", "ArrayLike", "NDArrayFloat", "NDArrayInt", "FloatDType"):
                return ["ndarray"], False, [], None
            if last in ("floating", "float32", "float64"):
                return ["float"], False, [], None
            if last in ("integer", "int32", "int64"):
                return ["int"], False, [], None
            if last in ("DTypeLike", "dtype"):
                return ["dtype"], False, [], None
            if last == "Any":
                return [], False, [], None
            if last == "Callable":
                return ["callable"], False, [], None
            if last in ("Executor", "ThreadPoolExecutor"):
                return ["executor"], False, [], None
            if mod is not None:
                k, c = self.prog.resolve_name(mod, s)
                if k == "class":
                    return [], False, [c], None
                if k == "glob":
                    m2, n2 = c
                    return self.parse_ann(m2.assigns[n2], m2)
            return [last], False, [], None
        return [], False, [], None

    def _join_ann(self, a, b):
        tys = [t for t in a[0] + [x for x in b[0] if x not in a[0]] if t != "None"]
        return tys, a[1] or b[1], a[2] + [c for c in b[2] if c not in a[2]], a[3] or b[3]

    def default_none(self, f_node, p):
        a = f_node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        for i, d in enumerate(a.defaults):
            if params[len(params) - nd + i] == p:
                return isinstance(d, ast.Constant) and d.value is None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == p:
                return isinstance(d, ast.Constant) and d.value is None
        return False

    def abstract_args(self, f: Func, st, preset=None, prefix="param:"):
        """Symbolic arguments for every parameter of f (except a bound self)."""
        preset = preset or {}
        out = {}
        a = f.node.args
        ps = a.posonlyargs + a.args + a.kwonlyargs
        for i, p in enumerate(ps):
            if i == 0 and f.selfV is not None and p in (a.posonlyargs + a.args):
                continue
            if p.arg in preset:
                out[p.arg] = preset[p.arg]
                continue
            t = sym(p.arg)
            if isinstance(p.annotation, ast.Subscript) and isinstance(p.annotation.value, ast.Name) and p.annotation.value.id == "Arr" and isinstance(p.annotation.slice, ast.Constant):
                self.symdim[t.uid] = p.annotation.slice.value
                out[p.arg] = self.alloc(st, ValCell(t, {prefix + p.arg}, ty="ndarray", mod=f.mod))
                continue
            v = self.abstract(t, p.annotation, f.mod, st, {prefix + p.arg})
            if p.annotation is None and isinstance(v, Ref) and self.default_none(f.node, p.arg):
                c = st.heap[v.id]
                st.heap[v.id] = c.clone(maybe_none=True)
                self.symnone.add(t.uid)
            elif self.default_none(f.node, p.arg):
                self.symnone.add(t.uid)
                if isinstance(v, Ref) and hasattr(st.heap[v.id], "maybe_none"):
                    st.heap[v.id] = st.heap[v.id].clone(maybe_none=True)
            out[p.arg] = v
        if a.vararg is not None:
            out[a.vararg.arg] = self.alloc(st, ValCell(sym("*" + a.vararg.arg), {prefix + a.vararg.arg}))
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.alloc(st, DictCell(None, sym("**" + a.kwarg.arg), {prefix + a.kwarg.arg}))
        return out

    def entry(self, mod, cls, node, st=None, selfV=None, preset=None):
        """Analyse one function with symbolic arguments.  Returns (V | None if it never returns, State)."""
        st = st or State()
        if cls is not None and selfV is None:
            decs = [ast.unparse(d) for d in node.decorator_list]
            if "staticmethod" in decs:
                pass
            elif "classmethod" in decs:
                selfV = Cls(cls)
            else:
                selfV = self.alloc(st, InstCell(cls, sym("self"), {"self"}, open_=True, exact=True))
        f = Func(node, mod, 0, cls, selfV)
        env = self.abstract_args(f, st, preset)
        if selfV is not None and node.args.args:
            env[node.args.args[0].arg] = selfV
        try:
            v = self.run(f, env, st, node)
        except Abort:
            v = None
        return v, st


class _Lazy:
    pass


class AMeth(V):
    """Abstract (CHA-ambiguous) bound method of a package object."""

    def __init__(self, ref, cls, name):
        self.ref, self.cls, self.name = ref, cls, name

    def __eq__(self, o):
        return isinstance(o, AMeth) and (o.ref, o.name) == (self.ref, self.name)

    def __hash__(self):
        return hash((self.ref, self.name))


class ExtSuper(V):
    def __init__(self, selfV, base, name):
        self.selfV, self.base, self.name = selfV, base, name


class StarV(V):
    def __init__(self, v):
        self.v = v


class IterV(V):
    """enumerate / zip / reversed / tqdm / dict views over other iterables."""

    def __init__(self, kind, parts, start=None):
        self.kind, self.parts, self.start = kind, parts, start

    def __eq__(self, o):
        return isinstance(o, IterV) and (o.kind, o.parts) == (self.kind, self.parts)

    def __hash__(self):
        return hash(self.kind)

    def items(self, it, st):
        if self.kind == "enumerate":
            xs = it.iter_items(self.parts[0], st)
            s = self.start if self.start is not None else const(0)
            return None if xs is None else [Tup([add(s, const(i)), x]) for i, x in enumerate(xs)]
        if self.kind == "zip":
            xs = [it.iter_items(p, st) for p in self.parts]
            if any(x is None for x in xs):
                if all(x is None for x in xs):
                    return None
                n = min(len(x) for x in xs if x is not None)
                xs = [x if x is not None else [it.subscript(p, const(i), st, None) for i in range(n)] for x, p in zip(xs, self.parts)]
            return [Tup(z) for z in zip(*xs)]
        if self.kind == "reversed":
            xs = it.iter_items(self.parts[0], st)
            return None if xs is None else list(reversed(xs))
        if self.kind in ("items", "keys", "values"):
            c = it.cell(st, self.parts[0]) if isinstance(self.parts[0], Ref) else None
            if isinstance(c, DictCell) and c.items is not None and not any(it._has_unbound(x) if isinstance(x, V) else False for x in c.items.values()):
                ks = [k if isinstance(k, T) else const(k) for k in c.items]
                vs = list(c.items.values())
                return {"items": [Tup([k, v]) for k, v in zip(ks, vs)], "keys": ks, "values": vs}[self.kind]
            return None
        return None

    def elem(self, it, st, depth):
        if self.kind == "enumerate":
            el, idx, t = it.iter_elem(self.parts[0], st, depth)
            s = self.start if self.start is not None else const(0)
            return Tup([add(s, idx), el]), idx, t
        if self.kind == "zip":
            els, idx, t0 = [], None, None
            for p in self.parts:
                xs = it.iter_items(p, st)
                if xs is not None:
                    t = it.read(st, p)
                    i2 = idx
                    e = None
                    els.append(("fix", t))
                    continue
                el, i2, t = it.iter_elem(p, st, depth)
                if idx is None:
                    idx, t0 = i2, t
                elif i2 is not idx:
                    # same position in every part: re-express with the first index
                    el = it.reindex(el, i2, idx, st)
                els.append(el)
            els = [it.t_get(e[1], idx) if isinstance(e, tuple) else e for e in els]
            return Tup(els), idx, t0
        if self.kind == "reversed":
            el, idx, t = it.iter_elem(self.parts[0], st, depth)
            rt = mk("app", "reversed", it.read(st, self.parts[0]))
            idx = mk("idx_", it.len_rep(st, it.t_len(t)), depth)
            if isinstance(el, T):
                return it.t_get(rt, idx), idx, rt
            o = it.origins(st, el)
            return it.alloc(st, ValCell(it.t_get(rt, idx), o)), idx, rt
        base = self.parts[0]
        bt = it.read(st, base)
        idx = mk("idx_", it.len_rep(st, it.t_len(bt)), depth)
        k = it.t_get(mk("app", "keys", bt), idx)
        o = it.origins(st, base)
        v = it.alloc(st, ValCell(it.t_get(bt, k), o or ("fresh",)))
        if self.kind == "items":
            return Tup([k, v]), idx, bt
        return (k if self.kind == "keys" else v), idx, bt


def _reindex(self, el, old, new, st):
    from .terms import subst
    f = lambda x: new if x is old else None
    if isinstance(el, T):
        return subst(el, f)
    if isinstance(el, Tup):
        return Tup([self.reindex(x, old, new, st) for x in el.items])
    if isinstance(el, Ref):
        c = self.cell(st, el)
        if isinstance(c, ViewCell) and c.fn[0] == "get":
            return self.alloc(st, ViewCell(c.base, ("get", subst(c.fn[1], f))))
        if isinstance(c, (ValCell, InstCell)) and c.term is not None:
            n = c.clone(term=subst(c.term, f))
            return self.alloc(st, n)
    return el


Interp.reindex = _reindex


def _list_extend(self, ref, rhs, st, node):
    c = self.cell(st, ref)
    its = self.iter_items(rhs, st)
    self.event("mut", node, st, origins=c.origins, how="list extend", ref=ref.id)
    if c.items is not None and its is not None:
        st.heap[ref.id] = c.clone(items=c.items + tuple(its))
    else:
        el = c.elem or (c.items[0] if c.items else None) or (its[0] if its else None)
        if el is None and isinstance(rhs, Ref):
            rc = self.cell(st, rhs)
            el = getattr(rc, "elem", None)
        st.heap[ref.id] = c.clone(items=None, term=mk("app", "extend", self.read(st, ref), self.read(st, rhs)), elem=el)


Interp.list_extend = _list_extend
