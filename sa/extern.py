"""Semantic models of the standard library / NumPy / SciPy calls the package makes: value, aliasing and effects."""
from __future__ import annotations
import ast
from .terms import (T, mk, const, app, add, sub, mul, div, neg, power, gate, t_not, t_and, t_or, NONE, TRUE, FALSE, is_const, is_num, cval, skey, subterms, ONE, ZERO)
from . import interp as I
from .model import ClassInfo
from fractions import Fraction

HALF = const(Fraction(1, 2))

# function name -> canonical name (same value semantics)
CANON = {
    "np.absolute": "np.abs", "np.fabs": "np.abs", "builtins.abs": "np.abs", "np.conjugate": "np.conj", "np.power": "pow",
    "np.add": "add", "np.subtract": "sub", "np.multiply": "mul", "np.divide": "div", "np.true_divide": "div", "np.negative": "neg",
    "np.fmax": "max", "np.maximum": "max", "np.fmin": "min", "np.minimum": "min", "np.amax": "np.max", "np.amin": "np.min",
    "np.round_": "np.round", "np.around": "np.round", "builtins.round": "np.round", "np.arcsin": "np.arcsin", "np.rad2deg": "np.degrees",
    "np.deg2rad": "np.radians", "math.sqrt": "np.sqrt", "math.exp": "np.exp", "math.log": "np.log", "math.sin": "np.sin", "math.cos": "np.cos",
    "np.floor_divide": "floordiv", "np.remainder": "mod", "np.mod": "mod", "np.logical_not": "np.logical_not", "np.bitwise_and": "bitand",
    "scipy.fft.fft": "np.fft.fft", "np.asarray_chkfinite": "np.asarray", "math.ceil": "np.ceil", "math.floor": "np.floor", "np.array_split": "np.array_split",
    "np.less": "lt", "np.greater": "gt", "np.less_equal": "le", "np.greater_equal": "ge", "np.equal": "eq", "np.not_equal": "ne",
    "np.logical_and": "and", "np.logical_or": "or", "np.float_power": "pow", "np.cumulative_sum": "np.cumsum", "math.prod": "np.prod", "np.product": "np.prod",
}
REDUCE = {"np.sum", "np.mean", "np.std", "np.var", "np.prod", "np.max", "np.min", "np.any", "np.all", "np.argmax", "np.argmin", "np.cumsum",
          "np.nanmax", "np.nanmin", "np.linalg.norm", "np.median"}
SHAPE_SRC = ()
IDENT_CAST = {"np.float32", "np.float64", "np.floating", "np.double", "np.single", "np.complex64", "np.complex128"}
PARAM_NAMES = {
    # positional parameter names used to canonicalise calls (after the array operand)
    "np.sum": ("axis", "dtype", "out", "keepdims"), "np.mean": ("axis", "dtype", "out", "keepdims"), "np.prod": ("axis", "dtype", "out", "keepdims"),
    "np.max": ("axis", "out", "keepdims"), "np.min": ("axis", "out", "keepdims"), "np.std": ("axis", "dtype", "out", "ddof", "keepdims"),
    "np.var": ("axis", "dtype", "out", "ddof", "keepdims"), "np.any": ("axis", "out", "keepdims"), "np.all": ("axis", "out", "keepdims"),
    "np.argmax": ("axis", "out"), "np.argmin": ("axis", "out"), "np.cumsum": ("axis", "dtype", "out"), "np.linalg.norm": ("ord", "axis", "keepdims"),
    "np.roll": ("shift", "axis"), "np.flip": ("axis",), "np.concatenate": ("axis", "out"), "np.stack": ("axis", "out"), "np.pad": ("pad_width", "mode"),
    "np.fft.fft": ("n", "axis", "norm"), "np.fft.ifft": ("n", "axis", "norm"), "np.fft.rfft": ("n", "axis", "norm"), "np.fft.irfft": ("n", "axis", "norm"),
    "np.fft.fftn": ("s", "axes", "norm"), "np.fft.ifftn": ("s", "axes", "norm"), "np.fft.rfftn": ("s", "axes", "norm"), "np.fft.irfftn": ("s", "axes", "norm"),
    "np.fft.fft2": ("s", "axes", "norm"), "np.fft.ifft2": ("s", "axes", "norm"), "np.fft.rfft2": ("s", "axes", "norm"), "np.fft.irfft2": ("s", "axes", "norm"),
    "np.fft.fftshift": ("axes",), "np.fft.ifftshift": ("axes",), "np.fft.fftfreq": ("d",), "np.fft.rfftfreq": ("d",), "np.moveaxis": ("source", "destination"),
    "np.swapaxes": ("axis1", "axis2"), "np.transpose": ("axes",), "np.squeeze": ("axis",), "np.expand_dims": ("axis",), "np.diff": ("n", "axis"),
    "np.round": ("decimals",), "np.repeat": ("repeats", "axis"), "np.argsort": ("axis",), "np.sort": ("axis",), "np.trapezoid": ("x", "dx", "axis"),
    "np.linspace": ("stop", "num", "endpoint"),
}
DROP_DEFAULT = {("axis", "np.sum"): NONE, ("axis", "np.mean"): NONE, ("axis", "np.prod"): NONE, ("axis", "np.max"): NONE, ("axis", "np.min"): NONE,
                ("keepdims", None): FALSE, ("dtype", None): None, ("out", None): None}


def canon(name):
    n = I.np_name(name)
    return CANON.get(n, CANON.get(name, n))


def _is_arr(v):
    return isinstance(v, (I.Ref, I.GV))


def call_ext(it, name, args, kw, st, node):
    n = canon(name)
    it_read = lambda v: it.read(st, v)
    if n in it.record or name in it.record:
        it.event("call", node, st, func=n, args=list(args), kw=dict(kw), selfV=None, terms=it.argterms(args, kw, st))
    if n.startswith("builtins."):
        r = call_builtin(it, n[9:], args, kw, st, node)
        if r is not None:
            return r
    h = HANDLERS.get(n)
    if h is not None:
        try:
            r = h(it, n, args, kw, st, node)
        except (IndexError, KeyError):  # called in a way the model does not know
            r = None
        if r is not None:
            return r
    # generic: elementwise / reductions / constructors
    return generic(it, n, args, kw, st, node)


def finish(it, st, t, args, kw, node, ty=None, always_arr=False):
    """Result value, honouring out=."""
    out = kw.get("out")
    if out is not None and not is_const(out, None):
        if isinstance(out, I.Tup) and len(out.items) == 1:
            out = out.items[0]
        it.mutate(st, out, lambda o: t, node, "out= argument")
        return out
    if ty in I.IMMUTABLE_TYS or t.op == "const":
        if ty:
            it.symty.setdefault(t.uid, ty)
        return t
    if always_arr or any(_is_arr(a) for a in list(args) + [v for k, v in kw.items() if k not in ("axis", "dtype")]):
        return it.alloc(st, I.ValCell(t, ("fresh",)))
    return t


def kwterms(it, st, kw, drop=("out", "dtype")):
    res = {}
    for k, v in kw.items():
        if k in drop:
            continue
        res[k] = it.read(st, v)
    return res


FROM_END = {"np.sum", "np.mean", "np.std", "np.var", "np.prod", "np.max", "np.min", "np.any", "np.all", "np.argmax", "np.argmin", "np.cumsum", "np.nanmax", "np.nanmin", "np.linalg.norm", "np.median",
            "np.flip", "np.roll", "np.diff", "np.sort", "np.argsort", "np.percentile", "np.fft.fft", "np.fft.ifft", "np.fft.rfft", "np.fft.irfft", "np.squeeze", "np.take", "np.trapz"}


def from_end(it, x, ax):
    """Axes counted from the last one, when the number of axes is known."""
    n = it.ndim_of(x)
    if n is None:
        return ax
    if ax.op in ("tuple", "list", "vec"):
        if len(ax.args) == 1 and n == 1:
            return from_end(it, x, ax.args[0])
        return mk(ax.op, *[from_end(it, x, a) for a in ax.args])
    if is_num(ax) and isinstance(cval(ax), int) and not isinstance(cval(ax), bool) and 0 <= cval(ax) < n:
        return const(cval(ax) - n)
    return ax


def generic(it, n, args, kw, st, node):
    kw = dict(kw)
    args = list(args)
    pn = PARAM_NAMES.get(n)
    if pn and len(args) > 1 and not any(isinstance(a, I.StarV) for a in args):
        for p, v in zip(pn, args[1:]):
            kw.setdefault(p, v)
        args = args[:1]
    if n in I.NP_MUT0 and args:
        it.mutate(st, args[0], lambda o: mk("app", n, o, *it.argterms(args[1:], kw, st)), node, n)
        return NONE
    if n.endswith(".at") and n.startswith("np.") and args:
        it.mutate(st, args[0], lambda o: mk("app", n, o, *it.argterms(args[1:], kw, st)), node, n)
        return NONE
    if kw.get("axis") is not None and n in REDUCE and is_const(kw["axis"] if isinstance(kw["axis"], T) else NONE, None) and isinstance(kw["axis"], T):
        kw.pop("axis")
    if n in FOLD_VEC and len(args) == 1 and (not kw or n != "np.nonzero" and set(kw) == {"axis"} and isinstance(kw["axis"], T) and is_num(kw["axis"])):
        t0 = it.read(st, args[0])
        if n in ("np.any", "np.all") and not kw and it.scalar_bool(t0):
            return t0
        if n in ("np.any", "np.all") and t0.op == "vec" and t0.args and not kw and all(it.scalar_bool(x) or is_const(x, True) or is_const(x, False) for x in t0.args):
            return (t_or if n == "np.any" else t_and)(*t0.args)
        r = t0 if n in ("np.any", "np.all") and (is_const(t0, True) or is_const(t0, False)) else fold_vec(n, t0)
        if r is not None:
            return r
    if "keepdims" in kw and isinstance(kw["keepdims"], T) and is_const(kw["keepdims"], False):
        kw.pop("keepdims")
    if n == "np.moveaxis" and len(args) + len(kw) == 3 and args:
        q = [it.read(st, x) for x in list(args[1:]) + [kw[k] for k in sorted(kw) if k in ("source", "destination")]]
        if len(q) == 2 and q[0] is q[1]:
            return args[0]  # to where it is
    kt = kwterms(it, st, kw)
    if n.startswith("np."):
        for k in ("axes", "s", "pad_width", "axis"):  # sequences of numbers, in any container
            if k in kt and isinstance(kt[k], T) and kt[k].op in ("vec", "list") and not any(x.op in ("vec", "list", "tuple") for x in kt[k].args):
                kt[k] = mk("tuple", *kt[k].args)
    at = [it.read(st, a) if not isinstance(a, I.StarV) else mk("star", it.read(st, a.v)) for a in args]
    if n in FROM_END and "axis" in kt and at and at[0].op != "star":
        kt["axis"] = from_end(it, at[0], kt["axis"])
        if n != "np.roll" and kt["axis"].op in ("tuple", "list", "vec") and len(kt["axis"].args) == 1:
            kt["axis"] = kt["axis"].args[0]
    if n in ("np.fliplr", "np.flipud") and len(at) == 1 and it.ndim_of(at[0]):
        k = it.ndim_of(at[0])
        n, kt = "np.flip", {"axis": const((0 if n == "np.flipud" else 1) - k)}
    if n == "np.flip" and len(at) == 1 and at[0].op not in ("tuple", "list", "vec") and it.ndim_of(at[0]):
        k = it.ndim_of(at[0])
        if "axis" not in kt:
            kt["axis"] = const(-1) if k == 1 else mk("tuple", *[const(j) for j in range(-k, 0)])
        elif kt["axis"].op == "tuple" and all(is_num(j) for j in kt["axis"].args):
            kt["axis"] = mk("tuple", *sorted(kt["axis"].args, key=cval))
    if "**" in kt:
        kt["__kw"] = kt.pop("**")
    if n.startswith("np.random.") or ".random" in n and "random_like" not in n:
        ev = it.event("random", node, st, func=n, args=list(args))
        t = mk("app", "rng", n, *at, *[mk("kw", k, v) for k, v in sorted(kt.items())])
        return finish(it, st, t, args, kw, node, always_arr=True)
    if n in I.NP_VIEW_FN and args and _is_arr(args[0]):
        if n == "np.reshape":
            if len(at) == 1:
                at += [kt.pop(k) for k in ("shape", "newshape") if k in kt][:1]
            at[1:2] = [shape_t(t) for t in at[1:2]]
        extra = tuple(at[1:]) + tuple(mk("kw", k, v) for k, v in sorted(kt.items()))
        if n in ("np.real", "np.imag"):
            if len(at) == 1 and not kt and at[0].op not in ("vec", "tuple", "list", "const"):
                return it.getattr(args[0], n[3:], st, node)
            return it.alloc(st, I.ViewCell(args[0], ("app", n, extra)))
        return view_of(it, st, args[0], n, extra)
    if n == "np.flip" and len(at) == 1 and not kt and at[0].op in ("tuple", "list"):
        w = it.vec_of(at[0]) if at[0].args else mk("vec")
        if w is not None and not any(x.op == "vec" for x in w.args):
            return it.alloc(st, I.ValCell(mk("vec", *reversed(w.args)), ("fresh",), ty="ndarray"))
    it.event("ext", node, st, func=n, args=list(args), kw=dict(kw))
    t = mk("app", n, *at, *[mk("kw", k, v) for k, v in sorted(kt.items())])
    if n in SCALAR_RESULT:
        it.symty[t.uid] = SCALAR_RESULT[n]
        return t
    if "out" in kw and not is_const(kw["out"] if isinstance(kw["out"], T) else ZERO, None):
        return finish(it, st, t, args, kw, node)
    if n.startswith("matplotlib") or n.startswith("tqdm") or n.startswith("concurrent"):
        return it.alloc(st, I.ValCell(t, ("fresh",), ty="executor" if "Executor" in n else None))
    return finish(it, st, t, args, kw, node, always_arr=True)


SCALAR_RESULT = {"xraylib.SymbolToAtomicNumber": "int", "xraylib.AtomicNumberToSymbol": "str"}
FOLD_VEC = {"np.any", "np.all", "np.sum", "np.prod", "np.max", "np.min", "np.nonzero"}


def fold_vec(n, v):
    """Reductions of a small array of known numbers."""
    if v.op not in ("vec", "list", "tuple") or not v.args or not all((is_num(x) or x.op == "const" and isinstance(cval(x), bool)) and not isinstance(cval(x), complex) for x in v.args):
        return None
    xs = [cval(x) for x in v.args]
    if n in ("np.sum", "np.prod"):
        xs = [int(x) if isinstance(x, bool) else x for x in xs]
    if n == "np.nonzero":
        return mk("tuple", mk("vec", *[const(k) for k, x in enumerate(xs) if x]))
    if n in ("np.any", "np.all"):
        return const(any(xs) if n == "np.any" else all(xs))
    if not all(isinstance(x, int) for x in xs):
        return None
    r = 1
    for x in xs:
        r *= x
    return const({"np.sum": sum(xs), "np.max": max(xs), "np.min": min(xs), "np.prod": r}[n])


def view_of(it, st, base, n, extra):
    if isinstance(base, I.Ref):
        return it.alloc(st, I.ViewCell(base, ("app", n, extra)))
    return it.alloc(st, I.ViewCell(base, ("app", n, extra)))


# ------------------------------------------------------------------ builtins
def call_builtin(it, n, args, kw, st, node):
    rd = lambda v: it.read(st, v)
    if n in ("bin", "hex", "oct") and len(args) == 1 and is_num(rd(args[0])) and isinstance(cval(rd(args[0])), int):
        return const({"bin": bin, "hex": hex, "oct": oct}[n](cval(rd(args[0]))))
    if n == "len":
        v = it.norm_v(st, args[0])
        items = it.iter_items(v, st)
        if items is not None:
            return const(len(items))
        if isinstance(v, I.Ref):
            c = it.cell(st, v)
            if isinstance(c, I.InstCell) and c.cls.find("__len__"):
                return it.call_method(v, "__len__", [], {}, st, node)
        t = it.t_len(rd(v))
        it.symty.setdefault(t.uid, "int")
        return t
    if n == "range":
        ts = [rd(a) for a in args]
        if len(ts) >= 2 and is_const(ts[0], 0) and (len(ts) == 2 or is_const(ts[2], 1)):
            ts = [ts[1]]
        elif len(ts) == 3 and is_const(ts[2], 1):
            ts = ts[:2]
        return mk("range", *ts)
    if n in ("enumerate",):
        s = rd(args[1]) if len(args) > 1 else (rd(kw["start"]) if "start" in kw else None)
        return I.IterV("enumerate", (args[0],), s)
    if n == "zip":
        return I.IterV("zip", tuple(args))
    if n == "reversed":
        return I.IterV("reversed", (args[0],))
    if n in ("list", "tuple", "set", "sorted", "frozenset"):
        if not args:
            return I.Tup(()) if n == "tuple" else it.alloc(st, I.ListCell((), origins=("fresh",), pykind=n))
        v = it.norm_v(st, args[0])
        if isinstance(v, (I.Ref, T)) and rd(v).op == "app" and rd(v).args[0] == "json.loads":
            v = I.IterV("keys", (v,))
        items = it.iter_items(v, st)
        if items is not None and n in ("list", "tuple"):
            return I.Tup(items) if n == "tuple" else it.alloc(st, I.ListCell(tuple(items), origins=("fresh",)))
        if isinstance(v, I.IterV):
            depth = it.loop_depth
            el, idx, t = it.iter_elem(v, st, depth)
            lt = mk("listcomp", idx, rd(el), idx.args[0] if idx.op == "idx_" else it.t_len(t))
            if n == "sorted":
                lt = mk("app", "sorted", lt, *[mk("kw", k, rd(x)) for k, x in sorted(kw.items())])
            if n == "tuple":
                return lt
            return it.alloc(st, I.ListCell(None, lt, ("fresh",), el, pykind=n))
        t = rd(v)
        if n == "sorted":
            t = mk("app", "sorted", t, *[mk("kw", k, rd(x)) for k, x in sorted(kw.items())])
        elif n in ("set", "frozenset"):
            t = mk("app", "set", t)
        el = None
        if isinstance(v, I.Ref):
            c = it.cell(st, v)
            el = getattr(c, "elem", None)
            if isinstance(c, I.ValCell) and c.elem_ann is not None:
                el = it.abstract(it.t_get(t, mk("any")), c.elem_ann, c.mod, st, c.origins)
                if n == "tuple":
                    return it.alloc(st, I.ValCell(t, c.origins, ty="tuple", elem_ann=c.elem_ann, mod=c.mod))
        if n == "tuple":
            if isinstance(v, I.Ref):
                return it.alloc(st, I.ValCell(t, ("fresh",), ty="tuple"))
            return t
        return it.alloc(st, I.ListCell(None, t, ("fresh",), el, pykind=n))
    if n == "vars" and len(args) == 1:
        return it.getattr(args[0], "__dict__", st, node)
    if n == "dict":
        if not args:
            return it.alloc(st, I.DictCell(dict(kw), origins=("fresh",)))
        v = it.norm_v(st, args[0])
        c = it.cell(st, v) if isinstance(v, I.Ref) else None
        if isinstance(c, I.DictCell) and c.items is not None:
            return it.alloc(st, I.DictCell({**c.items, **kw}, origins=("fresh",)))
        items = it.iter_items(v, st)
        if items is not None and all(isinstance(x, I.Tup) and len(x.items) == 2 for x in items):
            d = {}
            for x in items:
                k = rd(x.items[0])
                d[cval(k) if k.op == "const" else k] = x.items[1]
            d.update(kw)
            return it.alloc(st, I.DictCell(d, origins=("fresh",)))
        return it.alloc(st, I.DictCell(None, mk("app", "dict", rd(v), *[mk("kw", k, rd(x)) for k, x in sorted(kw.items())]), ("fresh",), getattr(c, "elem", None)))
    if n == "isinstance":
        return isinst(it, args[0], args[1], st)
    if n == "issubclass":
        return mk("isinst", rd(args[0]), rd(args[1]))
    if n == "callable":
        v = it.norm_v(st, args[0])
        if isinstance(v, (I.Func, I.Cls, I.Ext, I.Partial, I.EMeth, I.AMeth)):
            return TRUE
        if isinstance(v, I.Ref):
            c = it.cell(st, v)
            if isinstance(c, I.InstCell) and (c.cls.find("__call__") or any("LinearOperator" in b for b in c.cls.ext_bases())):
                return TRUE
            if isinstance(c, (I.ListCell, I.DictCell)) or isinstance(c, I.ValCell) and c.ty in ("ndarray", "list", "tuple", "dict"):
                return FALSE
            if isinstance(c, I.ValCell) and c.ty == "callable" and not c.maybe_none:
                return TRUE
        if isinstance(v, T) and (v.op == "const" or it.symty.get(v.uid) in I.IMMUTABLE_TYS):
            return FALSE
        t = mk("app", "callable", rd(v))
        it.symty[t.uid] = "bool"
        return t
    if n == "hasattr":
        a = rd(args[1])
        v = it.norm_v(st, args[0])
        if isinstance(v, I.Ref) and is_const(a):
            c = it.cell(st, v)
            if isinstance(c, I.InstCell) and not c.maybe_none:
                nm = cval(a)
                if nm in c.attrs and not (isinstance(c.attrs[nm], I.V) and it._has_unbound(c.attrs[nm])) or c.cls.find(nm):
                    return TRUE
                if not c.open and nm not in c.attrs and it.class_value(c.cls, nm) is None and not [b for b in c.cls.ext_bases() if b != "abc.ABC"]:
                    return FALSE
            if isinstance(c, (I.ListCell, I.DictCell)) and cval(a) in ("__len__", "__iter__", "__getitem__"):
                return TRUE
        return mk("hasattr", rd(v), a)
    if n == "getattr":
        a = rd(args[1])
        if is_const(a) and len(args) == 2:
            return it.getattr(args[0], cval(a), st, node)
        if is_const(a):
            c = it.cell(st, args[0]) if isinstance(args[0], I.Ref) else None
            if isinstance(c, I.InstCell) and (cval(a) in c.attrs or it.attr_known(c.cls, cval(a))):
                return it.getattr(args[0], cval(a), st, node)
        return it.alloc(st, I.ValCell(mk("app", "getattr", *[rd(x) for x in args]), it.origins(st, args[0]) or ("fresh",)))
    if n == "setattr":
        a = rd(args[1])
        it.setattr(args[0], cval(a) if is_const(a) else "?", args[2], st, node)
        return NONE
    if n == "str" and len(args) == 1 and isinstance(args[0], I.Ref) and isinstance(it.cell(st, args[0]), I.InstCell) and it.cell(st, args[0]).cls.find("__str__"):
        return it.call_method(args[0], "__str__", [], {}, st, node)
    if n in ("int", "float", "bool", "str", "complex"):
        if not args:
            return const({"int": 0, "float": 0.0, "bool": False, "str": "", "complex": 0j}[n])
        t = rd(args[0])
        if n == "bool":
            return it.truth(st, args[0])
        if t.op == "const":
            try:
                if isinstance(cval(t), Fraction) and n == "int":
                    return const(int(cval(t)))
                if not isinstance(cval(t), Fraction):
                    return const({"int": int, "float": float, "str": str, "complex": complex}[n](cval(t)))
            except Exception:
                pass
        if n == "float":
            if it.symty.get(t.uid) is None:
                it.symty.setdefault(t.uid, "float")
            return t
        if n == "int":
            if it.symty.get(t.uid) == "int" or t.op == "app" and t.args[0] in ("int", "len") or t.op in ("get", "mul", "add") and it.is_scalar_t(t) and it.is_int_t(t):
                return t
            if t.op == "app" and t.args[0] in ("np.round", "np.ceil", "np.floor"):
                it.symty.setdefault(t.uid, "int")
                return t
            r = mk("app", "int", t)
            it.symty[r.uid] = "int"
            return r
        r = mk("app", n, t)
        it.symty[r.uid] = n
        return r
    if n in ("max", "min") and args:
        if len(args) == 1:
            items = it.iter_items(args[0], st)
            if items is None:
                t = mk("app", "np." + n, rd(args[0]), *[mk("kw", k, rd(x)) for k, x in sorted(kw.items())])
                return finish(it, st, t, args, {}, node)
            args = items
        if "key" in kw:
            return finish(it, st, mk("app", n, *[rd(a) for a in args], mk("kw", "key", rd(kw["key"]))), args, {}, node)
        return finish(it, st, t_maxmin(n, [rd(a) for a in args]), args, {}, node)
    if n == "sum" and args:
        items = it.iter_items(args[0], st)
        if items is not None:
            r = rd(args[1]) if len(args) > 1 else ZERO
            if items and len(args) == 1:
                v = items[0]
                for x in items[1:]:
                    v = it.binop("Add", v, x, st, node)
                return v
            for x in items:
                r = add(r, rd(x))
            return finish(it, st, r, items, {}, node)
        a0 = rd(args[0])
        # the builtin adds up the items: sums over the first axis only
        whole = it.is_scalar_t(a0.args[1]) if a0.op == "listcomp" else it.ndim_of(a0) == 1
        t = mk("app", "np.sum", a0, *([] if whole else [mk("kw", "axis", ZERO)]))
        if len(args) > 1 or "start" in kw:
            t = add(rd(args[1] if len(args) > 1 else kw["start"]), t)
        return finish(it, st, t, args, {}, node)
    if n in ("any", "all"):
        items = it.iter_items(args[0], st)
        if items is not None:
            cs = [it.truth(st, x) for x in items]
            return (t_or if n == "any" else t_and)(*cs) if cs else const(n == "all")
        t = mk("app", n, rd(args[0]))
        it.symty[t.uid] = "bool"
        return t
    if n == "abs":
        return None
    if n == "print":
        it.event("ext", node, st, func="print", args=list(args), kw=dict(kw))
        return NONE
    if n == "type":
        v = it.norm_v(st, args[0])
        if isinstance(v, I.Ref):
            c = it.cell(st, v)
            if isinstance(c, I.InstCell) and not (c.open and not c.exact):
                return I.Cls(c.cls)
        return mk("app", "type", rd(v))
    if n == "slice":
        ts = [rd(a) for a in args]
        if len(ts) == 1:
            ts = [NONE, ts[0]]
        while len(ts) < 3:
            ts.append(NONE)
        return mk("slice", *ts[:2], NONE if ts[2] is ONE else ts[2])
    if n == "map":
        f, *its = args
        src = I.IterV("zip", tuple(its)) if len(its) > 1 else its[0]
        items = it.iter_items(src, st)
        if items is not None:
            res = []
            for x in items:
                res.append(it.call(f, list(x.items) if len(its) > 1 else [x], {}, st, node))
            return it.alloc(st, I.ListCell(tuple(res), origins=("fresh",), pykind="gen"))
        depth = it.loop_depth
        it.loop_depth += 1
        el, idx, t = it.iter_elem(src, st, depth)
        r = it.call(f, list(el.items) if len(its) > 1 and isinstance(el, I.Tup) else [el], {}, st, node)
        it.loop_depth -= 1
        return it.alloc(st, I.ListCell(None, mk("listcomp", idx, rd(r), idx.args[0]), ("fresh",), r, pykind="gen"))
    if n == "iter" or n == "next":
        if n == "next":
            items = it.iter_items(args[0], st)
            if items:
                return items[0]
            el, idx, t = it.iter_elem(args[0], st, it.loop_depth)
            return el
        return args[0]
    if n == "divmod":
        a, b = rd(args[0]), rd(args[1])
        return I.Tup([it.binop_t("FloorDiv", a, b), it.binop_t("Mod", a, b)])
    if n == "pow":
        return finish(it, st, power(rd(args[0]), rd(args[1])), args, {}, node)
    if n == "id" or n == "hash" or n == "repr":
        return mk("app", n, rd(args[0]))
    if n == "super":
        f = it.stack[-1]
        if len(args) == 2 and isinstance(args[0], I.Cls):
            return I.Super(args[0].c, args[1])
    if n.endswith("Error") or n.endswith("Warning") or n == "Exception":
        return mk("app", "exception", const(n), *[rd(a) for a in args])
    return None


def t_maxmin(n, ts):
    if len(ts) == 2 and all(t.op in ("tuple", "vec") for t in ts) and len(ts[0].args) == len(ts[1].args) > 0:
        return mk("vec", *[t_maxmin(n, list(x)) for x in zip(ts[0].args, ts[1].args)])
    flat = []
    for t in ts:
        if t.op == "app" and t.args[0] == n and not any(a.op == "kw" for a in t.args[1:]):
            flat.extend(t.args[1:])
        else:
            flat.append(t)
    nums = [cval(t) for t in flat if is_num(t)]
    rest = []
    for t in flat:
        if not is_num(t) and t not in rest:
            rest.append(t)
    if nums:
        v = max(nums) if n == "max" else min(nums)
        rest.append(const(v))
    if len(rest) == 1:
        return rest[0]
    return mk("app", n, *sorted(rest, key=skey))


def isinst(it, v, c, st):
    v = it.norm_v(st, v)
    if isinstance(v, I.GV):
        return gate(v.c, isinst(it, v.a, c, st), isinst(it, v.b, c, st))
    if isinstance(c, I.Tup):
        return t_or(*[isinst(it, v, x, st) for x in c.items])
    ct = it.read(st, c)
    if ct.op == "app" and ct.args[0] == "union":
        return t_or(*[isinst_t(it, v, x, st) for x in ct.args[1:]])
    return isinst_t(it, v, ct, st)


ABC_LIKE = {"Sequence", "Iterable", "Mapping", "Callable", "Collection"}


def isinst_t(it, v, ct, st):
    name = None
    pk = None
    if ct.op == "ext":
        name = ct.args[0].split(".")[-1]
    elif ct.op == "class":
        pk = it.prog.by_qual_class.get(ct.args[0])
    if isinstance(v, I.Tup):
        if name in ("tuple", "Sequence", "Iterable", "Collection"):
            return TRUE
        return FALSE
    if isinstance(v, (I.Func, I.Cls)):
        return const(name == "Callable")
    if isinstance(v, I.Ref):
        c = it.cell(st, v)
        if isinstance(c, I.InstCell):
            if pk is not None:
                if c.cls.is_sub(pk):
                    return TRUE if not c.maybe_none else t_not(mk("isnone", c.term))
                if not c.open or c.exact:
                    return FALSE
                if pk.is_sub(c.cls) or any(s.is_sub(pk) for s in c.cls.all_subclasses()):
                    return mk("isinst", it.read(st, v), ct)
                return FALSE
            ext = [b.split(".")[-1] for b in c.cls.ext_bases()]
            if name in ext:
                return TRUE
            return FALSE
        if isinstance(c, I.ListCell):
            if c.pykind == "list":
                return const(name in ("list", "Sequence", "Iterable", "Collection"))
            return const(name == c.pykind)
        if isinstance(c, I.DictCell):
            return const(name in ("dict", "Mapping", "Iterable", "Collection"))
        if isinstance(c, I.ValCell):
            t = c.term
            if t.op in ("tuple", "list"):
                return const(name in (t.op, "Sequence", "Iterable"))
            if t.op == "vec" and c.ty == "ndarray" and name in ("int", "float", "str", "list", "tuple", "dict", "Sequence", "ndarray", "Iterable"):
                return const(name in ("ndarray", "Iterable"))
            if t.op == "sym" and t.uid in it.symdim and c.ty == "ndarray":  # a parameter declared an array of known rank
                return const(name in ("ndarray", "Iterable"))
            if c.ty is not None and not c.maybe_none:
                tab = {"ndarray": {"ndarray"}, "list": {"list", "Sequence"}, "dict": {"dict", "Mapping"}, "callable": {"Callable"}, "tuple": {"tuple", "Sequence"}, "executor": {"Executor"}}
                if c.ty in ("dict", "callable", "executor", "dtype"):
                    return const(name in tab.get(c.ty, ()))
                if c.ty == "list" and name in ("str", "int", "float", "ndarray", "dict") and False:
                    return FALSE
            if pk is not None and c.ty in ("ndarray", "num|array", "dict", "list", "tuple", "callable"):
                return FALSE
            if name == "str" and c.ty in ("num|array", "ndarray"):
                return FALSE
        return mk("isinst", it.read(st, v), ct)
    if isinstance(v, T):
        if v.op == "const":
            x = cval(v)
            py = {"int": int, "float": float, "str": str, "bool": bool, "complex": complex, "integer": int, "floating": float, "Integral": int, "Number": (int, float, complex), "number": ()}
            if name in py:
                if isinstance(x, Fraction):
                    x = float(x)
                return const(isinstance(x, py[name]) and not (name in ("integer", "floating")))
            if name == "Sequence":
                return const(isinstance(x, str))
            return FALSE
        ty = it.symty.get(v.uid)
        if v.uid in it.symnone:
            pass
        elif ty is not None:
            if pk is not None:
                return FALSE
            if name in ("int", "float", "str", "bool", "complex"):
                if ty == name:
                    return TRUE
                if ty == "float" and name == "int" or ty == "int" and name == "float":
                    return mk("isinst", v, ct) if ty == "float" else FALSE
                return FALSE
            if name in ("Sequence", "Iterable"):
                return const(ty == "str")
            if name in ("ndarray", "list", "tuple", "dict", "Callable", "Mapping", "Executor"):
                return FALSE
            if name in ("Number", "Integral", "number", "integer", "floating"):
                return mk("isinst", v, ct) if ty != "str" else FALSE
        if v.uid in it.symnone and ty is not None:
            if pk is not None or name in ("ndarray", "list", "tuple", "dict", "Callable", "Mapping"):
                return FALSE
            if name == ty:
                return t_not(it.term_isnone(v))
            if name in ("str",) and ty != "str":
                return FALSE
        if v.op in ("tuple", "list"):
            return const(name in (v.op, "Sequence", "Iterable"))
        if v.op == "slice":
            return const(name == "slice")
        if v.op in ("add", "mul", "pow", "idx_"):
            if name in ("str", "dict", "list", "tuple", "Sequence") or pk is not None:
                return FALSE
        return mk("isinst", v, ct)
    return mk("isinst", it.read(st, v), ct)


# ------------------------------------------------------------------ NumPy & co.
HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


def _ident_fresh(it, st, v):
    """A fresh copy with the same value."""
    v = it.norm_v(st, v)
    if isinstance(v, T):
        return v
    t = it.read(st, v)
    return it.alloc(st, I.ValCell(t, ("fresh",)))


def _intish(it, st, dt):
    if dt is None:
        return None
    t = it.read(st, dt)
    s = None
    if t.op == "ext":
        s = t.args[0].split(".")[-1]
    elif t.op == "const" and isinstance(cval(t), str):
        s = cval(t)
    if s and (s.startswith("int") or s.startswith("uint")):
        return "int"
    if s and s.startswith("bool"):
        return "bool"
    return None


@handler("np.array", "np.copy")
def h_array(it, n, args, kw, st, node):
    v = it.norm_v(st, args[0])
    cp = kw.get("copy")
    if len(args) > 1 and n == "np.array":
        kw = dict(kw, dtype=args[1])
    if cp is not None and is_const(it.read(st, cp), False) or cp is not None and is_const(it.read(st, cp), None):
        return h_asarray(it, n, args, kw, st, node)
    k = _intish(it, st, kw.get("dtype"))
    if isinstance(v, I.Tup) or isinstance(v, I.Ref):
        t = it.read(st, v)
    else:
        t = it.read(st, v)
    nd = kw.get("ndmin")
    w = it.vec_of(t) if n == "np.array" and k in (None, "int") else None
    if w is None and nd is not None and k in (None, "int") and it.read(st, nd) is ONE and it.is_scalar_t(t):
        w = mk("vec", t)
    if w is not None and (nd is None or it.read(st, nd) in (ZERO, ONE)):
        return it.alloc(st, I.ValCell(w, ("fresh",), ty="ndarray"))
    if k and not (k == "int" and it.is_int_t(t)):
        t = mk("app", "astype", t, const(k))
    if nd is not None and n == "np.array" and t.op == "gate" and is_num(it.read(st, nd)):
        def rec(x):
            if x.op == "gate":
                return gate(x.args[0], rec(x.args[1]), rec(x.args[2]))
            return it.read(st, h_array(it, n, [x], kw, st, node))
        return it.alloc(st, I.ValCell(rec(t), ("fresh",), ty="ndarray"))
    if nd is not None and n == "np.array" and k in (None, "int") and it.read(st, nd) is ONE and t.op == "app" and t.args[0] == "np.squeeze" and len(t.args) == 2 and it.ndim_of(t.args[1]) == 1:
        return it.alloc(st, I.ValCell(t.args[1], ("fresh",), ty="ndarray"))  # of one axis: it stays as it is
    if nd is not None and n == "np.array":
        m, u = it.read(st, nd), (w if w is not None else t)
        du = 0 if w is None and it.is_scalar_t(t) else it.ndim_of(u)
        if is_num(m) and isinstance(cval(m), int) and du is not None and (w is not None or k is None or k == "int"):
            for _ in range(cval(m) - du):
                u = mk("vec", u) if u.op == "vec" or it.is_scalar_t(u) else it.t_get(u, const(None))
            return it.alloc(st, I.ValCell(u, ("fresh",), ty="ndarray"))
    if nd is not None:
        u = t.args[1] if t.op == "app" and t.args[0] == "astype" else t
        if not ((u.op in ("tuple", "list", "vec") or u.op == "app" and u.args[0] == "tuplecat" or u.op == "app" and u.args[0] == "np.atleast" and u.args[2] is ONE or u.op == "attr" and u.args[1] == "shape" or (it.ndim_of(u) or 0) > 0) and it.read(st, nd) in (ZERO, ONE)):
            t = mk("app", "np.atleast", t, it.read(st, nd))
    return it.alloc(st, I.ValCell(t, ("fresh",), ty="ndarray" if k is None else "ndarray"))


@handler("np.asarray", "np.asanyarray", "np.ascontiguousarray", "np.asfortranarray", "np.require")
def h_asarray(it, n, args, kw, st, node):
    v = it.norm_v(st, args[0])
    if isinstance(v, I.GV):
        return it.branch_v(v.c, st, lambda q: h_asarray(it, n, [v.a], kw, q, node), lambda q: h_asarray(it, n, [v.b], kw, q, node))
    k = _intish(it, st, kw.get("dtype") if "dtype" in kw else (args[1] if len(args) > 1 else None))
    if isinstance(v, I.Ref):
        c = it.cell(st, v)
        if isinstance(c, (I.ListCell, I.DictCell)):
            t = it.read(st, v)
            w = it.vec_of(t) if k in (None, "int") else None
            return it.alloc(st, I.ValCell(w if w is not None else mk("app", "astype", t, const(k)) if k else t, ("fresh",), ty="ndarray"))
        if k and not (k == "int" and it.read(st, v).op == "vec"):
            return it.alloc(st, I.ViewCell(v, ("app", "astype", (const(k),))))
        return v
    t = it.read(st, v)
    w = it.vec_of(t) if k in (None, "int") else None
    return it.alloc(st, I.ValCell(w if w is not None else mk("app", "astype", t, const(k)) if k else t, ("fresh",), ty="ndarray"))


@handler("add", "sub", "mul", "div", "neg", "pow", "mod", "floordiv")
def h_arith(it, n, args, kw, st, node):
    ts = [it.read(st, a) for a in args]
    f = {"add": add, "sub": sub, "mul": mul, "div": div, "pow": power}.get(n)
    if n in ("mod", "floordiv"):
        t = it.binop_t({"mod": "Mod", "floordiv": "FloorDiv"}[n], ts[0], ts[1])
    else:
        t = neg(ts[0]) if n == "neg" else f(ts[0], ts[1])
    out = kw.get("out") or (args[2] if len(args) > 2 and n != "neg" else None)
    w = kw.get("where")
    if w is not None:
        wt = it.read(st, w)
        ot = it.read(st, out) if out is not None else mk("opaque", "uninit")
        t = mk("app", "np.where", wt, t, ot)
    k2 = {"out": out} if out is not None else {}
    return finish(it, st, t, args[:2], k2, node)


@handler("lt", "gt", "le", "ge", "eq", "ne")
def h_cmp(it, n, args, kw, st, node):
    m = {"lt": "Lt", "gt": "Gt", "le": "LtE", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}
    return it.compare(m[n], args[0], args[1], st)


@handler("and", "or")
def h_bool(it, n, args, kw, st, node):
    ts = [it.read(st, a) for a in args[:2]]
    return it.binop_t("BitAnd" if n == "and" else "BitOr", *ts)


@handler("np.logical_not", "np.invert")
def h_lnot(it, n, args, kw, st, node):
    t = it.read(st, args[0])
    return t_not(t) if it.is_bool_term(t) else it.alloc(st, I.ValCell(mk("app", "np.logical_not", t), ("fresh",)))


@handler("max", "min")
def h_maxmin(it, n, args, kw, st, node):
    ts = [it.read(st, a) for a in args[:2]]
    k = dict(kw)
    if len(args) > 2:
        k["out"] = args[2]
    return finish(it, st, t_maxmin(n, ts), args[:2], k, node)


def t_clip(x, lo, hi):
    """clip term; lo/hi terms may be None constants (or gates of None)."""
    for which, b in (("lo", lo), ("hi", hi)):
        if b.op == "gate":
            f = (lambda z: t_clip(x, z, hi)) if which == "lo" else (lambda z: t_clip(x, lo, z))
            return gate(b.args[0], f(b.args[1]), f(b.args[2]))
    if not is_const(lo, None):
        x = t_maxmin("max", [x, lo])
    if not is_const(hi, None):
        x = t_maxmin("min", [x, hi])
    return x


def resolve_none(it, st, v):
    """Term of v with None-ness made explicit as a gate."""
    t = it.read(st, v)
    if t.uid in it.symnone:
        c = it.term_isnone(t)
        d = it.decide(st, c)
        if d is True:
            return NONE
        if d is False:
            return t
        return gate(c, NONE, t)
    return t


@handler("np.clip")
def h_clip(it, n, args, kw, st, node):
    lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min", NONE))
    hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max", NONE))
    k = dict(kw)
    if len(args) > 3:
        k["out"] = args[3]
    x = it.read(st, args[0])
    t = t_clip(x, resolve_none(it, st, lo), resolve_none(it, st, hi))
    k = {a: b for a, b in k.items() if a == "out"}
    return finish(it, st, t, args[:1], k, node, always_arr=True)


@handler("np.sqrt")
def h_sqrt(it, n, args, kw, st, node):
    return finish(it, st, power(it.read(st, args[0]), HALF), args[:1], {k: v for k, v in kw.items() if k == "out"}, node)


@handler("np.square")
def h_square(it, n, args, kw, st, node):
    return finish(it, st, power(it.read(st, args[0]), const(2)), args[:1], {k: v for k, v in kw.items() if k == "out"}, node)


@handler("np.reciprocal")
def h_recip(it, n, args, kw, st, node):
    return finish(it, st, power(it.read(st, args[0]), const(-1)), args[:1], {k: v for k, v in kw.items() if k == "out"}, node)


@handler("np.abs")
def h_abs(it, n, args, kw, st, node):
    t = it.read(st, args[0])
    if is_num(t) and not isinstance(cval(t), complex):
        return const(abs(cval(t)))
    if t.op == "app" and t.args[0] == "np.abs":
        r = t
    else:
        r = mk("app", "np.abs", t)
    return finish(it, st, r, args[:1], {k: v for k, v in kw.items() if k == "out"}, node)


@handler("np.exp", "np.log", "np.log10", "np.log2", "np.log1p", "np.expm1", "np.sin", "np.cos", "np.tan", "np.arctan2", "np.arcsin", "np.arccos", "np.arctan", "np.sign",
         "np.floor", "np.ceil", "np.rint", "np.conj", "np.degrees", "np.radians", "np.isnan", "np.isfinite", "np.isinf", "np.hypot", "np.sinh", "np.cosh", "np.tanh", "np.angle")
def h_ufunc(it, n, args, kw, st, node):
    ts = [it.read(st, a) for a in args]
    if n == "np.radians":
        r = mul(ts[0], div(mk("ext", "np.pi"), const(180)))
    elif n == "np.degrees":
        r = mul(ts[0], div(const(180), mk("ext", "np.pi")))
    elif n == "np.conj" and is_num(ts[0]):
        r = ts[0]
    elif n in ("np.floor", "np.ceil", "np.rint") and it.is_scalar_t(ts[0]) and it.integral(ts[0]) is not None:
        r = it.integral(ts[0])
    elif n in ("np.floor", "np.ceil") and is_num(ts[0]):
        import math
        r = const(int(math.floor(cval(ts[0])) if n == "np.floor" else math.ceil(cval(ts[0]))))
    elif n in ("np.floor", "np.ceil") and ts[0].op == "vec" and all(is_num(x) for x in ts[0].args):
        import math
        r = mk("vec", *[const(int(math.floor(cval(x)) if n == "np.floor" else math.ceil(cval(x)))) for x in ts[0].args])
    else:
        r = mk("app", n, *ts)
    w = kw.get("where")
    if w is not None:
        o = kw.get("out")
        r = mk("app", "np.where", it.read(st, w), r, it.read(st, o) if o is not None else mk("opaque", "uninit"))
    return finish(it, st, r, args, {k: v for k, v in kw.items() if k == "out"}, node)


def shape_t(t):
    """A shape may be given as a tuple, a list or an array."""
    return mk("tuple", *t.args) if t.op in ("vec", "list") else t


@handler("np.zeros", "np.ones", "np.empty")
def h_zeros(it, n, args, kw, st, node):
    s = it.read(st, args[0] if args else kw["shape"])
    if True:
        dims = list(s.args) if s.op in ("tuple", "list", "vec") else [s]
        if 1 <= len(dims) <= 2 and all(is_num(d) and isinstance(cval(d), int) and 0 < cval(d) <= 8 for d in dims):
            z = {"np.zeros": ZERO, "np.ones": ONE}.get(n)
            if z is None:
                z = mk("sym", "?uninitialised")
                it.symty[z.uid] = "float"
            r = mk("vec", *[z] * cval(dims[-1]))
            return it.alloc(st, I.ValCell(r if len(dims) == 1 else mk("vec", *[r] * cval(dims[0])), ("fresh",), ty="ndarray"))
    return it.alloc(st, I.ValCell(mk("app", n, shape_t(s)), ("fresh",), ty="ndarray"))


def lin_diff(a, b):
    """a - b, when both are the same sum up to a number; else None."""
    def flat(t, sign, acc):
        if t.op == "add":
            for x in t.args:
                flat(x, sign, acc)
        elif is_num(t):
            acc[None] = acc.get(None, 0) + sign * cval(t)
        elif t.op == "mul" and is_num(t.args[0]):
            acc[t.args[1].uid] = acc.get(t.args[1].uid, 0) + sign * cval(t.args[0])
        else:
            acc[t.uid] = acc.get(t.uid, 0) + sign
        return acc
    try:
        r = flat(b, -1, flat(a, 1, {}))
    except TypeError:
        return None
    n = r.pop(None, 0)
    return const(n) if not any(r.values()) else None


@handler("np.arange")
def h_arange(it, n, args, kw, st, node):
    ts = [it.read(st, a) for a in args]
    if ts and not [k for k in kw if k != "dtype"] and all(is_num(t) and isinstance(cval(t), int) for t in ts[:3]):
        w = it.vec_of(mk("range", *ts[:3]))
        if w is not None and w.args:
            return it.alloc(st, I.ValCell(w, ("fresh",), ty="ndarray"))
    if len(ts) == 2 and not kw and all(it.is_scalar_t(t) for t in ts):
        d = lin_diff(ts[1], ts[0])
        if d is not None and is_num(d) and isinstance(cval(d), int) and 0 < cval(d) <= 8:
            return it.alloc(st, I.ValCell(mk("vec", *[add(ts[0], const(i)) for i in range(cval(d))]), ("fresh",), ty="ndarray"))
    return None


@handler("np.pad")
def h_pad(it, n, args, kw, st, node):
    """The pad widths may be given as nested tuples, lists or arrays."""
    args, kw = list(args), dict(kw)
    for nm, v in zip(("pad_width", "mode"), args[1:]):
        kw[nm] = v
    if "pad_width" not in kw:
        return None

    def plain(t, d=0):
        if t.op in ("tuple", "list", "vec") and d < 3:
            return mk("tuple", *[plain(x, d + 1) for x in t.args])
        return t
    t = plain(it.read(st, kw["pad_width"]))
    if t.op == "tuple" and t.args and all(x.op == "tuple" and len(x.args) in (1, 2) for x in t.args):
        t = mk("tuple", *[x if len(x.args) == 2 else mk("tuple", *x.args, *x.args) for x in t.args])  # (a,) pads both sides by a
    kw["pad_width"] = t
    return generic(it, n, args[:1], kw, st, node)


@handler("np.tile")
def h_tile(it, n, args, kw, st, node):
    if kw or len(args) != 2:
        return None
    a, r = it.read(st, args[0]), it.read(st, args[1])
    if a.op in ("list", "tuple"):
        a = it.vec_of(a) or a
    if r.op in ("list", "tuple", "vec"):
        if len(r.args) == 1:
            r = r.args[0]
        else:
            return generic(it, n, args[:1], {"reps": mk("tuple", *r.args)}, st, node)
    if a.op not in ("vec", "list", "tuple") and it.is_scalar_t(a):
        a = mk("vec", a)
    if a.op == "vec" and a.args and a.args[0].op != "vec" and is_num(r) and isinstance(cval(r), int) and 0 < cval(r) * len(a.args) <= 16:
        return it.alloc(st, I.ValCell(mk("vec", *(list(a.args) * cval(r))), ("fresh",), ty="ndarray"))
    return None


@handler("np.delete")
def h_delete(it, n, args, kw, st, node):
    if len(args) == 1 and set(kw) == {"obj"}:
        args, kw = [args[0], kw["obj"]], {}
    if kw:
        return None
    a, i = it.read(st, args[0]), it.read(st, args[1])
    ix = i.args if i.op in ("vec", "list", "tuple") else (i,)
    if a.op == "vec" and len(args) == 2 and all(is_num(x) and isinstance(cval(x), int) for x in ix):
        drop = {cval(x) % len(a.args) for x in ix}
        return it.alloc(st, I.ValCell(mk("vec", *[x for k, x in enumerate(a.args) if k not in drop]), ("fresh",), ty="ndarray"))
    return None


@handler("np.argsort")
def h_argsort(it, n, args, kw, st, node):
    a = it.read(st, args[0])
    if a.op == "vec" and len(args) == 1 and not kw and all(is_num(x) for x in a.args):
        return it.alloc(st, I.ValCell(mk("vec", *[const(k) for k in sorted(range(len(a.args)), key=lambda k: cval(a.args[k]))]), ("fresh",), ty="ndarray"))
    return None


@handler("np.full")
def h_full(it, n, args, kw, st, node):
    s = it.read(st, args[0] if args else kw["shape"])
    f = it.read(st, args[1] if len(args) > 1 else kw["fill_value"])
    return it.alloc(st, I.ValCell(mk("app", n, shape_t(s), f), ("fresh",), ty="ndarray"))


@handler("np.zeros_like", "np.ones_like", "np.empty_like")
def h_zeros_like(it, n, args, kw, st, node):
    a = it.read(st, args[0])
    if a.op in ("list", "tuple"):
        a = it.vec_of(a) or a
    if a.op == "vec" and n != "np.empty_like" and a.args and "shape" not in kw:
        z = ZERO if n == "np.zeros_like" else ONE
        return it.alloc(st, I.ValCell(mk("vec", *[mk("vec", *[z] * len(x.args)) if x.op == "vec" else z for x in a.args]), ("fresh",), ty="ndarray"))
    s = it.shape_attr(a, "shape") if "shape" not in kw else it.read(st, kw["shape"])
    return it.alloc(st, I.ValCell(mk("app", n[:-5], s), ("fresh",), ty="ndarray"))


@handler("np.full_like")
def h_full_like(it, n, args, kw, st, node):
    s = it.shape_attr(it.read(st, args[0]), "shape")
    return it.alloc(st, I.ValCell(mk("app", "np.full", s, it.read(st, args[1])), ("fresh",), ty="ndarray"))


@handler("np.where")
def h_where(it, n, args, kw, st, node):
    ts = [it.read(st, a) for a in args]
    if len(ts) == 3:
        c, a, b = ts
        if c.op == "not":
            c, a, b = c.args[0], b, a
        if a is b:
            return it.alloc(st, I.ValCell(a, ("fresh",)))
        return it.alloc(st, I.ValCell(mk("app", "np.where", c, a, b), ("fresh",)))
    return it.alloc(st, I.ValCell(mk("app", "np.where", *ts), ("fresh",), ty="tuple"))


@handler("np.nan_to_num")
def h_nan(it, n, args, kw, st, node):
    return None


@handler("np.prod")
def h_prod(it, n, args, kw, st, node):
    items = it.iter_items(args[0], st)
    if items is not None and len(args) == 1 and not kw.get("axis"):
        r = ONE
        for x in items:
            r = mul(r, it.read(st, x))
        return finish(it, st, r, items, {}, node)
    return None


@handler("np.sum")
def h_sum(it, n, args, kw, st, node):
    """The sum over the first axis of a stack of known items is the sum of the items."""
    ax = kw.get("axis") if "axis" in kw else (args[1] if len(args) > 1 else None)
    w = it.read(st, args[0])
    if w.op == "vec" and w.args and w.args[0].op != "vec" and set(kw) <= {"axis"} and len(args) < 3 and (ax is None or it.read(st, ax) in (ZERO, const(-1))):
        r = ZERO
        for x in w.args:
            r = add(r, x)
        return r
    if ax is None or not is_const(it.read(st, ax), 0) or set(kw) - {"axis", "dtype"} or len(args) > 2:
        return None
    t = it.read(st, args[0])
    if t.op == "app" and t.args[0] == "np.stack" and (len(t.args) == 2 or len(t.args) == 3 and t.args[2].op == "kw" and t.args[2].args[0] == "axis" and is_const(t.args[2].args[1], 0)):
        t = t.args[1]
    if t.op in ("list", "tuple") and 0 < len(t.args) <= 8 and not all(it.is_scalar_t(x) for x in t.args):
        r = ZERO
        for x in t.args:
            r = add(r, x)
        return it.alloc(st, I.ValCell(r, ("fresh",)))
    if t.op == "listcomp" and set(kw) <= {"axis"} and it.is_scalar_t(t.args[1]):
        return mk("app", n, t)
    if t.op == "listcomp" and set(kw) <= {"axis"}:
        return it.alloc(st, I.ValCell(mk("app", n, t, mk("kw", "axis", ZERO)), ("fresh",)))
    return None


@handler("np.mean")
def h_mean(it, n, args, kw, st, node):
    """The mean of a few known numbers is their sum over their count."""
    ax = kw.get("axis") if "axis" in kw else (args[1] if len(args) > 1 else None)
    w = it.read(st, args[0])
    if w.op in ("vec", "list", "tuple") and w.args and w.args[0].op not in ("vec", "list", "tuple") and set(kw) <= {"axis"} and len(args) < 3 and (ax is None or it.read(st, ax) in (ZERO, const(-1), NONE)) \
            and (ax is not None and not is_const(it.read(st, ax), None) or all(it.is_scalar_t(x) or it.ndim_of(x) is None and not any(y.op == "app" and y.args[0] in ("np.zeros", "np.ones", "np.empty") for y in subterms(x)) for x in w.args)):
        r = ZERO
        for x in w.args:
            r = add(r, x)
        return div(r, const(len(w.args)))
    return None


@handler("np.convolve")
def h_convolve(it, n, args, kw, st, node):
    """Convolving with two weights where they overlap fully: a weighted sum of neighbours."""
    mode = kw.get("mode") if "mode" in kw else (args[2] if len(args) > 2 else None)
    if mode is None or len(args) < 2 or not is_const(it.read(st, mode), "valid"):
        return None
    x, w = it.read(st, args[0]), it.read(st, args[1])
    if w.op not in ("vec", "list", "tuple") or len(w.args) != 2 or not all(is_num(k) for k in w.args):
        return None
    return add(mul(w.args[0], mk("get", x, mk("slice", const(1), NONE, NONE))), mul(w.args[1], mk("get", x, mk("slice", NONE, const(-1), NONE))))


@handler("np.shape")
def h_shape(it, n, args, kw, st, node):
    return it.getattr(args[0], "shape", st, node)


@handler("np.ndim")
def h_ndim(it, n, args, kw, st, node):
    t = it.read(st, args[0])
    return it.shape_attr(t, "ndim")


@handler("np.size")
def h_size(it, n, args, kw, st, node):
    return it.shape_attr(it.read(st, args[0]), "size")


@handler("np.finfo", "np.iinfo")
def h_finfo(it, n, args, kw, st, node):
    return it.alloc(st, I.ValCell(mk("app", n, *[it.read(st, a) for a in args]), ("fresh",)))


@handler(*IDENT_CAST)
def h_cast(it, n, args, kw, st, node):
    if not args:
        return const(0.0)
    return args[0] if isinstance(args[0], T) else _ident_fresh(it, st, args[0])


@handler("copy.copy")
def h_copy(it, n, args, kw, st, node):
    v = it.norm_v(st, args[0])
    return copy_v(it, st, v, deep=False)


@handler("copy.deepcopy")
def h_deepcopy(it, n, args, kw, st, node):
    return copy_v(it, st, args[0], deep=True)


def copy_v(it, st, v, deep, memo=None):
    memo = {} if memo is None else memo
    v = it.norm_v(st, v)
    if isinstance(v, I.GV):
        return it.merge_v(v.c, copy_v(it, st, v.a, deep, memo), copy_v(it, st, v.b, deep, memo))
    if isinstance(v, I.Tup):
        return I.Tup([copy_v(it, st, x, deep, memo) for x in v.items]) if deep else v
    if isinstance(v, I.Ref):
        if v.id in memo:
            return memo[v.id]
        c = it.cell(st, v)
        if isinstance(c, I.ViewCell):
            return it.alloc(st, I.ValCell(it.read(st, v), ("fresh",)))
        new = c.clone(origins=frozenset({"fresh"}))
        ref = it.alloc(st, new)
        memo[v.id] = ref
        if isinstance(c, I.InstCell):
            r = c.cls.find("__deepcopy__" if deep else "__copy__")
            if r is not None:
                return it.call(I.Func(r[1], r[0].mod, 0, r[0], v), [NONE] if deep else [], {}, st, None)
            new.attrs = {k: (copy_v(it, st, x, True, memo) if deep else x) for k, x in c.attrs.items()}
            if c.open and not deep:
                # attributes not materialised yet stay shared with the original: keep the label of the source
                new.origins = frozenset({"fresh"})
                new.shallow_of = c.origins
                if c.term is not None:
                    new.term = c.term
        elif isinstance(c, (I.ListCell,)):
            if c.items is not None and deep:
                new.items = tuple(copy_v(it, st, x, True, memo) for x in c.items)
            elif deep and c.elem is not None:
                new.elem = copy_v(it, st, c.elem, True, memo)
        elif isinstance(c, I.DictCell):
            if c.items is not None:
                new.items = {k: (copy_v(it, st, x, True, memo) if deep else x) for k, x in c.items.items()}
        elif isinstance(c, I.ValCell):
            new.attrs = {} if deep else dict(c.attrs)
        return ref
    return v


@handler("dataclasses.replace")
def h_replace(it, n, args, kw, st, node):
    v = it.norm_v(st, args[0])
    if isinstance(v, I.GV):
        return it.branch_v(v.c, st, lambda q: h_replace(it, n, [v.a], kw, q, node), lambda q: h_replace(it, n, [v.b], kw, q, node))
    c = it.cell(st, v) if isinstance(v, I.Ref) else None
    if isinstance(c, I.InstCell) and c.cls.is_dataclass:
        vals = {}
        for f, k, s in c.cls.fields:
            vals[f] = kw[f] if f in kw else it.getattr(v, f, st, node)
        return it.construct(c.cls, [], vals, st, node)
    return it.alloc(st, I.ValCell(mk("app", "replace", it.read(st, args[0]), *[mk("kw", k, it.read(st, x)) for k, x in sorted(kw.items())]), ("fresh",)))


@handler("dataclasses.asdict")
def h_asdict(it, n, args, kw, st, node):
    c = it.cell(st, args[0]) if isinstance(args[0], I.Ref) else None
    if isinstance(c, I.InstCell):
        return it.alloc(st, I.DictCell({f: it.getattr(args[0], f, st, node) for f, _, _ in c.cls.fields}, origins=("fresh",)))
    return None


@handler("functools.partial")
def h_partial(it, n, args, kw, st, node):
    return I.Partial(args[0], list(args[1:]), dict(kw))


@handler("tqdm.auto.tqdm", "tqdm.tqdm", "tqdm.auto.trange")
def h_tqdm(it, n, args, kw, st, node):
    if n.endswith("trange"):
        return call_builtin(it, "range", args, {}, st, node)
    if args:
        return args[0]
    return it.alloc(st, I.ValCell(mk("opaque", "tqdm"), ("fresh",)))


@handler("concurrent.futures.as_completed")
def h_completed(it, n, args, kw, st, node):
    v = args[0]
    order = getattr(it, "completion", None)  # the schedule to analyse: the order in which the tasks complete
    items = it.iter_items(v, st)
    if items is not None and not any(isinstance(x, I.StarV) for x in items):
        order = order if order is not None and len(items) == len(order) else range(len(items))[::-1]
        return it.alloc(st, I.ListCell(tuple(items[i] for i in order), origins=("fresh",)))
    if isinstance(v, I.Ref) and isinstance(it.cell(st, v), I.DictCell):
        return I.IterV("keys", (v,))
    if isinstance(v, I.IterV) and v.kind == "keys":
        return v
    return it.alloc(st, I.ValCell(mk("app", n, it.read(st, v)), ("fresh",)))  # in any order


@handler("np.unravel_index")
def h_unravel(it, n, args, kw, st, node):
    """One index per axis, where the number of axes is known."""
    if len(args) == 2 and not kw:
        sh = it.read(st, args[1])
        k = len(sh.args) if sh.op in ("tuple", "list", "vec") else it.ndim_of(sh.args[0]) if sh.op == "attr" and sh.args[1] == "shape" else None
        if k:
            dims = sh.args if sh.op != "attr" else [it.t_get(sh, const(i)) for i in range(k)]
            t = mk("app", n, it.read(st, args[0]), mk("tuple", *dims))
            out = [mk("get", t, const(i)) for i in range(k)]
            if it.is_scalar_t(it.read(st, args[0])):
                for x in out:
                    it.symty[x.uid] = "int"
            return I.Tup([it.alloc(st, I.ValCell(x, ("fresh",))) if x.uid not in it.symty else x for x in out])
    return None


@handler("np.stack", "np.concatenate", "np.hstack", "np.vstack", "np.block", "np.dstack", "np.meshgrid", "np.broadcast_arrays", "np.column_stack", "np.array_equal", "np.allclose")
def h_stack(it, n, args, kw, st, node):
    if n == "np.meshgrid" and args and not any(isinstance(a, I.StarV) for a in args):
        t = mk("app", n, *it.argterms(args, kw, st))
        return I.Tup([it.alloc(st, I.ValCell(mk("get", t, const(i)), ("fresh",), ty="ndarray")) for i in range(len(args))])
    if n == "np.stack" and (len(args) == 1 and set(kw) <= {"axis"} or len(args) == 2 and not kw):
        items = it.iter_items(args[0], st)
        ax = it.read(st, args[1] if len(args) == 2 else kw["axis"]) if len(args) == 2 or kw else ZERO
        if items and is_num(ax) and cval(ax) in (0, 1, -1):
            ws = [it.vec_of(it.read(st, x)) for x in items]
            if all(w is not None and w.args and w.args[0].op != "vec" and len(w.args) == len(ws[0].args) for w in ws):
                rows = ws if cval(ax) == 0 else [mk("vec", *[w.args[i] for w in ws]) for i in range(len(ws[0].args))]
                return it.alloc(st, I.ValCell(mk("vec", *[mk("vec", *r.args) for r in rows]), ("fresh",), ty="ndarray"))
    if n in ("np.concatenate", "np.hstack") and len(args) == 1 and not kw:
        items = it.iter_items(args[0], st)
        if items is not None and items:
            ts = [it.read(st, x) for x in items]
            ws = [it.vec_of(t) if t.args else (mk("vec") if t.op in ("vec", "tuple", "list") else None) for t in ts]
            if all(w is not None and not (w.args and w.args[0].op == "vec") for w in ws):
                return it.alloc(st, I.ValCell(mk("vec", *[x for w in ws for x in w.args]), ("fresh",), ty="ndarray"))
    return None


@handler("warnings.warn")
def h_warn(it, n, args, kw, st, node):
    it.event("ext", node, st, func="warn", args=list(args), kw=dict(kw))
    return NONE


@handler("time.perf_counter", "time.time", "time.time_ns", "datetime.datetime.now")
def h_time(it, n, args, kw, st, node):
    return mk("app", "clock", const(len([e for e in it.events if e.kind == "clock"])))


@handler("np.fft.fft", "np.fft.ifft", "np.fft.fftn", "np.fft.ifftn", "np.fft.rfft", "np.fft.irfft", "np.fft.rfftn", "np.fft.irfftn", "np.fft.fft2", "np.fft.ifft2", "np.fft.rfft2", "np.fft.irfft2")
def h_fft(it, n, args, kw, st, node):
    it.event("fft", node, st, func=n, args=list(args), kw=dict(kw), terms=it.argterms(args, kw, st))
    return None


# ------------------------------------------------------------------ methods of builtin / unknown values
def call_meth(it, recv, name, args, kw, st, node):
    recv = it.norm_v(st, recv)
    if isinstance(recv, I.GV):
        return it.branch_v(recv.c, st, lambda q: call_meth(it, recv.a, name, args, kw, q, node), lambda q: call_meth(it, recv.b, name, args, kw, q, node))
    rd = lambda v: it.read(st, v)
    if name in it.record:
        it.event("call", node, st, func="." + name, args=list(args), kw=dict(kw), selfV=recv, terms=[rd(recv)] + it.argterms(args, kw, st))
    c = it.cell(st, recv) if isinstance(recv, I.Ref) else None
    if name in ("__getattribute__", "__setattr__") and args:
        return call_builtin(it, "getattr" if name == "__getattribute__" else "setattr", [recv] + list(args), {}, st, node)
    if isinstance(c, I.InstCell):
        f = it.inst_attr(recv, c, name, st, node) if c.cls.find(name) else None
        if f is not None and not isinstance(f, I.EMeth):
            return it.call(f, args, kw, st, node)
        t = mk("app", "." + name, rd(recv), *it.argterms(args, kw, st))
        it.event("acall", node, st, cls=c.cls, name=name, recv=rd(recv), args=list(args), kw=dict(kw), term=t, ref=recv)
        return it.alloc(st, I.ValCell(t, ("fresh",)))
    if name == "__len__" and not args and not kw:
        return call_builtin(it, "len", [recv], {}, st, node)
    if name == "__getitem__" and len(args) == 1 and not kw:
        return it.subscript(recv, args[0], st, node)
    if isinstance(recv, T) and recv.op == "const" and isinstance(cval(recv), str):
        ts = [rd(a) for a in args]
        if all(t.op == "const" for t in ts) and name in ("lower", "upper", "strip", "split", "startswith", "endswith", "replace", "title", "capitalize", "zfill", "count", "lstrip", "rstrip", "find", "isdigit"):
            r = getattr(cval(recv), name)(*[cval(t) for t in ts])
            if isinstance(r, list):
                return it.alloc(st, I.ListCell(tuple(const(x) for x in r), origins=("fresh",)))
            return const(r)
        t = mk("app", "fstr", recv, const(name), *it.argterms(args, kw, st))
        it.symty[t.uid] = "str"
        return t
    if isinstance(recv, T) and it.symty.get(recv.uid) == "str":
        t = mk("app", "." + name, recv, *it.argterms(args, kw, st))
        if name in ("lower", "upper", "strip", "replace", "format", "join"):
            it.symty[t.uid] = "str"
            return t
        if name in ("startswith", "endswith"):
            it.symty[t.uid] = "bool"
            return t
        return it.alloc(st, I.ValCell(t, ("fresh",)))
    if isinstance(c, I.ListCell):
        return list_meth(it, recv, c, name, args, kw, st, node)
    if isinstance(c, I.DictCell):
        return dict_meth(it, recv, c, name, args, kw, st, node)
    if isinstance(recv, I.Tup):
        if name == "index":
            return mk("app", ".index", rd(recv), *it.argterms(args, kw, st))
        if name == "count":
            return mk("app", ".count", rd(recv), *it.argterms(args, kw, st))
    return val_meth(it, recv, c, name, args, kw, st, node)


def list_meth(it, recv, c, name, args, kw, st, node):
    rd = lambda v: it.read(st, v)
    if name in ("append", "insert", "extend", "pop", "remove", "clear", "sort", "reverse", "add", "discard", "update"):
        if name == "extend":
            it.list_extend(recv, args[0], st, node)
            return NONE
        it.event("mut", node, st, origins=c.origins, how=f"list.{name}()", ref=recv.id)
        if name in ("append", "add"):
            if c.items is not None and not any(isinstance(x, tuple) for x in c.items):
                st.heap[recv.id] = c.clone(items=c.items + (args[0],))
            else:
                el = c.elem if c.elem is not None else args[0]
                old, new = rd(recv), rd(args[0])
                if old.op == "listcomp":
                    nt = mk("app", "listcat", old, mk("list", new))
                elif old.op == "app" and old.args[0] == "listcat" and old.args[2].op == "list":
                    nt = mk("app", "listcat", old.args[1], mk("list", *old.args[2].args, new))
                else:
                    nt = mk("app", "append", old, new)
                st.heap[recv.id] = c.clone(items=None, term=nt, elem=el)
            return NONE
        if name == "clear":
            st.heap[recv.id] = c.clone(items=())
            return NONE
        if name == "pop" and c.items and (not args or is_num(rd(args[0]))):
            i = cval(rd(args[0])) if args else -1
            if -len(c.items) <= i < len(c.items):
                l = list(c.items)
                v = l.pop(i)
                st.heap[recv.id] = c.clone(items=tuple(l))
                return v
        if name == "insert" and c.items is not None and is_num(rd(args[0])):
            l = list(c.items)
            l.insert(cval(rd(args[0])), args[1])
            st.heap[recv.id] = c.clone(items=tuple(l))
            return NONE
        if name == "reverse" and c.items is not None:
            st.heap[recv.id] = c.clone(items=tuple(reversed(c.items)))
            return NONE
        old = rd(recv)
        st.heap[recv.id] = c.clone(items=None, term=mk("app", "list." + name, old, *it.argterms(args, kw, st)), elem=c.elem or (c.items[0] if c.items else None))
        if name == "pop":
            return it.alloc(st, I.ValCell(mk("app", "list.popped", old, *it.argterms(args, kw, st)), it.origins(st, c.elem) if c.elem is not None else ("fresh",)))
        return NONE
    if name == "copy":
        return copy_v(it, st, recv, False)
    t = mk("app", "." + name, rd(recv), *it.argterms(args, kw, st))
    if name in ("index", "count"):
        it.symty[t.uid] = "int"
        return t
    return it.alloc(st, I.ValCell(t, ("fresh",)))


def dict_meth(it, recv, c, name, args, kw, st, node):
    rd = lambda v: it.read(st, v)
    if name in ("items", "keys", "values"):
        return I.IterV(name, (recv,))
    if name == "get":
        k = rd(args[0])
        d = args[1] if len(args) > 1 else NONE
        if c.items is not None and k.op == "const":
            if cval(k) in c.items:
                v = it.norm_v(st, c.items[cval(k)])
                return v
            return d
        return it.alloc(st, I.ValCell(mk("app", ".get", rd(recv), k, rd(d)), c.origins))
    if name in ("update", "pop", "setdefault", "clear", "popitem"):
        it.event("mut", node, st, origins=c.origins, how=f"dict.{name}()", ref=recv.id)
        if name == "update":
            o = it.cell(st, args[0]) if args and isinstance(args[0], I.Ref) else None
            if c.items is not None and (not args or isinstance(o, I.DictCell) and o.items is not None) and "**" not in kw:
                st.heap[recv.id] = c.clone(items={**c.items, **(o.items if o is not None else {}), **kw})
                return NONE
        if name == "pop" and c.items is not None:
            k = rd(args[0])
            if k.op == "const":
                v = c.items.get(cval(k), args[1] if len(args) > 1 else NONE)
                st.heap[recv.id] = c.clone(items={a: b for a, b in c.items.items() if a != cval(k)})
                return v
        if name == "clear":
            st.heap[recv.id] = c.clone(items={})
            return NONE
        old = rd(recv)
        t = mk("app", "dict." + name, old, *it.argterms(args, kw, st))
        st.heap[recv.id] = c.clone(items=None, term=t, elem=c.elem or (next(iter(c.items.values()), None) if c.items else None))
        if name in ("pop", "setdefault"):
            return it.alloc(st, I.ValCell(mk("app", "dict.get", old, *it.argterms(args, kw, st)), ("fresh",)))
        return NONE
    if name == "copy":
        return copy_v(it, st, recv, False)
    t = mk("app", "." + name, rd(recv), *it.argterms(args, kw, st))
    return it.alloc(st, I.ValCell(t, ("fresh",)))


def val_meth(it, recv, c, name, args, kw, st, node):
    rd = lambda v: it.read(st, v)
    rt = rd(recv)
    isref = isinstance(recv, I.Ref)
    if name in ("sum", "mean", "std", "var", "min", "max", "prod", "any", "all", "argmax", "argmin", "cumsum", "conj", "conjugate", "round", "trace", "nonzero", "repeat",
                "searchsorted", "argsort", "dot"):
        if not (isinstance(rt, T) and rt.op in ("ext", "func", "class")):
            n = canon("np." + name)
            h = HANDLERS.get(n)
            if n == "np.conj" and h:
                return h(it, n, [recv], {}, st, node)
            if n in ("np.sum", "np.mean", "np.prod", "np.argsort") and h:
                r = h(it, n, [recv] + list(args), kw, st, node)
                if r is not None:
                    return r
            if n in it.record:
                it.event("call", node, st, func=n, args=[recv] + list(args), kw=dict(kw), selfV=None, terms=it.argterms([recv] + list(args), kw, st))
            return generic(it, n, [recv] + list(args), kw, st, node)
    if name == "clip":
        return HANDLERS["np.clip"](it, "np.clip", [recv] + list(args), kw, st, node)
    if name == "copy" and not args:
        return _ident_fresh(it, st, recv)
    if name == "astype":
        k = _intish(it, st, args[0] if args else kw.get("dtype"))
        if k == "int" and rt.op == "vec" and all(is_num(x) and isinstance(cval(x), int) or it.symty.get(x.uid) == "int" for x in rt.args):
            return _ident_fresh(it, st, recv)
        cp = kw.get("copy")
        nocopy = cp is not None and is_const(rd(cp), False)
        if k:
            t = mk("app", "astype", rt, const(k)) if not (k == "bool" and it.is_bool_term(rt)) else rt
            if k == "int" and is_num(rt) and isinstance(cval(rt), int):
                return rt
            if k == "int" and it.is_int_t(rt):
                t = rt
            return it.alloc(st, I.ValCell(t, ("fresh",)) if not nocopy else I.ViewCell(recv, ("app", "astype", (const(k),))))
        if nocopy:
            return recv
        return _ident_fresh(it, st, recv)
    if name == "flatten":
        if rt.op == "vec":
            return it.alloc(st, I.ValCell(mk("vec", *[y for x in rt.args for y in x.args]) if rt.args and rt.args[0].op == "vec" else rt, ("fresh",), ty="ndarray"))
        return it.alloc(st, I.ValCell(mk("app", "np.ravel", rt), ("fresh",)))
    if name == "ravel":
        return it.alloc(st, I.ViewCell(recv, ("app", "np.ravel", ()))) if isref else mk("app", "np.ravel", rt)
    if name in ("reshape", "transpose", "swapaxes", "squeeze", "view", "diagonal"):
        if name in ("reshape", "transpose") and len(args) > 1:
            extra = (mk("tuple", *[rd(a) for a in args]),)
        else:
            extra = tuple(rd(a) if not isinstance(a, I.StarV) else mk("star", rd(a.v)) for a in args)
            if name in ("transpose",) and len(extra) == 1:
                pass
        if name == "view":
            return recv
        if name == "reshape" and extra:
            extra = (shape_t(extra[0]),)
        n = "np." + name
        pn = PARAM_NAMES.get(n)
        if name in ("swapaxes", "squeeze", "transpose") and pn:
            extra = tuple(mk("kw", p, v) for p, v in zip(pn, extra)) + tuple(mk("kw", k, rd(v)) for k, v in sorted(kw.items()))
        if name == "transpose" and not extra:
            if isref:
                return it.alloc(st, I.ViewCell(recv, ("attr", "T")))
            return mk("attr", rt, "T")
        if not isref:
            return it.alloc(st, I.ValCell(mk("app", n, rt, *extra), ("fresh",)))
        return it.alloc(st, I.ViewCell(recv, ("app", n, extra)))
    if name in ("tolist", "item"):
        if name == "item":
            return rt
        return it.alloc(st, I.ListCell(None, rt, ("fresh",)))
    if name in ("items", "keys", "values") and not args:
        return I.IterV(name, (recv,))
    if name == "take":
        return generic(it, "np.take", [recv] + list(args), kw, st, node)
    # executors: submit / map run the function now
    if isinstance(c, I.ValCell) and (c.ty == "executor" or "Executor" in str((c.term.args or ("",))[0])) or name in ("submit",):
        if name == "submit":
            r = it.call(args[0], list(args[1:]), kw, st, node)
            it.event("submit", node, st, recv=recv, func=args[0], args=list(args[1:]))
            return it.alloc(st, FutureCell(r, rd(r)))
        if name == "map":
            it.event("submit", node, st, recv=recv, func=args[0], args=list(args[1:]))
            return call_builtin(it, "map", args, {}, st, node)
        if name == "shutdown":
            it.event("shutdown", node, st, recv=recv)
            return NONE
    if name == "result" and isinstance(c, FutureCell):
        return c.val
    if name == "result" and rt.op == "app" and rt.args[0] == "future":
        return it.alloc(st, I.ValCell(rt.args[1], ("fresh",)))
    if name == "result":
        return it.alloc(st, I.ValCell(mk("app", ".result", rt), ("fresh",)))
    if isref and name in I.MUT_METHODS and not (rt.op == "ext"):
        if name in ("put", "fill", "sort", "resize", "partition", "append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "reverse", "add", "discard", "itemset", "setfield"):
            if not (isinstance(c, I.ValCell) and c.origins == frozenset({"fresh"}) and rt.op == "app" and str(rt.args[0]).startswith("matplotlib")):
                if name == "fill":
                    v = rd(args[0])
                    it.mutate(st, recv, lambda o: v, node, ".fill()")
                    return NONE
                if name == "pop":
                    it.mutate(st, recv, lambda o: mk("app", "list.pop", o, *it.argterms(args, kw, st)), node, ".pop()")
                    return it.alloc(st, I.ValCell(mk("app", "list.popped", rt, *it.argterms(args, kw, st)), it.origins(st, recv)))
                nt = mk("app", name if name == "append" else "." + name, rt, *it.argterms(args, kw, st))
                it.mutate(st, recv, lambda o: nt, node, f".{name}()")
                return NONE
    t = mk("app", "." + name, rt, *it.argterms(args, kw, st))
    if "random" in name or rt.op == "app" and rt.args[0] == "rng":
        it.event("random", node, st, func="." + name, args=list(args), recv=rt)
        t = mk("app", "rng", "." + name, rt, *it.argterms(args, kw, st))
    it.event("ucall", node, st, callee=mk("attr", rt, name), args=list(args), kw=dict(kw), term=t, recv=recv)
    if name in ("lower", "upper", "strip", "format", "join"):
        it.symty[t.uid] = "str"
        return t
    return it.alloc(st, I.ValCell(t, ("fresh",)))


class FutureCell(I.ValCell):
    kind = "future"

    def __init__(self, val, term):
        super().__init__(mk("app", "future", term), ("fresh",))
        self.val = val


# ------------------------------------------------------------------ ASTRA: what an algorithm writes, and where
def _astra_data(it, st, v):
    """The array of a linked data object."""
    t = it.read(st, v)
    return it.__dict__.setdefault("astra_links", {}).get(t.uid), t


@handler("astra.data2d.link", "astra.data3d.link")
def h_astra_link(it, n, args, kw, st, node):
    if len(args) != 3 or kw:
        return None
    it.event("ext", node, st, func=n, args=list(args), kw={})
    k = it.__dict__.setdefault("astra_count", [0])
    k[0] += 1
    t = mk("app", "astra.link", const(k[0]), it.read(st, args[0]), it.read(st, args[1]), it.read(st, args[2]))
    it.__dict__.setdefault("astra_links", {})[t.uid] = (args[2], it.read(st, args[0]), it.read(st, args[1]))
    return t


@handler("astra.creators.astra_dict", "astra.astra_dict")
def h_astra_dict(it, n, args, kw, st, node):
    if len(args) != 1 or kw:
        return None
    it.event("ext", node, st, func=n, args=list(args), kw={})
    return it.alloc(st, I.DictCell({"type": args[0]}, origins=("fresh",)))


@handler("astra.algorithm.create")
def h_astra_algorithm(it, n, args, kw, st, node):
    c = it.cell(st, args[0]) if len(args) == 1 and not kw and isinstance(args[0], I.Ref) else None
    if not isinstance(c, I.DictCell) or c.items is None:
        return None
    it.event("ext", node, st, func=n, args=list(args), kw={})
    k = it.__dict__.setdefault("astra_count", [0])
    k[0] += 1
    t = mk("app", "astra.algorithm", const(k[0]))
    it.__dict__.setdefault("astra_algorithms", {})[t.uid] = dict(c.items)
    return t


@handler("astra.algorithm.run")
def h_astra_run(it, n, args, kw, st, node):
    cfg = it.__dict__.get("astra_algorithms", {}).get(it.read(st, args[0]).uid) if len(args) == 1 and not kw else None
    if cfg is None:
        return None
    it.event("ext", node, st, func=n, args=list(args), kw={})
    rd = lambda k: it.read(st, cfg[k]) if k in cfg else const(None)
    out = "ReconstructionDataId" if "ReconstructionDataId" in cfg else "ProjectionDataId"
    src = "ProjectionDataId" if out == "ReconstructionDataId" else "VolumeDataId"
    links = it.__dict__.get("astra_links", {})
    o, i = (links.get(rd(k).uid) for k in (out, src))
    if o is None or i is None:
        return None
    t = mk("app", "astra.run", rd("type"), const(out), rd("ProjectorId"), i[1], i[2], it.read(st, i[0]), o[1], o[2], *[mk("kw", str(k), it.read(st, v)) for k, v in sorted(cfg.items(), key=lambda x: str(x[0])) if k not in ("type", "ProjectorId", out, src)])
    it.mutate(st, o[0], lambda old: t, node, "result of an ASTRA algorithm")
    return NONE


@handler("astra.experimental.direct_FP3D", "astra.experimental.direct_BP3D")
def h_astra_direct(it, n, args, kw, st, node):
    if len(args) != 3 or kw:
        return None
    it.event("ext", node, st, func=n, args=list(args), kw={})
    i, o = (1, 2) if n.endswith("FP3D") else (2, 1)
    t = mk("app", n, it.read(st, args[0]), it.read(st, args[i]))
    it.mutate(st, args[o], lambda old: t, node, "result of an ASTRA algorithm")
    return NONE
