"""Comparison of what a function computes with a reference statement of the same formula.

Both the repository's function and the reference (a small Python function text, evaluated by the same abstract interpreter, never
executed) are turned into gated terms over the symbolic inputs; loop-carried values are named by bisimulation colours, so variable
names, statement order, helper extraction and loop spelling do not matter.  The comparison is on ordered decision diagrams over the
branch conditions with polynomial normal forms at the leaves.
"""
from __future__ import annotations
import ast
import hashlib
import textwrap
from fractions import Fraction
from .interp import Interp, State, InstCell, ListCell, DictCell, ValCell, ViewCell, Func, Ref, Tup, GV
from .model import AnalysisBroken
from .terms import (T, mk, const, app, sym, gate, assume, subterms, subst, rebuild, skey, is_const, is_num, cval, show, t_and, t_or, t_not,
                    Normalizer, from_poly, _ATOM, cond_atoms, TRUE, FALSE, NONE, ZERO, unselected)

ONE = const(1)


class TooBig(Exception):
    pass


# functions whose meaning the normal forms account for: a mismatch that only involves these (and what the reference uses) is a real one
INTERPRETED_OPS = {"const", "sym", "add", "mul", "pow", "gate", "not", "and", "or", "lt", "eq", "is", "isnone", "attr", "get", "kw", "tuple", "list",
                   "mu", "idx_", "range", "slice", "upd", "fill", "listcomp", "ext", "dict", "inst", "class", "isinst", "in", "truth", "vec"}
INTERPRETED_FN = {"concurrent.futures.as_completed", "np.transpose", "np.swapaxes", "np.moveaxis", "np.abs", "np.sqrt", "np.exp", "np.log", "np.sin", "np.cos", "max", "min", "np.sum", "np.mean", "np.max", "np.min", "np.zeros", "np.ones",
                  "np.zeros_like", "np.ones_like", "np.sign", "np.linalg.norm", "np.prod", "len", "np.arange", "np.floor", "np.ceil", "np.round", "floordiv", "mod",
                  "np.roll", "np.flip", "np.fft.fft", "np.fft.ifft", "np.fft.rfft", "np.fft.irfft", "np.fft.fftn", "np.fft.ifftn", "np.fft.rfftn", "np.fft.irfftn",
                  "np.fft.fftshift", "np.fft.ifftshift", "np.conj", "np.real", "np.imag", "np.std", "np.var", "np.median", "np.cumsum", "np.diff", "float", "int", "np.full",
                  "np.where", "np.any", "np.all", "np.argmax", "np.argmin", "np.degrees", "np.radians", "np.tan", "np.arctan2", "np.arctan", "np.arcsin", "np.arccos", "np.sinh", "np.cosh", "np.tanh", "np.concatenate", "np.stack", "np.log10", "np.log2"}


def is_size(t):
    return t.op == "attr" and t.args[1] == "size" or t.op == "get" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and is_num(t.args[1])


SEQ_ARG = {"np.stack", "np.concatenate", "np.hstack", "np.vstack", "np.dstack", "np.column_stack", "np.sum", "np.max", "np.min", "np.mean", "np.prod", "np.any", "np.all", "np.std", "np.var", "np.median"}


AS_COMPLETED = "concurrent.futures.as_completed"


def by_completion(t, seen=None):
    """Whether the value depends on the order in which tasks complete (other than by the rounding of a sum)."""
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t.uid in seen:
        return False
    seen.add(t.uid)
    if t.op == "app" and t.args[0] == AS_COMPLETED:
        return True
    if t.op == "app" and t.args[0] in ("np.sum", "sum", "np.max", "np.min", "np.mean", "len", "np.any", "np.all"):
        return False
    return any(by_completion(x, seen) for x in t.args)


def plain_index(i):
    return all(x.op == "slice" or is_num(x) and isinstance(cval(x), int) for x in (i.args if i.op == "tuple" else [i]))


def disjoint(i, j):
    """Whether two indices never select the same item."""
    p, q = (list(x.args) if x.op == "tuple" else [x] for x in (i, j))
    plain = lambda x: x.op == "slice" or is_num(x) and isinstance(cval(x), int)
    if not all(map(plain, p + q)):
        return False
    return any(is_num(x) and is_num(y) and cval(x) != cval(y) and (cval(x) < 0) == (cval(y) < 0) for x, y in zip(p, q))


def nf_rewrite(t, N):
    """Semantic identities applied while normalising."""
    if t.op == "app":
        n = t.args[0]
        if n == "updview" and len(t.args) == 4:
            # writing through a view which covers the whole array
            old, k, new = t.args[1:]
            v = k.args[1].args[0] if k.op == "app" and k.args[0] == "viewof" else k.args[1] if k.op == "attr" else None
            if v in ("np.reshape", "np.ravel"):
                return mk("app", "np.reshape", new, mk("attr", old, "shape"))
            if v == "T":
                return mk("attr", new, "T")
            if v == "np.swapaxes":
                return mk("app", v, new, *k.args[2:])
            if v in ("np.expand_dims", "np.squeeze") and len(k.args) == 3 and k.args[2].op == "kw" and k.args[2].args[0] == "axis":
                return mk("app", "np.squeeze" if v == "np.expand_dims" else "np.expand_dims", new, k.args[2])
        if n in ("np.linalg.norm", "np.sum", "np.mean", "np.std", "np.var", "np.min", "np.max") and len(t.args) == 2 and isinstance(t.args[1], T) and t.args[1].op == "app" and t.args[1].args[0] in ("np.flip", "np.roll", "np.fft.fftshift", "np.fft.ifftshift"):
            return mk("app", n, t.args[1].args[1])  # re-ordered elements
        if n in SEQ_ARG and len(t.args) > 1 and t.args[1].op == "tuple":
            return mk("app", n, mk("list", *t.args[1].args), *t.args[2:])
        if n in ("max", "min") and len(t.args) == 3 and all(a.op != "kw" for a in t.args[1:]):
            u = sorted((N.term(a) for a in t.args[1:]), key=skey)
            if u != list(t.args[1:]):
                return u[0] if u[0] is u[1] else mk("app", n, *u)
        if n == "np.sum" and len(t.args) == 3 and t.args[1].op == "listcomp" and t.args[2].op == "kw" and t.args[2].args[0] == "axis" and t.args[2].args[1] is ZERO:
            return mk("app", "accum", t.args[1])
        if n == "accum" and len(t.args) == 2 and t.args[1].op == "listcomp" and len(t.args[1].args) == 3:
            # sums are linear in what is added up
            ix, g, cnt = t.args[1].args
            p = N.poly(g)
            out, same = ZERO, len(p) == 1
            for m, c in p.items():
                inn = {a: e for a, e in m if any(y is ix for y in subterms(_ATOM[a]))}
                same = same and c == 1 and len(inn) == len(m)
                k = from_poly({tuple((a, e) for a, e in m if a not in inn): c})
                out = mk("add", out, mk("mul", k, mk("app", n, mk("listcomp", ix, from_poly({tuple((a, e) for a, e in m if a in inn): Fraction(1)}), cnt)) if inn else cnt))
            if not same:
                return out
        if n in ("np.stack", "np.concatenate") and len(t.args) == 3 and t.args[2].op == "kw" and t.args[2].args[0] == "axis" and t.args[2].args[1] is ZERO:
            return mk("app", n, t.args[1])  # the default
        if n == "np.sum" and len(t.args) == 2 and t.args[1].op == "vec" and t.args[1].args and not any(x.op in ("vec", "list", "tuple") for x in t.args[1].args):
            return mk("add", *t.args[1].args) if len(t.args[1].args) > 1 else t.args[1].args[0]
        if n == "np.any" and len(t.args) == 2 and t.args[1].op == "not":
            return mk("not", mk("app", "np.all", t.args[1].args[0]))
        if any(isinstance(a, T) and a.op == "kw" and a.args[0] in ("axes", "axis") and a.args[1].op == "app" and a.args[1].args[0] == "np.arange" for a in t.args[1:]):
            return mk("app", n, *[mk("kw", a.args[0], mk("range", *a.args[1].args[1:])) if isinstance(a, T) and a.op == "kw" and a.args[1].op == "app" and a.args[1].args[0] == "np.arange" else a for a in t.args[1:]])
        if n == "listcat" and len(t.args) == 3 and t.args[1].op == "listcomp" and t.args[2].op == "list" and len(t.args[2].args) == 1:
            # [f(x) for x in s[:-1]] + [f(s[-1])]
            ix, g, cnt = t.args[1].args
            src = {x.args[0] for x in subterms(g) if x.op == "get" and x.args[1] is ix}
            if len(src) == 1 and sum(y is ix for x in subterms(g) for y in x.args) == sum(x.op == "get" and x.args[1] is ix for x in subterms(g)):
                q = src.pop()
                full = mk("app", "len", q)
                if N.poly(mk("add", cnt, ONE)) == N.poly(full) and N.term(subst(g, lambda x: mk("get", q, const(-1)) if x.op == "get" and x.args == (q, ix) else None)) is N.term(t.args[2].args[0]):
                    nx = mk("idx_", full, *ix.args[1:])
                    return mk("listcomp", nx, subst(g, lambda x: nx if x is ix else None), full)
        if n == "np.abs" and len(t.args) == 2 or n == "np.linalg.norm" and len(t.args) in (2, 3) and all(a.op == "kw" for a in t.args[2:]):
            p = N.poly(t.args[1])
            if p:
                items = sorted(p.items(), key=lambda kv: tuple((skey(_ATOM[a]), e) for a, e in kv[0]))
                c = items[0][1]
                if not isinstance(c, complex):
                    if len(p) == 1:
                        if abs(c) != 1 or c < 0:
                            return _mulc(abs(c), mk("app", n, from_poly({items[0][0]: Fraction(1)}), *t.args[2:]))
                    elif c < 0:
                        return mk("app", n, from_poly({m: -k for m, k in p.items()}), *t.args[2:])
        if n == "np.where" and len(t.args) == 4 and isinstance(t.args[1], T) and t.args[1].op == "lt":
            # where(a < b, a, b) is the smaller of the two
            c, u, v = t.args[1:]
            p = N.poly(mk("add", c.args[0], mk("mul", const(-1), c.args[1])))
            d = N.poly(mk("add", u, mk("mul", const(-1), v)))
            if p and p.keys() == d.keys():
                k = {d[m] / p[m] for m in p} if not any(isinstance(z, complex) for z in (*p.values(), *d.values())) else ()
                if len(k) == 1:
                    return mk("app", "min" if k.pop() > 0 else "max", *sorted((N.term(u), N.term(v)), key=skey))
        if n == "np.ravel" and len(t.args) == 2 and t.args[1].op == "app" and t.args[1].args[0] == "np.abs" and len(t.args[1].args) == 2:
            return mk("app", "np.abs", mk("app", n, t.args[1].args[1]))
        if n in ("np.sum", "np.mean", "np.max", "np.min", "np.std", "np.var") and len(t.args) == 2 and t.args[1].op == "app" and t.args[1].args[0] == "np.ravel" and len(t.args[1].args) == 2:
            return mk("app", n, t.args[1].args[1])
        if n in ("np.sum", "np.mean", "np.max", "np.min") and len(t.args) == 2 and t.args[1].op == "app" and t.args[1].args[0] == "np.abs" and t.args[1].args[1].op == "app" and t.args[1].args[1].args[0] == "np.ravel" and len(t.args[1].args[1].args) == 2:
            return mk("app", n, mk("app", "np.abs", t.args[1].args[1].args[1]))
        if n == "np.linalg.norm" and len(t.args) == 3 and t.args[2].op == "kw" and t.args[2].args[0] == "ord" and is_const(t.args[2].args[1], 1):
            x, flat = t.args[1], False
            while x.op == "app" and x.args[0] in ("np.abs", "np.ravel") and len(x.args) == 2:
                flat = flat or x.args[0] == "np.ravel"
                x = x.args[1]
            if flat:
                return mk("app", "np.sum", mk("app", "np.abs", x))
        if n == "np.linalg.norm" and len(t.args) >= 2 and t.args[1].op == "app" and t.args[1].args[0] == "np.abs" and len(t.args[1].args) == 2:
            return mk("app", n, t.args[1].args[1], *t.args[2:])
        if n == "np.linalg.norm" and len(t.args) >= 2 and t.args[1].op == "app" and t.args[1].args[0] == "np.ravel" and len(t.args[1].args) == 2:
            # the 2-norm of the flattened array is the default norm
            rest = t.args[2:]
            if not rest or (len(rest) == 1 and rest[0].op == "kw" and rest[0].args[0] == "ord" and rest[0].args[1] in (const(2), NONE)):
                return mk("app", n, t.args[1].args[1])
    if t.op == "app" and t.args[0] == "np.sum" and len(t.args) in (2, 3) and (len(t.args) == 2 or t.args[2].op == "kw" and t.args[2].args[0] == "axis"):
        # the sum of squares is the square of the norm
        q, c = t.args[1], ONE
        if q.op == "mul" and len(q.args) == 2 and is_num(q.args[0]):
            c, q = q.args
        r = None
        if q.op == "pow" and is_const(q.args[1], 2):
            r = q.args[0]
        elif q.op == "mul" and len(q.args) == 2 and q.args[0] is q.args[1]:
            r = q.args[0]
        elif q.op == "mul" and all(x.op == "pow" and is_const(x.args[1], 2) for x in q.args):
            r = mk("mul", *[x.args[0] for x in q.args])
        if r is not None and r.op not in ("vec", "list", "tuple"):
            return mk("mul", c, mk("pow", mk("app", "np.linalg.norm", r, *t.args[2:]), const(2)))
    if t.op == "app" and (t.args[0] in ("np.vdot", "np.dot", "np.inner")) and len(t.args) == 3 and all(isinstance(x, T) for x in t.args[1:]) and (t.args[0] == "np.vdot" or t.args[1].op == "app" and t.args[1].args[0] == "np.ravel"):
        u, v = (x.args[1] if x.op == "app" and x.args[0] == "np.ravel" else x for x in t.args[1:])
        if N.term(u) is N.term(v):
            return mk("pow", mk("app", "np.linalg.norm", u), const(2))
    if t.op in ("add", "mul"):
        ta = [a for x in t.args for a in (x.args if x.op == t.op else (x,))]
        ta = [N.term(a) if a.op == "upd" else a for a in ta]
        vs = [a for a in ta if a.op == "vec"]
        if len(vs) > 1 and len({len(v.args) for v in vs}) == 1 and not any(x.op in ("vec", "list", "tuple") for v in vs for x in v.args):
            r = mk("vec", *[N.term(mk(t.op, *x)) for x in zip(*[v.args for v in vs])])
            rest = [a for a in ta if a.op != "vec"]
            return mk(t.op, *rest, r) if rest else r
    if t.op == "upd" and t.args[0].op == "vec" and is_num(t.args[1]) and isinstance(cval(t.args[1]), int) and -len(t.args[0].args) <= cval(t.args[1]) < len(t.args[0].args) \
            and not any(x.op in ("vec", "list", "tuple") for x in (*t.args[0].args, t.args[2])):
        w = list(t.args[0].args)
        w[cval(t.args[1])] = t.args[2]
        return mk("vec", *w)
    if t.op == "upd" and t.args[0].op == "upd" and t.args[1] is t.args[0].args[1] and plain_index(t.args[1]):
        return N.term(mk("upd", t.args[0].args[0], t.args[1], t.args[2]))  # overwritten
    if t.op == "upd" and t.args[0].op == "upd" and disjoint(t.args[1], t.args[0].args[1]) and skey(t.args[1]) < skey(t.args[0].args[1]):
        b, j, w = t.args[0].args
        return mk("upd", N.term(mk("upd", b, t.args[1], t.args[2])), j, w)  # different parts of the array, in any order
    if t.op == "app" and t.args[0] == "np.swapaxes" and len(t.args) == 4:
        i, j = (a.args[1] if a.op == "kw" else a for a in t.args[2:])
        if is_num(i) and is_num(j) and cval(i) > cval(j):
            return mk("app", "np.swapaxes", t.args[1], *[mk("kw", a.args[0], v) if a.op == "kw" else v for a, v in zip(t.args[2:], (j, i))])
    if t.op == "upd" and t.args[2].op in ("get", "add", "mul") and t.args[1].op != "gate":
        v = N.term(t.args[2])
        if v.op == "get" and v.args[0] is N.term(t.args[0]) and v.args[1] is N.term(t.args[1]):
            return t.args[0]  # x[i] = x[i]
    if t.op == "app" and any(a.op == "kw" and a.args[0] in ("axes", "axis") and a.args[1].op in ("vec", "list") for a in t.args[1:] if isinstance(a, T)):
        return mk("app", t.args[0], *[mk("kw", a.args[0], mk("tuple", *a.args[1].args)) if isinstance(a, T) and a.op == "kw" and a.args[0] in ("axes", "axis") and a.args[1].op in ("vec", "list") else a for a in t.args[1:]])
    if t.op == "app" and t.args[0] in ("np.all", "np.any") and len(t.args) >= 2 and t.args[1].op == "mul" and all(f.op in ("lt", "eq", "not", "and", "or") for f in t.args[1].args):
        return mk("app", t.args[0], t_and(*t.args[1].args), *t.args[2:])  # a product of conditions
    if t.op == "truth" and t.args[0].op == "app" and t.args[0].args[0] == "np.any" and len(t.args[0].args) == 2 and t.args[0].args[1].op == "not":
        return mk("not", mk("truth", mk("app", "np.all", t.args[0].args[1].args[0])))
    if t.op == "lt":
        a, b = t.args
        if is_size(b) and is_num(a) and isinstance(cval(a), int) and cval(a) == 1:
            return mk("not", mk("eq", ONE, b))  # arrays are not empty
        if is_size(a) and is_num(b) and isinstance(cval(b), int) and cval(b) == 2:
            return mk("eq", ONE, a)
        if (a.op not in ("sym", "attr", "get") or not is_num(b)) and not (is_num(a) and b.op in ("sym", "attr", "get", "mu")) and b is not ZERO:
            # a < b  <=>  a - b < 0, scaled by a positive constant
            p = N.poly(mk("add", a, mk("mul", const(-1), b)))
            if p and not any(isinstance(c, complex) for c in p.values()):
                c0 = min(p.items(), key=lambda kv: tuple((skey(_ATOM[x]), e) for x, e in kv[0]))[1]
                q = from_poly({m: c / abs(c0) for m, c in p.items()})
                return mk("lt", q, ZERO)
    return None


def _mulc(c, t):
    return t if c == 1 else mk("mul", const(int(c) if getattr(c, "denominator", 1) == 1 else c), t)


class Canon:
    def __init__(self, it: Interp, rounds=6, budget=6000, linear=()):
        self.it = it
        self.loops = {L.id: L for L in it.loops}
        self.rounds = rounds
        self.budget = budget
        self.linear = linear
        self.unknown = set()
        self.col = {}
        self._cnt = {}
        self._acc = None

    # ---- loops
    def counter(self, L):
        """`i = 0; while i < n: ...; i += 1` is `for i in range(n)`: (the loop-carried counter, n)."""
        if L.id in self._cnt:
            return self._cnt[L.id]
        self._cnt[L.id] = None
        if L.idx is None and L.iter is not None:
            c, neg = L.iter, False
            if c.op == "not":
                c, neg = c.args[0], True
            if c.op == "lt":
                i, n = (c.args[1], c.args[0]) if neg else c.args
                d = L.mus.get(i.args[1]) if i.op == "mu" and i.args[0] == L.id else None
                if d and not neg and d[0] is ZERO and d[1] is mk("add", i, const(1)) and not any(x.op == "mu" and x.args[0] == L.id for x in subterms(n)):
                    self._cnt[L.id] = (i, n)
        return self._cnt[L.id]

    def _sums(self):
        """Loops that only add up: the value they end with is the sum (by uid of the loop-carried value)."""
        if self._acc is not None:
            return self._acc
        self._acc = {}
        for L in self.loops.values():
            c = self.counter(L)
            ix = L.idx if L.idx is not None and L.idx.op == "idx_" else mk("idx_", c[1], L.depth) if c else None
            if ix is None or L.breaks:
                continue
            own = {k: {x.args[1] for y in d if y is not None for x in subterms(y) if x.op == "mu" and x.args[0] == L.id} for k, d in L.mus.items() if d}
            for k, d in L.mus.items():
                if not d or d[0] is None or d[1] is None or any(k in o for j, o in own.items() if j != k):
                    continue
                m = mk("mu", L.id, k)
                if not (is_num(d[0]) or d[0].op in ("sym", "app", "attr", "get", "add", "mul")) or d[0].op == "app" and d[0].args[0] in ("np.empty", "list", "tuple"):
                    continue
                g = self._delta(self._decount0(d[1]), m)
                if g is not None and not any(x.op in ("mu", "brk") and x.args[0] == L.id for x in subterms(g)):
                    self._acc[m.uid] = mk("add", d[0], mk("app", "accum", mk("listcomp", ix, g, ix.args[0])))
        return self._acc

    def _delta(self, n, m):
        if n is m:
            return ZERO
        if n.op == "gate" and not any(x is m for x in subterms(n.args[0])):
            a, b = self._delta(n.args[1], m), self._delta(n.args[2], m)
            return gate(n.args[0], a, b) if a is not None and b is not None else None
        if n.op == "add" and sum(x is m for x in n.args) == 1:
            rest = [x for x in n.args if x is not m]
            if not any(y is m for x in rest for y in subterms(x)):
                return mk("add", *rest) if len(rest) > 1 else rest[0]
        return None

    def _decount(self, t):
        acc = self._sums()
        t = self._decount0(t)
        for _ in range(4):
            if not acc or not any(x.uid in acc for x in subterms(t)):
                break
            t = self._decount0(subst(t, lambda x: acc.get(x.uid)))
        return t

    def _decount0(self, t):
        cs = {c[0].uid: (c[1], L.depth) for L in self.loops.values() for c in [self.counter(L)] if c}
        if not cs:
            return t
        return subst(t, lambda x: mk("idx_", *cs[x.uid]) if x.uid in cs else None)

    def structure(self):
        """Shape of the loops that the compared values go through: used to tell 'different formula' from 'organised differently'."""
        seen = {}
        flags = 0
        for x, L, d in self._mus.values():
            seen[L.id] = "while" if L.idx is None and self.counter(L) is None else "for"
            if d[0].op == "const" and (d[0].args[0] is None or isinstance(d[0].args[0], (bool, str))) and d[1] is not d[0]:
                flags += 1
        return sorted(seen.values()), flags

    def _loop_terms(self, L):
        """Terms that identify the loop itself: trip count and the break conditions."""
        it = L.iter
        if L.idx is not None and L.idx.op == "idx_":
            it = L.idx.args[0]
        c = self.counter(L)
        if c is not None:
            it = c[1]
        out = [it]
        for pc, _ in L.breaks:
            out.append(pc)
        return out

    def prepare(self, roots):
        """Discover the loop-carried values reachable from roots and compute their colours."""
        seen, todo = set(), [self._decount(r) for r in roots]
        mus, brks = {}, {}
        while todo:
            t = todo.pop()
            for x in subterms(t):
                if x.op in ("mu", "brk") and x.uid not in seen:
                    seen.add(x.uid)
                    L = self.loops.get(x.args[0])
                    if L is None:
                        self.unknown.add(x.op)
                        continue
                    for y in self._loop_terms(L):
                        todo.append(self._decount(y))
                    if x.op == "mu":
                        d = L.mus.get(x.args[1])
                        if d is None or d[0] is None or d[1] is None:
                            self.unknown.add("mu")
                            continue
                        d = tuple(self._decount(y) for y in d)
                        mus[x.uid] = (x, L, d)
                        todo.extend(d)
                    else:
                        brks[x.uid] = (x, L)
        self.defs = {}
        col = {u: "m" for u in mus}
        bcol = {u: "b" for u in brks}
        for r in range(self.rounds if (mus or brks) else 0):
            memo = {}

            def sub(t):
                return self.canon(self._paint(t, mus, brks, col, bcol, memo))
            lcol = {}

            def loopcol(L):
                if L.id not in lcol:
                    lcol[L.id] = "|".join(skey(sub(self._decount(x))) for x in self._loop_terms(L))
                return lcol[L.id]
            n1 = {}
            for u, (x, L, d) in mus.items():
                i, n = sub(d[0]), sub(d[1])
                n1[u] = self._h("mu", loopcol(L), skey(i), skey(n))
                if r == self.rounds - 1:
                    self.defs[n1[u]] = (i, n, loopcol(L))
            n2 = {u: self._h("brk", loopcol(L), str(x.args[1]) if len(L.breaks) > 1 else "", skey(sub(self._decount(L.breaks[x.args[1]][0])))) for u, (x, L) in brks.items()}
            col, bcol = n1, n2
        self._mus, self._brks, self._col, self._bcol = mus, brks, col, bcol

    def _h(self, *a):
        return hashlib.blake2b("\0".join(a).encode(), digest_size=8).hexdigest()

    def _paint(self, t, mus, brks, col, bcol, memo):
        def f(x):
            if x.uid in mus:
                return mk("mu", "", col[x.uid])
            if x.uid in brks:
                return mk("brk", "", bcol[x.uid])
            return None
        return subst(t, f, memo)

    def value(self, t):
        t = self._decount(t)
        return self.canon(self._paint(t, self._mus, self._brks, self._col, self._bcol, {}))

    # ---- decision diagrams with normal-form leaves
    def canon(self, t):
        self.n = 0
        N = Normalizer(rewrite=nf_rewrite, linear=self.linear)
        memo, done = {}, set()

        def rec(x):
            if x.uid in memo:
                return memo[x.uid]
            self.n += 1
            if self.n > self.budget:
                raise TooBig()
            pick, norm = None, {}
            for a in cond_atoms(x):
                if not any(y.op == "gate" for y in subterms(a)):
                    n = a if a.uid in done else N.term(a)
                    done.add(n.uid)
                    if n is not a:
                        norm[a.uid] = n
                    pick = a if pick is None else pick
            if norm:
                # conditions in normal form, so that both sides decide them in the same order
                r = memo[x.uid] = rec(subst(x, lambda y: norm.get(y.uid)))
                return r
            if pick is None:
                r = N.term(x)
            else:
                y, z = rec(self._from_end(assume(x, pick, True), pick)), rec(assume(x, pick, False))
                if y is z or unselected(pick, y, z):
                    r = y
                elif self._same_when_equal(x, pick, rec):
                    r = z
                else:
                    r = mk("gate", N.term(pick), y, z)
            memo[x.uid] = r
            return r
        x = self._gatepre(t, N)
        r = rec(x)
        # ordering of the atoms was by un-normalised key: normalise conditions first, so this is stable
        return r

    @staticmethod
    def _from_end(x, c):
        """Positions counted from the end of an array whose length the condition states."""
        if c.op != "eq" or not any(is_num(a) for a in c.args):
            return x
        k, s = c.args if is_num(c.args[0]) else c.args[::-1]
        k = cval(k)
        if not (isinstance(k, int) and s.op == "get" and is_const(s.args[1], 0) and s.args[0].op == "attr" and s.args[0].args[1] == "shape"):
            return x
        arr = s.args[0].args[0]

        def has(t):
            return t is arr or t.op in ("add", "mul") and any(has(y) for y in t.args)

        def f(t):
            if t.op == "get" and isinstance(t.args[1], T) and is_num(t.args[1]) and isinstance(cval(t.args[1]), int) and -k <= cval(t.args[1]) < 0 and has(t.args[0]):
                return mk("get", subst(t.args[0], f), const(cval(t.args[1]) + k))
            return None
        return subst(x, f)

    @staticmethod
    def _same_when_equal(x, c, rec):
        """x does not depend on the test a == b: the branch taken when it holds is the other branch with a replaced by b."""
        if c.op != "eq" or any(not isinstance(a, T) or a.op == "const" for a in c.args):
            return False
        a, b = c.args
        swap = lambda t: subst(t, lambda y: b if y is a else None)
        return rec(swap(assume(x, c, True))) is rec(swap(assume(x, c, False)))

    def _gatepre(self, t, N):
        """Normalise branch conditions so that the same condition has the same key on both sides."""
        memo = {}

        def f(x):
            if x.op in ("lt", "eq", "in", "isinst", "truth") and not any(y.op == "gate" for y in subterms(x)):
                return N.term(x)
            return None
        return subst(t, f, memo)


def vocabulary(it, roots, canon=None):
    ops, fns, syms, lits = set(), set(), set(), set()
    seen = set()
    todo = list(roots)
    loops = {L.id: L for L in it.loops}
    done = set()
    while todo:
        t = todo.pop()
        for x in subterms(t):
            if x.uid in seen:
                continue
            seen.add(x.uid)
            ops.add(x.op)
            if x.op == "app":
                fns.add(x.args[0] if isinstance(x.args[0], str) else "?")
            elif x.op == "sym":
                syms.add(x.args[0])
            elif x.op in ("mu", "brk") and (x.args[0], x.args[1]) not in done:
                done.add((x.args[0], x.args[1]))
                L = loops.get(x.args[0])
                if L is None:
                    continue
                if L.iter is not None:
                    todo.append(L.iter)
                todo += [b[0] for b in L.breaks]
                if x.op == "mu" and L.mus.get(x.args[1]):
                    todo += [y for y in L.mus[x.args[1]] if y is not None]
    return ops, fns, syms


def iterated(it, roots):
    """Functions whose result, of a length that is not known, is gone through item by item."""
    out = set()

    def note(n):
        if n is not None and n.op == "app" and n.args[0] == "len":
            x = n.args[1]
            while x.op in ("get", "attr"):
                x = x.args[0]
            if x.op == "app" and isinstance(x.args[0], str) and "." in x.args[0] and not x.args[0].startswith(("np.", "scipy.")):
                out.add(x.args[0])
    todo, done, seen = list(roots), set(), set()
    loops = {L.id: L for L in it.loops}
    while todo:
        for x in subterms(todo.pop()):
            if x.uid in seen:
                continue
            seen.add(x.uid)
            if x.op == "idx_":
                note(x.args[0])
            elif x.op == "listcomp":
                note(x.args[2])
            elif x.op in ("mu", "brk") and x.args not in done and x.args[0] in loops:
                done.add(x.args)
                L = loops[x.args[0]]
                todo += [b[0] for b in L.breaks] + ([y for y in L.mus[x.args[1]] if y is not None] if x.op == "mu" and L.mus.get(x.args[1]) else [])
    return out


def value_syms(t, defs):
    """Input symbols whose value enters a canonical term (not only their shape, nor only a condition)."""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == "sym":
            out.add(x.args[0])
        elif x.op == "gate":
            todo += x.args[1:]
        elif x.op == "attr" and x.args[1] in ("shape", "ndim", "size", "dtype"):
            pass
        elif x.op == "app" and x.args[0] in ("len", "np.zeros_like", "np.ones_like", "np.empty_like", "np.shape", "np.size", "np.ndim", "np.reshape", "fill"):
            todo += x.args[1:2] if x.args[0] in ("np.reshape",) else ()
        elif x.op == "mu":
            todo += [d for d in defs.get(x.args[1], ())[:2]]
        else:
            todo += [a for a in x.args if isinstance(a, T)]
    return out


class Side:
    """One evaluated side: interpreter, final state, observable terms."""

    def __init__(self, prog, mod, cls, node, opaque=(), preset=None, selfcls=None, extra=None, exact=True, observe_self=True, linear=()):
        it = Interp(prog, opaque=opaque)
        self.it = it
        st = State()
        selfV = None
        decs = [ast.unparse(d) for d in node.decorator_list]
        if cls is not None and "staticmethod" not in decs:
            if "classmethod" in decs:
                from .interp import Cls
                selfV = Cls(selfcls or cls)
            else:
                selfV = it.alloc(st, InstCell(selfcls or cls, sym("self"), {"self"}, open_=True, exact=exact))
        pre = preset(it, st) if preset else None
        self.params0 = None
        f = Func(node, mod, 0, cls, selfV)
        env = it.abstract_args(f, st, pre)
        if selfV is not None and node.args.args:
            env[node.args.args[0].arg] = selfV
        self.env = dict(env)
        self.selfV = selfV
        init_terms = {k: it.read(st, v) for k, v in env.items() if v is not selfV}
        from .interp import Abort
        try:
            self.v = it.run(f, env, st, node)
        except Abort:
            self.v = None
        self.st = st
        obs = {}
        if self.v is not None:
            obs["return"] = self.deep(self.v)
            if self.selfV is not None and isinstance(self.selfV, Ref) and observe_self:
                c = it.cell(st, self.selfV)
                for a, x in sorted(c.attrs.items()):
                    tx = self.deep(x)
                    if tx.op == "attr" and tx.args[1] == a and tx.args[0] is sym("self"):
                        continue
                    obs[f"self.{a}"] = tx
            for k, x in env.items():
                if isinstance(x, Ref) and x is not selfV:
                    tx = self.deep(x)
                    if tx is not init_terms[k]:
                        obs[f"argument {k}"] = tx
        self.obs = obs
        rej = []
        for e in it.events:
            if e.kind == "raise" and not e.data.get("caught") and e.data.get("text") != "reraise":
                rej.append(t_and(*[c if val else t_not(c) for c, val in e.pc]))
        # without the errors of a failed call that is tried (and reported) in a handler
        exc = lambda x: FALSE if x.op == "sym" and str(x.args[0]).startswith("exc:") else None
        self.rejects = gate(t_or(*[subst(x, exc) for x in rej]), const("an error"), const("accepted")) if rej else const("accepted")

    def deep(self, v):
        it, st = self.it, self.st
        if isinstance(v, Ref):
            c = it.cell(st, v)
            if isinstance(c, InstCell) and c.term is not None and c.attrs and "fresh" in c.origins:
                return mk("inst", c.cls.qual, c.term, *[mk("kw", k, it.read(st, x)) for k, x in sorted(c.attrs.items())])
        if isinstance(v, Tup):
            return mk("tuple", *[self.deep(x) for x in v.items])
        if isinstance(v, GV):
            return gate(v.c, self.deep(v.a), self.deep(v.b))
        return it.read(st, v)


def parse_ref(src):
    t = ast.parse(textwrap.dedent(src)).body
    fns = [x for x in t if isinstance(x, ast.FunctionDef)]
    return fns[0]


def rename_loops(it, old, new):
    pass


def compare(chk, prog, qual, ref_src, rule, what, opaque=(), preset=None, only=None, ignore=(), selfcls=None, extra_vocab=(), post=None, linear=(), site=None,
            strict_syms=True):
    """Compare repository function `qual` with the reference text.  Records ok / finding / undecided on chk."""
    r = prog.find_func(qual)
    if r is None:
        chk.undecide(rule, qual, "function not found")
        chk.gone.append(qual)
        return None
    mod, cls, node = r
    ref = parse_ref(ref_src)
    ref.decorator_list = node.decorator_list
    # parameters: the reference uses the names of the repository's function, positionally
    try:
        a = Side(prog, mod, cls, node, opaque, preset, selfcls)
        b = Side(prog, mod, cls, ref, opaque, preset, selfcls)
    except RecursionError:
        chk.undecide(rule, qual, "recursion limit")
        return None
    chk.units |= a.it.analysed
    return compare_sides(chk, a, b, qual, rule, what, (mod.path, node.lineno, qual), only, ignore, extra_vocab, post, linear)


def established(pc):
    """What the conditions passed by every path say of lengths: a rewriting, or None."""
    rep, low = {}, {}
    N = Normalizer()

    def lit(c, v):
        while c.op == "not":
            c, v = c.args[0], not v
        if c.op == "and" and v or c.op == "or" and not v:
            for x in c.args:
                lit(x, v)
        elif c.op == "eq" and v and all(is_size(x) or is_num(x) for x in c.args):
            x, y = sorted(c.args, key=lambda x: (not is_num(x), skey(x)))
            if not is_num(y):
                rep[y] = x
        elif c.op == "lt" and not v and is_size(c.args[0]) and is_num(c.args[1]) and isinstance(cval(c.args[1]), int):
            low[c.args[0]] = max(low.get(c.args[0], 0), cval(c.args[1]))
    for c, v in pc:
        if isinstance(v, bool):
            lit(N.term(c), v)
    if not rep and not low:
        return None
    bound = dict(low)
    for y, x in rep.items():
        m = max(low.get(x, 0), low.get(y, 0))
        bound[y] = max(bound.get(y, 0), m)
        if not is_num(x):
            bound[x] = max(bound.get(x, 0), m)

    def f(t):
        if t in rep:
            return rep[t]
        if t.op == "app" and t.args[0] == "mod" and len(t.args) == 3 and is_num(t.args[1]) and isinstance(cval(t.args[1]), int) and t.args[2] in bound and -bound[t.args[2]] <= cval(t.args[1]) < bound[t.args[2]]:
            n = rep.get(t.args[2], t.args[2])
            return mk("add", n, t.args[1]) if cval(t.args[1]) < 0 else t.args[1]
        return None
    return f


def split_extrema(t, it):
    """The smaller (larger) of two numbers as a case split."""
    def f(x):
        if x.op == "app" and x.args[0] in ("min", "max") and len(x.args) == 3 and all(isinstance(a, T) and a.op != "kw" and it.is_scalar_t(a) for a in x.args[1:]):
            a, b = (subst(y, f) for y in x.args[1:])
            return gate(mk("lt", a, b), a, b) if x.args[0] == "min" else gate(mk("lt", a, b), b, a)
        return None
    return subst(t, f)


def same_otherwise(ca, cb, a, b, k, x, y, isint):
    """Whether the values are the same in another form: with the smaller of two numbers as a case split, with what is established of the lengths."""
    def using(s):
        f = established(s.st.pc)
        return lambda t: subst(t, f) if f else t
    forms = []
    ea, eb = using(a), using(b)
    if established(a.st.pc) or established(b.st.pc):
        forms.append((ea, eb))
    if any(z.op == "app" and z.args[0] in ("min", "max") for t in (x, y) for z in subterms(t)):
        forms.append((lambda t: split_extrema(t, a.it), lambda t: split_extrema(t, b.it)))
    try:
        for fa, fb in forms:
            xs, ys = ca.value(fa(a.obs[k])), cb.value(fb(b.obs[k]))
            if xs is ys or differs(xs, ys, isint) is None:
                return True
    except (TooBig, OverflowError, RecursionError):
        pass
    return False


def compare_sides(chk, a, b, qual, rule, what, site, only=None, ignore=(), extra_vocab=(), post=None, linear=(), twin=False):
    keys = [k for k in sorted(set(a.obs) | set(b.obs)) if (only is None or k in only) and k not in ignore]
    if post:
        a.obs = {k: post(k, t, a) for k, t in a.obs.items()}
        b.obs = {k: post(k, t, b) for k, t in b.obs.items()}
    for s in (a, b):
        # lengths established by the checks that every returning path passed
        for c, v in s.st.pc:
            if v is True and c.op == "eq":
                s.obs = {k: Canon._from_end(t, c) for k, t in s.obs.items()}
    okall = True
    ra, rb = [a.obs[k] for k in keys if k in a.obs], [b.obs[k] for k in keys if k in b.obs]
    try:
        ca, cb = Canon(a.it, linear=linear), Canon(b.it, linear=linear)
        ca.prepare(ra)
        cb.prepare(rb)
        va = {k: ca.value(a.obs[k]) for k in keys if k in a.obs}
        vb = {k: cb.value(b.obs[k]) for k in keys if k in b.obs}
    except (TooBig, OverflowError, RecursionError) as e:
        chk.undecide(rule, qual, f"comparison too large ({type(e).__name__})")
        return None
    for k in keys:
        x, y = va.get(k), vb.get(k)
        if x is y:
            chk.ok(rule, f"{qual}: {k}")
            continue
        conds = []
        if x is not None and y is not None:
            isint = lambda t: is_size(t) or t.op == "app" and t.args[0] == "len" or t.op == "attr" and t.args[1] == "ndim" or a.it.symty.get(t.uid) == "int"
            w = differs(x, y, isint)
            if w is None:
                chk.ok(rule, f"{qual}: {k}")
                continue
            if same_otherwise(ca, cb, a, b, k, x, y, isint):
                chk.ok(rule, f"{qual}: {k}")
                continue
            conds = w[2]
        okall = False
        if conds is not None and x is not None and y is not None and relength(x) is relength(y):
            chk.undecide(rule, f"{qual}: {k}", "the same when the sequences that are gone through together have the same length")
            continue
        ops, fns, syms = vocabulary(a.it, [a.obs[k]] if k in a.obs else [])
        ops2, fns2, syms2 = vocabulary(b.it, [b.obs[kk] for kk in b.obs])
        strange = {o for o in ops - ops2 - INTERPRETED_OPS} | {f for f in fns - fns2 - INTERPRETED_FN - set(extra_vocab)}
        if ca.unknown - cb.unknown:
            strange |= ca.unknown
        sa, sb = ca.structure(), cb.structure()
        if sa[0] != sb[0] or sa[1] > sb[1]:
            strange |= {f"loops organised as {sa[0]} where the reference has {sb[0]}"} if sa[0] != sb[0] else {"loop-carried flags"}
        it1 = iterated(a.it, [a.obs[k]] if k in a.obs else []) - iterated(b.it, [b.obs[kk] for kk in b.obs])
        if it1:
            strange |= {f"goes through the items of what {f} returns" for f in it1}
        if AS_COMPLETED in fns and k in a.obs and by_completion(a.obs[k]):
            strange -= {".result", "future", f"goes through the items of what {AS_COMPLETED} returns"}  # its order is that in which the tasks complete
        if twin:
            strange = set()  # both sides are the same source with another setting: nothing that differs is a matter of style
        if strange and x is not None and y is not None:
            # inputs that the reference's value is computed from, and that occur nowhere in the implementation's
            missing = {n for n in value_syms(y, cb.defs) - syms - vocabulary(a.it, [x])[2] if not n.startswith("?")}
            if missing:
                chk.finding(rule, f"{qual}: {k}", site, f"{what}: the value does not depend on {', '.join(sorted(missing))}")
                continue
        if strange:
            chk.undecide(rule, f"{qual}: {k}", f"computed in terms outside the reference's vocabulary: {sorted(map(str, strange))[:6]}")
            continue
        msg = diff_msg(*w[:2], defs=(ca.defs, cb.defs)) + (f" [when {'; '.join(conds[:6])}]" if conds else "") if conds else diff_msg(x, y, defs=(ca.defs, cb.defs))
        chk.finding(rule, f"{qual}: {k}", site, f"{what}: {msg}")
    return okall


def _bound(c):
    """An atomic condition on one quantity, t op k: (t, op, k)."""
    if c.op == "eq" and any(a.op == "const" for a in c.args):
        k, t = c.args if c.args[0].op == "const" else c.args[::-1]
        return (t, "==", k.args[0]) if t.op != "const" else None
    if c.op == "lt":
        a, b = c.args
        if is_num(b) and is_num(a):
            return None
        if is_num(b):
            t, op, k = a, "<", cval(b)
        elif is_num(a):
            t, op, k = b, ">", cval(a)
        else:
            return None
        if t.op == "add" and len(t.args) == 2 and any(is_num(x) for x in t.args):
            d, t = t.args if is_num(t.args[0]) else t.args[::-1]
            if isinstance(cval(d), complex) or isinstance(k, complex):
                return None
            k = k - cval(d)
        if t.op == "mul" and len(t.args) == 2 and is_num(t.args[0]) and not isinstance(cval(t.args[0]), complex):
            m, t = cval(t.args[0]), t.args[1]
            if m == 0:
                return None
            k, op = Fraction(k) / Fraction(m), op if m > 0 else {"<": ">", ">": "<"}[op]
        return (t, op, k)
    return None


class Facts:
    """What is known of single quantities on a path: an interval, and values they do not have."""

    def __init__(self, integer, known=None):
        self.integer, self.known = integer, known or {}

    def add(self, c, val):
        """The facts with c being val; None when that is impossible."""
        while c.op == "not":
            c, val = c.args[0], not val
        b = _bound(c)
        if b is None:
            return self
        t, op, k = b
        if self.decide(c) not in (None, val):
            return None
        lo, ls, hi, hs, exc = self.known.get(t.uid, (None, False, None, False, frozenset()))
        if op == "==":
            if not val:
                exc = exc | {k}
            elif isinstance(k, (int, float, Fraction)) and not isinstance(k, bool):
                lo, ls, hi, hs = k, False, k, False
            else:
                exc = exc | {("is", k)}
        else:
            up = (op == "<") == val
            strict = val
            if up and (hi is None or k < hi or k == hi and strict):
                hi, hs = k, strict
            if not up and (lo is None or k > lo or k == lo and strict):
                lo, ls = k, strict
        if self.integer(t):
            if lo is not None and abs(lo) != float("inf"):
                lo, ls = (int(lo) if lo == int(lo) else int(lo // 1) + 1) + (1 if ls and lo == int(lo) else 0), False
                while lo in exc:
                    lo += 1
            if hi is not None and abs(hi) != float("inf"):
                hi, hs = int(hi // 1) - (1 if hs and hi == int(hi) else 0), False
                while hi in exc:
                    hi -= 1
        if lo is not None and hi is not None and (lo > hi or lo == hi and (ls or hs or lo in exc)):
            return None
        return Facts(self.integer, {**self.known, t.uid: (lo, ls, hi, hs, exc)})

    def decide(self, c):
        b = _bound(c)
        if b is None or b[0].uid not in self.known:
            return None
        t, op, k = b
        lo, ls, hi, hs, exc = self.known[t.uid]
        if op == "==":
            fixed = [e[1] for e in exc if isinstance(e, tuple) and e[0] == "is"]
            if fixed:
                return bool(fixed[0] == k)
            if k in exc:
                return False
            if not isinstance(k, (int, float, Fraction)) or isinstance(k, bool):
                return None
            if lo is not None and (k < lo or k == lo and ls) or hi is not None and (k > hi or k == hi and hs):
                return False
            return True if lo is not None and lo == hi else None
        if op == "<":
            if hi is not None and (hi < k or hi == k and hs):
                return True
            return False if lo is not None and lo >= k else None
        if lo is not None and (lo > k or lo == k and ls):
            return True
        return False if hi is not None and hi <= k else None


def relength(t):
    """The comprehensions of t, with lengths that do not depend on which of the sequences that they index is the one counted."""
    def f(x):
        if x.op != "listcomp" or len(x.args) != 3:
            return None
        ix, g, cnt = x.args
        src = {y.args[0] for y in subterms(g) if y.op == "get" and y.args[1] is ix}
        lens = [mk("app", "len", q) for q in src]
        if cnt not in lens or len(lens) < 2:
            return None
        c = min(lens, key=skey)
        nx = mk("idx_", c, *ix.args[1:])
        return mk("listcomp", nx, subst(g, lambda y: nx if y is ix else None), c)
    return subst(t, f)


def differs(x, y, integer, limit=20000):
    """The first feasible case in which two decision diagrams have different leaves: (leaf of x, leaf of y, conditions), or None."""
    n = [0]

    def rec(x, y, facts, asg, conds):
        if x is y:
            return None
        n[0] += 1
        cs = [z.args[0] for z in (x, y) if z.op == "gate"]
        if not cs or n[0] > limit:
            return x, y, conds
        c = min(cs, key=skey)
        v = asg.get(c.uid)
        if v is None:
            v = facts.decide(c)
        for val in (True, False) if v is None else (v,):
            f = facts.add(c, val)
            if f is None:
                continue
            p, q = (z.args[1 if val else 2] if z.op == "gate" and z.args[0] is c else z for z in (x, y))
            r = rec(p, q, f, {**asg, c.uid: val}, conds + [("" if val else "not ") + show(c, 80)])
            if r is not None:
                return r
        return None
    return rec(x, y, Facts(integer), {}, [])


def diff_msg(x, y, n=260, defs=None):
    if x is None:
        return f"nothing is stored where the reference has {show(y, n)}"
    if y is None:
        return f"an effect the reference does not have: {show(x, n)}"
    conds = []
    while x.op == "gate" or y.op == "gate":
        if x.op == "gate" and y.op == "gate" and x.args[0] is y.args[0]:
            c = x.args[0]
            if x.args[1] is not y.args[1]:
                conds.append(show(c, 80))
                x, y = x.args[1], y.args[1]
            else:
                conds.append("not " + show(c, 80))
                x, y = x.args[2], y.args[2]
            continue
        if x.op == "gate":
            c = x.args[0]
            x = x.args[1] if x.args[1] is not y else x.args[2]
        else:
            c = y.args[0]
            y = y.args[1] if y.args[1] is not x else y.args[2]
        conds.append("case split on " + show(c, 80))
    d = 0
    while isinstance(x, T) and isinstance(y, T) and x.op == y.op and len(x.args) == len(y.args) and d < 30:
        ch = [(p, q) for p, q in zip(x.args, y.args) if p is not q]
        if len(ch) == 1 and isinstance(ch[0][0], T) and isinstance(ch[0][1], T):
            x, y = ch[0]
            d += 1
        else:
            break
    if defs and isinstance(x, T) and isinstance(y, T) and x.op == y.op == "mu" and x.args[1] in defs[0] and y.args[1] in defs[1]:
        (i1, n1, l1), (i2, n2, l2) = defs[0][x.args[1]], defs[1][y.args[1]]
        if i1 is not i2:
            return "before the loop, " + diff_msg(i1, i2, n)
        if l1 != l2 and n1 is n2:
            return "in a loop whose trip count or exit condition differs"
        if n1 is not n2 and not (n1.op == n2.op == "mu"):
            return "in each iteration, " + diff_msg(n1, n2, n)
    return f"computes {show(x, n)} where the reference has {show(y, n)}" + (f" [when {'; '.join(conds[:6])}]" if conds else "")
