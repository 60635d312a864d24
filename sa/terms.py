"""Hash-consed value terms (gated value numbers) and their algebraic normal form."""
from __future__ import annotations
from fractions import Fraction
import hashlib
import itertools

_TABLE: dict = {}
_CNT = itertools.count()


class T:
    """An immutable, hash-consed term.  Structural equality is identity."""
    __slots__ = ("op", "args", "uid", "_leaves", "skey")

    def __repr__(self):
        return show(self)


def _ckey(v):
    return (type(v).__name__, v) if isinstance(v, (bool, int, float, complex, str, bytes, type(None), Fraction)) else ("x", repr(v))


def mk(op, *args) -> T:
    if op == "attr" and args[1] == "T" and args[0].op == "attr" and args[0].args[1] == "T":
        return args[0].args[0]
    key = (op,) + tuple(a.uid if isinstance(a, T) else ("k", _ckey(a)) for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.uid, t._leaves, t.skey = op, args, next(_CNT), None, None
        _TABLE[key] = t
    return t


def const(v) -> T:
    return mk("const", v)


NONE, TRUE, FALSE = const(None), const(True), const(False)
ZERO, ONE = const(0), const(1)


def sym(name) -> T:
    return mk("sym", name)


def is_const(t, v=...):
    return isinstance(t, T) and t.op == "const" and (v is ... or (t.args[0] == v and type(t.args[0]) is type(v)))


def cval(t):
    return t.args[0]


def is_num(t):
    return t.op == "const" and isinstance(t.args[0], (int, float, Fraction, complex)) and not isinstance(t.args[0], bool)


def skey(t: T):
    """Structural sort key (digest), independent of creation order; memoised on the DAG."""
    if t.skey is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x.skey is not None:
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, T) and a.skey is None]
            if todo:
                stack.extend(todo)
                continue
            h = hashlib.blake2b(digest_size=10)
            h.update(x.op.encode())
            for a in x.args:
                h.update(b"|")
                h.update(a.skey.encode() if isinstance(a, T) else repr(_ckey(a)).encode())
            x.skey = x.op[:3] + h.hexdigest()
            stack.pop()
    return t.skey


# ---------------------------------------------------------------- boolean / gate constructors
def t_not(c: T) -> T:
    if c.op == "const":
        return const(not c.args[0])
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return t_or(*[t_not(a) for a in c.args])
    if c.op == "or":
        return t_and(*[t_not(a) for a in c.args])
    return mk("not", c)


def _flat(op, cs):
    out = []
    for c in cs:
        if c.op == op:
            out.extend(c.args)
        else:
            out.append(c)
    seen, res = set(), []
    for c in out:
        if c.uid not in seen:
            seen.add(c.uid)
            res.append(c)
    return res


def t_and(*cs) -> T:
    cs = [c for c in _flat("and", cs) if not is_const(c, True)]
    if any(is_const(c, False) for c in cs):
        return FALSE
    ids = {c.uid for c in cs}
    if any(t_not(c).uid in ids for c in cs):
        return FALSE
    if not cs:
        return TRUE
    if len(cs) == 1:
        return cs[0]
    return mk("and", *sorted(cs, key=skey))


def t_or(*cs) -> T:
    cs = [c for c in _flat("or", cs) if not is_const(c, False)]
    if any(is_const(c, True) for c in cs):
        return TRUE
    ids = {c.uid for c in cs}
    if any(t_not(c).uid in ids for c in cs):
        return TRUE
    if not cs:
        return FALSE
    if len(cs) == 1:
        return cs[0]
    return mk("or", *sorted(cs, key=skey))


def gate(c: T, a: T, b: T) -> T:
    if a is b:
        return a
    if c.op == "const":
        return a if c.args[0] else b
    if c.op == "not":
        return gate(c.args[0], b, a)
    if is_const(a, True) and is_const(b, False):
        return c
    if is_const(a, False) and is_const(b, True):
        return t_not(c)
    a, b = _restrict(a, c, True, 4), _restrict(b, c, False, 4)
    if a is b:
        return a
    if is_const(a, True) and is_const(b, False):
        return c
    if is_const(a, False) and is_const(b, True):
        return t_not(c)
    if unselected(c, a, b):
        return a
    return mk("gate", c, a, b)


def unselected(c, a, b):
    """Whether b is what a is when the mask m of the test c, any(m), selects nothing."""
    m = c.args[0] if c.op == "truth" else c
    if not (m.op == "app" and m.args[0] == "np.any" and len(m.args) == 2):
        return False
    m = m.args[1]

    def f(t):
        if t.op == "app" and t.args[0] == "np.where" and len(t.args) == 4 and t.args[1] is m:
            return subst(t.args[3], f)
        if t.op == "upd" and t.args[1] is m:
            return subst(t.args[0], f)
        return None
    r = subst(a, f)
    return r is not a and r is b


def _restrict(t, c, val, d):
    if t is c:
        return TRUE if val else FALSE
    if d and t.op == "gate":
        if t.args[0] is c:
            return _restrict(t.args[1] if val else t.args[2], c, val, d - 1)
        x, y = _restrict(t.args[1], c, val, d - 1), _restrict(t.args[2], c, val, d - 1)
        if x is not t.args[1] or y is not t.args[2]:
            return gate(t.args[0], x, y)
    if d and t.op in ("not", "and", "or"):
        n = [_restrict(a, c, val, d - 1) for a in t.args]
        if any(p is not q for p, q in zip(n, t.args)):
            return t_not(n[0]) if t.op == "not" else (t_and(*n) if t.op == "and" else t_or(*n))
    return t


# ---------------------------------------------------------------- arithmetic constructors (light)
def _fold(f, a, b):
    try:
        if isinstance(a, float) and abs(a) < 1e300 and not isinstance(b, complex) or isinstance(b, float) and abs(b) < 1e300 and not isinstance(a, complex):
            # decimal constants are taken at their written value, without the rounding of the float arithmetic
            r = f(Fraction(repr(a)) if isinstance(a, float) else a, Fraction(repr(b)) if isinstance(b, float) else b)
            if isinstance(r, Fraction):
                return const(float(r) if Fraction(repr(float(r))) == r else r)
            return const(r)
        r = f(a, b)
        if isinstance(r, complex) and not isinstance(a, complex) and not isinstance(b, complex):
            return None
        return const(r)
    except Exception:
        return None


def add(a: T, b: T) -> T:
    if a.op == b.op == "const" and (isinstance(a.args[0], bool) != isinstance(b.args[0], bool)):
        a, b = (const(int(x.args[0])) if isinstance(x.args[0], bool) else x for x in (a, b))
    if is_num(a) and is_num(b):
        r = _fold(lambda x, y: x + y, a.args[0], b.args[0])
        if r is not None:
            return r
    if is_const(a, 0):
        return b
    if is_const(b, 0):
        return a
    return mk("add", a, b)


def neg(a: T) -> T:
    if is_num(a):
        return const(-a.args[0])
    return mk("mul", const(-1), a)


def sub(a: T, b: T) -> T:
    if is_num(a) and is_num(b):
        return const(a.args[0] - b.args[0])
    return add(a, neg(b))


def mul(a: T, b: T) -> T:
    if a.op == b.op == "const" and (isinstance(a.args[0], bool) != isinstance(b.args[0], bool)):
        a, b = (const(int(x.args[0])) if isinstance(x.args[0], bool) else x for x in (a, b))
    if is_num(a) and is_num(b):
        r = _fold(lambda x, y: x * y, a.args[0], b.args[0])
        if r is not None:
            return r
    if is_const(a, 1):
        return b
    if is_const(b, 1):
        return a
    return mk("mul", a, b)


def div(a: T, b: T) -> T:
    if is_num(a) and is_num(b) and b.args[0] != 0:
        x, y = a.args[0], b.args[0]
        if isinstance(x, int) and isinstance(y, int):
            return const(x // y) if x % y == 0 else const(Fraction(x, y))
        r = _fold(lambda p, q: p / q, x, y)
        if r is not None:
            return r
    if is_const(b, 1):
        return a
    return mk("mul", a, mk("pow", b, const(-1)))


def power(a: T, b: T) -> T:
    if is_const(b, 1):
        return a
    if is_num(a) and is_num(b):
        x, y = a.args[0], b.args[0]
        if isinstance(x, int) and isinstance(y, int) and abs(y) < 64:
            return const(x ** y) if y >= 0 else (const(Fraction(1, x ** -y)) if x else mk("pow", a, b))
        r = _fold(lambda p, q: p ** q, x, y) if not isinstance(x, Fraction) or isinstance(y, int) else None
        if r is not None and y == int(y):
            return r
    return mk("pow", a, b)


def app(name: str, *args, **kw) -> T:
    kws = tuple(mk("kw", k, v) for k, v in sorted(kw.items()))
    return mk("app", name, *args, *kws)


# ---------------------------------------------------------------- traversal
def subterms(t: T):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)


def leaves(t: T):
    return {x for x in subterms(t) if x.op in ("sym", "mu", "idx_", "opaque")}


def rebuild(t: T, args):
    op = t.op
    if op == "gate":
        return gate(*args)
    if op == "not":
        return t_not(*args)
    if op == "and":
        return t_and(*args)
    if op == "or":
        return t_or(*args)
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return power(*args)
    return mk(op, *args)


def subst(t: T, fn, memo=None):
    """Bottom-up rewriting: fn(term) -> term or None (None: keep / recurse)."""
    if memo is None:
        memo = {}
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x.uid in memo:
            continue
        if not done:
            r = fn(x)
            if r is not None:
                memo[x.uid] = r
                continue
            kids = [a for a in x.args if isinstance(a, T)]
            if not kids:
                memo[x.uid] = x
                continue
            stack.append((x, True))
            for k in kids:
                if k.uid not in memo:
                    stack.append((k, False))
        else:
            args = [memo[a.uid] if isinstance(a, T) else a for a in x.args]
            if all(p is q for p, q in zip(args, x.args)):
                memo[x.uid] = x
            else:
                memo[x.uid] = rebuild(x, args)
    return memo[t.uid]


def assume(t: T, c: T, val: bool):
    """Specialise t under the assumption that atomic condition c has value val."""
    r = TRUE if val else FALSE

    def f(x):
        return r if x is c else None
    return subst(t, f)


def cond_atoms(t: T):
    """Atomic conditions controlling gates in t (innermost-first by structural key)."""
    out = {}

    def add_c(c):
        if c.op in ("and", "or", "not"):
            for a in c.args:
                add_c(a)
        elif c.op == "gate":
            for a in c.args:
                add_c(a)
        elif c.op != "const":
            out[c.uid] = c
    for x in subterms(t):
        if x.op == "gate":
            add_c(x.args[0])
    return sorted(out.values(), key=skey)


def cofactors(t, limit=4096, order=None):
    """Enumerate (assignment, gate-free term).  t may be a tuple of terms."""
    res = []
    ts = t if isinstance(t, tuple) else (t,)

    def rec(ts, asg):
        if len(res) >= limit:
            raise OverflowError("too many cofactors")
        atoms = []
        seen = set()
        for x in ts:
            for a in cond_atoms(x):
                if a.uid not in seen:
                    seen.add(a.uid)
                    atoms.append(a)
        # pick an atom that contains no gate itself
        pick = None
        for a in atoms:
            if not any(y.op == "gate" for y in subterms(a)):
                pick = a
                break
        if pick is None:
            res.append((asg, ts if isinstance(t, tuple) else ts[0]))
            return
        for v in (True, False):
            rec(tuple(assume(x, pick, v) for x in ts), asg + ((pick, v),))
    rec(ts, ())
    return res


# ---------------------------------------------------------------- printing
def show(t, limit=400, depth=60):
    def s(x, d):
        if not isinstance(x, T):
            return repr(x) if not isinstance(x, str) else x
        if d <= 0:
            return "…"
        if x.op == "const":
            return repr(x.args[0]) if not isinstance(x.args[0], Fraction) else str(x.args[0])
        if x.op == "sym":
            return str(x.args[0])
        if x.op == "add":
            return "(" + " + ".join(s(a, d - 1) for a in x.args) + ")"
        if x.op == "mul":
            return "(" + " * ".join(s(a, d - 1) for a in x.args) + ")"
        if x.op == "pow":
            return f"{s(x.args[0], d - 1)}**{s(x.args[1], d - 1)}"
        if x.op == "app":
            return f"{x.args[0]}({', '.join(s(a, d - 1) for a in x.args[1:])})"
        if x.op == "kw":
            return f"{x.args[0]}={s(x.args[1], d - 1)}"
        if x.op == "get":
            return f"{s(x.args[0], d - 1)}[{s(x.args[1], d - 1)}]"
        if x.op == "attr":
            return f"{s(x.args[0], d - 1)}.{x.args[1]}"
        if x.op == "gate":
            return f"if({s(x.args[0], d - 1)}; {s(x.args[1], d - 1)}; {s(x.args[2], d - 1)})"
        return f"{x.op}({', '.join(s(a, d - 1) for a in x.args)})"
    r = s(t, depth)
    return r if len(r) <= limit else r[:limit] + "…"


# ---------------------------------------------------------------- rational normal form
class NF:
    """Sum of monomials: {monomial: coefficient}, monomial = sorted tuple of (atom uid, exponent Fraction)."""


_ATOM: dict = {}


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e != 0))


def _padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def _num(v):
    if isinstance(v, complex):
        return v
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(repr(v))
    return Fraction(v)


class Normalizer:
    """Normalises terms to polynomials over atoms.  `linear` names apps that are linear in their last argument;
    `atom_rewrite` lets a property add semantic identities (each one justified where it is passed)."""

    MAXM = 400

    def __init__(self, rewrite=None, nonneg=None, linear=()):
        self.memo = {}
        self.tmemo = {}
        self.rewrite = rewrite
        self.nonneg = nonneg or (lambda t: t.op == "app" and t.args[0] in ("np.linalg.norm", "np.abs", "np.std", "np.var", "len"))
        self.linear = set(linear)

    def atom(self, t):
        _ATOM[t.uid] = t
        return {((t.uid, Fraction(1)),): Fraction(1)}

    def poly(self, t: T):
        if t.uid in self.memo:
            return self.memo[t.uid]
        r = self._poly(t)
        self.memo[t.uid] = r
        return r

    def _poly(self, t):
        if self.rewrite is not None:
            r = self.rewrite(t, self)
            if r is not None and r is not t:
                return self.poly(r)
        if is_num(t):
            n = _num(t.args[0])
            if n is None:
                return self.atom(t)
            return {(): n} if n != 0 else {}
        if t.op == "const" and isinstance(t.args[0], bool):
            return self.atom(t)
        if t.op == "add":
            r = {}
            for a in t.args:
                r = _padd(r, self.poly(a))
            return r
        if t.op == "mul":
            r = {(): Fraction(1)}
            for a in t.args:
                p = self.poly(a)
                if len(p) * len(r) > self.MAXM:
                    return self.atom(mk("mul", *sorted((self.term(x) for x in t.args), key=skey)))
                r = _pmul(r, p)
            return r
        if t.op == "pow":
            b, e = t.args
            pe = self.poly(e)
            if all(m == () for m in pe) and len(pe) <= 1 and not any(isinstance(c, complex) for c in pe.values()):
                ev = pe.get((), Fraction(0))
                return self._pow(self.poly(b), ev)
            # symbolic exponent
            return self.atom(mk("pow", self.term(b), self.term(e)))
        if t.op == "app" and t.args[0] in self.linear and len(t.args) >= 2:
            *head, last = t.args
            if isinstance(last, T) and last.op != "kw":
                p = self.poly(last)
                r = {}
                for m, c in p.items():
                    if m == ():
                        return self.atom(self._cong(t))
                    inner = from_poly({m: Fraction(1)})
                    r = _padd(r, self.atom(mk("app", *[self.term(h) if isinstance(h, T) else h for h in head], inner)), c)
                return r
        n = self._cong(t)
        if n is not t and self.rewrite is not None and t.op in ("app", "upd"):
            r = self.rewrite(n, self)
            if r is not None and r is not n:
                return self.poly(r)
        return self.atom(n)

    def _pow(self, p, ev):
        if ev == 0:
            return {(): Fraction(1)}
        if len(p) == 1:
            (m, c), = p.items()
            if ev.denominator == 1 and not isinstance(c, complex):
                if c == 0:
                    return {}
                return {tuple((a, e * ev) for a, e in m): c ** int(ev)}
            cc = None
            if not isinstance(c, complex) and c > 0 and ev.denominator == 2:
                import math
                n = Fraction(c) ** abs(ev.numerator)
                rn, rd = math.isqrt(n.numerator), math.isqrt(n.denominator)
                if rn * rn == n.numerator and rd * rd == n.denominator:
                    cc = Fraction(rn, rd)
                    if ev < 0:
                        cc = 1 / cc
            if cc is not None and all(
                ((e * ev).denominator == 1 and not (e % 2 == 0 and (e * ev) % 2 == 1)) or self.nonneg(_ATOM[a]) or len(m) == 1 and e.denominator != 1 or (len(m) == 1 and e == 1)
                for a, e in m
            ):
                return {tuple((a, e * ev) for a, e in m): cc}
        if ev.denominator == 1 and 1 < ev <= 6 and len(p) ** int(ev) <= self.MAXM:
            r = {(): Fraction(1)}
            for _ in range(int(ev)):
                r = _pmul(r, p)
            return r
        if not p:
            return self.atom(mk("pow", ZERO, const(ev))) if ev < 0 else {}
        # factor out the content so that (2a+2b)**-1 == 1/2 (a+b)**-1
        lead = min(p.items(), key=lambda kv: _mono_skey(kv[0]))
        cont = lead[1]
        if ev.denominator == 1 and cont != 1:
            q = {m: c / cont for m, c in p.items()}
            base = from_poly(q)
            _ATOM[base.uid] = base
            return {((base.uid, ev),): cont ** int(ev)}
        base = from_poly(p)
        _ATOM[base.uid] = base
        return {((base.uid, ev),): Fraction(1)}

    def _cong(self, t):
        if not t.args or not any(isinstance(a, T) for a in t.args):
            return t
        args = [self.term(a) if isinstance(a, T) else a for a in t.args]
        if t.op == "eq" and len(args) == 2 and skey(args[1]) < skey(args[0]):
            args.reverse()
        return rebuild(t, args)

    def term(self, t: T) -> T:
        if t.uid in self.tmemo:
            return self.tmemo[t.uid]
        if t.op in ("add", "mul", "pow") or is_num(t) or t.op in ("app",) or self.rewrite is not None:
            r = from_poly(self.poly(t))
        else:
            r = self._cong(t)
        self.tmemo[t.uid] = r
        return r

    def fraction(self, p):
        """Write polynomial (with sum-atoms at negative powers) as (num, den-free) by multiplying out sum denominators."""
        for _ in range(12):
            dens = {}
            for m in p:
                for a, e in m:
                    t = _ATOM[a]
                    if e < 0 and e.denominator == 1 and t.op == "add":
                        dens[a] = min(dens.get(a, 0), e)
            if not dens:
                return p
            a, e = next(iter(sorted(dens.items())))
            dp = self.poly_raw(_ATOM[a])
            r = {}
            for m, c in p.items():
                d = dict(m)
                k = d.get(a, Fraction(0)) - e
                d.pop(a, None)
                base = {tuple(sorted(d.items())): c}
                if k.denominator != 1 or k < 0:
                    return p
                for _i in range(int(k)):
                    base = _pmul(base, dp)
                    if len(base) > 4000:
                        return p
                r = _padd(r, base)
            p = r
        return p

    def poly_raw(self, t):
        # t is an already-normalised sum
        r = {}
        for a in t.args:
            r = _padd(r, self.poly_raw(a) if a.op == "add" else self.poly(a))
        return r

    def equal(self, a: T, b: T) -> bool:
        if a is b:
            return True
        pa, pb = self.poly(a), self.poly(b)
        d = _padd(pa, pb, -1)
        if not d:
            return True
        d = {m: c for m, c in d.items() if abs(complex(c)) > 1e-12 * max(1e-30, max(abs(complex(x)) for x in list(pa.values()) + list(pb.values())))}
        if not d:
            return True
        return not self.fraction(d)


def _mono_skey(m):
    return tuple((skey(_ATOM[a]), e) for a, e in m)


def from_poly(p) -> T:
    if not p:
        return ZERO
    items = []
    for m, c in p.items():
        fs = sorted(((skey(_ATOM[a]), e, _ATOM[a]) for a, e in m), key=lambda z: (z[0], z[1]))
        t = None
        for _, e, a in fs:
            x = a if e == 1 else mk("pow", a, const(int(e) if e.denominator == 1 else e))
            t = x if t is None else mk("mul", t, x)
        cc = c if isinstance(c, complex) else (int(c) if c.denominator == 1 else c)
        if t is None:
            t = const(cc)
        elif cc != 1:
            t = mk("mul", const(cc), t)
        items.append((tuple((f[0], f[1]) for f in fs), t))
    items.sort(key=lambda z: z[0])
    if len(items) == 1:
        return items[0][1]
    return mk("add", *[t for _, t in items])
