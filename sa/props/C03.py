"""C03: whatever the solver, every solution it can return honours the limits and the volume mask it was given."""
from ..spec import side
from ..terms import mk, subterms, sym, app, ZERO
from ..solverspec import OPQ, PROJ
from ..model import AnalysisBroken

BARRIER = set(OPQ) | set(PROJ) | {"operators.BaseTransform.__call__", "call", ".fp_angle", ".bp_angle", "filters.Filter.__call__", "filters.FilterMR.__call__", ".absolute"}


def mentions(t, s):
    """Whether the term depends on s otherwise than through a previous iterate or an operator application."""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x is s:
            return True
        if x.op == "app" and x.args[0] in ("max", "min") and s in x.args[1:]:
            continue  # an earlier clipping: what is done to its result is judged on its own
        if x.op == "mul" and s in x.args and len(x.args) == 2:
            todo += [a for a in x.args if a is not s]
            continue
        if x.op in ("mu", "brk", "attr"):
            continue
        if x.op == "app" and x.args[0] in BARRIER:
            continue
        todo += [a for a in x.args if hasattr(a, "uid")]
    return False


def factors(t):
    if t.op == "mul":
        out = []
        for a in t.args:
            out += factors(a)
        return out
    return [t]


class Bounded:
    """Inductive proof that a term respects a bound: True / False (it provably cannot) / None (form not recognised)."""

    def __init__(self, it, kind, lo, hi, xm):
        self.loops = {L.id: L for L in it.loops}
        self.kind, self.lo, self.hi, self.xm = kind, lo, hi, xm
        self.s = {"lower": lo, "upper": hi, "mask": xm}[kind]
        self.hyp = {}
        self.where = None

    def all(self, ts):
        r = True
        for t in ts:
            q = self.check(t)
            if q is False:
                return False
            if q is None:
                r = None
        return r

    def check(self, t):
        r = self._check(t)
        if r is False and self.where is None:
            self.where = t
        return r

    def _check(self, t):
        k, op = self.kind, t.op
        if t.uid in self.hyp:
            return self.hyp[t.uid]
        if op == "gate":
            return self.all(t.args[1:])
        if op == "mu":
            L = self.loops.get(t.args[0])
            d = L.mus.get(t.args[1]) if L else None
            if not d or d[0] is None or d[1] is None:
                return None
            self.hyp[t.uid] = True
            r = self.all(d)
            self.hyp[t.uid] = r
            return r
        if op == "app" and t.args[0] in ("max", "min"):
            a = list(t.args[1:])
            if k == "mask":
                other = [x for x in a if x not in (self.lo, self.hi)]
                if len(other) < len(a):
                    return False  # clipping after masking: masked voxels get the limit
                return self.all(a)
            own, opp = ("max", "min") if k == "lower" else ("min", "max")
            bnd, obnd = (self.lo, self.hi) if k == "lower" else (self.hi, self.lo)
            if t.args[0] == own:
                if bnd in a:
                    return True
                qs = [self.check(x) for x in a]
                return True if True in qs else None if None in qs else self._no(t)
            rest = [x for x in a if x is not obnd]
            return self.all(rest) if rest else None
        if op == "mul":
            fs = factors(t)
            if k == "mask":
                if any(f is self.xm or self._binmask(f) for f in fs):
                    return True
                qs = []
                w = self.where
                for f in fs:
                    qs.append(self.check(f))
                if True in qs:
                    self.where = w
                    return True
                return None if None in qs else self._no(t)
            rest = [f for f in fs if f is not self.xm and not self._binmask(f)]
            if len(rest) < len(fs) and len(rest) == 1:
                return self.check(rest[0])
            if not rest:
                return True
            return self._no(t)
        if op == "add" and k == "mask":
            w = self.where
            qs = [self.check(a) for a in t.args]
            if all(q is True for q in qs):
                return True
            self.where = w
            return self._no(t)
        if op == "app" and t.args[0] == "np.where" and len(t.args) == 4:
            c, a, b = t.args[1:]
            if any(x is self.xm for x in subterms(c)):
                if b is ZERO or self._zero(b):
                    return self.check(a) if k != "mask" else (True if self._binmask(c) or c is self.xm else None)
                return None
            return self.all([a, b]) if k == "mask" or not mentions(c, self.s) else None
        if k == "mask" and op == "app" and t.args[0] in ("np.sign", "np.abs", "np.sqrt") and len(t.args) == 2:
            q = self.check(t.args[1])
            return q if q is not False else self._no(t)
        if op == "upd" and len(t.args) == 3:
            return self.all([t.args[0], t.args[2]]) if not mentions(t.args[1], self.s) else None
        if k == "mask" and self._zero(t):
            return True
        return self._no(t)

    def _no(self, t):
        return None if mentions(t, self.s) else False

    def _zero(self, t):
        return t is ZERO or (t.op == "app" and t.args[0] in ("np.zeros", "np.zeros_like"))

    def _binmask(self, f):
        """the mask converted to 0/1"""
        if f is self.xm:
            return True
        if f.op == "app" and f.args[0] in ("astype", ".astype", "np.asarray", "np.array", "bool", "truth") and len(f.args) > 1 and hasattr(f.args[1], "uid"):
            return self._binmask(f.args[1])
        if f.op == "truth":
            return self._binmask(f.args[0])
        return False


CASES = [("SIRT", "tolerance=tol"), ("MLEM", "tolerance=tol"), ("PDHG", "tolerance=tol"), ("PDHG-l", "tolerance=tol"), ("FISTA", "tolerance=tol"), ("FISTA-l", "tolerance=tol"),
         ("SIRT-r", "tolerance=tol, regularizer=corrct.regularizers.Regularizer_TV2D(w)"), ("PDHG-r", "tolerance=tol, regularizer=corrct.regularizers.Regularizer_TV2D(w)"),
         ("FISTA-r", "tolerance=tol, restart_period=k, regularizer=corrct.regularizers.Regularizer_l1(w)"), ("SART", "tolerance=tol"), ("SART-p", "tolerance=tol"), ("FBP", ""), ("FBP-mr", "fbp_filter='mr'")]


def driver(case, ctor, lo, hi, xm, x0):
    cls, _, var = case.partition("-")
    a = ["b: np.ndarray", "iterations: int", "w: float", "k: int", "tol: float | None", "bm: np.ndarray | None"]
    kw = ["b_mask=bm"]
    if cls in ("SIRT", "MLEM", "PDHG", "FISTA"):
        a.append("bt: np.ndarray | None")
        kw.append("b_test_mask=bt")
    for p, on, ty, name in (("lo", lo, "float", "lower_limit"), ("hi", hi, "float", "upper_limit"), ("xm", xm, "np.ndarray", "x_mask"), ("x0", x0, "np.ndarray", "x0")):
        if on:
            a.append(f"{p}: {ty}")
            kw.append(f"{name}={p}")
    pre = ""
    if cls == "SART" and var != "p":
        a = ["F", "G", "n: int"] + a
        pre = "    A = lambda x, i: F(x, i)\n    At = lambda y, i: G(y, i)\n"
        kw += ["A_num_rows=n", "At=At"]
    elif cls == "SART":
        a = ["A: corrct.projectors.ProjectorUncorrected"] + a
    else:
        a = ["A: corrct.operators." + ("ProjectorOperator" if cls == "FBP" else "BaseTransform")] + a
    if var == "l":
        kw.append("precondition=False")
    call = "A, b, iterations, " + ", ".join(kw)
    return f"def f({', '.join(a)}):\n{pre}    s = corrct.solvers.{cls}({ctor})\n    x, info = s({call})\n    return x"


def run(chk, prog):
    chk.rule("limit-honoured", "by induction over the iterations, every value the solver can return went through the clipping to the given limit as (one of) its last operations, also the initial solution and on early exits")
    chk.rule("mask-honoured", "by induction over the iterations, every value the solver can return is multiplied by the volume mask after any clipping")
    chk.assumptions += ["lower limit <= upper limit", "the volume mask is 0 where it masks out; voxels it masks out are exempt from the limits"]
    opq = OPQ + PROJ + ("filters.Filter.__call__", "filters.FilterMR.__call__", "operators.ProjectorOperator.get_pre_weights")
    n = 0
    for case, ctor in CASES:
        cls = case.split("-")[0]
        r = prog.find_func(f"solvers.{cls}.__call__")
        if r is None:
            chk.gone.append(f"solvers.{cls}.__call__")
            continue
        site = (r[0].path, r[2].lineno, f"solvers.{cls}.__call__")
        for lo, hi, xm in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)):
            for x0 in (0, 1):
                s = side(prog, driver(case, ctor, lo, hi, xm, x0), "driver", opq)
                chk.units |= {u for u in s.it.analysed if not u.startswith("driver")}
                given = "+".join(w for w, on in (("lower limit", lo), ("upper limit", hi), ("volume mask", xm), ("initial solution", x0)) if on)
                if "return" not in s.obs:
                    chk.undecide("limit-honoured", f"{case} with {given}", "no value returned")
                    continue
                L, H, M = (sym("lo") if lo else None), (sym("hi") if hi else None), (sym("xm") if xm else None)
                for kind, on in (("lower", lo), ("upper", hi), ("mask", xm)):
                    if not on:
                        continue
                    rule = "mask-honoured" if kind == "mask" else "limit-honoured"
                    B = Bounded(s.it, kind, L, H, M)
                    q = B.check(s.obs["return"])
                    name = f"{case}: {kind}{' limit' if kind != 'mask' else ''} (given: {given})"
                    n += 1
                    if q is True:
                        chk.ok(rule, name)
                    elif q is None:
                        chk.undecide(rule, name, "form of the returned value not recognised")
                    else:
                        from ..terms import show
                        what = "the volume mask is not applied last" if kind == "mask" else f"the {kind} limit is not enforced"
                        chk.finding(rule, f"{case}: {kind} (given: {given})", site, f"{what} on a value that can be returned: {show(B.where, 200)}")
    chk.need("limit-honoured", 1)


