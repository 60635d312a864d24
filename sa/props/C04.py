"""C04: pixels that the data mask excludes never influence a solution; held-out pixels influence the cross-validation residuals only.

Non-interference, decided on the gated terms of complete solver runs: a value is clean when it cannot depend on the value of an excluded
pixel.  Element-by-element operations keep an excluded pixel's influence at its own position, where it disappears when the result no longer
mentions the data once the mask is set to its excluding value; any other operation spreads it.  Loop-carried values by induction.
"""
from ..spec import side
from ..solverspec import SIG, PROJ, fn
from ..terms import T, mk, const, sym, gate, subst, subterms, show, t_and, t_or, t_not, add, mul, power, ZERO, TRUE, FALSE

CLEAN, LOCAL, BAD, UNK = 0, 1, 2, 3
ELEM = {"np.abs", "np.sqrt", "np.sign", "np.exp", "np.log", "np.square", "max", "min", "astype", "np.conj", "np.real", "np.imag", "np.where", "np.floor", "np.ceil", "np.round",
        "np.isnan", "np.isfinite", "np.isinf", "np.logical_not", "np.logical_and", "np.logical_or", "np.invert", "np.array", "np.asarray", "np.copy", "bool", "mod", "floordiv",
        "np.reshape", "np.ravel", "np.squeeze", "np.expand_dims", "np.nan_to_num", "np.log1p", "np.expm1", "np.reciprocal", "np.sin", "np.cos"}
SHAPES = {"np.zeros_like", "np.ones_like", "np.empty_like", "np.full_like", "len", "np.shape", "np.ndim", "np.size"}
SPREAD = {"np.sum", "np.mean", "np.max", "np.min", "np.linalg.norm", "np.std", "np.var", "np.median", "np.cumsum", "np.roll", "np.flip", "np.fft.fft", "np.fft.ifft", "np.fft.rfft",
          "np.fft.irfft", "np.fft.fftn", "np.fft.ifftn", "np.any", "np.all", "np.argmax", "np.argmin", "np.prod", "np.vdot", "np.dot", "float", "call", ".fp_angle", ".bp_angle",
          "scipy.ndimage.convolve", "np.diff", "np.sort", "np.quantile", "np.percentile"}
OPAQUE = ("operators.BaseTransform.__call__", "operators.BaseTransform.absolute", "operators.BaseTransform.T", "operators.BaseTransform.adjoint",
          "operators.BaseTransform.transpose") + PROJ + ("filters.Filter.__call__", "filters.FilterMR.__call__", "operators.ProjectorOperator.get_pre_weights")
ATTRS = ("shape", "dtype", "ndim", "size")


class Influence:
    """Where the value of a data pixel with mask = `off` can get to."""

    def __init__(self, it, data, masks):
        """data: symbols whose excluded entries must not matter; masks: {symbol: its value at the excluded pixels}."""
        self.loops = {L.id: L for L in it.loops}
        self.data, self.masks = data, masks
        self.mu = {}
        self.where = None
        self.memo = {}

    def taint(self, t):
        return any(x.op == "sym" and str(x.args[0]).startswith("~") and not str(x.args[0]).startswith("~c") for x in subterms(t))

    def prove(self, t):
        """Status of t; loop-carried values are assumed clean until shown otherwise."""
        for _ in range(60):
            self.memo, self.where, self.used = {}, None, []
            s = self.status(t)
            if s == BAD or s == UNK:
                w = self.where
            changed = False
            i = 0
            while i < len(self.used):  # grows while evaluated
                m = self.used[i]
                i += 1
                L = self.loops.get(m.args[0])
                d = L.mus.get(m.args[1]) if L else None
                if not d or d[0] is None or d[1] is None:
                    new = UNK
                else:
                    ctl = [b[0] for b in L.breaks] + ([L.iter] if L.iter is not None else [])
                    c = max([self.status(x) for x in ctl], default=CLEAN)
                    new = max([self.status(x) for x in d[:2]])
                    if c != CLEAN:
                        new = max(new, BAD if c in (LOCAL, BAD) else UNK)
                if new > self.mu.get(m.uid, CLEAN):
                    self.mu[m.uid] = new
                    changed = True
            if not changed:
                return s
        return UNK

    def status(self, t):
        return self.look(t)[0]

    def _note(self, t):
        if self.where is None:
            self.where = t

    def look(self, t):
        r = self.memo.get(t.uid)
        if r is None:
            if t.op == "mu":
                self.used.append(t)
                s = self.mu.get(t.uid, CLEAN)
                r = (s, sym(f"~c{t.uid}") if s == CLEAN else sym(f"~m{t.uid}"))
            else:
                r = self._look(t)
            self.memo[t.uid] = r
        return r

    def opaque(self, t):
        return (CLEAN, sym(f"~c{t.uid}"))

    def _look(self, t):
        op = t.op
        if op == "sym":
            if t in self.data:
                return LOCAL, sym("~" + str(t.args[0]))
            if t in self.masks:
                return CLEAN, const(self.masks[t])
            return CLEAN, t
        if op in ("const", "ext", "class", "idx_") and not any(isinstance(a, T) for a in t.args):
            return CLEAN, t
        if op == "attr" and (t.args[1] in ATTRS):
            return CLEAN, t
        if op == "app" and t.args[0] in SHAPES:
            if t.args[0] == "np.ones_like" and len(t.args) == 2:
                return CLEAN, const(1)
            if t.args[0] == "np.zeros_like" and len(t.args) == 2:
                return CLEAN, ZERO
            return self.opaque(t)
        if op == "brk":
            L = self.loops.get(t.args[0])
            if L is None:
                return UNK, t
            s = self.status(L.breaks[t.args[1]][0])
            return (CLEAN, t) if s == CLEAN else (s, t)
        kids = [a for a in t.args if isinstance(a, T)]
        ks = [self.look(a) for a in kids]
        worst = max([s for s, _ in ks], default=CLEAN)
        if worst >= BAD:
            self._note(t)
            return worst, t
        name = t.args[0] if op == "app" else None
        elem = op in ("add", "mul", "pow", "gate", "not", "and", "or", "lt", "eq", "is", "isnone", "isinst", "upd", "get", "truth") or (name in ELEM)
        if not elem:
            if worst == CLEAN:
                return self.opaque(t)
            if op in ("tuple", "list", "kw", "vec", "inst"):
                self._note(t)
                return BAD, t
            self._note(t)
            known = op == "app" and (name in SPREAD or name in OPAQUE) or op == "attr"
            return (BAD if known else UNK), t
        if op == "get":
            (s, v), (si, iv) = ks
            if si != CLEAN:
                self._note(t)
                return UNK, t
            if kids[1].op != "const" and self._mask_index(kids[1]):
                # positions picked by a mask: the excluded ones are not among them, or they keep their influence
                if iv in (FALSE, ZERO):
                    return self.opaque(t)
                return (CLEAN, sym(f"~c{t.uid}")) if s == CLEAN else (LOCAL, sym(f"~g{t.uid}"))
            if s == CLEAN:
                return (CLEAN, v) if v.op == "const" else self.opaque(t)
            return LOCAL, mk("get", v, kids[1])
        if op == "upd":
            (s, v), (si, iv), (sn, nv) = ks
            if si == LOCAL and not self._mask_index(kids[1]):
                self._note(t)
                return UNK, t
            if iv in (TRUE, const(1)) and self._mask_index(kids[1]):
                r = nv
            elif iv in (FALSE, ZERO) and self._mask_index(kids[1]):
                r = v
            elif worst == CLEAN:
                return self.opaque(t)
            else:
                r = mk("upd", v, iv, nv)
        elif op == "app" and name in ELEM and (name not in ("np.where", "max", "min")) and ks and ks[0][0] == CLEAN and worst == CLEAN and ks[0][1].op != "const":
            return self.opaque(t)
        else:
            try:
                r = self.build(t, [v for _, v in ks])
            except Exception:
                return UNK, t
        if self.taint(r):
            return LOCAL, r
        return CLEAN, r

    def _mask_index(self, i):
        return i.op in ("lt", "eq", "not", "and", "or", "truth") or (i.op == "app" and i.args[0] in ("np.isnan", "np.isfinite", "np.logical_not", "np.logical_and", "np.logical_or", "np.invert")) \
            or (i.op == "app" and i.args[0] == "astype") or i in self.masks

    def build(self, t, vs):
        op = t.op
        if op == "add":
            r = ZERO
            for v in vs:
                r = add(r, v)
            return r
        if op == "mul":
            if any(v.op == "const" and v.args[0] == 0 for v in vs):
                return ZERO
            r = const(1)
            for v in vs:
                r = mul(r, v)
            return r
        if op == "pow":
            if vs[0].op == "const" and vs[0].args[0] == 0 and vs[1].op == "const" and vs[1].args[0] > 0:
                return ZERO
            return power(*vs)
        if op == "gate":
            return gate(self._bool(vs[0]), vs[1], vs[2])
        if op == "not":
            return t_not(self._bool(vs[0]))
        if op == "and":
            return t_and(*[self._bool(v) for v in vs])
        if op == "or":
            return t_or(*[self._bool(v) for v in vs])
        if op == "truth":
            return self._bool(vs[0])
        if op in ("lt", "eq"):
            if all(v.op == "const" and isinstance(v.args[0], (int, float, bool)) for v in vs):
                a, b = (v.args[0] for v in vs)
                return const(a < b if op == "lt" else a == b)
            return mk(op, *vs)
        if op in ("isnone", "isinst", "is"):
            # what kind of value it is: the same for every pixel
            return const(False) if op == "isnone" and vs[0].op == "const" and vs[0].args[0] is not None else sym(f"~c{t.uid}")
        n = t.args[0]
        if n == "np.where" and len(vs) == 3:
            c = self._bool(vs[0])
            return vs[1] if c is TRUE else vs[2] if c is FALSE else vs[1] if vs[1] is vs[2] else mk("app", n, c, *vs[1:])
        if n in ("np.logical_not", "np.invert") and len(vs) == 1:
            return t_not(self._bool(vs[0]))
        if n in ("astype", "np.array", "np.asarray", "np.copy", "np.reshape", "np.ravel", "np.squeeze", "np.expand_dims", "bool") and vs:
            return vs[0]
        if n in ("np.abs", "np.sqrt", "np.sign", "np.square") and len(vs) == 1 and vs[0] in (ZERO, const(1), const(0.0)):
            return vs[0]
        it = iter(vs)
        return mk(op, *[next(it) if isinstance(a, T) else a for a in t.args])

    @staticmethod
    def _bool(v):
        if v.op == "const" and isinstance(v.args[0], (bool, int, float)):
            return TRUE if v.args[0] else FALSE
        return v


LIM = ", x0: np.ndarray, lo: float, hi: float, xm: np.ndarray"
INFO = ["info.residual0", "info.residuals", "info.iterations"]
CV = ["info.residual0_cv", "info.residuals_cv"]


def cases():
    """(name, solver, driver text, whether there is a held-out mask)"""
    terms = {"l2": "corrct.data_terms.DataFidelity_l2()", "l1": "corrct.data_terms.DataFidelity_l1()", "KL": "corrct.data_terms.DataFidelity_KL()",
             "Huber": "corrct.data_terms.DataFidelity_Huber(w)", "weighted l2": "corrct.data_terms.DataFidelity_wl2(var)", "l2 with background": "corrct.data_terms.DataFidelity_l2(background=bg)",
             "KL with background": "corrct.data_terms.DataFidelity_KL(background=bg)", "l1 with background": "corrct.data_terms.DataFidelity_l1(background=bg)"}
    regs = {"": "", ", TV": "regularizer=corrct.regularizers.Regularizer_TV2D(w)", ", l1": "regularizer=corrct.regularizers.Regularizer_l1(w)",
            ", non-negativity": "regularizer=corrct.regularizers.Constraint_LowerLimit(0)"}
    use = {"SIRT": ("l2", "weighted l2", "l2 with background", "KL"), "MLEM": ("KL", "KL with background"), "PDHG": tuple(terms), "FISTA": ("l2", "weighted l2", "l2 with background")}
    ret = ["x"] + INFO
    for cls, tt in use.items():
        for tn in tt:
            for rn, rt in regs.items():
                if rn and (cls == "MLEM" or tn not in ("l2", "l1") or (cls == "FISTA" and rn == ", TV")):
                    continue
                for pre in (("", ", precondition=False") if cls in ("PDHG", "FISTA") else ("",)):
                    for kind in ("mask", "test", "both"):
                        for tol in (0, 1):
                            for lim in (0, 1):
                                if lim and (tol or tn not in ("l2", "KL")):
                                    continue
                                kw = {"mask": ", b_mask=bm", "test": ", b_test_mask=bt", "both": ", b_mask=bm, b_test_mask=bt"}[kind] + pre
                                kw += ", x0=x0, lower_limit=lo, upper_limit=hi, x_mask=xm" if lim else ""
                                sig = SIG + ", w: float, tol: float, rel: float, var: np.ndarray, bg: np.ndarray" + (LIM if lim else "")
                                sig += (", bm: np.ndarray" if kind != "test" else "") + (", bt: np.ndarray" if kind != "mask" else "")
                                c = ["relaxation=rel"] if cls != "MLEM" else []
                                c += ["data_term=" + terms[tn]] if cls != "MLEM" or tn != "KL" else []
                                c += ["tolerance=tol"] if tol else []
                                c += [rt] if rt else []
                                d = fn(sig, f"s = corrct.solvers.{cls}({', '.join(c)})", f"x, info = s(A, b, iterations{kw})", ret=", ".join(ret + CV))
                                label = f"{cls}, {tn}{rn}" + (", operator norm" if pre else "") + (", tolerance" if tol else "") + (", limits" if lim else "") + \
                                    {"mask": ", data mask", "test": ", held-out pixels", "both": ", data mask and held-out pixels"}[kind]
                                yield label, cls, d, kind, len(ret)
    for proj, ty in (("", ""), ("projector, ", "ProjectorUncorrected"), ("fluorescence projector, ", "ProjectorAttenuationXRF")):
        for tol in (0, 1):
            for lim in (0, 1):
                a = f"A: corrct.projectors.{ty}, " if proj else "F, G, n: int, "
                a += "b: np.ndarray, iterations: int, tol: float, rel: float, bm: np.ndarray" + (LIM if lim else "")
                kw = ", b_mask=bm" + (", x0=x0, lower_limit=lo, upper_limit=hi, x_mask=xm" if lim else "") + ("" if proj else ", A_num_rows=n, At=At")
                d = fn(a, "" if proj else "A = lambda x, i: F(x, i)\nAt = lambda y, i: G(y, i)", f"s = corrct.solvers.SART(relaxation=rel{', tolerance=tol' if tol else ''})",
                       f"x, info = s(A, b, iterations{kw})", ret=", ".join(ret))
                yield f"SART, {proj}{'tolerance, ' if tol else ''}{'limits, ' if lim else ''}data mask", "SART", d, "mask", len(ret)
    for flt in ("'ramp'", "'hann'", "'mr'"):
        for lim in (0, 1):
            a = "A: corrct.operators.ProjectorOperator, b: np.ndarray, iterations: int, bm: np.ndarray" + (LIM if lim else "")
            kw = ", b_mask=bm" + (", x0=x0, lower_limit=lo, upper_limit=hi, x_mask=xm" if lim else "")
            yield f"FBP, {flt[1:-1]} filter{', limits' if lim else ''}, data mask", "FBP", fn(a, f"s = corrct.solvers.FBP(fbp_filter={flt})", f"x, info = s(A, b, iterations{kw})", ret="x,"), "mask", 1


def run(chk, prog):
    chk.rule("excluded-pixels", "a complete solver run with a data mask: neither the solution nor any recorded residual can depend on the value of a data pixel where the mask is 0")
    chk.rule("held-out-pixels", "a complete solver run with a cross-validation mask: neither the solution, nor the training residuals, nor the stopping can depend on the value of a held-out pixel")
    chk.assumptions += ["masks hold 0 and 1", "the data and all intermediate values are finite (0 times a value is 0)", "operators and filters do not keep state between calls"]
    names = {"mask": "solution", "x": "solution"}
    got = {}
    for label, cls, drv, kind, npub in cases():
        r = prog.find_func(f"solvers.{cls}.__call__")
        if r is None:
            chk.gone.append(f"solvers.{cls}.__call__")
            continue
        site = (r[0].path, r[2].lineno, f"solvers.{cls}.__call__")
        rules = [("excluded-pixels", {"bm": 0}, 99)] if kind != "test" else []
        rules += [("held-out-pixels", {"bt": 1}, npub)] if kind != "mask" else []
        try:
            s = side(prog, drv, "driver", OPAQUE)
        except Exception as e:
            for rule, _, _ in rules:
                chk.undecide(rule, label, f"not analysable ({type(e).__name__}: {str(e)[:80]})")
            continue
        chk.units |= {u for u in s.it.analysed if not u.startswith("driver")}
        t = s.obs.get("return")
        if t is None or t.op != "tuple":
            for rule, _, _ in rules:
                chk.undecide(rule, label, "no value returned")
            continue
        for rule, masks, nn in rules:
            out = ["solution"] + [i[5:] for i in INFO + CV]
            for i, x in enumerate(t.args[:nn]):
                v = Influence(s.it, {sym("b")}, {sym(k): c for k, c in masks.items()})
                try:
                    q = v.prove(x)
                except RecursionError:
                    q = UNK
                name = f"{label}: {out[i]}"
                if q == CLEAN:
                    chk.ok(rule, name)
                    got[rule] = got.get(rule, 0) + 1
                elif q == UNK:
                    chk.undecide(rule, name, "how the data enter is not recognised" + (": " + show(v.where, 120) if v.where is not None else ""))
                else:
                    chk.finding(rule, name, site, f"the {out[i]} depends on the values of {'excluded' if rule[0] == 'e' else 'held-out'} pixels" + (f", through {show(v.where, 220)}" if v.where is not None else ""))
    chk.need("excluded-pixels", 1)
    chk.need("held-out-pixels", 1)
