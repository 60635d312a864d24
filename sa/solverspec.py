"""Reference texts of the solvers' iterations, with options: limits and masks, regularizers, background, residual bookkeeping.

Each builder returns (driver text, reference text).  The driver calls the package's solver; the reference spells the documented
iteration out, using the package's data terms and regularizers through their public protocol.
"""

S = "corrct.solvers."
SIG = "A: corrct.operators.BaseTransform, b: np.ndarray, iterations: int"
LIMITS = ", x0: np.ndarray, lo: float, hi: float, xm: np.ndarray, bm: np.ndarray"
OPQ = ("operators.BaseTransform.__call__", "operators.BaseTransform.absolute", "operators.BaseTransform.T", "operators.BaseTransform.adjoint",
       "operators.BaseTransform.transpose", "solvers.power_method")
PROJ = tuple(f"projectors.{c}.{m}" for c in ("ProjectorUncorrected", "ProjectorAttenuationXRF") for m in ("fp_angle", "bp_angle"))
INFO = "info.residual0, info.residual0_cv, info.residuals, info.residuals_cv, info.iterations, info.max_iterations, info.tolerance"
REGS = ["corrct.regularizers.Regularizer_l1(w)", "corrct.regularizers.Regularizer_TV2D(w)"]
TERMS = {"l2": "DataFidelity_l2", "l1": "DataFidelity_l1", "kl": "DataFidelity_KL"}


def ind(t, n=1):
    return "\n".join("    " * n + ln for ln in t.strip("\n").split("\n") if ln.strip())


def fn(args, *body, ret="x"):
    out = [f"def f({args}):"]
    for b in body:
        if b.strip():
            out.append(ind(b))
    out.append(f"    return {ret}")
    return "\n".join(out)


class Opts:
    """masks: limits, volume mask and data mask are given; test: held-out mask; tol: tolerance; bg: background of the data term;
    nreg: number of regularizers; term: data term; ret: what is compared."""

    def __init__(self, masks=False, test=False, tol=False, bg=False, nreg=0, term="l2", precondition=True, restart=False, verbose=False, testbg=False, what="x"):
        self.__dict__.update(locals())
        self.ret = {"x": "x", "info": INFO, "both": "x, " + INFO}[what]

    @property
    def track(self):
        return self.test or self.tol

    def label(self):
        o = []
        if self.masks:
            o.append("limits and masks")
        if self.test:
            o.append("held-out pixels")
        if self.tol:
            o.append("tolerance")
        if self.bg:
            o.append("background" + (" given to one term only" if self.testbg else ""))
        if self.nreg:
            o.append(f"{self.nreg} regularizer" + "s" * (self.nreg > 1))
        if self.term != "l2":
            o.append(self.term)
        return (", " if o else "") + ", ".join(o)

    def sig(self, extra=""):
        a = SIG
        if self.masks:
            a += LIMITS
        if self.test:
            a += ", bt: np.ndarray"
        if self.bg:
            a += ", bg: np.ndarray"
        if self.nreg:
            a += ", w: float"
        if self.tol:
            a += ", tol: float"
        return a + ", rel: float" + extra

    def call(self, more=""):
        c = "A, b, iterations"
        if self.masks:
            c += ", x0=x0, lower_limit=lo, upper_limit=hi, x_mask=xm, b_mask=bm"
        if self.test:
            c += ", b_test_mask=bt"
        return c + more

    def regs(self):
        return "\n".join(f"r{i} = {r}" for i, r in enumerate(REGS[:self.nreg]))

    def ctor(self, *first):
        c = list(first)
        if self.nreg:
            c.append("regularizer=[" + ", ".join(f"r{i}" for i in range(self.nreg)) + "]")
        if self.tol:
            c.append("tolerance=tol")
        t = f"corrct.data_terms.{TERMS[self.term]}"
        if self.bg:
            c.append(f"data_term={t}(background=bg)")
            if self.testbg:
                c.append(f"data_term_test={t}()")
        elif self.term != "l2":
            c.append(f"data_term='{self.term}'")
        if self.verbose:
            c.append("verbose=True")
        return ", ".join(c)

    def term_text(self, sigma):
        t = f"corrct.data_terms.{TERMS[self.term]}({'background=bg' if self.bg else ''})"
        return f"d = {t}\nd.assign_data(b{', ' + sigma if sigma else ''})\nc = {t}\nc.assign_data(b{', ' + sigma if sigma else ''})"

    def masktext(self):
        if self.masks and self.test:
            return "m = bm * (1 - bt)\nmt = bt * bm"
        if self.masks:
            return "m = bm"
        if self.test:
            return "m = np.ones_like(b) * (1 - bt)\nmt = bt * np.ones_like(b)"
        return ""

    @property
    def hasmask(self):
        return self.masks or self.test

    def m(self, e):
        return f"({e}) * m" if self.hasmask else f"({e})"

    def lim(self, e):
        return f"np.fmin(np.fmax({e}, lo), hi) * xm" if self.masks else e

    def x_init(self, default):
        return "x = " + self.lim("x0" if self.masks else default)

    def res(self, x="x", cv=False):
        k = "c" if cv else "d"
        mk = ", mask=mt" if cv else ", mask=m" if self.hasmask else ""
        return f"{k}.compute_residual_norm({k}.compute_residual(A({x}){mk}))"

    def book_init(self, train):
        """`train`: whether the residual of the training pixels is recorded."""
        return "\n".join(["info = corrct.solvers.SolutionInfo('', iterations, " + ("tol" if self.tol else "None") + ")",
                          f"info.residual0 = {self.res()}" if train else "",
                          f"info.residual0_cv = {self.res(cv=True)}" if self.test else ""])

    def book_step(self, train):
        return "\n".join(["info.residuals_cv[ii] = " + self.res(cv=True) if self.test else "",
                          "info.residuals[ii] = " + self.res() if train else "",
                          "if tol > info.residuals[ii]:\n    break" if self.tol else ""])

    def diag(self, reg="", rt="rel", rs="1.0"):
        return f"""
o = np.ones_like(b){' * m' if self.hasmask else ''}
t = np.abs(Bt(o))
{reg}
tau = {rt} / np.where(t / np.max(t) < 1e-5, 1, t)
o = np.ones_like(tau){' * xm' if self.masks else ''}
s = np.abs(B(o))
sigma = {rs} / np.where(s / np.max(s) < 1e-5, 1, s)
"""

    def scaling(self, diagonal, lipschitz):
        """Step sizes: from the absolute operators when they are available and requested, from the operator norm otherwise."""
        if self.precondition:
            return "try:\n    Bt = A.T.absolute()\n    B = A.absolute()\n    pc = True\nexcept AttributeError:\n    pc = False\nif pc:\n" + \
                ind(diagonal + "\nshp = tau.shape\ndt = tau.dtype") + "\nelse:\n" + ind(lipschitz)
        return lipschitz

    def tau_regs(self, arg):
        return "\n".join(f"t = t + r{i}.initialize_sigma_tau({arg})" for i in range(self.nreg))


def driver(o, cls, args, ctor, call):
    return fn(args, o.regs(), f"s = {S}{cls}({ctor})", f"x, info = s({call})", ret=o.ret)


def sirt(o):
    args = o.sig()
    d = driver(o, "SIRT", args, o.ctor("relaxation=rel"), o.call())
    step = "\n".join(f"q = r{i}.initialize_dual()\nr{i}.update_dual(q, x)\nr{i}.apply_proximal_dual(q)\nu = u - r{i}.compute_update_primal(q)" for i in range(o.nreg))
    ab = "try:\n    Bt = A.T.absolute()\n    B = A.absolute()\nexcept AttributeError:\n    B = A\n    Bt = A.T"
    r = fn(args, o.regs(), "b = np.array(b)", o.masktext(), ab, o.diag(reg=o.tau_regs("t")), o.x_init("np.zeros_like(tau)"), o.term_text("sigma"), o.book_init(o.track),
           "for ii in range(iterations):\n" + ind("\n".join([
               "info.iterations += 1", o.book_step(o.track), f"u = A.T(d.compute_residual(A(x){', mask=m' if o.hasmask else ''}) * sigma)", step,
               "x = " + o.lim("x + u * tau")])), ret=o.ret)
    return d, r


def mlem(o):
    args = o.sig()
    d = driver(o, "MLEM", args, o.ctor(), o.call())
    r = fn(args, "b = np.array(b)", o.masktext(), "tau = A.T(np.ones_like(b)" + (" * m" if o.hasmask else "") + ")", o.x_init("np.ones_like(tau)"), o.term_text(""), o.book_init(o.tol),
           "for ii in range(iterations):\n" + ind("\n".join([
               "info.iterations += 1", o.book_step(o.tol), f"a = A(x){' + bg' if o.bg else ''}",
               "x = " + o.lim(f"x * (A.T({o.m('b / np.fmax(a, corrct.solvers.eps)')}) / tau)")])), ret=o.ret)
    return d, r


def pdhg(o):
    args = o.sig()
    d = driver(o, "PDHG", args, o.ctor("relaxation=rel"), o.call(f", precondition={o.precondition}"))
    step = "\n".join(f"r{i}.update_dual(q{i}, y)\nr{i}.apply_proximal_dual(q{i})\nu = u + r{i}.compute_update_primal(q{i})" for i in range(o.nreg))
    sc = o.scaling(o.diag(reg=o.tau_regs("t"), rs="rel"),
                   "L, shp, dt = corrct.solvers.power_method(A, b)\nv = np.empty(shp, dtype=dt)\nt = L\n" + o.tau_regs("v") + "\ntau = rel / t\nsigma = rel / L")
    r = fn(args, o.regs(), "b = np.array(b)", o.masktext(), sc, o.x_init("np.zeros(shp, dtype=dt)"), "y = x.copy()", o.term_text("sigma"), "p = np.zeros_like(b)",
           "\n".join(f"q{i} = r{i}.initialize_dual()" for i in range(o.nreg)), o.book_init(o.track),
           "for ii in range(iterations):\n" + ind("\n".join([
               "info.iterations += 1", f"p = p + sigma * (A(y){' + bg' if o.bg else ''})", "d.apply_proximal_dual(p)", "p = p * m" if o.hasmask else "", "u = A.T(p)", step,
               f"z = {o.lim('x - u * tau')}", "y = 2 * z - x", "x = z", o.book_step(o.track)])), ret=o.ret)
    return d, r


def fista(o):
    args = o.sig(", k: int")
    d = driver(o, "FISTA", args, o.ctor("relaxation=rel", *(["restart_period=k"] if o.restart else [])), o.call(f", precondition={o.precondition}"))
    sc = o.scaling(o.diag(), "L, shp, dt = corrct.solvers.power_method(A, b)\ntau = rel / L\nsigma = 1.0 / L")
    r = fn(args, o.regs(), "b = np.array(b)", o.masktext(), sc, "r0.initialize_sigma_tau(np.zeros(shp, dtype=dt))" if o.nreg else "", o.x_init("np.zeros(shp, dtype=dt)"), "y = x.copy()", "t = 1.0",
           o.term_text(""), o.book_init(o.track),
           "for ii in range(iterations):\n" + ind("\n".join([
               "info.iterations += 1", f"z = y + tau * A.T(d.compute_residual(A(y){', mask=m' if o.hasmask else ''}) * sigma)", "r0.apply_proximal_primal(z, tau)" if o.nreg else "",
               f"z = {o.lim('z')}", "n = (1 + np.sqrt(1 + 4 * t**2)) / 2", "if (ii + 1) % k == 0:\n    t = n = 1.0" if o.restart else "",
               "y = z + (t - 1) / n * (z - x)", "x = z", "t = n", o.book_step(o.track)])), ret=o.ret)
    return d, r


def sart(o, proj=""):
    args = {"p": "A: corrct.projectors.ProjectorUncorrected, b: np.ndarray, iterations: int", "x": "A: corrct.projectors.ProjectorAttenuationXRF, b: np.ndarray, iterations: int",
            "": "F, G, n: int, b: np.ndarray, iterations: int"}[proj]
    args += ", rel: float" + (", tol: float" if o.tol else "") + (LIMITS if o.masks else "")
    call = o.call("" if proj else ", A_num_rows=n, At=At")
    fun = "" if proj else "A = lambda x, i: F(x, i)\nAt = lambda y, i: G(y, i)"
    d = fn(args, fun, f"s = {S}SART(relaxation=rel{', tolerance=tol' if o.tol else ''})", f"x, info = s({call})", ret=o.ret)
    fp = "A.fp_angle({0}, {1})" if proj else "F({0}, {1})"
    bp = {"": "G({0}, {1})", "x": "A.bp_angle({0}, {1}, single_line=True)",
          "p": "(A.bp_angle({0}, {1}) if not isinstance(A, corrct.projectors.ProjectorAttenuationXRF) else A.bp_angle({0}, {1}, single_line=True))"}[proj]
    res = "np.linalg.norm((" + ("" if not o.masks else "bm * ") + "(np.stack([" + fp.format("x", "i") + " for i in range(n)], axis=-2) - b)){})"
    r = fn(args, fun, "if not A.projector_backend.has_individual_projs:\n    raise ValueError()\nn = len(A.angles_rot_rad)" if proj else "",
           f"o = np.ones_like(b){' * bm' if o.masks else ''}",
           f"t = np.abs(np.stack([{bp.format('o[..., i, :]', 'i')} for i in range(n)], axis=-2))",
           "tau = rel / np.where(t / np.max(t) < 1e-5, 1, t)",
           f"o = np.ones([*tau.shape[:-2], tau.shape[-1]], dtype=tau.dtype){' * xm' if o.masks else ''}",
           f"g = np.abs(np.stack([{fp.format('o', 'i')} for i in range(n)], axis=-2))",
           "sigma = 1 / np.where(g / np.max(g) < 1e-5, 1, g)",
           "x = " + o.lim("np.array(x0)" if o.masks else "np.zeros_like(o)"),
           f"info = corrct.solvers.SolutionInfo('', iterations, {'tol' if o.tol else 'None'})",
           ("info.residual0 = " + res.format(".flatten()")) if o.tol else "",
           "rows = np.random.permutation(n)",
           "for ii in range(iterations):\n    info.iterations += 1\n    for k in rows:\n" + ind("\n".join([
               f"d = {fp.format('x', 'k')} - b[..., k, :]", "d = d * bm[..., k, :]" if o.masks else "",
               f"x = {o.lim('x - ' + bp.format('d * sigma[..., k, :]', 'k') + ' * tau[..., k, :]')}"]), 2) +
           ("\n    info.residuals[ii] = " + res.format("") + "\n    if tol > info.residuals[ii]:\n        break" if o.tol else ""), ret=o.ret)
    return d, r
