"""C25: each solver's iteration is the documented update formula (data step, regularizer step, momentum, limits and masks)."""
from ..spec import table
from ..solverspec import Opts, OPQ, PROJ, LIMITS, S, fn, sirt, mlem, pdhg, fista, sart

FLT = ("filters.Filter.__call__", "operators.ProjectorOperator.get_pre_weights", "filters.FilterMR.__call__")


def fbp(masks, flt, proj):
    args = "A: corrct.operators." + ("ProjectorOperator" if proj else "TransformFunctions") + ", b: np.ndarray, h: np.ndarray" + (", lo: float, hi: float, xm: np.ndarray, bm: np.ndarray" if masks else "")
    ctor, f = {"custom": ("fbp_filter=h, pad_mode='edge'", "corrct.filters.FilterCustom(h)"),
               "ramp": ("pad_mode='edge'", "corrct.filters.FilterFBP(filter_name='ramp')"),
               "hann": ("fbp_filter='Hann', pad_mode='edge'", "corrct.filters.FilterFBP(filter_name='hann')"),
               "mr": ("fbp_filter='mr', pad_mode='edge'", "corrct.filters.FilterMR(projector=A)"),
               "data": ("fbp_filter='DATA', pad_mode='edge'", "corrct.filters.FilterMR(projector=A)")}[flt]
    pre = "if not isinstance(h, np.ndarray):\n    raise ValueError()"
    d = fn(args, pre, f"s = {S}FBP({ctor})", f"x, info = s(A, b{', lower_limit=lo, upper_limit=hi, x_mask=xm, b_mask=bm' if masks else ''})")
    pw = "w = A.get_pre_weights()\nif w is not None:\n    b = b * w\n" if proj else ""
    r = fn(args, pre, "if len(b.shape) < 2:\n    raise ValueError()", pw, "b = b * bm" if masks else "", f"f = {f}\nf.pad_mode = 'edge'", "x = A.T(f(b))",
           "x = " + Opts(masks=masks).lim("x"))
    return d, r


def power():
    args = "A: corrct.operators.BaseTransform, b: np.ndarray, n: int"
    d = fn(args, "L, s, t = corrct.solvers.power_method(A, b, n)", ret="L, s, t")
    r = fn(args, """
x = np.random.rand(*b.shape).astype(b.dtype)
x = A.T(x / np.linalg.norm(x))
L = v = np.linalg.norm(x)
for _ in range(n):
    x = A.T(A(x / v))
    v = np.linalg.norm(x)
    L = np.sqrt(v)
""", ret="float(L), x.shape, x.dtype")
    return d, r


def rows():
    out = []
    W = "the iterate differs from the documented update"
    out.append(("power method", "solvers.power_method", "the norm estimate is not the square root of the norm of one application of A^T A", *power(), dict(opaque=OPQ[:-1])))
    for masks in (False, True):
        for nreg in (0, 1, 2):
            o = Opts(masks=masks, test=masks, nreg=nreg)
            out.append((f"SIRT{o.label()}", "solvers.SIRT.__call__", W, *sirt(o)))
        o = Opts(masks=masks, test=masks, term="kl")
        out.append((f"SIRT{o.label()}", "solvers.SIRT.__call__", W, *sirt(o)))
        for proj in ("", "p", "x"):
            o = Opts(masks=masks)
            out.append((f"SART{o.label()}{', XRF projector' if proj == 'x' else ', projector' if proj else ''}", "solvers.SART.__call__", W, *sart(o, proj), dict(opaque=OPQ + PROJ)))
        for flt in ("custom", "ramp", "hann", "mr", "data"):
            for proj in (False, True):
                out.append((f"FBP{', limits and masks' if masks else ''}, {flt} filter{', projector' if proj else ''}", "solvers.FBP.__call__",
                            "the filtered back-projection is not A^T(filter(weights * b))", *fbp(masks, flt, proj), dict(opaque=OPQ + FLT)))
        for bg in (False, True):
            o = Opts(masks=masks, test=masks, bg=bg, term="kl")
            out.append((f"MLEM{o.label()}", "solvers.MLEM.__call__", W, *mlem(o)))
        for pc in (True, False):
            for nreg, term in ((0, "l2"), (1, "l2"), (2, "l2"), (0, "l1"), (0, "kl")):
                o = Opts(masks=masks, test=masks, nreg=nreg, term=term, precondition=pc)
                out.append((f"PDHG{o.label()}, precondition={pc}", "solvers.PDHG.__call__", W, *pdhg(o)))
            for nreg in (0, 1):
                for rs in (False, True):
                    o = Opts(masks=masks, test=masks, nreg=nreg, precondition=pc, restart=rs)
                    out.append((f"FISTA{o.label()}{', restart' if rs else ''}, precondition={pc}", "solvers.FISTA.__call__", W, *fista(o)))
    return out


def run(chk, prog):
    chk.rule("update-formula", "the solution returned by the solver, as a loop-carried term over symbolic operator, data, limits, masks and step sizes, equals the term of the documented iteration")
    n = table(chk, prog, "update-formula", rows(), opaque=OPQ)
    chk.need("update-formula", n)
