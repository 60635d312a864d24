"""C12: a background given to a data term enters exactly once, wherever the data term is used."""
from ..spec import table
from ..solverspec import Opts, OPQ, sirt, mlem, pdhg, fista, fn

CT = "corrct.data_terms."
CLS = {"DataFidelity_l2": "", "DataFidelity_wl2": "w", "DataFidelity_l2b": "w", "DataFidelity_Huber": "w", "DataFidelity_l1": "", "DataFidelity_l12": "", "DataFidelity_l1b": "w",
       "DataFidelity_KL": "", "DataFidelity_ln": ""}


def ctor(cls, first, bg):
    a = [x for x in (first, "background=bg" if bg else "") if x]
    return f"{CT}{cls}({', '.join(a)})"


def rows():
    out = []
    base = "b: np.ndarray, bg: np.ndarray, y: np.ndarray, p: np.ndarray, m: np.ndarray, w: np.ndarray, sigma: float"

    def row(cls, name, meth, d, r, ret, data=True):
        asg = "d.assign_data(b, sigma)" if data else ""
        out.append((f"{cls}: {name}{'' if data else ' (no data)'}", f"data_terms.{cls}.{meth}", "the background does not enter exactly once",
                    fn(base, f"d = {ctor(cls, first, True)}", asg, d, ret=ret), fn(base, f"d = {ctor(cls, first, False)}", asg, r, ret=ret)))
    for cls, first in CLS.items():
        for data in (True, False):
            if not data and cls in ("DataFidelity_ln", "DataFidelity_l1b", "DataFidelity_l2b"):
                continue
            row(cls, "residual", "compute_residual", "r = d.compute_residual(y)", "r = d.compute_residual(y + bg)", "r", data)
            row(cls, "masked residual", "compute_residual", "r = d.compute_residual(y, mask=m)", "r = d.compute_residual(y + bg, mask=m)", "r", data)
            row(cls, "primal-dual gap", "compute_primal_dual_gap", "g = d.compute_primal_dual_gap(y, p)", "g = d.compute_primal_dual_gap(y + bg, p)", "g", data)
            row(cls, "masked primal-dual gap", "compute_primal_dual_gap", "g = d.compute_primal_dual_gap(y, p, mask=m)", "g = d.compute_primal_dual_gap(y + bg, p, mask=m)", "g", data)
            row(cls, "dual update", "update_dual", "d.update_dual(p, y)", "d.update_dual(p, y + bg)", "p", data)
            row(cls, "proximal of the dual", "apply_proximal_dual", "d.apply_proximal_dual(p)", "d.apply_proximal_dual(p)", "p", data)
            row(cls, "residual norm", "compute_residual_norm", "n = d.compute_residual_norm(p)", "n = d.compute_residual_norm(p)", "n", data)
        row(cls, "the background is kept", "assign_data", "d.assign_data(y, sigma)\nr = d.compute_residual(y)\nd.update_dual(p, r)\nd.assign_data(b)\nv = d.background", "v = bg", "v")
        row(cls, "data slices", "__getitem__", "e = d[1:]\nr = e.compute_residual(y[1:])", "e = d[1:]\nr = e.compute_residual(y[1:] + (bg[1:] if isinstance(bg, np.ndarray) and bg.size > 1 else bg))", "r")
    W = "the background does not enter the iteration or the recorded residuals exactly once"
    for masks in (False, True):
        for nm, build, kws in (("SIRT", sirt, [{}, dict(term="kl")]), ("MLEM", mlem, [dict(term="kl")]), ("PDHG", pdhg, [{}, dict(term="kl"), dict(term="l1", precondition=False)]), ("FISTA", fista, [{}])):
            for kw in kws:
                o = Opts(masks=masks, test=masks, tol=True, bg=True, what="both", **kw)
                out.append((f"{nm}{o.label()}", f"solvers.{nm}.__call__", W, *build(o), dict(opaque=OPQ)))
                if masks:
                    o = Opts(masks=masks, test=True, bg=True, testbg=True, what="both", **kw)
                    d, r = build(o)
                    pre = "    if np.array_equal(None, bg):\n        raise ValueError()\n"
                    d, r = (t.replace("\n", "\n" + pre, 1) for t in (d, r))
                    out.append((f"{nm}{o.label()}", f"solvers.{nm}.__call__", W, d, r, dict(opaque=OPQ)))
    return out


def run(chk, prog):
    chk.rule("background-once", "each computation of a data term with a background b0 on the projection y equals the same computation without background on y + b0; solver iterations equal the reference iteration with A x + b0")
    n = table(chk, prog, "background-once", rows())
    chk.need("background-once", n)
